SPECIFICATION Spec
INVARIANT HeadAgrees
INVARIANT Agree
CHECK_DEADLOCK FALSE
