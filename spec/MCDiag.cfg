SPECIFICATION Spec
INVARIANT FirstSecure
CHECK_DEADLOCK FALSE
