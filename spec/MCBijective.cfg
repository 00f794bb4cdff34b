SPECIFICATION Spec
INVARIANT Onto
CHECK_DEADLOCK FALSE
