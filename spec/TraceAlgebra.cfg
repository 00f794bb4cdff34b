SPECIFICATION Spec
INVARIANT Inverses
INVARIANT Products
INVARIANT Transposes
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
