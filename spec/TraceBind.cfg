SPECIFICATION Spec
INVARIANT CallReturns
INVARIANT Binding
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
