SPECIFICATION Spec
INVARIANT HelperReturns
INVARIANT Equivalent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
