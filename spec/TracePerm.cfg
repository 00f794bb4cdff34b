SPECIFICATION Spec
INVARIANT CallReturns
INVARIANT ParamsSampled
INVARIANT OutputConforms
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
