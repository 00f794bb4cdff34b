SPECIFICATION Spec
INVARIANT CallReturns
INVARIANT LeavesMatch
INVARIANT NodesMatch
CHECK_DEADLOCK FALSE
