CONSTANT MaxLen = 0
SPECIFICATION TSpec
INVARIANT BaseSane
INVARIANT CallIsFunctionOfInput
INVARIANT ThreadsFinish
INVARIANT SetsDistinct
INVARIANT SetsIndependent
INVARIANT PairsDistinct
INVARIANT PairsIndependent
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
