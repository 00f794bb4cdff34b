CONSTANT MaxLen = 0
SPECIFICATION TSpec
INVARIANT RefsRight
INVARIANT ReturnsRootOfSet
INVARIANT ThreadsFinish
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
