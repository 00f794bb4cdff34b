SPECIFICATION Spec
INVARIANT Readable
INVARIANT RowMatches
INVARIANT MatrixMatches
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
