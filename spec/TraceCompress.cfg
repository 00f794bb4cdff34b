SPECIFICATION Spec
INVARIANT CompressMatches
INVARIANT RootMatches
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
