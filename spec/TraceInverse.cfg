SPECIFICATION Spec
INVARIANT CallReturns
INVARIANT PublishedSolvable
INVARIANT PreimageIsInput
INVARIANT ImageComplete
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
