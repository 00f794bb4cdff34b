SPECIFICATION Spec
INVARIANT NoFailure
INVARIANT OneValue
INVARIANT SameEverywhere
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
