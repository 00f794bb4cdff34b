SPECIFICATION TSpec
INVARIANT IllegalRejected
INVARIANT LegalServed
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
