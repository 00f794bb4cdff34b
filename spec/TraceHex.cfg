SPECIFICATION Spec
INVARIANT RejectsMalformed
INVARIANT ParsesWellFormed
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
