SPECIFICATION Spec
INVARIANT DefinitionMatches
INVARIANT ArithmeticMatches
INVARIANT MoreMatches
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
