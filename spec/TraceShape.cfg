SPECIFICATION Spec
INVARIANT Known
INVARIANT FieldMatches
INVARIANT WidthMatches
INVARIANT DegreeMatches
INVARIANT RoundsMatch
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
