SPECIFICATION Spec
INVARIANT DegreeIsLeast
INVARIANT PoseidonRounds
INVARIANT GmimcBaseRight
INVARIANT NeptuneRight
CHECK_DEADLOCK FALSE
