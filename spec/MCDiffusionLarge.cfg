SPECIFICATION Spec
INVARIANT CriterionExact
INVARIANT InactiveExact
INVARIANT ActiveExact
INVARIANT NoTrails
INVARIANT CayleyHamilton
INVARIANT Determinant
INVARIANT CauchyIsMds
CONSTANT Pool <- Large
CHECK_DEADLOCK FALSE
