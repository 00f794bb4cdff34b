SPECIFICATION Spec
INVARIANT CriterionExact
INVARIANT InactiveExact
INVARIANT ActiveExact
INVARIANT NoTrails
INVARIANT CayleyHamilton
INVARIANT Determinant
INVARIANT CauchyIsMds
CONSTANT Pool <- Small
CHECK_DEADLOCK FALSE
