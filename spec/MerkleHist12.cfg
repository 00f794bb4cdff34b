CONSTANT MaxLen = 12
SPECIFICATION Spec
INVARIANT Write
CHECK_DEADLOCK FALSE
