CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANT Write
CHECK_DEADLOCK FALSE
