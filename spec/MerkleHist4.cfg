CONSTANT MaxLen = 4
SPECIFICATION Spec
INVARIANT Write
CHECK_DEADLOCK FALSE
