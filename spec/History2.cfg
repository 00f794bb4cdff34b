CONSTANT MaxLen = 2
SPECIFICATION Spec
INVARIANT Write
CHECK_DEADLOCK FALSE
