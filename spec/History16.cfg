CONSTANT MaxLen = 16
SPECIFICATION Spec
INVARIANT Write
CHECK_DEADLOCK FALSE
