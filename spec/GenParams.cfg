INIT Init
NEXT Next
INVARIANT Write
CHECK_DEADLOCK FALSE
