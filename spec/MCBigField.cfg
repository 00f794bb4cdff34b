CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANT AddSub
INVARIANT Mul
INVARIANT Axpy
INVARIANT Pow
INVARIANT Inv
INVARIANT Red
CHECK_DEADLOCK FALSE
