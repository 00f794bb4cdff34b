SPECIFICATION Spec
INVARIANT SparseForm
INVARIANT Rewriting
CHECK_DEADLOCK FALSE
