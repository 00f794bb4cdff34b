SPECIFICATION Spec
INVARIANT RootRight
INVARIANT Halves
INVARIANT Binding
PROPERTY Halts
CHECK_DEADLOCK FALSE
