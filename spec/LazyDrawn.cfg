CONSTANTS Threads = {1, 2, 3, 4}
Values = {1, 2, 3}
Fixed = FALSE
SPECIFICATION Spec
INVARIANT OneBuilder
INVARIANT OneValue
PROPERTY Stable
PROPERTY Served
CHECK_DEADLOCK FALSE
