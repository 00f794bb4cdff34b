SPECIFICATION Spec
INVARIANT UniformSmall
INVARIANT UniformTop
INVARIANT UniformBits
INVARIANT CumTop
INVARIANT CumSmall
INVARIANT NoRepeat
INVARIANT NeverZero
INVARIANT Fresh
INVARIANT FreshProcess
INVARIANT FreshThreads
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
