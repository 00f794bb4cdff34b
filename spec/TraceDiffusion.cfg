SPECIFICATION Spec
INVARIANT Readable
INVARIANT InternalSecure
INVARIANT ExternalDiffuses
INVARIANT MdsMatrix
INVARIANT NeptuneLayers
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
