SPECIFICATION Spec
CONSTANTS MaxTrans = 1024 MaxDepth = 32 GenMode = "random" MaxCalls = 12
INVARIANTS TransBound DepthBound NoReentry DepsRespected OnceEach OutputsOnlyOnSuccess
CHECK_DEADLOCK FALSE
