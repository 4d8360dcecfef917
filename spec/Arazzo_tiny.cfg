SPECIFICATION Spec
CONSTANTS MaxTrans = 1024 MaxDepth = 32 GenMode = "tiny" MaxCalls = 4
INVARIANTS TransBound DepthBound NoReentry DepsRespected OnceEach OutputsOnlyOnSuccess RetryBound
CHECK_DEADLOCK FALSE
