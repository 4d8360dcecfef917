SPECIFICATION Spec
CONSTANTS P = {1,2} L = {1,2} MaxOps = 2 MaxAtt = 2 Mode = "all" RefLen = 1
INVARIANTS AtMostOnce OneInFlight Sound NoDeadlock

CHECK_DEADLOCK FALSE
