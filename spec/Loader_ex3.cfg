SPECIFICATION Spec
CONSTANTS P = {1,2,3} L = {1,2} MaxOps = 1 MaxAtt = 2 Mode = "all" RefLen = 2
INVARIANTS AtMostOnce OneInFlight Sound NoDeadlock

CHECK_DEADLOCK FALSE
