SPECIFICATION Spec
CONSTANTS P = {1,2,3} L = {1,2,3,4} MaxOps = 3 MaxAtt = 2 Mode = "replay" RefLen = 2
INVARIANTS AtMostOnce OneInFlight Sound NoDeadlock

CHECK_DEADLOCK FALSE
