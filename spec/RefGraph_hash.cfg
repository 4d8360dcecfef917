SPECIFICATION Spec
CONSTANTS MaxPos = 9 Dangle = FALSE Cycles = TRUE Hosts = {"fs"} Weird = FALSE Deep = TRUE Forms = {"doc","defs","top","whole"} Chains = TRUE Hash = TRUE
INVARIANTS Agree Ends
CHECK_DEADLOCK FALSE
