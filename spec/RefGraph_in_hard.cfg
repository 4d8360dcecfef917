SPECIFICATION Spec
CONSTANTS MaxPos = 40 Dangle = FALSE Cycles = TRUE Hosts = {"web"} Weird = FALSE Deep = FALSE Chains = TRUE Forms = {"doc","defs","top","whole"} Hash = FALSE
INVARIANTS Agree Ends
CHECK_DEADLOCK FALSE
