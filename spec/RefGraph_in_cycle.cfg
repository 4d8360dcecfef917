SPECIFICATION Spec
CONSTANTS MaxPos = 40 Dangle = FALSE Cycles = TRUE Hosts = {"fs"} Weird = FALSE Deep = FALSE Chains = FALSE Forms = {"doc","defs","top","whole"} Hash = FALSE
INVARIANTS Agree Ends
CHECK_DEADLOCK FALSE
