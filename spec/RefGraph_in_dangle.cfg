SPECIFICATION Spec
CONSTANTS MaxPos = 40 Dangle = TRUE Cycles = FALSE Hosts = {"fs","web","mixed"} Weird = FALSE Deep = FALSE Chains = FALSE Forms = {"doc","defs","top","whole"} Hash = FALSE
INVARIANTS Agree Ends
CHECK_DEADLOCK FALSE
