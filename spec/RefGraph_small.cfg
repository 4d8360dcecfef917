SPECIFICATION Spec
CONSTANTS MaxPos = 9 Dangle = FALSE Cycles = TRUE Hosts = {"fs","web","mixed"} Weird = TRUE Deep = TRUE Forms = {"doc","defs","top","whole"} Chains = TRUE Hash = FALSE
INVARIANTS Agree Ends
CHECK_DEADLOCK FALSE
