SPECIFICATION Spec
CONSTANTS MaxPos = 40 Dangle = FALSE Cycles = FALSE Hosts = {"fs"} Weird = TRUE Deep = FALSE Chains = FALSE Forms = {"doc","top"} Hash = FALSE
INVARIANTS Agree Ends
CHECK_DEADLOCK FALSE
