SPECIFICATION Spec
CONSTANTS MaxPos = 40 Dangle = FALSE Cycles = FALSE Hosts = {"fs","mixed"} Weird = FALSE Deep = FALSE Chains = FALSE Forms = {"doc","whole","top"} Hash = FALSE
INVARIANTS Agree Ends
CHECK_DEADLOCK FALSE
