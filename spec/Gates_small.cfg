SPECIFICATION GSpec
CONSTANTS MaxPos = 9 Dangle = FALSE Cycles = TRUE Hosts = {"fs","web","mixed"} Weird = TRUE Deep = TRUE Forms = {"doc","defs","top","whole"} Chains = TRUE Hash = FALSE
INVARIANTS Agree Ends Closed Monotone Told
CHECK_DEADLOCK FALSE
