SPECIFICATION Spec
CONSTANTS MaxN = 2 MaxE = 3 Vias = {"req","opt","arrReq","items","anyOf","addl","alias"} Sample = FALSE TwoFiles = FALSE
INVARIANTS Cyclic Disjoint Kept Infinite
CHECK_DEADLOCK FALSE
