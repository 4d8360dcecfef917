SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxE = 9 Vias = {"req","opt","arrReq","arrOpt","items","allOf","anyOf","oneOf","addl","deep","alias"} Sample = TRUE TwoFiles = TRUE
INVARIANTS Disjoint Infinite
CHECK_DEADLOCK FALSE
