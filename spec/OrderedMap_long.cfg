SPECIFICATION Spec
CONSTANTS Keys = {"b", "B", "a", "a1", "10", "9"} Vals = {1, 2, 3} MaxOps = 24 Mode = "sim"
INVARIANTS NoDuplicates
PROPERTIES OrderKept
CHECK_DEADLOCK FALSE
