SPECIFICATION Spec
CONSTANTS Keys = {"b", "B", "a"} Vals = {1, 2} MaxOps = 4 Mode = "ex"
INVARIANTS NoDuplicates
PROPERTIES OrderKept
CHECK_DEADLOCK FALSE
