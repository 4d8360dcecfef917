SPECIFICATION Spec
CONSTANTS GenMode = "random" MaxActions = 4
INVARIANTS TreeOK
PROPERTIES NoSelNoChange Removed
CHECK_DEADLOCK FALSE
