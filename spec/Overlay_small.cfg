SPECIFICATION Spec
CONSTANTS GenMode = "small" MaxActions = 1
INVARIANTS TreeOK
PROPERTIES NoSelNoChange Removed
CHECK_DEADLOCK FALSE
