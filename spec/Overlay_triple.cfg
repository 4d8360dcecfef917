SPECIFICATION Spec
CONSTANTS GenMode = "triple" MaxActions = 3
INVARIANTS TreeOK
PROPERTIES NoSelNoChange Removed
CHECK_DEADLOCK FALSE
