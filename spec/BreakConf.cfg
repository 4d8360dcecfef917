SPECIFICATION Spec
CONSTANT Steps = 30
CHECK_DEADLOCK FALSE
INVARIANT OneDecision
PROPERTIES OnlyNamed ClearRestores
