SPECIFICATION Spec
CONSTANTS Mode = "bfs" N = 3 W = 2 Kinds = {"ok", "skip", "err", "rerr"}
INVARIANTS OutcomeIsSequential PrefixAlways
PROPERTIES Ends
CHECK_DEADLOCK FALSE
