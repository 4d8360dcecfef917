SPECIFICATION Spec
CONSTANTS Mode = "bfs" N = 4 W = 3 Kinds = {"ok", "skip", "err", "eof", "rerr", "reof"}
INVARIANTS OutcomeIsSequential PrefixAlways
CHECK_DEADLOCK FALSE
