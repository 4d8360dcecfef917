SPECIFICATION Spec
CONSTANTS Mode = "sim" N = 10 W = 5 Kinds = {"ok", "skip", "err", "eof", "rerr", "reof"}
INVARIANTS OutcomeIsSequential PrefixAlways
CHECK_DEADLOCK FALSE
