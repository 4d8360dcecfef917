-------------------------------- MODULE VIO --------------------------------
(* Shared plumbing: emission of behaviours/vectors as ndjson for the Go     *)
(* conformance harness.  Emit(x) is TRUE and appends ToJson(x) to $VOUT.    *)
EXTENDS TLC, Json, CSV, IOUtils, Sequences, Naturals, FiniteSets, SequencesExt, Functions, FiniteSetsExt

Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.VOUT)
Pick(S) == RandomElement(S)
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Has(r, k) == k \in DOMAIN r
=============================================================================
