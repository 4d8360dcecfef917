------------------------------ MODULE ParTrans ------------------------------
(* Ordered parallel translation: W workers take items in order, translate   *)
(* them at their own pace, a collector delivers results in input order and  *)
(* stops at the first failure.  All interleavings are explored; the design  *)
(* properties say that what is delivered and returned equals the sequential *)
(* meaning, independent of the schedule.  Each behaviour is emitted as      *)
(* (item kinds, completion order, outcome) and forced on the real helpers.  *)
EXTENDS VIO, Integers
CONSTANTS N, W, Kinds, Mode
VARIABLES kind, next, busy, order, donech, pending, want, delivered, cancelled, ret, phase
vars == <<kind, next, busy, order, donech, pending, want, delivered, cancelled, ret, phase>>
Items == 1..N
\* kinds: "ok", "skip" (translate says continue), "err", "eof", "rerr" (result callback fails), "reof" (result callback ends)
Init == /\ kind = [i \in Items |-> "ok"] /\ next = 1 /\ busy = {} /\ order = <<>> /\ donech = {} /\ pending = {} /\ want = 1
        /\ delivered = <<>> /\ cancelled = FALSE /\ ret = "" /\ phase = "gen"
Bag == <<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "skip", "skip", "err", "eof", "rerr", "reof">>
RKind(u) == LET k == Bag[Pick(1..Len(Bag))] IN IF k \in {"ok", "skip"} \/ Pick(1..4) = 1 THEN k ELSE "ok"
Gen == /\ phase = "gen" /\ phase' = "run"
       /\ kind' \in IF Mode = "sim" THEN {[i \in Items |-> RKind(i)]} ELSE [Items -> Kinds]
       /\ UNCHANGED <<next, busy, order, donech, pending, want, delivered, cancelled, ret>>
\* a worker takes the next job (jobs are queued in order; a cancelled pool may still take queued jobs)
Take == /\ phase = "run" /\ next <= N /\ Cardinality(busy) < W
        /\ busy' = busy \cup {next} /\ next' = next + 1
        /\ UNCHANGED <<kind, order, donech, pending, want, delivered, cancelled, ret, phase>>
Complete(i) == /\ i \in busy /\ busy' = busy \ {i} /\ order' = Append(order, i) /\ donech' = donech \cup {i}
               /\ UNCHANGED <<kind, next, pending, want, delivered, cancelled, ret, phase>>
\* collector receives results in completion order
Received == pending \cup {i \in Items : i < want}
Collect(i) == /\ phase = "run" /\ ~cancelled /\ i \in donech
              /\ i = (CHOOSE x \in donech : \A y \in donech : (CHOOSE p \in 1..Len(order) : order[p] = x) <= (CHOOSE p \in 1..Len(order) : order[p] = y))
              /\ donech' = donech \ {i} /\ pending' = pending \cup {i}
              /\ UNCHANGED <<kind, next, busy, order, want, delivered, cancelled, ret, phase>>
Flush == /\ phase = "run" /\ ~cancelled /\ want \in pending
         /\ pending' = pending \ {want} /\ want' = want + 1
         /\ CASE kind[want] = "ok"   -> delivered' = Append(delivered, want) /\ UNCHANGED <<cancelled, ret>>
              [] kind[want] = "skip" -> UNCHANGED <<delivered, cancelled, ret>>
              [] kind[want] = "err"  -> cancelled' = TRUE /\ ret' = "err" \o ToString(want) /\ UNCHANGED delivered
              [] kind[want] = "eof"  -> cancelled' = TRUE /\ ret' = "nil" /\ UNCHANGED delivered
              [] kind[want] = "rerr" -> cancelled' = TRUE /\ ret' = "rerr" \o ToString(want) /\ delivered' = Append(delivered, want)
              [] kind[want] = "reof" -> cancelled' = TRUE /\ ret' = "nil" /\ delivered' = Append(delivered, want)
         /\ UNCHANGED <<kind, next, busy, order, donech, phase>>
\* all workers are done before the call returns
Return == /\ phase = "run" /\ busy = {} /\ (cancelled \/ (want > N))
          /\ phase' = "returned" /\ ret' = IF ret = "" THEN "nil" ELSE ret
          /\ UNCHANGED <<kind, next, busy, order, donech, pending, want, delivered, cancelled>>
Out == /\ phase = "returned" /\ phase' = "end"
       /\ Emit([kinds |-> kind, order |-> order, delivered |-> delivered, ret |-> ret])
       /\ UNCHANGED <<kind, next, busy, order, donech, pending, want, delivered, cancelled, ret>>
Next == Gen \/ Take \/ (\E i \in Items : Complete(i) \/ Collect(i)) \/ Flush \/ Return \/ Out
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the sequential meaning
Stops(i) == kind[i] \in {"err", "eof", "rerr", "reof"}
FirstStop == IF \E i \in Items : Stops(i) THEN CHOOSE i \in Items : Stops(i) /\ \A j \in Items : j < i => ~Stops(j) ELSE N + 1
SeqDelivered == SelectSeq([i \in 1..N |-> i], LAMBDA i : (i < FirstStop /\ kind[i] = "ok") \/ (i = FirstStop /\ kind[i] \in {"rerr", "reof"}))
SeqRet == IF FirstStop > N THEN "nil" ELSE IF kind[FirstStop] = "err" THEN "err" \o ToString(FirstStop)
          ELSE IF kind[FirstStop] = "rerr" THEN "rerr" \o ToString(FirstStop) ELSE "nil"
OutcomeIsSequential == phase = "returned" => delivered = SeqDelivered /\ ret = SeqRet
PrefixAlways == IsPrefix(delivered, SeqDelivered)
Ends == <>(phase = "end")
=============================================================================
