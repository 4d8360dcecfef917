------------------------------ MODULE BreakConf ------------------------------
(* The active rules as a state machine: configurations are obtained (the      *)
(* defaults, or a partial one read from a file), merged, made active and      *)
(* cleared; at any point the decision for every object, field and kind of     *)
(* change is asked.                                                           *)
(*  heap   configurations: def - every rule starts as the default (else none  *)
(*         says breaking); ov - what was laid over it, later entries first    *)
(*  gen    the configuration handed out as the defaults, 0 if none yet        *)
(*  active the active configuration, 0 for the defaults                       *)
EXTENDS BreakTable
CONSTANT Steps
VARIABLES heap, gen, active, hist
vars == <<heap, gen, active, hist>>
Class == <<"added", "modified", "removed">>
Ov(i, k, v) == [c |-> RuleTable[i].c, p |-> RuleTable[i].p, k |-> Class[k], v |-> v]
\* overlay o over the list os: the entry for the same rule and kind is replaced
Lay(os, o) == Append(SelectSeq(os, LAMBDA x : ~(x.c = o.c /\ x.p = o.p /\ x.k = o.k)), o)
LayAll(os, add) == FoldLeft(Lay, os, add)
Log(op) == hist' = Append(hist, op)
Init == heap = <<>> /\ gen = 0 /\ active = 0 /\ hist = <<>>
Asked == IF Len(hist) = 0 THEN TRUE ELSE hist[Len(hist)].do = "ask"
Go == Len(hist) < Steps /\ Asked
Defaults == /\ Go /\ IF gen # 0 THEN heap' = heap /\ gen' = gen /\ Log([do |-> "defaults", h |-> gen])
                     ELSE heap' = Append(heap, [def |-> TRUE, ov |-> <<>>]) /\ gen' = Len(heap) + 1 /\ Log([do |-> "defaults", h |-> Len(heap) + 1])
            /\ UNCHANGED active
Read == /\ Go /\ \E i \in {RandomElement(1..Len(RuleTable))} : \E j \in {RandomElement(1..Len(RuleTable))} :
             \E k \in {RandomElement(1..3)} : \E l \in {RandomElement(1..3)} : \E v \in {RandomElement(BOOLEAN)} : \E w \in {RandomElement(BOOLEAN)} :
             \E os \in {LayAll(<<>>, IF RandomElement(1..2) = 1 THEN <<Ov(i, k, v)>> ELSE <<Ov(i, k, v), Ov(i, l, w), Ov(j, l, v)>>)} :
               heap' = Append(heap, [def |-> FALSE, ov |-> os]) /\ Log([do |-> "read", h |-> Len(heap) + 1, ov |-> os])
        /\ UNCHANGED <<gen, active>>
Handles == 1..Len(heap)
Merge == /\ Go /\ Len(heap) > 1 /\ \E a \in {RandomElement(Handles)} : \E b \in {RandomElement({x \in Handles : ~heap[x].def} \cup {0})} :
              b # a /\ heap' = (IF b = 0 THEN heap ELSE [heap EXCEPT ![a].ov = LayAll(heap[a].ov, heap[b].ov)])
              /\ Log([do |-> "merge", h |-> a, o |-> b])
         /\ UNCHANGED <<gen, active>>
Activate == /\ Go /\ Len(heap) > 0 /\ \E a \in {RandomElement(Handles)} : active' = a /\ Log([do |-> "activate", h |-> a])
            /\ UNCHANGED <<heap, gen>>
\* afterwards the defaults are the defaults, whatever was merged into those handed out before
Clear(how) == /\ Go /\ active' = 0 /\ gen' = 0 /\ Log([do |-> how]) /\ UNCHANGED heap
\* what holds: nothing is said while the defaults handed out have been written to without being made active
Settled == IF active # 0 THEN TRUE ELSE IF gen = 0 THEN TRUE ELSE heap[gen].ov = <<>>
Eff == IF active = 0 THEN [def |-> TRUE, ov |-> <<>>] ELSE heap[active]
Ask == /\ Len(hist) < Steps /\ ~Asked
       /\ Log([do |-> "ask", said |-> Settled, def |-> Eff.def, ov |-> Eff.ov]) /\ UNCHANGED <<heap, gen, active>>
Done == /\ Len(hist) = Steps /\ Emit([hist |-> hist, table |-> RuleTable]) /\ hist' = Append(hist, [do |-> "end"]) /\ UNCHANGED <<heap, gen, active>>
Next == Defaults \/ Read \/ Merge \/ Activate \/ Clear("clear") \/ Clear("nil") \/ Ask \/ Done
Spec == Init /\ [][Next]_vars
\* one decision for each rule and kind; merging changes no rule the overlay does not name
OneDecision == \A h \in Handles : \A x, y \in 1..Len(heap[h].ov) : (heap[h].ov[x].c = heap[h].ov[y].c /\ heap[h].ov[x].p = heap[h].ov[y].p /\ heap[h].ov[x].k = heap[h].ov[y].k) => x = y
Merged == Len(hist') > Len(hist) /\ hist'[Len(hist')].do = "merge" /\ hist'[Len(hist')].o # 0
OnlyNamed == [][Merged => LET last == hist'[Len(hist')] IN
    \A h \in Handles : IF h # last.h THEN heap'[h] = heap[h] ELSE
      \A o \in Range(heap[h].ov) : o \in Range(heap'[h].ov) \/ \E n \in Range(heap[last.o].ov) : n.c = o.c /\ n.p = o.p /\ n.k = o.k]_vars
ClearRestores == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].do \in {"clear", "nil"}) => (active' = 0 /\ gen' = 0)]_vars
=============================================================================
