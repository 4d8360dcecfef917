------------------------------ MODULE BreakYaml ------------------------------
(* Written rule files: which are well formed, and where they are not.  A file *)
(* is a nesting of keys with a decision at the bottom; all nestings of object *)
(* names and field names up to depth three.                                   *)
EXTENDS BreakTable
VARIABLE st
Comps == {RuleTable[i].c : i \in 1..Len(RuleTable)}
PropsOf(c) == IF c \in Simple THEN Kinds ELSE {RuleTable[i].p : i \in {j \in 1..Len(RuleTable) : RuleTable[j].c = c}}
Kinds3 == <<"added", "modified", "removed">>
Sub(c) == PropsOf(c)
\* the misplacements: an object's rules below another object; a decision directly at an object; the rules of an object below a field of that name
Errs(path) == LET n == Len(path)  c == path[1] IN
   (IF n >= 2 /\ path[2] \in Comps /\ path[2] \notin PropsOf(c) THEN <<[at |-> 2, to |-> path[2]]>> ELSE <<>>)
   \o (IF n >= 2 /\ path[2] \in Kinds /\ c \notin Simple THEN <<[at |-> 2, to |-> c \o ".<property>." \o path[2]]>> ELSE <<>>)
   \o (IF n >= 3 /\ path[3] \in Comps /\ path[3] \notin PropsOf(c) THEN <<[at |-> 3, to |-> path[3]]>> ELSE <<>>)
   \o (IF n >= 3 /\ path[3] \notin Kinds /\ path[2] \in Comps /\ path[3] \in PropsOf(path[2]) THEN <<[at |-> 3, to |-> path[2]]>> ELSE <<>>)
Paths2 == {<<c, k>> : c \in Comps, k \in Comps \cup Kinds} 
Paths3 == UNION {{<<c, p, k>> : k \in {"added"} \cup (IF p \in Comps THEN PropsOf(p) ELSE {}) \cup {"schema", "info"}} : <<c, p>> \in {<<c2, p2>> \in Comps \X (UNION {PropsOf(x) : x \in Comps}) : p2 \in PropsOf(c2) /\ c2 \notin Simple}}
Files == {<<c, "added">> : c \in Simple} \cup Paths2 \cup Paths3
Init == st = "init"
Next == st = "init" /\ \E f \in Files : Emit([path |-> f, errs |-> Errs(f), ok |-> Len(Errs(f)) = 0]) /\ st' = ToString(f)
Spec == Init /\ [][Next]_st
\* what the table has a rule for is well formed
RulesFit == \A i \in 1..Len(RuleTable) : Errs(IF RuleTable[i].p = "" THEN <<RuleTable[i].c, "added">> ELSE <<RuleTable[i].c, RuleTable[i].p, "added">>) = <<>>
ASSUME RulesFit
=============================================================================
