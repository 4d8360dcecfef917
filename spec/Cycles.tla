------------------------------- MODULE Cycles -------------------------------
(* C02: graphs of schemas that refer to each other.  A graph is drawn edge  *)
(* by edge; what must be reported follows from its cycles: every strongly   *)
(* connected component that contains a cycle, as an error if a cycle passes *)
(* through required properties only, with the options that ignore cycles    *)
(* through arrays or polymorphic keywords removing just those.              *)
EXTENDS VIO, Integers
CONSTANTS MaxN, MaxE, Vias, TwoFiles, Sample
VARIABLES n, file, edges, phase, cap
vars == <<n, file, edges, phase, cap>>

Tup(s) == s \o <<>>
Poly == {"allOf", "anyOf", "oneOf"}
Arr == {"arrReq", "arrOpt", "items"}
N == 1..n
Init == /\ n \in 1..MaxN /\ file = <<>> /\ edges = <<>> /\ phase = "files" /\ cap = MaxE
Place == /\ phase = "files" /\ phase' = "draw"
         /\ \E f \in [1..n -> IF TwoFiles THEN {1, 2} ELSE {1}] : file' = f /\ f[1] = 1
         /\ cap' = (IF Sample THEN Pick(1..MaxE) ELSE MaxE) /\ UNCHANGED <<n, edges>>
Only(i) == \E k \in DOMAIN edges : edges[k].from = i /\ edges[k].via = "alias"
From(i) == \E k \in DOMAIN edges : edges[k].from = i
Uses(i, v) == \E k \in DOMAIN edges : edges[k].from = i /\ edges[k].via = v
RECURSIVE Close(_)
Close(R) == LET T == R \cup {<<a, c>> \in N \X N : \E b \in N : <<a, b>> \in R /\ <<b, c>> \in R} IN IF T = R THEN R ELSE Close(T)
Rel(ok) == {<<edges[k].from, edges[k].to>> : k \in {j \in DOMAIN edges : edges[j].via \in ok}}
AllV == {"req", "opt", "arrReq", "arrOpt", "items", "allOf", "anyOf", "oneOf", "addl", "deep", "alias"}
May(i, j, v) == /\ ~Only(i) /\ (v = "alias" => ~From(i) /\ i # j) /\ (v \in {"items", "addl"} => ~Uses(i, v))
                /\ (v = "items" => ~\E w \in {"req","opt","arrReq","arrOpt","addl","deep"} : Uses(i, w))
                /\ (v \in {"req","opt","arrReq","arrOpt","addl","deep"} => ~Uses(i, "items"))
                \* references only, without an object anywhere: nothing that could be built
                /\ (v = "alias" => ~(<<j, i>> \in Close(Rel({"alias"}))))
Legal == {x \in N \X N \X Vias : May(x[1], x[2], x[3])}
Full == Len(edges) >= cap \/ (Sample /\ Legal = {})
Draw == /\ phase = "draw" /\ ~Full
        /\ \E x \in (IF Sample THEN {Pick(Legal)} ELSE Legal) : edges' = Append(edges, [from |-> x[1], to |-> x[2], via |-> x[3]])
        /\ UNCHANGED <<n, file, phase, cap>>

(* ---- cycles ---- *)
OnCycle(ok) == LET c == Close(Rel(ok)) IN {i \in N : <<i, i>> \in c}
\* an instance of such a schema cannot end
Endless(ok) == LET c == Close(Rel(ok)) IN OnCycle(ok) \cup {i \in N : \E j \in OnCycle(ok) : <<i, j>> \in c}
Comp(ok, i) == LET c == Close(Rel(ok)) IN {j \in N : <<i, j>> \in c /\ <<j, i>> \in c}
\* what a build of the document in the first file comes across
Met == LET c == Close(Rel(AllV)) IN {i \in N : file[i] = 1 \/ \E r \in N : file[r] = 1 /\ <<r, i>> \in c}
Sccs(ok) == {Comp(ok, i) : i \in OnCycle(ok) \cap Met}
Required == {"req", "alias"}
Lst(s) == Tup(SetToSortSeq(s, LAMBDA a, b : a < b))
Lsts(ss) == LET q == SetToSeq(ss) IN Tup([k \in 1..Len(q) |-> Lst(q[k])])
Done == /\ phase = "draw" /\ edges # <<>> /\ (Sample => Full) /\ phase' = "end"
        /\ Emit([n |-> n, file |-> Tup([i \in 1..n |-> file[i]]), edges |-> Tup(edges), met |-> Lst(Met),
                 sccs |-> Lsts(Sccs(AllV)), sure |-> Lst(OnCycle(Required) \cap Met), maybe |-> Lst(Endless(Required \cup {"arrReq"}) \cap Met),
                 noarr |-> Lsts(Sccs(AllV \ Arr)), nopoly |-> Lsts(Sccs(AllV \ Poly))])
        /\ UNCHANGED <<n, file, edges, cap>>
Next == Place \/ Draw \/ Done
Spec == Init /\ [][Next]_vars

(* ---- checked by TLC: the same notions stated differently ---- *)
\* a node is on a cycle iff it survives the removal of nodes without a way in or out, in some component
RECURSIVE Prune(_, _)
Prune(S, R) == LET T == {i \in S : \E p \in R : p[1] = i /\ p[2] \in S} IN IF T = S THEN S ELSE Prune(T, R)
Ready == phase = "draw"
Cyclic == Ready => \A ok \in {AllV, Required, AllV \ Arr, AllV \ Poly} : (OnCycle(ok) = {}) = (Prune(N, Rel(ok)) = {})
\* components are disjoint and made of nodes on cycles
Disjoint == Ready => \A a, b \in Sccs(AllV) : a = b \/ a \cap b = {}
\* a cycle that needs neither arrays nor polymorphism stays reported whatever is ignored
Kept == Ready => \A s \in Sccs(AllV \ (Arr \cup Poly)) : (\E t \in Sccs(AllV \ Arr) : s \subseteq t) /\ (\E t \in Sccs(AllV \ Poly) : s \subseteq t)
Infinite == Ready => OnCycle(Required) \subseteq OnCycle(Required \cup {"arrReq"}) /\ OnCycle(Required) \cap Met \subseteq UNION Sccs(AllV)
=============================================================================
