------------------------------ MODULE Gates ------------------------------
(* C05: what a configuration lets a build touch.  The file sets of RefGraph *)
(* are built under policies; a reference that would need a forbidden        *)
(* lookup is barred: nothing behind it is looked at and it must be reported.*)
EXTENDS RefGraph

\* located: the root document's own location is known, so that relative references mean something
Policies == CASE mode = "fs" -> << [name |-> "closed", local |-> FALSE, remote |-> FALSE, skip |-> FALSE],
                                   [name |-> "remote-only", local |-> FALSE, remote |-> TRUE, skip |-> FALSE],
                                   [name |-> "local", local |-> TRUE, remote |-> FALSE, skip |-> FALSE],
                                   [name |-> "supplied", local |-> TRUE, remote |-> FALSE, skip |-> FALSE],
                                   [name |-> "skip", local |-> TRUE, remote |-> TRUE, skip |-> TRUE] >>
              [] mode = "mixed" -> << [name |-> "closed", local |-> FALSE, remote |-> FALSE, skip |-> FALSE],
                                      [name |-> "remote-only", local |-> FALSE, remote |-> TRUE, skip |-> FALSE],
                                      [name |-> "local", local |-> TRUE, remote |-> FALSE, skip |-> FALSE],
                                      [name |-> "supplied", local |-> TRUE, remote |-> FALSE, skip |-> FALSE],
                                      [name |-> "open", local |-> TRUE, remote |-> TRUE, skip |-> FALSE],
                                      [name |-> "skip", local |-> TRUE, remote |-> TRUE, skip |-> TRUE] >>
              [] OTHER -> << [name |-> "base-url", local |-> FALSE, remote |-> FALSE, skip |-> FALSE],
                             [name |-> "web", local |-> FALSE, remote |-> TRUE, skip |-> FALSE],
                             [name |-> "skip-web", local |-> FALSE, remote |-> TRUE, skip |-> TRUE] >>
May(q, host) == ~q.skip /\ (IF host = "l" THEN q.local ELSE q.remote)
\* the location a reference is looked up at; one without a location stays in its own document
Elsewhere(i) == pos[i].via[1].segs # <<>>
Barred(q, i) == pos[i].alias /\ Elsewhere(i) /\ ~May(q, pos[i].via[1].host)
\* one that leads back to the root document by its name: whether that document's name is known is not prescribed
OwnName(i) == pos[i].tgt > 0 /\ pos[pos[i].tgt].file = 1 /\ pos[i].file = 1
\* the object at a position under a policy: 0 if none
RECURSIVE FinQ(_, _, _)
FinQ(q, i, n) == IF ~pos[i].alias \/ n = 0 THEN i ELSE IF pos[i].tgt <= 0 \/ Barred(q, i) THEN 0 ELSE FinQ(q, pos[i].tgt, n - 1)
StepQ(q, i) == IF ~pos[i].alias THEN Kids(i) ELSE IF pos[i].tgt <= 0 \/ Barred(q, i) THEN {} ELSE {pos[i].tgt}
RECURSIVE Seen(_, _, _)
Seen(q, front, seen) == IF front = {} THEN seen ELSE LET nx == (UNION {StepQ(q, i) : i \in front}) \ seen IN Seen(q, nx, seen \cup nx)
FromRoot(q) == LET r == {i \in 1..Len(pos) : pos[i].file = 1 /\ pos[i].par = 0} IN Seen(q, r, r)
\* files a build may look at: everything a file mentions may be looked at once the file is
RECURSIVE Open(_, _, _)
\* (a reference that designates nothing may still name a file)
Named(j) == LET via == pos[j].via[1] IN IF via.segs = <<>> THEN {pos[j].file} ELSE
            IF via.abs THEN FileNamed(via.host, Norm(<<>>, via.segs)) ELSE FileNamed(files[pos[j].file].host, Norm(Dir(files[pos[j].file].path), via.segs))
NeedsQ(q, f) == UNION {Named(j) : j \in {i \in 1..Len(pos) : pos[i].file = f /\ pos[i].alias /\ ~Barred(q, i)}}
Open(q, front, seen) == IF front = {} THEN seen ELSE LET nx == (UNION {NeedsQ(q, f) : f \in front}) \ seen IN Open(q, nx, seen \cup nx)
Sorted(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
Gate(q) == LET s == FromRoot(q) IN
  [name |-> q.name, local |-> q.local /\ ~q.skip, remote |-> q.remote /\ ~q.skip, skip |-> q.skip,
   open |-> Tup(Sorted(Open(q, {1}, {1}))),
   fin |-> Tup([i \in 1..Len(pos) |-> FinQ(q, i, 20)]),
   own |-> \E i \in s : pos[i].alias /\ Barred(q, i) /\ OwnName(i),
   report |-> Tup(Sorted({i \in s : pos[i].alias /\ (Barred(q, i) \/ pos[i].tgt <= 0) /\ ~(q.skip /\ Elsewhere(i))}))]
GDone == phase = "done" /\ phase' = "end" /\ UNCHANGED <<ver, mode, files, pos, todo, links>>
         /\ Emit(Vector @@ [gates |-> Tup([k \in 1..Len(Policies) |-> Gate(Policies[k])])])
GNext == Start \/ Def \/ Fill \/ Link \/ GDone
GSpec == Init /\ [][GNext]_vars

(* ---- checked by TLC ---- *)
\* a policy never opens a file of a host it forbids, except the root
Closed == phase = "done" => \A k \in 1..Len(Policies) : \A f \in Open(Policies[k], {1}, {1}) \ {1} : May(Policies[k], files[f].host)
\* a more generous policy opens no less and resolves no less
Monotone == phase = "done" => \A j, k \in 1..Len(Policies) :
   LET a == Policies[j] b == Policies[k] IN
   (\A h \in {"l", "w"} : May(a, h) => May(b, h)) =>
      /\ Open(a, {1}, {1}) \subseteq Open(b, {1}, {1})
      /\ \A i \in 1..Len(pos) : FinQ(a, i, 20) # 0 => FinQ(b, i, 20) = FinQ(a, i, 20)
\* everything reachable is resolved, or some reported reference stands before it
Told == phase = "done" => \A k \in 1..Len(Policies) : LET q == Policies[k] s == FromRoot(q) IN
   (~q.skip /\ \A i \in s : ~pos[i].alias \/ (~Barred(q, i) /\ pos[i].tgt > 0)) => FromRoot(q) = FromRoot([q EXCEPT !.local = TRUE, !.remote = TRUE])
=============================================================================
