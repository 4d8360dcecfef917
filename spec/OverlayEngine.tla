---------------------------- MODULE OverlayEngine ----------------------------
(* Overlay application as a state machine: one transition per phase of each *)
(* action (select, copy, update, remove) over the document tree.            *)
EXTENDS Tree
CONSTANTS GenMode, MaxActions
VARIABLES doc, orig, acts, ai, phase, sel, warns, err, head
vars == <<doc, orig, acts, ai, phase, sel, warns, err, head>>

---------------------------------------------------------------------------
(* Paths: sequences of segments [s |-> kind, n |-> name, i |-> index, v |-> literal node] *)
Seg(s, n, i) == [s |-> s, n |-> n, i |-> i]
StepSeg(n, g) ==
  CASE g.s = "name"  -> IF HasKey(n, g.n) THEN <<Child(n, g.n)>> ELSE <<>>
    [] g.s = "idx"   -> IF n.t # "seq" THEN <<>>
                        ELSE LET i == IF g.i < 0 THEN Len(n.c) + g.i + 1 ELSE g.i + 1 IN IF i >= 1 /\ i <= Len(n.c) THEN <<n.c[i]>> ELSE <<>>
    [] g.s = "wild"  -> n.c
    [] g.s = "desc"  -> LET xs == SelectSeq(Nodes(n), LAMBDA x : HasKey(x, g.n)) IN Tup([j \in 1..Len(xs) |-> Child(xs[j], g.n)])
    [] g.s = "eq1"   -> SelectSeq(n.c, LAMBDA x : HasKey(x, g.n) /\ Child(x, g.n).t = "int" /\ Child(x, g.n).v = "1")
    [] g.s = "has"   -> SelectSeq(n.c, LAMBDA x : HasKey(x, g.n))
RECURSIVE EvalPath(_, _, _)
EvalPath(ns, path, i) == IF i > Len(path) THEN ns
                         ELSE LET nx == FoldLeft(LAMBDA acc, n : acc \o StepSeg(n, path[i]), <<>>, ns) IN EvalPath(nx, path, i + 1)
Query(root, path) == EvalPath(<<root>>, path, 1)
\* distinct ids in first-occurrence order
Ids(ns) == FoldLeft(LAMBDA acc, n : IF \E i \in 1..Len(acc) : acc[i] = n.id THEN acc ELSE Append(acc, n.id), <<>>, ns)

RECURSIVE Merge(_, _)
Merge(n, m) ==
  IF KindOf(n) # KindOf(m) THEN [Clone(m) EXCEPT !.id = n.id]
  ELSE CASE n.t = "map" -> FoldLeft(LAMBDA acc, i : LET key == m.k[i] IN
                               IF HasKey(acc, key) THEN SetKey(acc, key, Merge(Child(acc, key), m.c[i]))
                               ELSE SetKey(acc, key, Clone(m.c[i])), n, [i \in 1..Len(m.k) |-> i])
         [] n.t = "seq" -> [n EXCEPT !.c = @ \o [i \in 1..Len(m.c) |-> Clone(m.c[i])]]
         [] OTHER -> [n EXCEPT !.t = m.t, !.v = m.v]
\* an update that is not an array is one entry to append to a selected array
UpdateNode(n, u) == IF n.t = "seq" /\ u.t # "seq" THEN [n EXCEPT !.c = Append(@, Clone(u))] ELSE Merge(n, u)

---------------------------------------------------------------------------
NoNode == NullN
A == acts[ai]
Fail(e) == /\ err' = e /\ phase' = "end" /\ UNCHANGED <<doc, orig, acts, ai, sel, warns, head>>
NextAction == ai' = ai + 1 /\ phase' = IF ai = Len(acts) THEN "end" ELSE "select"

CheckHead == /\ phase = "head"
             /\ IF head = "ok" /\ acts # <<>> THEN /\ phase' = "select" /\ UNCHANGED <<doc, orig, acts, ai, sel, warns, err, head>>
                ELSE Fail(IF head # "ok" THEN head ELSE "noactions")
Select ==
  /\ phase = "select"
  /\ IF A.target.bad THEN Fail("badpath")
     ELSE LET d == Number(doc)  ns == Query(d, A.target.path) ids == Ids(ns) IN
       IF ns = <<>> THEN /\ warns' = Append(warns, ai) /\ NextAction /\ UNCHANGED <<doc, orig, acts, sel, err, head>>
       ELSE /\ doc' = d /\ sel' = Tup([i \in 1..Len(ids) |-> <<ids[i], KindOf(Find(d, ids[i]))>>])
            /\ phase' = "copy" /\ UNCHANGED <<orig, acts, ai, warns, err, head>>
Copy ==
  /\ phase = "copy"
  /\ IF A.copy = <<>> THEN phase' = "update" /\ UNCHANGED <<doc, orig, acts, ai, sel, warns, err, head>>
     ELSE LET src == Query(doc, A.copy[1]) IN
       CASE Len(src) = 0 -> Fail("nosource")
         [] Len(src) > 1 -> Fail("multisource")
         [] \E i \in 1..Len(sel) : KindOf(src[1]) # sel[i][2] -> Fail("kind")
         [] OTHER -> /\ doc' = FoldLeft(LAMBDA d, s : Rewrite(d, s[1], LAMBDA n : Merge(n, src[1])), doc, sel)
                     /\ phase' = "update" /\ UNCHANGED <<orig, acts, ai, sel, warns, err, head>>
Update ==
  /\ phase = "update"
  /\ IF A.update = <<>> THEN phase' = "remove" /\ UNCHANGED <<doc, orig, acts, ai, sel, warns, err, head>>
     ELSE IF \E i \in 1..Len(sel) : IF InTree(doc, sel[i][1]) THEN KindOf(Find(doc, sel[i][1])) = "scalar" ELSE sel[i][2] = "scalar"
          THEN Fail("primitive")
          ELSE /\ doc' = FoldLeft(LAMBDA d, s : Rewrite(d, s[1], LAMBDA n : UpdateNode(n, A.update[1])), doc, sel)
               /\ phase' = "remove" /\ UNCHANGED <<orig, acts, ai, sel, warns, err, head>>
DoRemove ==
  /\ phase = "remove"
  /\ doc' = IF A.remove THEN FoldLeft(LAMBDA d, s : Drop(d, s[1]), doc, sel) ELSE doc
  /\ NextAction /\ UNCHANGED <<orig, acts, sel, warns, err, head>>

---------------------------------------------------------------------------
(* Generators *)
Keys3 == <<"a", "b", "c">>
Scal(u) == LET k == Pick(1..9) IN CASE k = 1 -> IntN(1) [] k = 2 -> IntN(2) [] k = 3 -> StrN("x") [] k = 4 -> StrN("1") [] k = 5 -> BoolN(TRUE)
     [] k = 6 -> NullN [] k = 7 -> StrN("true") [] k = 8 -> FltN("1.5") [] OTHER -> StrN("")
RECURSIVE RTree(_)
RTree(d) == LET k == Pick(1..10) IN
   IF d = 0 \/ k <= 2 THEN Scal(0)
   ELSE IF k <= 7 THEN LET n == Pick(0..3)  perm == Pick({<<1,2,3>>, <<2,1,3>>, <<3,1,2>>}) IN MapN([i \in 1..n |-> Keys3[perm[i]]], [i \in 1..n |-> RTree(d-1)])
   ELSE LET n == Pick(0..3) IN SeqN([i \in 1..n |-> RTree(d-1)])
RSeg(u) == LET k == Pick(1..14) IN CASE k <= 6 -> Seg("name", Keys3[Pick(1..3)], 0) [] k = 7 -> Seg("idx", "", Pick({0, 1, -1}))
     [] k <= 9 -> Seg("wild", "", 0) [] k <= 11 -> Seg("desc", Keys3[Pick(1..3)], 0) [] k = 12 -> Seg("eq1", Keys3[Pick(1..3)], 0) [] k = 13 -> Seg("has", Keys3[Pick(1..3)], 0)
     [] OTHER -> Seg("name", Keys3[Pick(1..3)], 0)
RPath(u) == LET n == Pick({0, 1, 1, 1, 2, 2, 3}) IN [i \in 1..n |-> RSeg(i)]
RAct(u) == LET k == Pick(1..12) IN
  [target |-> [bad |-> Pick(1..60) = 1, path |-> RPath(0)],
   copy |-> IF k \in {1, 2, 3, 12} THEN <<RPath(0)>> ELSE <<>>,
   update |-> IF k \in {4, 5, 6, 7, 8, 12} THEN <<IF Pick(1..8) = 1 THEN StrN("zz") ELSE RTree(Pick(1..2))>> ELSE <<>>,
   remove |-> k \in {3, 9, 10, 11, 12}]
DocOf(cs) == MapN(<<"openapi", "a", "b", "c">>, <<StrN("3.1.0")>> \o cs)

SmallVals == {IntN(1), StrN("x"), NullN, MapN(<<>>, <<>>), MapN(<<"b">>, <<IntN(1)>>), SeqN(<<>>), SeqN(<<IntN(2)>>), SeqN(<<MapN(<<"a">>, <<IntN(1)>>)>>),
              MapN(<<"a">>, <<MapN(<<"b">>, <<StrN("x")>>)>>)}
SmallPaths == {<<>>, <<Seg("name","a",0)>>, <<Seg("name","b",0)>>, <<Seg("wild","",0)>>, <<Seg("desc","b",0)>>, <<Seg("desc","a",0)>>, <<Seg("name","a",0), Seg("wild","",0)>>,
               <<Seg("name","a",0), Seg("idx","",0)>>, <<Seg("name","a",0), Seg("name","a",0)>>}
SmallUps == {MapN(<<"b">>, <<IntN(2)>>), MapN(<<"b">>, <<StrN("1")>>), MapN(<<"a">>, <<SeqN(<<IntN(3)>>)>>), MapN(<<"a", "d">>, <<MapN(<<"b">>, <<NullN>>), BoolN(TRUE)>>), SeqN(<<IntN(3)>>), StrN("y"), MapN(<<>>, <<>>)}
SmallActs == {[target |-> [bad |-> FALSE, path |-> p], copy |-> <<>>, update |-> <<u>>, remove |-> FALSE] : p \in SmallPaths, u \in SmallUps}
      \cup {[target |-> [bad |-> FALSE, path |-> p], copy |-> <<q>>, update |-> <<>>, remove |-> FALSE] : p \in SmallPaths, q \in SmallPaths}
      \cup {[target |-> [bad |-> FALSE, path |-> p], copy |-> <<>>, update |-> <<>>, remove |-> TRUE] : p \in SmallPaths}
\* every three actions out of a few: removals before and after what copies and updates bring
NA(n) == Seg("name", n, 0)
MidDocs == {DocOf(<<MapN(<<"b">>, <<MapN(<<"c">>, <<IntN(1)>>)>>), MapN(<<"a","c">>, <<MapN(<<"b">>, <<StrN("x")>>), SeqN(<<IntN(2)>>)>>), IntN(1)>>),
            DocOf(<<MapN(<<>>, <<>>), MapN(<<"b">>, <<SeqN(<<MapN(<<"a">>, <<IntN(1)>>), MapN(<<"b">>, <<IntN(1)>>)>>)>>), MapN(<<"a">>, <<IntN(1)>>)>>),
            DocOf(<<SeqN(<<IntN(2), IntN(2)>>), MapN(<<"a">>, <<SeqN(<<IntN(2)>>)>>), SeqN(<<MapN(<<"b">>, <<IntN(1)>>)>>)>>)}
Act(p, c, u, r) == [target |-> [bad |-> FALSE, path |-> p], copy |-> c, update |-> u, remove |-> r]
MidActs == {Act(p, <<>>, <<>>, TRUE) : p \in {<<NA("a")>>, <<NA("a"), NA("b")>>, <<NA("b"), Seg("wild","",0)>>, <<NA("a"), Seg("wild","",0)>>, <<Seg("desc","b",0)>>}}
      \cup {Act(x[1], <<x[2]>>, <<>>, x[3]) : x \in {<<<<NA("a")>>, <<NA("b")>>, FALSE>>, <<<<NA("b")>>, <<NA("a")>>, FALSE>>, <<<<NA("a")>>, <<NA("b"), NA("a")>>, FALSE>>, <<<<NA("b")>>, <<>>, FALSE>>,
                                                <<<<NA("c")>>, <<NA("a")>>, FALSE>>, <<<<NA("a"), NA("b")>>, <<NA("b")>>, TRUE>>}}
      \cup {Act(x[1], <<>>, <<x[2]>>, FALSE) : x \in {<<<<NA("a")>>, MapN(<<"b">>, <<MapN(<<"a">>, <<IntN(1)>>)>>)>>, <<<<Seg("desc","b",0)>>, MapN(<<"b">>, <<SeqN(<<IntN(3)>>)>>)>>, <<<<NA("c")>>, SeqN(<<IntN(2)>>)>>}}
Gen ==
  /\ phase = "gen" /\ phase' = "head" /\ ai' = 1
  /\ IF GenMode = "random"
     THEN /\ doc' \in {DocOf(<<RTree(2), RTree(3), RTree(2)>>)}
          /\ acts' \in {LET n == Pick(1..MaxActions) IN [i \in 1..n |-> RAct(i)]}
          /\ head' \in {IF Pick(1..40) = 1 THEN Pick({"nooverlay", "noinfo", "noactions"}) ELSE "ok"}
     ELSE IF GenMode = "triple"
     THEN /\ doc' \in MidDocs /\ \E x, y, z \in MidActs : acts' = <<x, y, z>>
          /\ head' = "ok"
     ELSE /\ \E x \in SmallVals, y \in SmallVals : doc' = DocOf(<<x, y, IntN(1)>>)
          /\ \E a \in SmallActs : acts' = <<a>>
          /\ head' = "ok"
  /\ orig' = doc' /\ UNCHANGED <<sel, warns, err>>
Init == doc = NoNode /\ orig = NoNode /\ acts = <<>> /\ ai = 0 /\ phase = "gen" /\ sel = <<>> /\ warns = <<>> /\ err = "" /\ head = "ok"
Out == /\ phase = "end" /\ phase' = "stop"
       /\ Emit([doc |-> orig, acts |-> IF head = "noactions" THEN <<>> ELSE acts, head |-> head, err |-> err, res |-> Clone(doc), warns |-> warns])
       /\ UNCHANGED <<doc, orig, acts, ai, sel, warns, err, head>>
Next == Gen \/ CheckHead \/ Select \/ Copy \/ Update \/ DoRemove \/ Out
Spec == Init /\ [][Next]_vars

WellFormed(n) == LET ns == Nodes(n) IN \A i \in 1..Len(ns) : LET x == ns[i] IN
                    /\ (x.t = "map" => Len(x.k) = Len(x.c) /\ \A p, q \in 1..Len(x.k) : x.k[p] = x.k[q] => p = q)
                    /\ (x.t \notin {"map", "seq"} => x.c = <<>>)
TreeOK == phase # "gen" => WellFormed(doc)
\* an action that selects nothing changes nothing
NoSelNoChange == [][(phase = "select" /\ warns' # warns) => doc' = doc]_vars
\* remove leaves none of the selected nodes behind (the root cannot be removed)
Removed == [][(phase = "remove" /\ acts[ai].remove) => \A i \in 1..Len(sel) : sel[i][1] # 1 => ~InTree(doc', sel[i][1])]_vars
=============================================================================
