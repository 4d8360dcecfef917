-------------------------------- MODULE OasHist --------------------------------
(* Histories of edits: a description is opened, objects along a way through  *)
(* it are edited one after the other, with renderings and reloads between.   *)
EXTENDS OasEdit
CONSTANT Steps
RECURSIVE PutAt(_, _, _)
PutAt(x, p, y) == IF p = <<>> THEN y ELSE IF x.t = "seq" THEN [x EXCEPT !.c = <<PutAt(x.c[1], Tail(p), y)>> \o Tail(x.c)] ELSE SetKey(x, p[1], PutAt(Child(x, p[1]), Tail(p), y))
LevelAddr(way, i) == AddrOf(SubSeq(way, 1, i))
TypeAt(ver, way, i) == IF i = 0 THEN Root(ver) ELSE way[i].f.t
\* the key through which the way leaves the object at level i
NextKey(way, i) == IF i = Len(way) THEN "" ELSE Addr(way[i+1].p, way[i+1].f)[1]
Usable(es, k, x) == SelectSeq(es, LAMBDA e : ~e.bad /\ ~e.om /\ e.key # k /\ ~SameContent(ValOf(x, e.key), e.v))
HInit == st = [ph |-> "init"]
HOpen(d) == /\ st.ph = "init"
         /\ \E v \in {RandomElement(Versions)} : \E i \in {RandomElement(1..Len(AllEdges(v)))} : \E b \in {RandomElement(Bases)} :
              LET s == [ver |-> v, e |-> AllEdges(v)[i], base |-> b]  w == WayOf(v, s.e)  doc == DocOf(s, LeafOf(v, s.e.f.t, b)) IN
              st' = [ph |-> "run", ver |-> v, way |-> w, doc0 |-> doc, doc |-> doc, steps |-> <<>>, n |-> 0]
HEdit == /\ st.ph = "run" /\ st.n < Steps
         /\ \E lvl \in {RandomElement(0..Len(st.way)), Len(st.way)} :
              LET a == LevelAddr(st.way, lvl)  obj == At(st.doc, a)  T == TypeAt(st.ver, st.way, lvl)
                  es == Tup(Usable(Edits(st.ver, T, obj), NextKey(st.way, lvl), obj)) IN
              IF Len(es) = 0 THEN st' = [st EXCEPT !.n = @ + 1] ELSE
              \E e \in {es[RandomElement(1..Len(es))]} :
              st' = [st EXCEPT !.n = @ + 1, !.doc = PutAt(st.doc, a, ApplyEd(obj, e)),
                               !.steps = Append(@, [do |-> "edit", at |-> a, t |-> T, ed |-> [op |-> e.op, key |-> e.key, kind |-> e.kind, v |-> e.v]])]
HLook == /\ st.ph = "run" /\ st.n < Steps /\ st.steps # <<>> /\ st.steps[Len(st.steps)].do = "edit"
         /\ \E a \in {"render", "reload"} : st' = [st EXCEPT !.steps = Append(@, [do |-> a])]
HDone == /\ st.ph = "run" /\ st.n = Steps
         /\ Emit([ver |-> st.ver, doc0 |-> st.doc0, steps |-> st.steps, doc |-> st.doc, types |-> Tup([i \in 1..Len(st.way) |-> st.way[i].f.t])])
         /\ st' = [ph |-> "end"]
HNext == HOpen(st) \/ HEdit \/ HLook \/ HDone
HSpec == HInit /\ [][HNext]_st
\* looking at a description does not change it; edits are felt
LooksKeep == [][(st.ph = "run" /\ st'.ph = "run" /\ st'.steps # st.steps /\ st'.steps[Len(st'.steps)].do # "edit") => st'.doc = st.doc]_st
EditsFelt == [][(st.ph = "run" /\ st'.ph = "run" /\ Len(st'.steps) > Len(st.steps) /\ st'.steps[Len(st'.steps)].do = "edit") => ~SameContent(st'.doc, st.doc)]_st
=============================================================================
