-------------------------------- MODULE Tree --------------------------------
(* JSON/YAML values as uniform records: t = type, v = scalar text,          *)
(* k = keys (in order), c = children (in order), id = node identity.        *)
EXTENDS VIO, Integers
Nd(t, v, k, c) == [t |-> t, v |-> v, k |-> k, c |-> c, id |-> 0]
\* TLC keeps [i \in ..] lazy; appending the empty sequence makes it a plain tuple
Tup(s) == s \o <<>>
MapN(ks, cs) == Nd("map", "", Tup(ks), Tup(cs))
SeqN(cs) == Nd("seq", "", <<>>, Tup(cs))
IntN(n) == Nd("int", ToString(n), <<>>, <<>>)
FltN(s) == Nd("float", s, <<>>, <<>>)
StrN(s) == Nd("str", s, <<>>, <<>>)
BoolN(b) == Nd("bool", IF b THEN "true" ELSE "false", <<>>, <<>>)
NullN == Nd("null", "", <<>>, <<>>)
KindOf(n) == IF n.t = "map" THEN "map" ELSE IF n.t = "seq" THEN "seq" ELSE "scalar"
KeyIdx(n, key) == IF n.t = "map" /\ \E i \in 1..Len(n.k) : n.k[i] = key THEN CHOOSE i \in 1..Len(n.k) : n.k[i] = key ELSE 0
HasKey(n, key) == KeyIdx(n, key) # 0
Child(n, key) == n.c[KeyIdx(n, key)]
SetKey(n, key, val) == LET i == KeyIdx(n, key) IN
   IF i = 0 THEN [n EXCEPT !.k = Append(@, key), !.c = Append(@, val)] ELSE [n EXCEPT !.c[i] = val]
DropAt(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
DelKey(n, key) == LET i == KeyIdx(n, key) IN IF i = 0 THEN n ELSE [n EXCEPT !.k = DropAt(@, i), !.c = DropAt(@, i)]
InsAt(s, i, x) == SubSeq(s, 1, i-1) \o <<x>> \o SubSeq(s, i, Len(s))
\* keep only the children with keep(child)
FilterKids(n, keep(_)) ==
   LET idx == SelectSeq([i \in 1..Len(n.c) |-> i], LAMBDA i : keep(n.c[i]))
   IN [n EXCEPT !.c = Tup([j \in 1..Len(idx) |-> n.c[idx[j]]]), !.k = IF n.t = "map" THEN Tup([j \in 1..Len(idx) |-> n.k[idx[j]]]) ELSE <<>>]

\* number the nodes in document order from id x: <<tree, next id>>
RECURSIVE NumberFrom(_, _)
NumberFrom(n, x) ==
  LET r == FoldLeft(LAMBDA acc, ch : LET q == NumberFrom(ch, acc[2]) IN <<Append(acc[1], q[1]), q[2]>>, <<<<>>, x + 1>>, n.c)
  IN <<[n EXCEPT !.id = x, !.c = r[1]], r[2]>>
Number(n) == NumberFrom(n, 1)[1]
RECURSIVE Clone(_)
Clone(n) == [n EXCEPT !.id = 0, !.c = Tup([i \in 1..Len(n.c) |-> Clone(n.c[i])])]
\* all nodes, document order
RECURSIVE Nodes(_)
Nodes(n) == <<n>> \o FlattenSeq([i \in 1..Len(n.c) |-> Nodes(n.c[i])])
RECURSIVE InTree(_, _)
InTree(n, id) == n.id = id \/ \E i \in 1..Len(n.c) : InTree(n.c[i], id)
RECURSIVE Find(_, _)
Find(n, id) == IF n.id = id THEN n ELSE Find(n.c[CHOOSE i \in 1..Len(n.c) : InTree(n.c[i], id)], id)
RECURSIVE SubstAt(_, _, _)
SubstAt(n, id, m) == IF n.id = id THEN m ELSE [n EXCEPT !.c = Tup([i \in 1..Len(n.c) |-> SubstAt(n.c[i], id, m)])]
Rewrite(n, id, f(_)) == IF InTree(n, id) THEN SubstAt(n, id, f(Find(n, id))) ELSE n
RECURSIVE Drop(_, _)
Drop(n, id) == LET m == FilterKids(n, LAMBDA ch : ch.id # id) IN [m EXCEPT !.c = Tup([i \in 1..Len(m.c) |-> Drop(m.c[i], id)])]
\* get/set by a path of keys and 1-based indexes given as strings/ints in a sequence of [k |-> key] or [i |-> n]
=============================================================================
