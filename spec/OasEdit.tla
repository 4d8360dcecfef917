------------------------------- MODULE OasEdit -------------------------------
(* Descriptions and their edits, over the object model of OasModel.         *)
(* A state is an object type in one position of a description (an edge of   *)
(* the model), sparsely or fully populated; a step edits one field of it.   *)
(* The specification says what the edited description is and which changes  *)
(* a comparison of the two must report.                                     *)
EXTENDS OasModel
CONSTANTS Versions, Bases, EmitDocs, WithEdits
VARIABLE st

Root(ver) == IF ver = 20 THEN "Swagger" ELSE "Document"
TypesAt(ver) == IF ver = 20 THEN Types2 ELSE Types3
Lvl(ver) == IF ver = 20 THEN 30 ELSE ver
Edges(ver) == FlattenSeq([i \in 1..Len(TypesAt(ver)) |->
   LET P == TypesAt(ver)[i]
       fs == SelectSeq(FieldsAt(P, Lvl(ver)), LAMBDA f : f.k \in Holds)
   IN [j \in 1..Len(fs) |-> [p |-> P, f |-> fs[j]]]])
\* canonical way from the root to each type: sequence of edges
Grow(known, es) == FoldLeft(LAMBDA acc, e : IF \E r \in Range(acc) : r.t = e.f.t THEN acc
     ELSE IF \E r \in Range(known) : r.t = e.p THEN Append(acc, [t |-> e.f.t, way |-> Append((CHOOSE r \in Range(known) : r.t = e.p).way, e)]) ELSE acc, known, es)
RECURSIVE Close(_, _)
Close(known, es) == LET g == Tup(Grow(known, es)) IN IF Len(g) = Len(known) THEN g ELSE Close(g, es)
WaysOf(ver) == Close(<<[t |-> Root(ver), way |-> <<>>]>>, Edges(ver))
Ways == [v \in Versions |-> WaysOf(v)]
WayTo(ver, T) == (CHOOSE r \in Range(Ways[ver]) : r.t = T).way
EdgesAt == [v \in Versions |-> Tup(Edges(v))]

RootBase(ver) == IF ver = 20
   THEN MapN(<<"swagger","info","paths">>, <<StrN("2.0"), Base("Info"), MapN(<<>>, <<>>)>>)
   ELSE MapN(<<"openapi","info","paths">>, <<StrN(CASE ver = 30 -> "3.0.3" [] ver = 31 -> "3.1.0" [] OTHER -> "3.2.0"), Base("Info"), MapN(<<>>, <<>>)>>)
BaseOf(ver, T) == IF T \in {"Document", "Swagger"} THEN RootBase(ver) ELSE Base(T)
\* the parent object holding leaf in field f; more = with a second entry beside it
Hold(ver, P, f, leaf, more) ==
  LET b == BaseOf(ver, P)  kk == EntryKey(P, f, 1) k2 == EntryKey(P, f, 2) IN
  CASE f.k \in {"obj","sob"} -> SetKey(b, f.n, leaf)
    [] f.k = "list" -> SetKey(b, f.n, SeqN(IF more THEN <<leaf, Entry(f.t, 3)>> ELSE <<leaf>>))
    [] f.k = "map" -> SetKey(b, f.n, MapN(IF more THEN <<kk, k2>> ELSE <<kk>>, IF more THEN <<leaf, Entry(f.t, 2)>> ELSE <<leaf>>))
    [] f.k = "self" -> IF more THEN SetKey(SetKey(b, kk, leaf), k2, Entry(f.t, 2)) ELSE SetKey(b, kk, leaf)
Addr(P, f) == CASE f.k \in {"obj","sob"} -> <<f.n>> [] f.k = "list" -> <<f.n, "#1">> [] f.k = "map" -> <<f.n, EntryKey(P, f, 1)>> [] f.k = "self" -> <<EntryKey(P, f, 1)>>
RECURSIVE Wrap(_, _, _, _)
Wrap(ver, way, leaf, more) == IF Len(way) = 0 THEN leaf
   ELSE LET e == way[Len(way)] IN Wrap(ver, SubSeq(way, 1, Len(way)-1), Hold(ver, e.p, e.f, leaf, more), more)
AddrOf(way) == FlattenSeq([i \in 1..Len(way) |-> Addr(way[i].p, way[i].f)])

XKey == "x-ext"
None == Nd("none", "", <<>>, <<>>)
\* the leaf object, every field of it populated
Rich(ver, T) == LET b == BaseOf(ver, T)
      g == FoldLeft(LAMBDA acc, f : IF f.n = "" \/ HasKey(acc, f.n) \/ Len(Vals(T, f, Lvl(ver))) = 0 THEN acc ELSE SetKey(acc, f.n, Vals(T, f, Lvl(ver))[1]), b, FieldsAt(T, Lvl(ver)))
      own == SelectSeq(FieldsAt(T, Lvl(ver)), LAMBDA f : f.k = "self")
      h == IF Len(own) = 0 THEN g ELSE [g EXCEPT !.k = <<EntryKey(T, own[1], 1)>> \o g.k, !.c = <<Entry(own[1].t, 1)>> \o g.c]
  IN IF T \in NoExt THEN h ELSE SetKey(h, XKey, MapN(<<"a">>, <<IntN(1)>>))
\* the leaf object with its maps and raw values keyed by the names of its own fields
Clash(ver, T) == LET fs == FieldsAt(T, Lvl(ver))
      nm == Tup([i \in 1..Len(SelectSeq(fs, LAMBDA f : f.n # "")) |-> SelectSeq(fs, LAMBDA f : f.n # "")[i].n])
      shadow == MapN(nm, Tup([i \in 1..Len(nm) |-> StrN("shadow")]))
      val(f) == CASE f.k = "map" /\ f.t \in {"Callback"} -> MapN(nm, Tup([i \in 1..Len(nm) |-> MapN(<<"{$url}">>, <<Base("PathItem")>>)]))
                [] f.k = "map" -> MapN(nm, Tup([i \in 1..Len(nm) |-> Base(f.t)]))
                [] f.k = "mstr" -> shadow [] f.k = "mstrs" -> MapN(nm, Tup([i \in 1..Len(nm) |-> StrList(<<nm[i]>>)]))
                [] f.k = "any" -> shadow [] f.k = "anys" -> SeqN(<<shadow>> \o [i \in 1..Len(nm) |-> StrN(nm[i])]) [] f.k = "strs" -> StrList(nm) [] OTHER -> None
      b0 == BaseOf(ver, T)
      b1 == IF T \in NoExt \/ Len(nm) = 0 THEN b0 ELSE [b0 EXCEPT !.k = <<XKey>> \o b0.k, !.c = <<shadow>> \o b0.c]
  IN FoldLeft(LAMBDA acc, f : IF f.n = "" \/ val(f).t = "none" THEN acc ELSE SetKey(acc, f.n, val(f)), b1, fs)
\* the leaf is given by reference to a component, alone or with a text beside the reference
RefTo(ver, T) == (IF ver = 20 THEN "#/" ELSE "#/components/") \o Section(T) \o "/target"
TargetAddr(ver, T) == (IF ver = 20 THEN <<>> ELSE <<"components">>) \o <<Section(T), "target">>
RefLeaf(ver, T, base) == IF base = "refsib" THEN MapN(<<"$ref", "description">>, <<StrN(RefTo(ver, T)), StrN("beside")>>) ELSE MapN(<<"$ref">>, <<StrN(RefTo(ver, T))>>)
\* where a reference may stand: not for the container of the components themselves
RefAble(ver, e, base) == Section(e.f.t) # "" /\ SinceRef(e.f.t) <= ver /\ e.p # "" /\ e.f.k \in Holds \ {"sob"} /\ ~(e.f.t = "Callback" /\ e.f.k = "self")
    /\ (base = "refsib" => ver >= 31 /\ e.f.t \in {"Schema", "Response", "Parameter", "Header", "Example"})
    /\ (e.f.k # "self" \/ e.f.t # "PathItem" \/ e.p = "Paths")
WithTarget(ver, T, doc) == LET into(x, k, y) == SetKey(x, k, y)
      sec(x) == LET cur == IF HasKey(x, Section(T)) THEN Child(x, Section(T)) ELSE MapN(<<>>, <<>>) IN into(x, Section(T), into(cur, "target", Base(T)))
  IN IF ver = 20 THEN sec(doc) ELSE LET c == IF HasKey(doc, "components") THEN Child(doc, "components") ELSE MapN(<<>>, <<>>) IN into(doc, "components", sec(c))
LeafOf(ver, T, base) == IF base \in {"ref", "refsib"} THEN RefLeaf(ver, T, base) ELSE IF base = "rich" THEN Rich(ver, T) ELSE IF base = "clash" THEN Clash(ver, T) ELSE BaseOf(ver, T)

\* ------------------------------------------------------------ what a comparison reports
(* One expected change: c the kinds it may have (A dded R emoved M odified), p the names it may *)
(* go by, o and n original and new text ("" where not a scalar), m: one or more such changes,   *)
(* none of whose texts are fixed.                                                               *)
Ch(c, p, o, n, m) == [c |-> c, p |-> p, o |-> o, n |-> n, m |-> m]
Text(x) == IF x.t \in {"map","seq","none"} THEN "" ELSE x.v
Scalars == {"str","bool","int","num","any","excl","types"}
RECURSIVE SameContent(_, _)
SameContent(a, b) == a.t = b.t /\ a.v = b.v /\ Len(a.c) = Len(b.c) /\
   (IF a.t = "map" THEN ToSet(a.k) = ToSet(b.k) /\ \A i \in 1..Len(a.k) : SameContent(a.c[i], Child(b, a.k[i]))
    ELSE \A i \in 1..Len(a.c) : SameContent(a.c[i], b.c[i]))
Elems(x) == IF x.t = "seq" THEN x.c ELSE <<>>
Keys(x) == IF x.t = "map" THEN x.k ELSE <<>>
Lacks(xs, y) == \A i \in 1..Len(xs) : ~SameContent(xs[i], y)
\* entries of a list are the same entry when they have the same name (parameters, tags), address (servers) or else the same content
SameEntry(T, x, y) == IF IdKey(T) # "" THEN SameContent(Child(x, IdKey(T)), Child(y, IdKey(T))) ELSE SameContent(x, y)
Ids(T, xs) == IF IdKey(T) = "" THEN <<>> ELSE Tup([i \in 1..Len(xs) |-> Child(xs[i], IdKey(T)).v])
\* a text that is empty is none
Absent(x) == x.t = "none" \/ (x.t = "str" /\ x.v = "")
\* a section of the components (of the parameters and responses of 2.0) other than the schemas and security schemes
Kept(T, f) == (T = "Components" /\ f.n \notin {"schemas", "securitySchemes"}) \/ (T = "Swagger" /\ f.n \in {"parameters", "responses"})
RECURSIVE ReportObj(_, _)
\* two entries of the generated values, which differ in a few keys
ReportObj(old, new) == FlattenSeq([i \in 1..Len(Keys(old)) |-> IF ~HasKey(new, old.k[i]) THEN <<Ch("R", <<old.k[i]>>, Text(old.c[i]), "", FALSE)>>
                                 ELSE IF SameContent(old.c[i], Child(new, old.k[i])) THEN <<>>
                                 ELSE IF old.c[i].t = "map" /\ Child(new, old.k[i]).t = "map" THEN ReportObj(old.c[i], Child(new, old.k[i]))
                                 ELSE <<Ch("M", <<old.k[i]>>, Text(old.c[i]), Text(Child(new, old.k[i])), FALSE)>>])
                      \o FlattenSeq([i \in 1..Len(Keys(new)) |-> IF HasKey(old, new.k[i]) THEN <<>> ELSE <<Ch("A", <<new.k[i]>>, "", Text(new.c[i]), FALSE)>>])
PerEntry(f, old, new, nested) ==
   IF old.t = "none" THEN (IF Len(new.k) = 0 THEN <<>> ELSE <<Ch("A", <<f.n>> \o Keys(new), "", "", TRUE)>>)
   ELSE IF new.t = "none" THEN (IF Len(old.k) = 0 THEN <<>> ELSE <<Ch("R", <<f.n>> \o Keys(old), "", "", TRUE)>>)
   ELSE LET ko == old.k  kn == new.k IN
   FlattenSeq([i \in 1..Len(ko) |-> IF HasKey(new, ko[i]) THEN (IF SameContent(old.c[i], Child(new, ko[i])) THEN <<>>
                                          ELSE IF nested = "no" THEN <<>> ELSE IF nested = "yes" THEN ReportObj(old.c[i], Child(new, ko[i]))
                                          ELSE <<Ch("ARM", <<ko[i], f.n>>, "", "", TRUE)>>) ELSE <<Ch("R", <<ko[i], f.n>>, "", "", FALSE)>>])
   \o FlattenSeq([i \in 1..Len(kn) |-> IF HasKey(old, kn[i]) THEN <<>> ELSE <<Ch("A", <<kn[i], f.n>>, "", "", FALSE)>>])
Report(T, f, old, new) ==
  CASE SameContent(old, new) \/ (Absent(old) /\ Absent(new)) -> <<>>
  \* no path is no paths
  [] T = "Document" /\ f.n = "paths" /\ Len(Keys(old)) + Len(Keys(new)) = 0 -> <<>>
  \* the entry goes by this text: it is another one
  [] f.n = IdKey(T) /\ f.n # "" -> <<Ch("ARM", <<f.n, Text(old), Text(new), "parameters", "servers", "tags">>, "", "", TRUE)>>
  \* a flag that is not raised need not be mentioned (but what an absent explode means depends on the style)
  [] f.k = "bool" /\ f.n # "explode" /\ Absent(old) /\ Text(new) = "false" -> <<Ch("A?", <<f.n>>, "", "", FALSE)>>
  [] f.k = "bool" /\ f.n # "explode" /\ Absent(new) /\ Text(old) = "false" -> <<Ch("R?", <<f.n>>, "", "", FALSE)>>
  [] f.k \in Scalars -> <<IF Absent(old) THEN Ch("A", <<f.n>>, "", Text(new), FALSE) ELSE IF Absent(new) THEN Ch("R", <<f.n>>, Text(old), "", FALSE)
                           ELSE Ch("M", <<f.n>>, Text(old), Text(new), FALSE)>>
  [] f.k = "strs" \/ (f.k = "anys" /\ f.n # "examples") -> LET o == Elems(old)  n == Elems(new) IN
        Tup([i \in 1..Len(SelectSeq(o, LAMBDA x : Lacks(n, x))) |-> Ch("R", <<f.n>>, Text(SelectSeq(o, LAMBDA x : Lacks(n, x))[i]), "", FALSE)])
        \o Tup([i \in 1..Len(SelectSeq(n, LAMBDA x : Lacks(o, x))) |-> Ch("A", <<f.n>>, "", Text(SelectSeq(n, LAMBDA x : Lacks(o, x))[i]), FALSE)])
  [] f.k = "anys" -> <<Ch(IF old.t = "none" THEN "A" ELSE IF new.t = "none" THEN "R" ELSE "ARM", <<f.n>>, "", "", TRUE)>>
  [] f.k \in {"mstr","mbool","mstrs","many"} -> PerEntry(f, old, new, "any")
  [] f.k = "map" -> PerEntry(f, old, new, IF Kept(T, f) THEN "no" ELSE "yes")
  [] f.k \in {"obj","sob"} -> IF old.t = "none" THEN <<Ch("A", <<f.n>>, "", "", TRUE)>> ELSE IF new.t = "none" THEN <<Ch("R", <<f.n>>, "", "", TRUE)>>
        ELSE IF old.t = "map" /\ new.t = "map" THEN ReportObj(old, new) ELSE <<Ch("ARM", <<f.n>>, "", "", TRUE)>>
  [] f.k = "list" -> LET o == Elems(old)  n == Elems(new)
                         ro == SelectSeq(o, LAMBDA x : \A y \in Range(n) : ~SameEntry(f.t, x, y))
                         rn == SelectSeq(n, LAMBDA x : \A y \in Range(o) : ~SameEntry(f.t, x, y)) IN
        \* what the parts of a composition of plain objects say is also seen at the object itself
        IF f.n = "allOf" THEN <<Ch("ARM", <<f.n, "title", "type", "description", "properties", "required">>, "", "", TRUE)>> ELSE
        IF old.t = "none" THEN <<Ch("A", <<f.n>> \o Ids(f.t, n), "", "", TRUE)>> ELSE IF new.t = "none" THEN <<Ch("R", <<f.n>> \o Ids(f.t, o), "", "", TRUE)>> ELSE
        IF f.t \in {"Schema", "Schema2", "SecurityRequirement"} THEN <<Ch("ARM", <<f.n>>, "", "", TRUE)>> ELSE
          Tup([i \in 1..Len(ro) |-> Ch("R", <<f.n>> \o Ids(f.t, ro), "", "", FALSE)]) \o Tup([i \in 1..Len(rn) |-> Ch("A", <<f.n>> \o Ids(f.t, rn), "", "", FALSE)])
  [] OTHER -> <<>>
(* What stands in a section of the components (of the parameters and responses of 2.0) other than *)
(* the schemas and the security schemes is compared where it is used, not where it is kept.       *)
Compared(way) == \A i \in 1..Len(way) : ~Kept(way[i].p, way[i].f)

\* ------------------------------------------------------------ edits
ValOf(leaf, n) == IF HasKey(leaf, n) THEN Child(leaf, n) ELSE None
\* op set/del on key of the leaf; r: the report; q: strict (the value is an ordinary one);
\* om: a rendering may leave the value out; bad: the edited object is not a valid one
Ed(op, key, kind, v, r, q) == [op |-> op, key |-> key, kind |-> kind, v |-> v, r |-> r, q |-> q, om |-> FALSE, bad |-> FALSE]
Mark(T, f, e) == [e EXCEPT !.om = (e.op = "set" /\ (Omittable(f, e.v) \/ (T = "Document" /\ f.n = "security" /\ Len(e.v.c) = 0))),
   !.bad = ((e.op = "del" /\ e.key \in Required(T)) \/ (e.op = "set" /\ f.k \in {"obj","sob"} /\ e.v.t = "map" /\ Required(f.t) # {} /\ Len(e.v.k) = 0))]
FieldEdits(T, f, leaf, ver) ==
  LET old == ValOf(leaf, f.n)
      vs == Vals(T, f, ver)  zs == Zero(T, f)
      sets == SelectSeq([i \in 1..Len(vs) |-> Ed("set", f.n, f.k, vs[i], Report(T, f, old, vs[i]), TRUE)], LAMBDA e : ~SameContent(e.v, old))
      odds == SelectSeq([i \in 1..Len(zs) |-> Ed("set", f.n, f.k, zs[i], <<>>, FALSE)], LAMBDA e : ~SameContent(e.v, old))
  IN LET all == sets \o odds \o (IF old.t = "none" \/ f.n \in {"openapi","swagger","info"} THEN <<>> ELSE <<Ed("del", f.n, f.k, None, Report(T, f, old, None), TRUE)>>) IN Tup([i \in 1..Len(all) |-> Mark(T, f, all[i])])
SelfEdits(T, f, leaf) ==
  LET k1 == EntryKey(T, f, 1) k2 == EntryKey(T, f, 2) k3 == EntryKey(T, f, 3)
      mk(i) == IF f.k = "selfs" THEN StrList(<<"read">>) ELSE Entry(f.t, i) IN
  <<Ed("set", k3, f.k, mk(1), <<Ch("ARM", <<k3, "codes", "paths", "path", "expressions", "security">>, "", "", TRUE)>>, TRUE)>>
  \o (IF HasKey(leaf, k1) THEN <<Ed("del", k1, f.k, None, <<Ch("ARM", <<k1, "codes", "paths", "path", "expressions", "security">>, "", "", TRUE)>>, Len(leaf.k) > 1)>> ELSE <<>>)
  \o (IF f.k = "selfs" /\ HasKey(leaf, k1) THEN <<Ed("set", k1, f.k, StrList(<<"read">>), <<Ch("ARM", <<k1, "security", "scopes">>, "", "read", TRUE)>>, TRUE)>> ELSE <<>>)
ExtEdits(T, leaf) == IF T \in NoExt THEN <<>> ELSE
  [i \in 1..Len(AnyVals) |-> Ed("set", "x-new", "ext", AnyVals[i], <<Ch("A", <<"x-new">>, "", Text(AnyVals[i]), FALSE)>>, TRUE)]
  \o [i \in 1..Len(OddAnys) |-> Ed("set", "x-new", "ext", OddAnys[i], <<>>, FALSE)]
  \o (IF HasKey(leaf, XKey) THEN <<Ed("del", XKey, "ext", None, <<Ch("R", <<XKey>>, "", "", FALSE)>>, TRUE),
        Ed("set", XKey, "ext", StrN("other"), <<Ch("M", <<XKey>>, "", "other", FALSE)>>, TRUE), Ed("set", XKey, "ext", MapN(<<"a">>, <<IntN(2)>>), <<Ch("M", <<XKey>>, "", "", FALSE)>>, TRUE),
        Ed("set", XKey, "ext", MapN(<<"b">>, <<IntN(1)>>), <<Ch("M", <<XKey>>, "", "", FALSE)>>, TRUE)>> ELSE <<>>)
Reverse2(leaf) == [leaf EXCEPT !.k = Tup([i \in 1..Len(leaf.k) |-> leaf.k[Len(leaf.k) + 1 - i]]), !.c = Tup([i \in 1..Len(leaf.c) |-> leaf.c[Len(leaf.c) + 1 - i]])]
Edits(ver, T, leaf) ==
  LET fs == FieldsAt(T, Lvl(ver)) IN
  FlattenSeq([i \in 1..Len(fs) |-> IF fs[i].n = "" THEN SelfEdits(T, fs[i], leaf) ELSE FieldEdits(T, fs[i], leaf, Lvl(ver))]) \o ExtEdits(T, leaf)
ApplyEd(leaf, e) == IF e.op = "set" THEN SetKey(leaf, e.key, e.v) ELSE DelKey(leaf, e.key)

\* the value of one field standing under another field of the same kind says something else
Movable(T, f, leaf) == f.n # "" /\ HasKey(leaf, f.n) /\ f.n \notin Required(T)
MovesOf(ver, T, leaf) ==
  LET fs == SelectSeq(FieldsAt(T, Lvl(ver)), LAMBDA f : Movable(T, f, leaf))
      nx == Tup([i \in 1..Len(fs) |-> SelectSeq(SubSeq(fs, i+1, Len(fs)), LAMBDA g : g.k = fs[i].k /\ g.t = fs[i].t)])
      is == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : Len(nx[i]) > 0)
  IN Tup([i \in 1..Len(is) |-> [from |-> fs[is[i]].n, to |-> nx[is[i]][1].n]])
Moved(leaf, m) == LET l == DelKey(leaf, m.to) IN <<l, SetKey(DelKey(l, m.from), m.to, Child(l, m.from))>>
\* ------------------------------------------------------------ the machine
RootEdge(ver) == [p |-> "", f |-> F("", "root", Root(ver), 0)]
AllEdges(ver) == <<RootEdge(ver)>> \o EdgesAt[ver]
WayOf(ver, e) == IF e.p = "" THEN <<>> ELSE Append(WayTo(ver, e.p), e)
ObjsOf(s) == [leaf |-> LeafOf(s.ver, s.e.f.t, s.base), way |-> WayOf(s.ver, s.e)]
DocOf(s, leaf) == LET d == Wrap(s.ver, WayOf(s.ver, s.e), leaf, s.base = "rich") IN IF s.base \in {"ref", "refsib"} THEN WithTarget(s.ver, s.e.f.t, d) ELSE d
Init == st = [ph |-> "init", n |-> 0]
Open == /\ st.ph = "init"
        /\ \E v \in Versions : \E i \in 1..Len(AllEdges(v)) : \E b \in Bases :
             (b \in {"ref", "refsib"} => RefAble(v, AllEdges(v)[i], b)) /\ st' = [ph |-> "doc", ver |-> v, e |-> AllEdges(v)[i], base |-> b]
\* one line per document: the description, where the object is, and its edits with the expected reports
FewEdits(all) == LET firsts == SelectSeq([i \in 1..Len(all) |-> i], LAMBDA i : all[i].q /\ (all[i].op = "del" \/ \A j \in 1..(i-1) : all[j].key # all[i].key))
                 IN Tup([i \in 1..Len(firsts) |-> all[firsts[i]]])
\* a security scheme is compared where it is kept and where it is referred to
AtUses(T, eds) == IF T # "SecurityScheme" THEN eds ELSE Tup([i \in 1..Len(eds) |-> [eds[i] EXCEPT !.r = Tup([j \in 1..Len(eds[i].r) |-> [eds[i].r[j] EXCEPT !.m = TRUE]])]])
DocLine(s) == LET o == ObjsOf(s)  leaf == o.leaf  all == Edits(s.ver, s.e.f.t, leaf)
                 eds == IF s.base = "refsib" THEN <<>> ELSE IF s.base = "ref" THEN AtUses(s.e.f.t, FewEdits(Edits(s.ver, s.e.f.t, Base(s.e.f.t)))) ELSE IF s.base = "clash" THEN FewEdits(all) ELSE all IN
   [ver |-> s.ver, t |-> s.e.f.t, base |-> s.base, at |-> AddrOf(o.way), eat |-> IF s.base = "ref" THEN TargetAddr(s.ver, s.e.f.t) ELSE AddrOf(o.way), types |-> [i \in 1..Len(o.way) |-> o.way[i].p], cmp |-> Compared(o.way), tcmp |-> Section(s.e.f.t) \in {"schemas", "securitySchemes", "definitions", "securityDefinitions"}, doc |-> DocOf(s, leaf), edits |-> eds,
    moves |-> IF s.base = "rich" THEN MovesOf(s.ver, s.e.f.t, leaf) ELSE <<>>]
Show == /\ st.ph = "doc" /\ (EmitDocs => Emit(DocLine(st)))
        /\ st' = [st EXCEPT !.ph = "shown"]
Edit == /\ st.ph = "shown" /\ WithEdits
        /\ \E i \in 1..Len(Edits(st.ver, st.e.f.t, ObjsOf(st).leaf)) :
             st' = [ph |-> "edited", ver |-> st.ver, e |-> st.e, base |-> st.base, ed |-> Edits(st.ver, st.e.f.t, ObjsOf(st).leaf)[i]]
Next == Open \/ Show \/ Edit
Spec == Init /\ [][Next]_st
\* ------------------------------------------------------------ checked on the specification
RECURSIVE At(_, _)
At(x, p) == IF p = <<>> THEN x ELSE At(IF x.t = "seq" THEN x.c[1] ELSE Child(x, p[1]), Tail(p))
\* an edit is visible exactly at the object it belongs to, and can be undone
EditSane == st.ph = "edited" => LET o == ObjsOf(st)  l2 == ApplyEd(o.leaf, st.ed)  d2 == DocOf(st, l2) IN
    /\ At(d2, AddrOf(o.way)) = l2
    /\ ~SameContent(l2, o.leaf)
    /\ LET back == IF HasKey(o.leaf, st.ed.key) THEN SetKey(l2, st.ed.key, Child(o.leaf, st.ed.key)) ELSE DelKey(l2, st.ed.key) IN SameContent(back, o.leaf)
    /\ st.ed.q => st.ed.r # <<>> \/ (st.e.f.t \in {"Components", "Swagger", "Document"} /\ st.ed.kind \in {"map", "obj"})
\* what is moved is not the same as what was
MoveSane == st.ph = "shown" /\ st.base = "rich" => LET o == ObjsOf(st)  ms == MovesOf(st.ver, st.e.f.t, o.leaf) IN
    \A i \in 1..Len(ms) : ~SameContent(Moved(o.leaf, ms[i])[1], Moved(o.leaf, ms[i])[2])
=============================================================================
