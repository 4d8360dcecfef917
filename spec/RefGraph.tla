------------------------------ MODULE RefGraph ------------------------------
(* Description files joined by references: what every reference designates.  *)
(*                                                                           *)
(* A file set is a sequence of files (host, path, form) and a sequence of    *)
(* positions.  A position is a place where an OpenAPI object of a kind can   *)
(* stand: a definition of a file, or a slot of another object.  It holds     *)
(* either an object of its own or nothing but a reference.  The generator    *)
(* grows the set object by object (Start, Fill), then gives each reference   *)
(* its target and one of the spellings that designate it (Link); what a      *)
(* spelling designates is stated separately (Designates: RFC 3986 path       *)
(* merging on segments, RFC 6901 pointers walked in the real document tree)  *)
(* and TLC checks that the two agree for every reference emitted.            *)
EXTENDS Tree, Randomization
CONSTANTS MaxPos,        \* positions in one file set
          Dangle,        \* allow references that designate nothing
          Cycles,        \* allow schemas that refer back to themselves
          Hosts,         \* subset of {"fs","web","mixed"}
          Weird,         \* names that need escaping
          Deep,          \* refer to parts of definitions, not only to whole ones
          Forms,         \* which forms of files ("doc", "defs", "top", "whole")
          Chains,        \* a definition may be nothing but a reference
          Hash           \* a file that is one object refers to itself as "#"

VARIABLES phase, ver, mode, files, pos, todo, links
vars == <<phase, ver, mode, files, pos, todo, links>>

(* ---- the tables ---- *)
FileTable == <<
  [path |-> <<"a.yaml">>, form |-> "defs"],
  [path |-> <<"sub", "b.yaml">>, form |-> "defs"],
  [path |-> <<"sub", "a.yaml">>, form |-> "top"],
  [path |-> <<"sub", "deep", "c.json">>, form |-> "doc"],
  [path |-> <<"lib", "d.yaml">>, form |-> "doc"],
  [path |-> <<"sub", "w.yaml">>, form |-> "whole"],
  [path |-> <<"lib", "deep", "w.json">>, form |-> "whole"],
  [path |-> <<"sub", "deep", "a.yaml">>, form |-> "defs"],
  [path |-> <<"w.yaml">>, form |-> "whole"] >>
Section(k) == CASE k = "S" -> "schemas" [] k = "P" -> "parameters" [] k = "R" -> "responses" [] k = "H" -> "headers"
                [] k = "B" -> "requestBodies" [] k = "E" -> "examples" [] k = "L" -> "links" [] k = "C" -> "callbacks"
                [] k = "I" -> "pathItems" [] k = "Z" -> "securitySchemes"
AJ == "application/json"
Slots(k) ==
  CASE k = "S" -> << <<<<"properties","p">>,"S">>, <<<<"properties","q/r">>,"S">>, <<<<"items">>,"S">>, <<<<"allOf","0">>,"S">>, <<<<"allOf","1">>,"S">>,
                     <<<<"anyOf","0">>,"S">>, <<<<"oneOf","0">>,"S">>, <<<<"oneOf","1">>,"S">>, <<<<"not">>,"S">>, <<<<"additionalProperties">>,"S">> >>
                  \o (IF ver = "3.0.3" THEN <<>> ELSE
                  << <<<<"patternProperties","^x">>,"S">>, <<<<"$defs","d">>,"S">>, <<<<"prefixItems","0">>,"S">>, <<<<"if">>,"S">>, <<<<"then">>,"S">>, <<<<"else">>,"S">>,
                     <<<<"dependentSchemas","k">>,"S">>, <<<<"contains">>,"S">>, <<<<"propertyNames">>,"S">>, <<<<"unevaluatedItems">>,"S">>, <<<<"unevaluatedProperties">>,"S">> >>)
    [] k = "P" -> << <<<<"schema">>,"S">>, <<<<"content",AJ,"schema">>,"S">>, <<<<"examples","e">>,"E">> >>
    [] k = "H" -> << <<<<"schema">>,"S">>, <<<<"content",AJ,"schema">>,"S">>, <<<<"examples","e">>,"E">> >>
    [] k = "R" -> << <<<<"headers","X-h">>,"H">>, <<<<"content",AJ,"schema">>,"S">>, <<<<"content",AJ,"examples","e">>,"E">>, <<<<"links","l">>,"L">> >>
    [] k = "B" -> << <<<<"content",AJ,"schema">>,"S">>, <<<<"content",AJ,"examples","e">>,"E">>, <<<<"content","multipart/form-data","encoding","f","headers","h">>,"H">> >>
    [] k = "C" -> << <<<<"{$request.body#/u}">>,"I">> >>
    [] k = "I" -> << <<<<"parameters","0">>,"P">>, <<<<"get","parameters","0">>,"P">>, <<<<"post","requestBody">>,"B">>, <<<<"get","responses","200">>,"R">>,
                     <<<<"get","responses","default">>,"R">>, <<<<"post","callbacks","cb">>,"C">> >>
    [] OTHER -> <<>>
DefKinds == {"S","P","R","H","B","E","L","C","Z"} \cup (IF ver = "3.0.3" THEN {} ELSE {"I"})
DocNames == {"A", "B", "Pet", "a.b-c"}
FragNames == {"A", "B", "Pet", "a.b-c"} \cup (IF Weird THEN {"x/y", "t~u", "v~1w", "s p", "p%q", "{z}"} ELSE {})
PathNames == {"/a", "/b/{id}", "/c.d/e"}
\* RFC 6901 escapes, then RFC 3986 ones
EncJ(t) == CASE t = "x/y" -> "x~1y" [] t = "t~u" -> "t~0u" [] t = "v~1w" -> "v~01w" [] t = "p%q" -> "p%25q" [] t = "q/r" -> "q~1r" [] t = AJ -> "application~1json"
             [] t = "multipart/form-data" -> "multipart~1form-data" [] t = "/a" -> "~1a" [] t = "/b/{id}" -> "~1b~1{id}" [] t = "/c.d/e" -> "~1c.d~1e"
             [] t = "{$request.body#/u}" -> "{$request.body%23~1u}" [] OTHER -> t
EncP(t) == CASE t = "s p" -> "s%20p" [] t = "{z}" -> "%7Bz%7D" [] t = "/b/{id}" -> "~1b~1%7Bid%7D" [] t = "^x" -> "%5Ex" [] t = "$defs" -> "%24defs"
             [] t = "{$request.body#/u}" -> "%7B%24request.body%23~1u%7D" [] OTHER -> EncJ(t)

(* ---- positions ---- *)
Position(k, f, home, par, toks, alias) == [kind |-> k, file |-> f, home |-> Tup(home), par |-> par, toks |-> Tup(toks), alias |-> alias, tgt |-> 0, text |-> "", via |-> <<>>, depth |-> 0]
Kids(i) == {j \in 1..Len(pos) : pos[j].par = i}
RECURSIVE Reach(_, _)
Reach(front, seen) == IF front = {} THEN seen ELSE
   LET nx == (UNION {Kids(i) \cup (IF pos[i].tgt > 0 THEN {pos[i].tgt} ELSE {}) : i \in front}) \ seen IN Reach(nx, seen \cup nx)
ReachFrom(i) == Reach({i}, {i})
RECURSIVE Final(_, _)
Final(i, n) == IF ~pos[i].alias \/ n = 0 THEN i ELSE IF pos[i].tgt <= 0 THEN 0 ELSE Final(pos[i].tgt, n - 1)
Fin(i) == Final(i, 20)

(* ---- paths and pointers ---- *)
Dir(p) == SubSeq(p, 1, Len(p) - 1)
RECURSIVE Norm(_, _)
Norm(done, segs) == IF segs = <<>> THEN done ELSE LET s == Head(segs) IN
   IF s = "." THEN Norm(done, Tail(segs)) ELSE IF s = ".." THEN Norm(SubSeq(done, 1, Len(done) - 1), Tail(segs)) ELSE Norm(Append(done, s), Tail(segs))
RECURSIVE Common(_, _)
Common(a, b) == IF a # <<>> /\ b # <<>> /\ Head(a) = Head(b) THEN 1 + Common(Tail(a), Tail(b)) ELSE 0
Relative(from, to) == LET d == Dir(from) n == Common(d, Dir(to)) IN [i \in 1..(Len(d) - n) |-> ".."] \o SubSeq(to, n + 1, Len(to))
Join(segs) == IF segs = <<>> THEN "" ELSE FoldLeft(LAMBDA a, s : a \o "/" \o s, Head(segs), Tail(segs))
Pointer(toks, pct) == FoldLeft(LAMBDA a, t : a \o "/" \o (IF pct THEN EncP(t) ELSE EncJ(t)), "", toks)

RECURSIVE SetPath(_, _, _)
IsIdx(t) == t \in {"0", "1"}
SetPath(tree, toks, sub) == IF toks = <<>> THEN sub ELSE
   LET t == Head(toks)
       empty == IF Len(toks) > 1 /\ IsIdx(toks[2]) THEN SeqN(<<>>) ELSE MapN(<<>>, <<>>)
   IN IF tree.t = "seq" THEN [tree EXCEPT !.c = Append(@, SetPath(empty, Tail(toks), sub))]
      ELSE SetKey(tree, t, SetPath(IF HasKey(tree, t) THEN Child(tree, t) ELSE empty, Tail(toks), sub))
M1(k, v) == MapN(<<k>>, <<v>>)
Base(i) == LET k == pos[i].kind id == "n" \o ToString(i) IN
  CASE k = "S" -> MapN(<<"description">>, <<StrN(id)>>)
    [] k = "P" -> MapN(<<"name", "in">>, <<StrN(id), StrN("query")>>)
    [] k = "E" -> MapN(<<"summary", "value">>, <<StrN(id), StrN("v")>>)
    [] k = "Z" -> MapN(<<"type", "scheme">>, <<StrN("http"), StrN("basic")>>)
    [] k = "L" -> MapN(<<"operationId", "description">>, <<StrN("op"), StrN(id)>>)
    [] k = "B" -> MapN(<<"description">>, <<StrN(id)>>)
    [] k = "C" -> MapN(<<>>, <<>>)
    [] k = "I" -> MapN(<<"summary">>, <<StrN(id)>>)
    [] OTHER -> MapN(<<"description">>, <<StrN(id)>>)
RECURSIVE TreeOf(_)
TreeOf(i) == IF pos[i].alias THEN M1("$ref", StrN(pos[i].text)) ELSE
   LET ks == SetToSortSeq(Kids(i), LAMBDA a, b : a < b)
       t0 == FoldLeft(LAMBDA t, j : SetPath(t, pos[j].toks, TreeOf(j)), Base(i), ks)
   IN SetKey(t0, "x-id", StrN("n" \o ToString(i)))
FileTree(f) ==
   LET ds == SetToSortSeq({i \in 1..Len(pos) : pos[i].file = f /\ pos[i].par = 0}, LAMBDA a, b : a < b)
       b0 == IF files[f].form = "doc" THEN MapN(<<"openapi", "info", "paths">>, <<StrN(ver), MapN(<<"title", "version">>, <<StrN("t"), StrN("1")>>), MapN(<<>>, <<>>)>>)
             ELSE MapN(<<>>, <<>>)
   IN FoldLeft(LAMBDA t, i : SetPath(t, pos[i].home, TreeOf(i)), b0, ds)

(* ---- what a reference designates ---- *)
\* ref: [host, segs (<<>> for none), abs, toks, frag]; from the file it appears in
FileNamed(host, p) == {g \in 1..Len(files) : files[g].host = host /\ files[g].path = p}
RECURSIVE Walk(_, _)
Walk(tree, toks) == IF toks = <<>> THEN <<tree>> ELSE
   IF tree.t = "map" THEN (IF HasKey(tree, Head(toks)) THEN Walk(Child(tree, Head(toks)), Tail(toks)) ELSE <<>>)
   ELSE IF tree.t = "seq" /\ IsIdx(Head(toks)) THEN LET n == IF Head(toks) = "0" THEN 1 ELSE 2 IN IF n <= Len(tree.c) THEN Walk(tree.c[n], Tail(toks)) ELSE <<>>
   ELSE <<>>
Designates(from, via) ==
   LET g == IF via.segs = <<>> THEN {from} ELSE
            IF via.abs THEN FileNamed(via.host, Norm(<<>>, via.segs)) ELSE FileNamed(files[from].host, Norm(Dir(files[from].path), via.segs))
   IN IF g = {} THEN <<>> ELSE Walk(FileTree(CHOOSE x \in g : TRUE), via.toks)

IdxOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
(* ---- the generator ---- *)
Usable == {i \in 1..Len(FileTable) : FileTable[i].form \in Forms}
Min2(a, b) == IF a < b THEN a ELSE b
Coin(n) == RandomElement(1..n) = 1
Form(i) == FileTable[i].form
Init == phase = "start" /\ ver = "" /\ mode = "" /\ files = <<>> /\ pos = <<>> /\ todo = <<>> /\ links = <<>>
Start == /\ phase = "start" /\ phase' = "defs"
         /\ \E v \in {RandomElement({"3.0.3", "3.1.0", "3.1.1", "3.2.0"})} : ver' = v
         /\ \E m \in {RandomElement(Hosts)} : \E n \in {RandomElement(0..4)} : \E pick \in {RandomSubset(Min2(n, Cardinality(Usable)), Usable)} :
              /\ mode' = m
              /\ \E web \in {IF m = "mixed" THEN RandomSubset(IF n < 2 THEN n ELSE 2, pick) ELSE IF m = "web" THEN pick ELSE {}} :
                 files' = Tup(<<[path |-> <<"root.yaml">>, form |-> "doc", host |-> IF m = "web" THEN "w" ELSE "l"]>>
                           \o [i \in 1..Cardinality(pick) |-> LET x == SetToSortSeq(pick, LAMBDA a, b : a < b)[i] IN
                               [path |-> FileTable[x].path, form |-> FileTable[x].form, host |-> IF x \in web THEN "w" ELSE "l"]])
         /\ todo' = <<>> /\ UNCHANGED <<pos, links>>

\* one definition at a time
HomeFor(f, k, nm) == CASE files[f].form = "doc" -> <<"components", Section(k), nm>> [] files[f].form = "defs" -> <<"defs", nm>> [] files[f].form = "top" -> <<nm>> [] OTHER -> <<>>
Taken(f, h) == \E i \in 1..Len(pos) : pos[i].file = f /\ pos[i].home = h
AddPos(p) == pos' = Append(pos, p) /\ todo' = (IF p.alias THEN todo ELSE Append(todo, Len(pos) + 1))
NDefs == Cardinality({i \in 1..Len(pos) : pos[i].par = 0})
Def == /\ phase = "defs"
       /\ \E stop \in {NDefs >= Len(files) * 2 \/ Len(pos) >= MaxPos} :
          IF stop THEN phase' = "fill" /\ UNCHANGED <<pos, todo>> ELSE
          /\ phase' = phase
          /\ \E f \in {IF NDefs < Len(files) THEN NDefs + 1 ELSE RandomElement(1..Len(files))} :
             \E k \in {IF f = 1 /\ Coin(2) THEN "I" ELSE IF Coin(3) THEN "S" ELSE RandomElement(DefKinds)} :
             \E nm \in {RandomElement(IF files[f].form = "doc" THEN DocNames ELSE FragNames)} : \E pn \in {RandomElement(PathNames)} :
             \E h \in {IF k = "I" /\ files[f].form = "doc" /\ (ver = "3.0.3" \/ pn # "/a") THEN <<"paths", pn>> ELSE HomeFor(f, k, nm)} :
               IF Taken(f, h) \/ (files[f].form = "whole" /\ \E i \in 1..Len(pos) : pos[i].file = f)
               THEN (IF Coin(6) THEN pos' = Append(pos, Position("L", 1, <<"components", "links", "z" \o ToString(Len(pos))>>, 0, <<>>, FALSE)) ELSE UNCHANGED pos) /\ UNCHANGED todo
               ELSE \E al \in {files[f].form # "whole" /\ Coin(4) /\ Chains} : AddPos(Position(k, f, h, 0, <<>>, al))
       /\ UNCHANGED <<ver, mode, files, links>>

\* give the next object its slots
OK1(S) == {s \in S : s[1][Len(s[1])] # "1" \/ \E r \in S : r[1] = [s[1] EXCEPT ![Len(s[1])] = "0"]}
Fill == /\ phase = "fill"
        /\ IF todo = <<>> THEN phase' = "link" /\ links' = Tup(SetToSortSeq({i \in 1..Len(pos) : pos[i].alias}, LAMBDA a, b : a < b)) /\ UNCHANGED <<pos, todo>> ELSE
           LET i == Head(todo) sl == Slots(pos[i].kind) IN
           /\ phase' = phase /\ UNCHANGED links
           /\ \E n \in {IF sl = <<>> \/ Len(pos) >= MaxPos THEN 0 ELSE IF pos[i].depth >= 3 THEN RandomElement(0..1) ELSE RandomElement(0..3)} :
              \E S \in {OK1(RandomSubset(IF n > Len(sl) THEN Len(sl) ELSE n, Range(sl)))} :
              \E ss \in {SetToSortSeq(S, LAMBDA a, b : IdxOf(sl, a) < IdxOf(sl, b))} :
              \E new \in {Tup([j \in 1..Len(ss) |-> [Position(ss[j][2], pos[i].file, pos[i].home \o ss[j][1], i, ss[j][1], RandomElement(1..10) <= 6) EXCEPT !.depth = pos[i].depth + 1]])} :
                /\ pos' = pos \o new
                /\ todo' = Tail(todo) \o SelectSeq([j \in 1..Len(new) |-> Len(pos) + j], LAMBDA x : ~new[x - Len(pos)].alias)
        /\ UNCHANGED <<ver, mode, files>>

\* a target and a spelling for the next reference
RECURSIVE Chain(_, _)
Chain(t, n) == IF ~pos[t].alias \/ pos[t].tgt <= 0 \/ n = 0 THEN {t} ELSE {t} \cup Chain(pos[t].tgt, n - 1)
MayTarget(a, t) ==
   /\ t # a /\ pos[t].kind = pos[a].kind /\ (Deep \/ (pos[t].par = 0 /\ (pos[t].home = <<>> \/ pos[t].home[1] # "paths")))
   /\ (files[pos[a].file].host = "w" => files[pos[t].file].host = "w")
   /\ IF Cycles /\ pos[a].kind = "S" THEN ~(a \in Chain(t, 20)) ELSE ~(a \in ReachFrom(t))
Spellings(a, t) ==
  LET ff == pos[a].file ft == pos[t].file pf == files[ff].path pt == files[ft].path
      rel == Relative(pf, pt) d == Dir(pf) IN
  IF files[ff].host # files[ft].host THEN {[abs |-> TRUE, segs |-> pt]} ELSE
  \* a relative path that begins with the name of the directory it is used in is read leniently at a URL (the name may
  \* be meant to be that directory), so such a spelling designates one place only in a file system
  LET Plain(x) == files[ff].host = "l" \/ x.abs \/ d = <<>> \/ Head(x.segs) # d[Len(d)] IN
  {x \in {[abs |-> FALSE, segs |-> Tup(rel)], [abs |-> FALSE, segs |-> Tup(<<".">> \o rel)], [abs |-> FALSE, segs |-> Tup(<<"deep", "..">> \o rel)], [abs |-> TRUE, segs |-> pt]}
  \cup (IF d = <<>> THEN {} ELSE {[abs |-> FALSE, segs |-> Tup(<<"..", d[Len(d)]>> \o rel)]}) : Plain(x)}
Spelled(v) == (IF v.segs = <<>> THEN "" ELSE IF v.abs THEN (IF v.host = "w" THEN "{W}/" ELSE "{L}/") \o Join(v.segs) ELSE Join(v.segs))
           \o (IF v.toks = <<>> THEN (IF v.segs = <<>> THEN "#" ELSE "") ELSE "#" \o Pointer(v.toks, v.pct))
Link == /\ phase = "link"
        /\ IF links = <<>> THEN phase' = "done" /\ UNCHANGED <<pos, links>> ELSE
           LET a == Head(links) cand == {t \in 1..Len(pos) : MayTarget(a, t)} IN
           /\ phase' = phase /\ links' = Tail(links)
           /\ \E bad \in {IF Dangle /\ Coin(14) THEN RandomElement(1..3) ELSE 0} :
              IF cand = {} /\ bad # 1 THEN pos' = [pos EXCEPT ![a].alias = FALSE] ELSE
              \E far \in {{t \in cand : pos[t].file # pos[a].file}} :
              \E t \in {IF cand = {} THEN 1 ELSE IF far # {} /\ Coin(2) THEN RandomElement(far) ELSE RandomElement(cand)} :
              \E sp \in {IF pos[t].file = pos[a].file /\ (Hash \/ pos[t].home # <<>>) /\ ~Coin(4) THEN [abs |-> FALSE, segs |-> <<>>] ELSE
                         IF files[pos[t].file].host = files[pos[a].file].host /\ Coin(2) THEN [abs |-> FALSE, segs |-> Tup(Relative(files[pos[a].file].path, files[pos[t].file].path))]
                         ELSE RandomElement(Spellings(a, t))} :
              \E v \in {[host |-> files[pos[t].file].host, abs |-> sp.abs, pct |-> Coin(4),
                         segs |-> IF bad = 1 THEN Append(Dir(sp.segs), "nope.yaml") ELSE sp.segs,
                         toks |-> IF bad = 2 THEN Append(IF pos[t].home = <<>> THEN <<>> ELSE Dir(pos[t].home), "Zzz") ELSE IF bad = 3 THEN Append(pos[t].home, "zz") ELSE pos[t].home]} :
                pos' = [pos EXCEPT ![a].tgt = IF bad = 0 THEN t ELSE -1, ![a].via = <<v>>, ![a].text = Spelled(v)]
        /\ UNCHANGED <<ver, mode, files, todo>>

(* ---- what must come out ---- *)
\* files read when everything the root needs is followed
RECURSIVE Loaded(_, _)
Needs(f) == {pos[pos[i].tgt].file : i \in {j \in 1..Len(pos) : pos[j].file = f /\ pos[j].alias /\ pos[j].tgt > 0}}
Loaded(front, seen) == IF front = {} THEN seen ELSE LET nx == (UNION {Needs(f) : f \in front}) \ seen IN Loaded(nx, seen \cup nx)
Edges(i) == LET ks == SetToSortSeq(Kids(i), LAMBDA a, b : a < b) IN Tup([j \in 1..Len(ks) |-> [addr |-> pos[ks[j]].toks, id |-> Fin(ks[j]), p |-> ks[j]]])
RootEntries == LET ds == SetToSortSeq({i \in 1..Len(pos) : pos[i].file = 1 /\ pos[i].par = 0}, LAMBDA a, b : a < b) IN Tup([j \in 1..Len(ds) |-> [addr |-> pos[ds[j]].home, id |-> Fin(ds[j]), p |-> ds[j]]])
\* references on a cycle: none, only references between components of the root document, or others as well
Looping == {i \in 1..Len(pos) : pos[i].alias /\ pos[i].tgt > 0 /\ pos[i].file \in Loaded({1}, {1}) /\ i \in ReachFrom(pos[i].tgt)}
Component(h) == Len(h) = 3 /\ h[1] = "components"
Loops == IF Looping = {} THEN "none" ELSE
         IF \A i \in {j \in 1..Len(pos) : pos[j].alias /\ pos[j].tgt > 0 /\ pos[j].file \in Loaded({1}, {1}) /\ ReachFrom(pos[j].tgt) \cap Looping # {}} : pos[i].file = 1 /\ pos[i].via[1].segs = <<>> /\ Component(pos[pos[i].tgt].home) THEN "local" ELSE "other"
Vector == LET ld == Loaded({1}, {1}) IN
  [ver |-> ver, mode |-> mode, loops |-> Loops,
   files |-> Tup([f \in 1..Len(files) |-> [host |-> files[f].host, path |-> Join(files[f].path), loaded |-> f \in ld, tree |-> FileTree(f)]]),
   nodes |-> Tup([i \in 1..Len(pos) |-> [kind |-> pos[i].kind, edges |-> IF pos[i].alias THEN <<>> ELSE Edges(i)]]),
   entries |-> RootEntries,
   refs |-> LET rs == SetToSortSeq({i \in 1..Len(pos) : pos[i].alias}, LAMBDA a, b : a < b) IN
            Tup([j \in 1..Len(rs) |-> [id |-> rs[j], file |-> pos[rs[j]].file, text |-> pos[rs[j]].text, tgt |-> pos[rs[j]].tgt, tfile |-> IF pos[rs[j]].tgt > 0 THEN pos[pos[rs[j]].tgt].file ELSE 0,
                                    toks |-> pos[rs[j]].via[1].toks]])]
Done == phase = "done" /\ phase' = "end" /\ Emit(Vector) /\ UNCHANGED <<ver, mode, files, pos, todo, links>>
Next == Start \/ Def \/ Fill \/ Link \/ Done
Spec == Init /\ [][Next]_vars

(* ---- checked by TLC on every file set ---- *)
\* the spelling chosen for a reference designates exactly its target, and a dangling one designates nothing
Agree == phase = "done" => \A i \in 1..Len(pos) : pos[i].alias =>
   LET d == Designates(pos[i].file, pos[i].via[1]) IN
   IF pos[i].tgt > 0 THEN Len(d) = 1 /\ d[1] = TreeOf(pos[i].tgt) ELSE d = <<>>
\* following references from a resolvable position always ends at an object
Ends == phase = "done" => \A i \in 1..Len(pos) : Fin(i) = 0 \/ ~pos[Fin(i)].alias
=============================================================================
