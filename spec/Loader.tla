------------------------------- MODULE Loader -------------------------------
(* Concurrent loading of files: openers look a location up, reserve it,     *)
(* look again, fetch, publish, release those who wait for the fetch, and     *)
(* then index the file, which opens the files it refers to.  Whoever needs   *)
(* the index of a file that another opener is indexing waits for it, unless  *)
(* that indexing (directly or not) waits for a file the opener itself is in  *)
(* the middle of indexing.  Mode "all" explores every interleaving; mode     *)
(* "replay" lets the environment (who opens what, when and how fetches end)  *)
(* act only when nothing else can move, and emits the observable history.    *)
EXTENDS VIO, Integers
CONSTANTS P, L, MaxOps, MaxAtt, Mode, RefLen
VARIABLES refs, kind, stack, proc, files, rel, ixd, waits, att, oks, ops, res, script, phase, tied
vars == <<refs, kind, stack, proc, files, rel, ixd, waits, att, oks, ops, res, script, phase, tied>>
\* good: a fetch succeeds; flaky: the environment decides every time; dead: a fetch fails at once
Kinds == {"good", "flaky", "dead"}
Referred == UNION {{refs[l][i] : i \in DOMAIN refs[l]} : l \in L}
Init == /\ refs = [l \in L |-> <<>>] /\ kind = [l \in L |-> "good"] /\ stack = [p \in P |-> <<>>] /\ proc = [l \in L |-> 0]
        /\ files = {} /\ rel = [l \in L |-> <<>>] /\ ixd = {} /\ waits = {} /\ att = [l \in L |-> 0] /\ oks = [l \in L |-> 0]
        /\ ops = [p \in P |-> 0] /\ res = <<>> /\ script = <<>> /\ phase = "gen" /\ tied = 0
RSeq == IF Mode = "all" THEN SeqsUpTo(L, RefLen) ELSE {[i \in 1..Pick(0..RefLen) |-> Pick(L)]}
Gen == /\ phase = "gen" /\ phase' = "run"
       /\ IF Mode = "all"
          THEN /\ refs' \in [L -> SeqsUpTo(L, RefLen)]
               /\ kind' \in [L -> Kinds]
               /\ \A l \in L : kind'[l] = "flaky" => \A m \in L : \A i \in DOMAIN refs'[m] : refs'[m][i] # l
          ELSE \E f \in {[l \in L |-> Pick({"good", "good", "flaky", "dead"})]} :
               /\ kind' = f
               /\ refs' = [l \in L |-> SelectSeq([i \in 1..Pick(0..RefLen) |-> Pick(L)], LAMBDA m : f[m] # "flaky")]
       /\ UNCHANGED <<stack, proc, files, rel, ixd, waits, att, oks, ops, res, script, tied>>
Top(p) == stack[p][Len(stack[p])]
Active(p) == stack[p] # <<>>
At(p, st) == phase = "run" /\ Active(p) /\ Top(p).st = st
Set(p, f) == [stack EXCEPT ![p] = Append(SubSeq(stack[p], 1, Len(stack[p]) - 1), f)]
Frame(l) == [l |-> l, st |-> "lookup", i |-> 1, tok |-> 0]
Held(s) == {s[k].l : k \in 1..Len(s)}
\* what waits (directly or not) for whom: from location l
RECURSIVE Reach(_, _)
Reach(S, w) == LET T == S \cup {e[3] : e \in {x \in w : x[2] \in S}} IN IF T = S THEN S ELSE Reach(T, w)
\* an open of location l by p ends with r; w and ix are the waits and indexed files by then
Return(p, l, r, ix) ==
  LET up == SubSeq(stack[p], 1, Len(stack[p]) - 1) IN
  IF up = <<>> THEN /\ stack' = [stack EXCEPT ![p] = <<>>] /\ res' = Append(res, [p |-> p, l |-> l, r |-> r]) /\ UNCHANGED <<waits, tied>>
  ELSE /\ UNCHANGED res
       /\ LET par == up[Len(up)]
              held == Held(up)
          IN IF r = "err" \/ l \in ix \/ l \in held \/ (Reach({l}, waits) \cap held) # {}
             THEN /\ stack' = [stack EXCEPT ![p] = up] /\ UNCHANGED waits
                  \* whoever comes second does not wait: both came after the same step of the environment, so it may be either
                  /\ tied' = IF tied = 0 /\ Mode = "replay" /\ r = "file" /\ l \notin ix /\ l \notin held /\ (\E w \in waits : w[4] = Len(script)) THEN Len(script) ELSE tied
             ELSE /\ stack' = [stack EXCEPT ![p] = Append(SubSeq(up, 1, Len(up) - 1), [par EXCEPT !.st = "iwait", !.tok = l])]
                  /\ waits' = waits \cup {<<p, h, l, Len(script)>> : h \in held} /\ UNCHANGED tied
Keep == UNCHANGED <<refs, kind, script, phase, ops>>
Lookup(p) == /\ At(p, "lookup") /\ Keep /\ UNCHANGED <<proc, files, rel, ixd, att, oks>>
             /\ IF Top(p).l \in files THEN Return(p, Top(p).l, "file", ixd)
                ELSE stack' = Set(p, [Top(p) EXCEPT !.st = "reserve"]) /\ UNCHANGED <<res, waits, tied>>
Reserve(p) == /\ At(p, "reserve") /\ Keep /\ UNCHANGED <<files, rel, ixd, att, oks, res, waits, tied>>
              /\ LET l == Top(p).l IN
                 IF proc[l] = 0 THEN proc' = [proc EXCEPT ![l] = p] /\ stack' = Set(p, [Top(p) EXCEPT !.st = "recheck"])
                 ELSE UNCHANGED proc /\ stack' = Set(p, [Top(p) EXCEPT !.st = "wait", !.tok = Len(rel[l]) + 1])
Recheck(p) == /\ At(p, "recheck") /\ Keep /\ UNCHANGED <<files, ixd, oks>>
              /\ LET l == Top(p).l IN
                 IF l \in files THEN rel' = [rel EXCEPT ![l] = Append(@, "file")] /\ proc' = [proc EXCEPT ![l] = 0] /\ Return(p, l, "file", ixd) /\ UNCHANGED att
                 ELSE UNCHANGED <<rel, proc, res, waits, tied>> /\ att' = [att EXCEPT ![l] = @ + 1] /\ stack' = Set(p, [Top(p) EXCEPT !.st = "fetching"])
Fail(p) == LET l == Top(p).l IN rel' = [rel EXCEPT ![l] = Append(@, "err")] /\ proc' = [proc EXCEPT ![l] = 0] /\ Return(p, l, "err", ixd) /\ UNCHANGED <<files, ixd, oks, att>>
FailDead(p) == At(p, "fetching") /\ kind[Top(p).l] = "dead" /\ Keep /\ Fail(p)
Succeed(p) == LET l == Top(p).l IN /\ files' = files \cup {l} /\ rel' = [rel EXCEPT ![l] = Append(@, "file")] /\ proc' = [proc EXCEPT ![l] = 0]
                                   /\ oks' = [oks EXCEPT ![l] = @ + 1] /\ stack' = Set(p, [Top(p) EXCEPT !.st = "index"]) /\ UNCHANGED <<ixd, att, res, waits, tied>>
Wake(p) == /\ At(p, "wait") /\ Len(rel[Top(p).l]) >= Top(p).tok /\ Keep /\ UNCHANGED <<proc, files, rel, ixd, att, oks>>
           /\ Return(p, Top(p).l, rel[Top(p).l][Top(p).tok], ixd)
Index(p) == /\ At(p, "index") /\ Keep /\ UNCHANGED <<proc, files, rel, att, oks>>
            /\ LET t == Top(p) IN
               IF t.i > Len(refs[t.l]) THEN ixd' = ixd \cup {t.l} /\ Return(p, t.l, "file", ixd \cup {t.l})
               ELSE /\ UNCHANGED <<ixd, res, waits, tied>>
                    /\ stack' = [stack EXCEPT ![p] = Append(SubSeq(@, 1, Len(@) - 1), [t EXCEPT !.i = @ + 1]) \o <<Frame(refs[t.l][t.i])>>]
IWake(p) == /\ At(p, "iwait") /\ Top(p).tok \in ixd /\ Keep /\ UNCHANGED <<proc, files, rel, ixd, att, oks, res, tied>>
            /\ waits' = {w \in waits : w[1] # p} /\ stack' = Set(p, [Top(p) EXCEPT !.st = "index"])
Internal(p) == Lookup(p) \/ Reserve(p) \/ Recheck(p) \/ FailDead(p) \/ Wake(p) \/ Index(p) \/ IWake(p)
\* nothing moves by itself
Quiet == \A p \in P : Active(p) => \/ Top(p).st = "fetching" /\ kind[Top(p).l] # "dead"
                                   \/ Top(p).st = "wait" /\ Len(rel[Top(p).l]) < Top(p).tok
                                   \/ Top(p).st = "iwait" /\ Top(p).tok \notin ixd
May == Mode = "all" \/ Quiet
InFlight == {l \in L : \E p \in P : Active(p) /\ Top(p).l = l /\ Top(p).st = "fetching"}
Obs == [fly |-> InFlight, done |-> {[p |-> p, n |-> Cardinality({i \in DOMAIN res : res[i].p = p})] : p \in P}]
Note(ev) == script' = IF Mode = "all" THEN <<>> ELSE Append(script, [ev |-> ev, before |-> Obs])
Start(p, l) == /\ phase = "run" /\ May /\ ~Active(p) /\ ops[p] < MaxOps
               /\ ops' = [ops EXCEPT ![p] = @ + 1] /\ stack' = [stack EXCEPT ![p] = <<Frame(l)>>] /\ Note([do |-> "open", p |-> p, l |-> l, out |-> ""])
               /\ UNCHANGED <<refs, kind, proc, files, rel, ixd, waits, att, oks, res, phase, tied>>
Finish(p, out) == /\ At(p, "fetching") /\ May /\ kind[Top(p).l] # "dead" /\ (out # "ok" => kind[Top(p).l] = "flaky" /\ att[Top(p).l] <= MaxAtt)
                  /\ IF out = "ok" THEN Succeed(p) ELSE Fail(p)
                  /\ Note([do |-> "finish", p |-> p, l |-> Top(p).l, out |-> out]) /\ UNCHANGED <<refs, kind, ops, phase>>
AllDone == \A p \in P : ~Active(p) /\ ops[p] = MaxOps
Outs == IF Mode = "all" THEN {"ok", "err"} ELSE {"ok", "err", "status", "body", "nil"}
Out == /\ phase = "run" /\ AllDone /\ phase' = "end"
       /\ (Mode = "replay" => Emit([refs |-> [l \in L |-> refs[l]], kind |-> kind, script |-> script, after |-> Obs, res |-> res, oks |-> oks, tied |-> tied]))
       /\ UNCHANGED <<refs, kind, stack, proc, files, rel, ixd, waits, att, oks, ops, res, script, tied>>
Next == Gen \/ Out \/ (\E p \in P : Internal(p) \/ (\E l \in L : Start(p, l)) \/ (\E o \in Outs : Finish(p, o)))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* openers keep moving and every fetch ends
Fair == Spec /\ \A p \in P : WF_vars(Internal(p)) /\ WF_vars(\E o \in Outs : Finish(p, o)) /\ WF_vars(\E l \in L : Start(p, l))

AtMostOnce == \A l \in L : oks[l] <= 1
OneInFlight == \A p, q \in P : p # q /\ Active(p) /\ Active(q) /\ Top(p).l = Top(q).l => ~(Top(p).st = "fetching" /\ Top(q).st = "fetching")
\* what an opener is handed is there; an error comes from a location that can fail
Sound == \A i \in DOMAIN res : IF res[i].r = "file" THEN res[i].l \in files ELSE kind[res[i].l] # "good"
\* nobody waits for ever: while anyone is active, somebody can move or some fetch is under way
NoDeadlock == phase = "run" /\ (\E p \in P : Active(p)) => ENABLED (\E p \in P : Internal(p)) \/ InFlight # {}
Ends == <>(phase = "end")
=============================================================================
