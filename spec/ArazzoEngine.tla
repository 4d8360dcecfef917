---------------------------- MODULE ArazzoEngine ----------------------------
(***************************************************************************)
(* The Arazzo workflow engine as an explicit state machine.                *)
(*                                                                         *)
(* State: a program (workflows, steps, actions), a stack of workflow       *)
(* frames, the contexts visible to expressions, and the observable history *)
(* (requests handed to the executor, sleeps, results).  One TLA+ action    *)
(* per engine decision: pick the next workflow in dependency order, refuse *)
(* it because of a dependency, execute an operation step (environment      *)
(* chooses the response), call a sub-workflow, select an action, finish.   *)
(*                                                                         *)
(* Every terminal state is emitted as a vector (program, responses,        *)
(* expected history) which the Go harness replays on the real engine.      *)
(***************************************************************************)
EXTENDS VIO, Integers

CONSTANTS MaxTrans,   \* step transitions allowed in one workflow activation
          MaxDepth,   \* nesting of workflow activations
          GenMode,    \* "random" (simulation), "tiny" (exhaustive), "loop"/"deep" (limits)
          MaxCalls    \* environment answers at most this many calls nondeterministically

VARIABLES prog, stack, res, qi, runlog, calls, sleeps, script, cancelled, phase

vars == <<prog, stack, res, qi, runlog, calls, sleeps, script, cancelled, phase>>

WfIds == <<"wa", "wb", "wc">>
StepIds == <<"s1", "s2", "s3">>

---------------------------------------------------------------------------
(* Conditions: evaluated against the current status code.                  *)
(* Result: "T", "F" or "E" (evaluation error).                             *)
CondVal(c, code) ==
  CASE c = "ok200"  -> IF code = 200 THEN "T" ELSE "F"
    [] c = "not500" -> IF code # 500 THEN "T" ELSE "F"
    [] c = "ge400"  -> IF code >= 400 THEN "T" ELSE "F"
    [] c = "lt400"  -> IF code < 400 THEN "T" ELSE "F"
    [] c = "true"   -> "T"
    [] c = "false"  -> "F"
    [] c = "err"    -> "E"

RECURSIVE FirstBad(_, _, _)
FirstBad(cs, code, i) == IF i > Len(cs) THEN 0
                         ELSE IF CondVal(cs[i], code) # "T" THEN i ELSE FirstBad(cs, code, i+1)

\* all criteria of an action: conjunction, short-circuit; "T","F","E"
RECURSIVE CritsVal(_, _, _)
CritsVal(cs, code, i) == IF i > Len(cs) THEN "T"
                         ELSE LET v == CondVal(cs[i], code) IN IF v = "T" THEN CritsVal(cs, code, i+1) ELSE v

\* first matching action in a list: <<"none">>, <<"err">> or <<"act", a>>
RECURSIVE FindAct(_, _, _)
FindAct(as, code, i) ==
  IF i > Len(as) THEN <<"none">>
  ELSE LET a == as[i] v == IF a.ref = "ghost" THEN "E" ELSE CritsVal(a.crit, code, 1)
       IN CASE v = "T" -> <<"act", a>> [] v = "E" -> <<IF a.ref = "ghost" THEN "unrescomp" ELSE "err">> [] OTHER -> FindAct(as, code, i+1)

SelectAct(stepActs, wfActs, code) ==
  LET s == FindAct(stepActs, code, 1) IN IF s[1] # "none" THEN s ELSE FindAct(wfActs, code, 1)

---------------------------------------------------------------------------
WfByName(id) == IF \E i \in 1..Len(prog) : prog[i].id = id
                THEN prog[CHOOSE i \in 1..Len(prog) : prog[i].id = id] ELSE [id |-> ""]
StepIndex(w, sid) == IF \E i \in 1..Len(w.steps) : w.steps[i].id = sid
                     THEN CHOOSE i \in 1..Len(w.steps) : w.steps[i].id = sid ELSE 0

(* Kahn's algorithm, FIFO, document order; unknown dependencies ignored.   *)
Known == {prog[i].id : i \in 1..Len(prog)}
InDeg(id) == LET w == WfByName(id) IN Cardinality({j \in 1..Len(w.deps) : w.deps[j] \in Known})
RECURSIVE Kahn(_, _, _)
Kahn(queue, head, deg) ==
  IF head > Len(queue) THEN queue
  ELSE LET id == queue[head]
           \* every dependency edge id -> w, in document order (one per occurrence)
           edges == FlattenSeq([i \in 1..Len(prog) |->
                       [k \in 1..Cardinality({j \in 1..Len(prog[i].deps) : prog[i].deps[j] = id}) |-> prog[i].id]])
           step == FoldLeft(LAMBDA acc, w :
                      LET d == [acc[2] EXCEPT ![w] = @ - 1]
                      IN <<IF d[w] = 0 THEN Append(acc[1], w) ELSE acc[1], d>>, <<queue, deg>>, edges)
       IN Kahn(step[1], head + 1, step[2])
Order == LET q0 == SelectSeq([i \in 1..Len(prog) |-> prog[i].id], LAMBDA id : InDeg(id) = 0)
         IN Kahn(q0, 1, [id \in Known |-> InDeg(id)])
CyclicDeps == Len(Order) # Len(prog)

---------------------------------------------------------------------------
(* Expressions: outputs and parameters.  Values are integers; -1 = error.  *)
Lookup(pairs, k) == IF \E i \in 1..Len(pairs) : pairs[i][1] = k
                    THEN pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = k /\ \A j \in (i+1)..Len(pairs) : pairs[j][1] # k][2]
                    ELSE -1
InP(pairs, k) == \E i \in 1..Len(pairs) : pairs[i][1] = k
Put(pairs, k, v) == IF \E i \in 1..Len(pairs) : pairs[i][1] = k
                    THEN [i \in 1..Len(pairs) |-> IF pairs[i][1] = k THEN <<k, v>> ELSE pairs[i]]
                    ELSE Append(pairs, <<k, v>>)

\* src: [k |-> kind, a |-> name, b |-> name]
Eval(src, f) ==
  CASE src.k = "lit"    -> 7
    [] src.k = "in"     -> Lookup(f.inputs, src.a)
    [] src.k = "body"   -> f.body
    [] src.k = "status" -> f.code
    [] src.k = "url"    -> f.code * 10 + 1
    [] src.k = "hdr"    -> IF f.body = -1 THEN -1 ELSE f.body + 5000
    [] src.k = "req"    -> IF f.req = -1 THEN -1 ELSE f.req
    [] src.k = "step" -> IF InP(f.sctx, src.a) THEN Lookup(Lookup(f.sctx, src.a).outs, src.b) ELSE -1
    [] src.k = "stepin" -> IF InP(f.sctx, src.a) THEN Lookup(Lookup(f.sctx, src.a).ins, src.b) ELSE -1
    [] src.k = "wf" -> IF InP(f.wctx, src.a) THEN Lookup(Lookup(f.wctx, src.a).outs, src.b) ELSE -1
    [] src.k = "wfin" -> IF InP(f.wctx, src.a) THEN Lookup(Lookup(f.wctx, src.a).ins, src.b) ELSE -1

\* evaluate outputs in order; stop at the first error: <<pairs, ok>>
RECURSIVE EvalOuts(_, _, _, _)
EvalOuts(outs, f, i, acc) ==
  IF i > Len(outs) THEN <<acc, TRUE>>
  ELSE LET v == Eval(outs[i][2], f)
       IN IF v = -1 THEN <<acc, FALSE>> ELSE EvalOuts(outs, f, i+1, Put(acc, outs[i][1], v))

---------------------------------------------------------------------------
(* Frames                                                                  *)
NewFrame(id, ins, ret) ==
  [wf |-> id, idx |-> 1, trans |-> 0, retries |-> <<>>, steps |-> <<>>, inputs |-> ins,
   sctx |-> <<>>, wctx |-> [i \in 1..Len(res) |-> <<res[i][1], [outs |-> res[i][2].outs, ins |-> res[i][2].inputs]>>],
   code |-> 0, body |-> -1, req |-> -1, ret |-> ret, pc |-> "loop", err |-> "", stepins |-> <<>>]
Top == stack[Len(stack)]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
Active == {stack[i].wf : i \in 1..Len(stack)}

\* the class of error raised by trying to activate a workflow ("" = it can start)
StartErr(id) == IF id \in Active THEN "circ"
                ELSE IF Len(stack) >= MaxDepth THEN "depth"
                ELSE IF WfByName(id).id = "" THEN "unres" ELSE ""

Wctx(rs) == [i \in 1..Len(rs) |-> <<rs[i][1], [outs |-> rs[i][2].outs, ins |-> rs[i][2].inputs]>>]
PutRes(rs, id, r) == Put(rs, id, r)

---------------------------------------------------------------------------
(* A step completes: run criteria, then outputs, record, go to "act".      *)
StepDone(f, ok0, err0) ==
  LET w == WfByName(f.wf)  s == w.steps[f.idx]
      bad == IF ok0 THEN FirstBad(s.crit, f.code, 1) ELSE 0
      ok1 == ok0 /\ bad = 0
      err1 == IF ~ok0 THEN err0 ELSE IF bad # 0 THEN "crit" \o ToString(bad - 1) ELSE ""
      eo == IF ok1 THEN EvalOuts(s.outs, f, 1, <<>>) ELSE <<<<>>, TRUE>>
      ok2 == ok1 /\ eo[2]
      err2 == IF ok1 /\ ~eo[2] THEN "expr" ELSE err1
      nret == LET r == Lookup(f.retries, s.id) IN IF r = -1 THEN 0 ELSE r
      rec == [id |-> s.id, ok |-> ok2, err |-> err2, code |-> f.code, retries |-> nret, outs |-> eo[1]]
  IN [f EXCEPT !.steps = Append(@, rec),
               !.sctx = Put(@, s.id, [outs |-> eo[1], ins |-> f.stepins]),
               !.retries = IF ok2 THEN Put(@, s.id, 0) ELSE @,
               !.pc = "act"]

FinishFrame(f, err) == [f EXCEPT !.pc = "fin", !.err = err]

---------------------------------------------------------------------------
Init == /\ prog = <<>> /\ stack = <<>> /\ res = <<>> /\ qi = 0 /\ runlog = <<>>
        /\ calls = <<>> /\ sleeps = <<>> /\ script = <<>> /\ cancelled = FALSE /\ phase = "gen"

(* --- dispatch of workflows in dependency order ------------------------- *)
Start == /\ phase = "start"
         /\ IF CyclicDeps THEN phase' = "cyclic" ELSE phase' = "run"
         /\ qi' = 1
         /\ UNCHANGED <<prog, stack, res, runlog, calls, sleeps, script, cancelled>>

DepErr(w) ==
  LET badi == {j \in 1..Len(w.deps) :
                 \/ ~\E i \in 1..Len(res) : res[i][1] = w.deps[j]
                 \/ ~Lookup(res, w.deps[j]).ok}
  IN IF badi = {} THEN ""
     ELSE LET j == Min(badi) IN IF ~\E i \in 1..Len(res) : res[i][1] = w.deps[j] THEN "unres" ELSE Lookup(res, w.deps[j]).err

RunInputs == <<<<"x", 1001>>, <<"y", 1002>>>>

NextWorkflow ==
  /\ phase = "run" /\ stack = <<>> /\ qi <= Len(Order) /\ ~cancelled
  /\ LET id == Order[qi]  w == WfByName(id)  de == DepErr(w)
     IN IF de # ""
        THEN LET r == [ok |-> FALSE, err |-> de, steps |-> <<>>, outs |-> <<>>, inputs |-> <<>>]
             IN /\ res' = PutRes(res, id, r)
                /\ runlog' = Append(runlog, [id |-> id, r |-> r, dep |-> TRUE])
                /\ qi' = qi + 1 /\ UNCHANGED <<stack>>
        ELSE /\ stack' = <<NewFrame(id, RunInputs, "run")>>
             /\ UNCHANGED <<res, runlog, qi>>
  /\ UNCHANGED <<prog, calls, sleeps, script, cancelled, phase>>

RunCancelled ==
  /\ phase = "run" /\ stack = <<>> /\ qi <= Len(Order) /\ cancelled
  /\ phase' = "aborted"
  /\ UNCHANGED <<prog, stack, res, qi, runlog, calls, sleeps, script, cancelled>>

AllDone ==
  /\ phase = "run" /\ stack = <<>> /\ qi > Len(Order)
  /\ phase' = "done"
  /\ UNCHANGED <<prog, stack, res, qi, runlog, calls, sleeps, script, cancelled>>

(* --- the step loop ------------------------------------------------------ *)
InLoop == phase = "run" /\ stack # <<>> /\ Top.pc = "loop"

LoopEnd ==
  /\ InLoop /\ Top.idx > Len(WfByName(Top.wf).steps)
  /\ stack' = SetTop(FinishFrame(Top, ""))
  /\ UNCHANGED <<prog, res, qi, runlog, calls, sleeps, script, cancelled, phase>>

LoopAbort ==
  /\ InLoop /\ Top.idx <= Len(WfByName(Top.wf).steps)
  /\ cancelled \/ Top.trans >= MaxTrans
  /\ stack' = SetTop(FinishFrame(Top, IF cancelled THEN "ctx" ELSE "circ"))
  /\ UNCHANGED <<prog, res, qi, runlog, calls, sleeps, script, cancelled, phase>>

CanStep == InLoop /\ Top.idx <= Len(WfByName(Top.wf).steps) /\ ~cancelled /\ Top.trans < MaxTrans
CurStep == WfByName(Top.wf).steps[Top.idx]
\* fresh per-step evaluation context
Fresh == [Top EXCEPT !.trans = @ + 1, !.code = 0, !.body = -1, !.req = -1, !.stepins = <<>>]
ParamVal == IF CurStep.param.k = "none" THEN 0 ELSE Eval(CurStep.param, Fresh)

\* a step whose parameter cannot be evaluated fails without any request
StepParamError ==
  /\ CanStep /\ ParamVal = -1
  /\ stack' = SetTop(StepDone(Fresh, FALSE, "expr"))
  /\ UNCHANGED <<prog, res, qi, runlog, calls, sleeps, script, cancelled, phase>>

Responses ==
  IF GenMode = "loop" THEN {[code |-> IF Len(calls) % 2 = 0 THEN 200 ELSE 500, err |-> FALSE, cancel |-> FALSE]}
  ELSE IF Len(calls) >= MaxCalls THEN {[code |-> 200, err |-> FALSE, cancel |-> FALSE]}
  ELSE {[code |-> c, err |-> FALSE, cancel |-> FALSE] : c \in {200, 404, 500}}
       \cup {[code |-> 0, err |-> TRUE, cancel |-> FALSE]}
       \cup (IF GenMode = "random" /\ Len(calls) > 1 /\ Pick(1..6) = 1
             THEN {[code |-> 200, err |-> FALSE, cancel |-> TRUE]} ELSE {})

ExecOperation ==
  /\ CanStep /\ CurStep.kind = "op" /\ ParamVal # -1
  /\ \E r \in Responses :
       LET n == Len(calls) + 1
           hasP == CurStep.param.k # "none"
           f0 == [Fresh EXCEPT !.stepins = IF hasP THEN <<<<"p", ParamVal>>>> ELSE <<>>,
                               !.req = IF hasP THEN ParamVal ELSE -1]
           f1 == IF r.err THEN f0 ELSE [f0 EXCEPT !.code = r.code, !.body = 100 + n]
       IN /\ calls' = Append(calls, [op |-> Top.wf \o "." \o CurStep.id, p |-> ParamVal])
          /\ script' = Append(script, r)
          /\ cancelled' = (cancelled \/ r.cancel)
          /\ stack' = SetTop(StepDone(f1, ~r.err, "exec"))
  /\ UNCHANGED <<prog, res, qi, runlog, sleeps, phase>>

CallSub ==
  /\ CanStep /\ CurStep.kind = "wf" /\ ParamVal # -1
  /\ LET hasP == CurStep.param.k # "none"
         ins == IF hasP THEN <<<<"p", ParamVal>>>> ELSE <<>>
         f == [Fresh EXCEPT !.stepins = ins]
         e == StartErr(CurStep.target)
     IN IF e # ""
        THEN stack' = SetTop(StepDone([f EXCEPT !.wctx = Wctx(res)], FALSE, e))
        ELSE stack' = Append(SetTop([f EXCEPT !.pc = "sub"]), NewFrame(CurStep.target, ins, "step"))
  /\ UNCHANGED <<prog, res, qi, runlog, calls, sleeps, script, cancelled, phase>>

(* --- actions ------------------------------------------------------------ *)
LastRec == Top.steps[Len(Top.steps)]
InAct == phase = "run" /\ stack # <<>> /\ Top.pc = "act"
SelErr(sel) == IF sel[1] = "unrescomp" THEN "comp" ELSE "expr"

\* goto a workflow: run it with no inputs, then the current workflow ends
GotoWf(a, f) ==
  LET e == StartErr(a.wf)
  IN IF e # "" THEN stack' = SetTop(FinishFrame(f, e))
     ELSE stack' = Append(SetTop([f EXCEPT !.pc = IF LastRec.ok THEN "gotoS" ELSE "gotoF"]), NewFrame(a.wf, <<>>, "goto"))

JumpTo(f, i) == [f EXCEPT !.idx = i, !.pc = "loop"]

ActSuccess ==
  /\ InAct /\ LastRec.ok
  /\ LET w == WfByName(Top.wf)  s == w.steps[Top.idx]
         sel == SelectAct(s.onS, w.sActs, Top.code)
     IN CASE sel[1] \in {"err", "unrescomp"} -> stack' = SetTop(FinishFrame(Top, SelErr(sel)))
          [] sel[1] = "none" -> stack' = SetTop(JumpTo(Top, Top.idx + 1))
          [] OTHER ->
             LET a == sel[2] IN
             CASE a.type = "end" -> stack' = SetTop(FinishFrame(Top, ""))
               [] a.type = "goto" /\ a.wf # "" -> GotoWf(a, Top)
               [] a.type = "goto" /\ a.wf = "" ->
                    LET i == StepIndex(w, a.step)
                    IN IF i = 0 THEN stack' = SetTop(FinishFrame(Top, "nostep")) ELSE stack' = SetTop(JumpTo(Top, i))
               [] OTHER -> stack' = SetTop(JumpTo(Top, Top.idx + 1))
  /\ UNCHANGED <<prog, res, qi, runlog, calls, sleeps, script, cancelled, phase>>

FailWith(f) == FinishFrame(f, LastRec.err)

ActFailure ==
  /\ InAct /\ ~LastRec.ok
  /\ LET w == WfByName(Top.wf)  s == w.steps[Top.idx]
         sel == SelectAct(s.onF, w.fActs, Top.code)
         cnt == LastRec.retries
     IN CASE sel[1] \in {"err", "unrescomp"} -> stack' = SetTop(FinishFrame(Top, SelErr(sel))) /\ UNCHANGED sleeps
          [] sel[1] = "none" -> stack' = SetTop(FailWith(Top)) /\ UNCHANGED sleeps
          [] OTHER ->
             LET a == sel[2] IN
             CASE a.type = "end" -> stack' = SetTop(FailWith(Top)) /\ UNCHANGED sleeps
               [] a.type = "goto" /\ a.wf # "" -> GotoWf(a, Top) /\ UNCHANGED sleeps
               [] a.type = "goto" /\ a.wf = "" ->
                    /\ UNCHANGED sleeps
                    /\ LET i == StepIndex(w, a.step)
                       IN IF i = 0 THEN stack' = SetTop(FinishFrame(Top, "nostep")) ELSE stack' = SetTop(JumpTo(Top, i))
               [] a.type = "retry" ->
                    LET lim == IF a.limit <= 0 THEN 1 ELSE a.limit IN
                    IF cnt >= lim THEN stack' = SetTop(FailWith(Top)) /\ UNCHANGED sleeps
                    ELSE /\ stack' = SetTop([Top EXCEPT !.retries = Put(@, s.id, cnt + 1), !.pc = "loop"])
                         /\ sleeps' = Append(sleeps, a.after)
  /\ UNCHANGED <<prog, res, qi, runlog, calls, script, cancelled, phase>>

(* --- workflow completion: outputs, then return to the caller ------------ *)
Finish ==
  /\ phase = "run" /\ stack # <<>> /\ Top.pc = "fin"
  /\ LET f == Top  w == WfByName(f.wf)
         eo == IF f.err = "" THEN EvalOuts(w.outs, f, 1, <<>>) ELSE <<<<>>, TRUE>>
         ok == f.err = "" /\ eo[2]
         err == IF f.err # "" THEN f.err ELSE IF eo[2] THEN "" ELSE "expr"
         r == [ok |-> ok, err |-> err, steps |-> f.steps, outs |-> eo[1], inputs |-> f.inputs]
         rs == PutRes(res, f.wf, r)
         below == SubSeq(stack, 1, Len(stack) - 1)
     IN /\ res' = rs
        /\ IF f.ret = "run"
           THEN /\ runlog' = Append(runlog, [id |-> f.wf, r |-> r, dep |-> FALSE])
                /\ qi' = qi + 1 /\ stack' = <<>>
           ELSE /\ UNCHANGED <<runlog, qi>>
                /\ LET g == [below[Len(below)] EXCEPT !.wctx = Wctx(rs)]
                       put(h) == [below EXCEPT ![Len(below)] = h]
                   IN IF f.ret = "step"
                      THEN stack' = put(StepDone(g, ok, err))
                      ELSE IF ~ok THEN stack' = put(FinishFrame(g, err))
                           ELSE IF g.pc = "gotoS" THEN stack' = put(FinishFrame(g, ""))
                           ELSE stack' = put(FinishFrame(g, g.steps[Len(g.steps)].err))
  /\ UNCHANGED <<prog, calls, sleeps, script, cancelled, phase>>

---------------------------------------------------------------------------
(* Program generators                                                      *)
NoSrc == [k |-> "none", a |-> "", b |-> ""]
Src(k, a, b) == [k |-> k, a |-> a, b |-> b]
Act(t, st, wf, lim, af, crit) == [type |-> t, step |-> st, wf |-> wf, limit |-> lim, after |-> af, crit |-> crit, ref |-> ""]

RSeq(n, op(_)) == LET k == Pick(0..n) IN [i \in 1..k |-> op(i)]
CondBag == <<"ok200", "ok200", "not500", "ge400", "lt400", "lt400", "true", "false", "err">>
RConds(n) == RSeq(n, LAMBDA i : CondBag[Pick(1..Len(CondBag))])
RSid(u) == Pick({"s1", "s2", "s3"})
RWid(u) == Pick({"wa", "wb", "wc"})
RSrc(u) == LET c == Pick(1..11) IN
        CASE c = 1 -> Src("lit", "", "") [] c = 2 -> Src("in", Pick({"x","y","p"}), "")
          [] c \in {3,4} -> Src("step", RSid(0), Pick({"o","q"})) [] c = 5 -> Src("wf", RWid(0), Pick({"o","q"}))
          [] c = 6 -> Src("stepin", RSid(0), "p") [] c = 7 -> Src("wfin", RWid(0), Pick({"x","p"}))
          [] OTHER -> NoSrc
ROutSrc(u) == LET c == Pick(1..8) IN
        CASE c \in {1,2,3} -> Src("body", "", "") [] c = 4 -> Src("status", "", "") [] c = 5 -> Src("hdr", "", "")
          [] c = 6 -> Src("req", "", "") [] c = 7 -> Src("in", Pick({"x","p"}), "") [] OTHER -> Src("step", RSid(0), "o")
RWfOut(u) == LET c == Pick(1..3) IN IF c = 1 THEN Src("in", Pick({"x","p"}), "") ELSE IF c = 2 THEN Src("step", RSid(0), "o") ELSE Src("step", "s1", Pick({"o","q"}))
RTgt(u) == LET c == Pick(1..7) IN IF c = 1 THEN <<"", RWid(0)>> ELSE IF c = 2 THEN <<"ghost", "">> ELSE <<RSid(0), "">>
RRef(u) == Pick({"", "", "", "", "comp"})
RSAct(u) == LET t == Pick({"end", "goto", "goto"})  g == RTgt(0) IN
         [Act(t, IF t = "goto" THEN g[1] ELSE "", IF t = "goto" THEN g[2] ELSE "", 0, 0, RConds(2)) EXCEPT !.ref = IF Pick(1..30) = 1 THEN "ghost" ELSE RRef(0)]
RFAct(u) == LET t == Pick({"end", "goto", "retry", "retry"})  g == RTgt(0) IN
         [Act(t, IF t = "goto" THEN g[1] ELSE "", IF t = "goto" THEN g[2] ELSE "", Pick({-1, 0, 1, 2, 3}), Pick({0, 1, 2500}), RConds(2))
           EXCEPT !.ref = IF Pick(1..30) = 1 THEN "ghost" ELSE RRef(0)]
RStep(i) == 
  [id |-> StepIds[i], kind |-> IF Pick(1..4) = 1 THEN "wf" ELSE "op",
   target |-> IF Pick(1..12) = 1 THEN "ghost" ELSE RWid(0),
   param |-> RSrc(0), crit |-> IF Pick(1..2) = 1 THEN <<"ok200">> ELSE RConds(2),
   onS |-> RSeq(2, LAMBDA j : RSAct(0)), onF |-> RSeq(2, LAMBDA j : RFAct(0)),
   outs |-> LET k == Pick(0..2) IN [j \in 1..k |-> <<<<"o","q">>[j], ROutSrc(0)>>]]
RWf(i) ==
  LET n == Pick(1..3) IN
  [id |-> WfIds[i], deps |-> LET k == Pick({0,0,0,1,1,2}) IN [j \in 1..k |-> IF Pick(1..15) = 1 THEN "ghost" ELSE IF Pick(1..4) = 1 THEN RWid(0) ELSE WfIds[Pick(1..i)]],
   steps |-> [j \in 1..n |-> RStep(j)],
   sActs |-> IF Pick(1..3) = 1 THEN <<RSAct(0)>> ELSE <<>>,
   fActs |-> IF Pick(1..3) = 1 THEN <<RFAct(0)>> ELSE <<>>,
   outs |-> LET k == Pick(0..2) IN [j \in 1..k |-> <<<<"o","q">>[j], RWfOut(0)>>]]
RDeps(i) == LET k == Pick(1..10) IN
     IF k <= 5 THEN <<>> ELSE IF k <= 8 THEN (IF i = 1 THEN <<>> ELSE <<WfIds[Pick(1..(i-1))]>>)
     ELSE IF k = 9 THEN <<RWid(0), WfIds[Pick(1..i)]>> ELSE IF Pick(1..3) = 1 THEN <<"ghost">> ELSE IF i = 1 THEN <<"wc">> ELSE <<"wa", "wa">>
RandomProg(u) == LET n == Pick(1..3) IN [i \in 1..n |-> [RWf(i) EXCEPT !.deps = RDeps(i)]]

\* exhaustive small scope: one or two workflows, one step with every single action choice
TinyActsF == {<<>>} \cup {<<Act(t, st, wf, lim, 0, c)>> :
                t \in {"end", "retry"}, st \in {""}, wf \in {""}, lim \in {0, 2}, c \in {<<>>, <<"ge400">>}}
             \cup {<<Act("goto", st, "", 0, 0, c)>> : st \in {"s1", "s2", "ghost"}, c \in {<<>>, <<"ge400">>}}
             \cup {<<Act("goto", "", wf, 0, 0, <<>>)>> : wf \in {"wa", "wb"}}
TinyActsS == {<<>>, <<Act("end", "", "", 0, 0, <<>>)>>, <<Act("end", "", "", 0, 0, <<"false">>)>>}
             \cup {<<Act("goto", st, "", 0, 0, <<>>)>> : st \in {"s2", "ghost"}}
             \cup {<<Act("goto", "", wf, 0, 0, <<>>)>> : wf \in {"wa", "wb"}}
TStep(id, s, f) == [id |-> id, kind |-> "op", target |-> "", param |-> NoSrc, crit |-> <<"ok200">>,
                    onS |-> s, onF |-> f, outs |-> <<<<"o", Src("body", "", "")>>>>]
TWf(id, deps, steps) == [id |-> id, deps |-> deps, steps |-> steps, sActs |-> <<>>, fActs |-> <<>>,
                         outs |-> <<<<"o", Src("step", "s1", "o")>>>>]
TinyProgs ==
  {<<TWf("wa", <<>>, <<TStep("s1", s, f), TStep("s2", <<>>, <<>>)>>),
     TWf("wb", d, <<TStep("s1", <<>>, f2)>>)>> :
     s \in TinyActsS, f \in TinyActsF, f2 \in {<<>>, <<Act("retry", "", "", 1, 0, <<>>)>>}, d \in {<<>>, <<"wa">>}}

\* non-terminating gotos: the transition limit must end them
LoopProgs ==
  {<<TWf("wa", <<>>, <<TStep("s1", s, f), TStep("s2", s2, f)>>)>> :
     s \in {<<Act("goto", "s1", "", 0, 0, <<>>)>>, <<Act("goto", "s2", "", 0, 0, <<>>)>>},
     s2 \in {<<Act("goto", "s1", "", 0, 0, <<>>)>>},
     f \in {<<Act("goto", "s1", "", 0, 0, <<>>)>>, <<Act("retry", "", "", 5, 0, <<>>)>>}}

\* chains of sub-workflow calls around the depth limit
DeepProg(n, viaGoto) == [i \in 1..n |->
   [id |-> "w" \o ToString(i), deps |-> IF i = 1 THEN <<>> ELSE <<"w1">>,
    steps |-> IF i = n THEN <<TStep("s1", <<>>, <<>>)>>
              ELSE IF viaGoto THEN <<TStep("s1", <<Act("goto", "", "w" \o ToString(i+1), 0, 0, <<>>)>>, <<>>)>>
              ELSE <<[TStep("s1", <<>>, <<>>) EXCEPT !.kind = "wf", !.target = "w" \o ToString(i+1), !.crit = <<>>, !.outs = <<>>]>>,
    sActs |-> <<>>, fActs |-> <<>>, outs |-> <<>>]]
DeepProgs == {DeepProg(n, g) : n \in {3, MaxDepth - 1, MaxDepth, MaxDepth + 1}, g \in BOOLEAN}

Gen ==
  /\ phase = "gen" /\ phase' = "start"
  /\ prog' \in CASE GenMode = "random" -> {RandomProg(0)}
                 [] GenMode = "tiny" -> TinyProgs
                 [] GenMode = "loop" -> LoopProgs
                 [] GenMode = "deep" -> DeepProgs
  /\ UNCHANGED <<stack, res, qi, runlog, calls, sleeps, script, cancelled>>

Vector == [prog |-> prog, script |-> script, calls |-> calls, sleeps |-> sleeps,
           runlog |-> runlog, end |-> phase,
           success |-> \A i \in 1..Len(runlog) : runlog[i].r.ok]
Halt == /\ phase \in {"done", "aborted", "cyclic"} /\ phase' = "end"
        /\ Emit(Vector)
        /\ UNCHANGED <<prog, stack, res, qi, runlog, calls, sleeps, script, cancelled>>

Next == Gen \/ Start \/ NextWorkflow \/ RunCancelled \/ AllDone \/ LoopEnd \/ LoopAbort \/ StepParamError
        \/ ExecOperation \/ CallSub \/ ActSuccess \/ ActFailure \/ Finish \/ Halt
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
(* Properties of the design                                                *)
TransBound == \A i \in 1..Len(stack) : stack[i].trans <= MaxTrans
DepthBound == Len(stack) <= MaxDepth
NoReentry  == \A i, j \in 1..Len(stack) : stack[i].wf = stack[j].wf => i = j
\* a workflow executes only after everything it depends on succeeded
DepsRespected == \A i \in 1..Len(runlog) :
   LET w == WfByName(runlog[i].id) IN
   (~runlog[i].dep) => \A d \in 1..Len(w.deps) : \E k \in 1..(i-1) : runlog[k].id = w.deps[d]
OnceEach == \A i, j \in 1..Len(runlog) : runlog[i].id = runlog[j].id => i = j
\* outputs only come from successful steps and workflows
OutputsOnlyOnSuccess == \A i \in 1..Len(runlog) : ~runlog[i].r.ok /\ runlog[i].r.err # "expr" => runlog[i].r.outs = <<>>
\* consecutive failed attempts of one step never exceed the largest retry limit in force
RetryBound == \A i \in 1..Len(stack) : \A s \in 1..Len(stack[i].steps) : stack[i].steps[s].retries <= 5
Terminates == <>(phase = "end")
=============================================================================
