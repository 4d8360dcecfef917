package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/arazzo"
)

func init() { drivers["arazzo"] = arazzoEngine }

type azSrc struct{ K, A, B string }
type azAct struct {
	Type, Step, Wf, Ref string
	Limit, After        int
	Crit                []string
}
type azOut struct {
	Name string
	Src  azSrc
}

func (o *azOut) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]any{&o.Name, &o.Src})
}

type azPair struct {
	Name string
	V    int
}

func (o *azPair) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]any{&o.Name, &o.V})
}

type azStep struct {
	ID, Kind, Target string
	Param            azSrc
	Crit             []string
	OnS, OnF         []azAct
	Outs             []azOut
}
type azWf struct {
	ID           string
	Deps         []string
	Steps        []azStep
	SActs, FActs []azAct
	Outs         []azOut
}
type azCall struct {
	Op string
	P  int
}
type azRes struct {
	OK    bool
	Err   string
	Steps []struct {
		ID      string
		OK      bool
		Err     string
		Code    int
		Retries int
		Outs    []azPair
	}
	Outs, Inputs []azPair
}
type azVec struct {
	Prog   []azWf
	Script []struct {
		Code        int
		Err, Cancel bool
	}
	Calls  []azCall
	Sleeps []int
	Runlog []struct {
		ID  string
		Dep bool
		R   azRes
	}
	End     string
	Success bool
}

var azCond = map[string]string{"ok200": "$statusCode == 200", "not500": "$statusCode != 500", "ge400": "$statusCode >= 400",
	"lt400": "$statusCode < 400", "true": "true", "false": "false", "err": "$steps.ghost.outputs.x == 1"}

func azExpr(s azSrc) any {
	switch s.K {
	case "lit":
		return 7
	case "in":
		return "$inputs." + s.A
	case "body":
		return "$response.body#/v"
	case "status":
		return "$statusCode"
	case "hdr":
		return "$response.header.X-V"
	case "req":
		return "$request.query.p"
	case "step":
		return "$steps." + s.A + ".outputs." + s.B
	case "stepin":
		return "$steps." + s.A + ".inputs." + s.B
	case "wf":
		return "$workflows." + s.A + ".outputs." + s.B
	case "wfin":
		return "$workflows." + s.A + ".inputs." + s.B
	}
	panic("src " + s.K)
}

func azCrits(cs []string) []any {
	out := []any{}
	for _, c := range cs {
		out = append(out, om{{"condition", azCond[c]}})
	}
	return out
}

type azDoc struct{ sComp, fComp om }

func (d *azDoc) acts(as []azAct, success bool) []any {
	out := []any{}
	for i, a := range as {
		kind := "failureActions"
		if success {
			kind = "successActions"
		}
		if a.Ref == "ghost" {
			out = append(out, om{{"reference", "$components." + kind + ".ghost"}})
			continue
		}
		o := om{{"name", fmt.Sprintf("act%d", i)}, {"type", a.Type}}
		if a.Wf != "" {
			o = append(o, kv{"workflowId", a.Wf})
		}
		if a.Step != "" {
			o = append(o, kv{"stepId", a.Step})
		}
		if !success && a.Type == "retry" {
			if a.After != 0 {
				o = append(o, kv{"retryAfter", float64(a.After) / 1000})
			}
			if a.Limit >= 0 {
				o = append(o, kv{"retryLimit", a.Limit})
			}
		}
		if len(a.Crit) > 0 {
			o = append(o, kv{"criteria", azCrits(a.Crit)})
		}
		if a.Ref == "comp" {
			comp := &d.fComp
			if success {
				comp = &d.sComp
			}
			n := fmt.Sprintf("c%d", len(*comp))
			*comp = append(*comp, kv{n, o})
			out = append(out, om{{"reference", "$components." + kind + "." + n}})
			continue
		}
		out = append(out, o)
	}
	return out
}

func azOuts(os []azOut) om {
	r := om{}
	for _, o := range os {
		r = append(r, kv{o.Name, azExpr(o.Src)})
	}
	return r
}

func azBuild(prog []azWf) []byte {
	d := &azDoc{}
	wfs := []any{}
	for _, w := range prog {
		steps := []any{}
		for _, s := range w.Steps {
			o := om{{"stepId", s.ID}}
			if s.Kind == "op" {
				o = append(o, kv{"operationId", w.ID + "." + s.ID})
			} else {
				o = append(o, kv{"workflowId", s.Target})
			}
			if s.Param.K != "none" {
				p := om{{"name", "p"}}
				if s.Kind == "op" {
					p = append(p, kv{"in", "query"})
				}
				o = append(o, kv{"parameters", []any{append(p, kv{"value", azExpr(s.Param)})}})
			}
			if len(s.Crit) > 0 {
				o = append(o, kv{"successCriteria", azCrits(s.Crit)})
			}
			if len(s.OnS) > 0 {
				o = append(o, kv{"onSuccess", d.acts(s.OnS, true)})
			}
			if len(s.OnF) > 0 {
				o = append(o, kv{"onFailure", d.acts(s.OnF, false)})
			}
			if len(s.Outs) > 0 {
				o = append(o, kv{"outputs", azOuts(s.Outs)})
			}
			steps = append(steps, o)
		}
		o := om{{"workflowId", w.ID}}
		if len(w.Deps) > 0 {
			o = append(o, kv{"dependsOn", w.Deps})
		}
		o = append(o, kv{"steps", steps})
		if len(w.SActs) > 0 {
			o = append(o, kv{"successActions", d.acts(w.SActs, true)})
		}
		if len(w.FActs) > 0 {
			o = append(o, kv{"failureActions", d.acts(w.FActs, false)})
		}
		if len(w.Outs) > 0 {
			o = append(o, kv{"outputs", azOuts(w.Outs)})
		}
		wfs = append(wfs, o)
	}
	doc := om{{"arazzo", "1.0.1"}, {"info", om{{"title", "t"}, {"version", "1"}}},
		{"sourceDescriptions", []any{om{{"name", "api"}, {"url", "api.yaml"}, {"type", "openapi"}}}}, {"workflows", wfs}}
	comp := om{}
	if len(d.sComp) > 0 {
		comp = append(comp, kv{"successActions", d.sComp})
	}
	if len(d.fComp) > 0 {
		comp = append(comp, kv{"failureActions", d.fComp})
	}
	if len(comp) > 0 {
		doc = append(doc, kv{"components", comp})
	}
	b, err := marshal(doc)
	must(err)
	return b
}

var errExec = errors.New("transport down")

type azExec struct {
	v      *azVec
	calls  []azCall
	over   int
	cancel context.CancelFunc
}

func azInt(v any) int {
	var n int
	if _, err := fmt.Sscanf(fmt.Sprint(v), "%d", &n); err != nil {
		return -99
	}
	return n
}

func (x *azExec) Execute(_ context.Context, r *arazzo.ExecutionRequest) (*arazzo.ExecutionResponse, error) {
	p := 0
	if pv, ok := r.Parameters["p"]; ok {
		p = azInt(pv)
	}
	x.calls = append(x.calls, azCall{r.OperationID, p})
	n := len(x.calls)
	if n > len(x.v.Script) {
		x.over++
		if x.over > 3000 {
			panic("engine does not stop issuing requests")
		}
		return &arazzo.ExecutionResponse{StatusCode: 599, Body: map[string]any{"v": 0}}, nil
	}
	s := x.v.Script[n-1]
	if s.Cancel {
		x.cancel()
	}
	if s.Err {
		return nil, errExec
	}
	return &arazzo.ExecutionResponse{StatusCode: s.Code, Body: map[string]any{"v": 100 + n},
		Headers: map[string][]string{"X-V": {fmt.Sprint(5100 + n)}}, URL: fmt.Sprint(s.Code*10 + 1), Method: "GET"}, nil
}

func azErr(err error) string {
	if err == nil {
		return ""
	}
	var sf *arazzo.StepFailureError
	switch {
	case errors.As(err, &sf) && sf.CriterionIndex >= 0:
		return fmt.Sprintf("crit%d", sf.CriterionIndex)
	case errors.Is(err, errExec):
		return "exec"
	case errors.Is(err, arazzo.ErrCircularDependency):
		return "circ"
	case errors.Is(err, arazzo.ErrUnresolvedWorkflowRef):
		return "unres"
	case errors.Is(err, arazzo.ErrStepIdNotInWorkflow):
		return "nostep"
	case errors.Is(err, arazzo.ErrUnresolvedComponent):
		return "comp"
	case errors.Is(err, context.Canceled):
		return "ctx"
	case strings.Contains(err.Error(), "depth"):
		return "depth"
	}
	return "expr"
}

func azMap(ps []azPair) map[string]int {
	m := map[string]int{}
	for _, p := range ps {
		m[p.Name] = p.V
	}
	return m
}
func azGot(m map[string]any) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = azInt(v)
	}
	return r
}

func arazzoEngine(b []byte, e *Env) error {
	var v azVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	src := azBuild(v.Prog)
	for round := 0; round < 2; round++ { // the second run on the same engine sees warm caches
		if round == 1 && len(v.Calls) > 40 {
			break
		}
		doc, err := libopenapi.NewArazzoDocument(src)
		if err != nil {
			e.Fail("build", "document does not build: %v\n%s", err, src)
			return nil
		}
		x := &azExec{v: &v}
		var sleeps []time.Duration
		cfg := &arazzo.EngineConfig{SleepFunc: func(_ context.Context, d time.Duration) error { sleeps = append(sleeps, d); return nil }}
		eng := arazzo.NewEngineWithConfig(doc, x, []*arazzo.ResolvedSource{{Name: "api", URL: "api.yaml", Type: "openapi"}}, cfg)
		inputs := map[string]map[string]any{}
		for _, w := range v.Prog {
			inputs[w.ID] = map[string]any{"x": 1001, "y": 1002}
		}
		for k := 0; k <= round; k++ {
			ctx, cancel := context.WithCancel(context.Background())
			x.cancel = cancel
			x.calls, sleeps = nil, nil
			rr, rerr := eng.RunAll(ctx, inputs)
			cancel()
			azCompare(e, &v, src, x, sleeps, rr, rerr, fmt.Sprintf("round%d.%d", round, k))
		}
	}
	e.Count("end." + v.End)
	if len(v.Calls) > 0 {
		e.Count("with_calls")
	}
	return nil
}

func azCompare(e *Env, v *azVec, src []byte, x *azExec, sleeps []time.Duration, rr *arazzo.RunResult, rerr error, round string) {
	bad := func(sig, f string, a ...any) {
		e.Fail(sig, "%s: "+f+"\ndoc: %s", append(append([]any{round}, a...), src)...)
	}
	if v.End == "cyclic" {
		if rerr == nil || !errors.Is(rerr, arazzo.ErrCircularDependency) {
			bad("cyclic-deps", "expected circular dependency error, got %v", rerr)
		}
		if len(x.calls) > 0 {
			bad("cyclic-calls", "requests made for cyclic dependencies: %v", x.calls)
		}
		return
	}
	if fmt.Sprint(x.calls) != fmt.Sprint(v.Calls) && !(len(x.calls) == 0 && len(v.Calls) == 0) {
		bad("calls", "requests performed %v\nspecified %v", trunc(fmt.Sprint(x.calls), 1500), trunc(fmt.Sprint(v.Calls), 1500))
	}
	var ws, gs []int64
	for _, s := range v.Sleeps {
		if s > 0 {
			ws = append(ws, int64(s)*1e6)
		}
	}
	for _, s := range sleeps {
		if s > 0 {
			gs = append(gs, int64(s))
		}
	}
	if fmt.Sprint(ws) != fmt.Sprint(gs) {
		bad("sleeps", "delays %v, specified %v", gs, ws)
	}
	if v.End == "aborted" {
		if rerr == nil && (rr == nil || rr.Success) {
			bad("aborted", "cancelled run reported success")
		}
	} else if rerr != nil {
		bad("runerr", "run error %v", rerr)
	}
	if rr == nil {
		if v.End != "aborted" {
			bad("noresult", "no result, err=%v", rerr)
		}
		return
	}
	if v.End == "done" && rr.Success != v.Success {
		bad("success", "overall success %v, specified %v", rr.Success, v.Success)
	}
	if len(rr.Workflows) != len(v.Runlog) {
		bad("wfcount", "%d workflow results, specified %d", len(rr.Workflows), len(v.Runlog))
		return
	}
	for i, w := range v.Runlog {
		g := rr.Workflows[i]
		at := w.ID
		if g.WorkflowId != w.ID {
			bad("wforder", "workflow %d is %s, specified %s", i, g.WorkflowId, w.ID)
			continue
		}
		if g.Success != w.R.OK || (g.Error == nil) != (w.R.Err == "") || azErr(g.Error) != w.R.Err {
			bad("wfresult", "%s: success=%v err=%q (%v), specified success=%v err=%q", at, g.Success, azErr(g.Error), g.Error, w.R.OK, w.R.Err)
		}
		if len(g.Steps) != len(w.R.Steps) {
			bad("stepcount", "%s: %d step records, specified %d", at, len(g.Steps), len(w.R.Steps))
			continue
		}
		for j, s := range w.R.Steps {
			gs := g.Steps[j]
			if gs.StepId != s.ID || gs.Success != s.OK || azErr(gs.Error) != s.Err || gs.StatusCode != s.Code || gs.Retries != s.Retries {
				bad("steprec", "%s step %d: {%s ok=%v err=%q code=%d retries=%d}, specified {%s ok=%v err=%q code=%d retries=%d} (%v)", at, j,
					gs.StepId, gs.Success, azErr(gs.Error), gs.StatusCode, gs.Retries, s.ID, s.OK, s.Err, s.Code, s.Retries, gs.Error)
			}
			if fmt.Sprint(azGot(gs.Outputs)) != fmt.Sprint(azMap(s.Outs)) {
				bad("stepouts", "%s step %d outputs %v, specified %v", at, j, gs.Outputs, azMap(s.Outs))
			}
		}
		if !w.Dep {
			if fmt.Sprint(azGot(g.Outputs)) != fmt.Sprint(azMap(w.R.Outs)) {
				bad("wfouts", "%s outputs %v, specified %v", at, g.Outputs, azMap(w.R.Outs))
			}
			if fmt.Sprint(azGot(g.Inputs)) != fmt.Sprint(azMap(w.R.Inputs)) {
				bad("wfins", "%s inputs %v, specified %v", at, g.Inputs, azMap(w.R.Inputs))
			}
		}
	}
}
