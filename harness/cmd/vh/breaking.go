package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/pb33f/libopenapi/what-changed/model"
	"go.yaml.in/yaml/v4"
)

func init() {
	drivers["breakconf"] = breakConfRun
	drivers["breakyaml"] = breakYamlRun
	drivers["oasbreak"] = oasBreakRun
}

type brOv struct {
	C, P, K string
	V       bool
}
type brRule struct{ C, P, W string }

var brKinds = []string{"added", "modified", "removed"}

// brConfig reads a partial configuration from text, YAML or JSON.
func brConfig(ovs []brOv, asJSON bool) (*model.BreakingRulesConfig, string, error) {
	m := map[string]any{}
	for _, o := range ovs {
		at := m
		for _, k := range []string{o.C, o.P} {
			if k == "" {
				continue
			}
			if at[k] == nil {
				at[k] = map[string]any{}
			}
			at = at[k].(map[string]any)
		}
		at[o.K] = o.V
	}
	c := &model.BreakingRulesConfig{}
	var b []byte
	var err error
	if asJSON {
		b, _ = json.Marshal(m)
		err = json.Unmarshal(b, c)
	} else {
		b, _ = yaml.Marshal(m)
		err = yaml.Unmarshal(b, c)
	}
	return c, string(b), err
}

func breakConfRun(b []byte, e *Env) error {
	var v struct {
		Hist []struct {
			Do        string
			H, O      int
			Ov        []brOv
			Def, Said bool
		}
		Table []brRule
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	model.SetActiveBreakingRulesConfig(nil)
	model.ResetDefaultBreakingRules()
	defer func() {
		model.SetActiveBreakingRulesConfig(nil)
		model.ResetDefaultBreakingRules()
	}()
	hs := map[int]*model.BreakingRulesConfig{}
	var did []string
	for i, op := range v.Hist {
		if op.Do != "ask" {
			did = append(did, fmt.Sprintf("%s %d %d %v", op.Do, op.H, op.O, op.Ov))
		}
		switch op.Do {
		case "defaults":
			c := model.GenerateDefaultBreakingRules()
			if hs[op.H] == nil {
				for h, o := range hs {
					if o == c {
						e.Fail("defaults-again", "after %v: the defaults handed out are configuration %d", did, h)
						return nil
					}
				}
			}
			hs[op.H] = c
		case "read":
			c, text, err := brConfig(op.Ov, i%4 == 0)
			if err != nil {
				e.Fail("read", "%s: %v", text, err)
				return nil
			}
			if r := model.ValidateBreakingRulesConfigYAML([]byte(text)); r != nil {
				e.Fail("refused", "%s: %v", text, r.Error())
			}
			hs[op.H] = c
		case "merge":
			if op.O == 0 {
				hs[op.H].Merge(nil)
			} else {
				hs[op.H].Merge(hs[op.O])
			}
		case "activate":
			model.SetActiveBreakingRulesConfig(hs[op.H])
		case "clear":
			model.ResetActiveBreakingRulesConfig()
		case "nil":
			model.SetActiveBreakingRulesConfig(nil)
		case "ask":
			if !op.Said {
				continue
			}
			e.Count("asked")
			for _, r := range v.Table {
				for k, kind := range brKinds {
					want := op.Def && r.W[k] == '1'
					for _, o := range op.Ov {
						if o.C == r.C && o.P == r.P && o.K == kind {
							want = o.V
						}
					}
					got := model.IsBreakingChange(r.C, r.P, kind)
					short := map[string]func(a, b string) bool{"added": model.BreakingAdded, "modified": model.BreakingModified, "removed": model.BreakingRemoved}[kind](r.C, r.P)
					if got != want || short != want || model.GetActiveBreakingRulesConfig().IsBreaking(r.C, r.P, kind) != want {
						e.Fail("decision", "after %s: %s.%s %s: breaking is %v/%v, expected %v", strings.Join(did, "; "), r.C, r.P, kind, got, short, want)
						return nil
					}
				}
			}
		}
	}
	return nil
}

func breakYamlRun(b []byte, e *Env) error {
	var v struct {
		Path []string
		Errs []struct {
			At int
			To string
		}
		Ok bool
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	var inner any = true
	path := v.Path
	if last := path[len(path)-1]; last != "added" && last != "modified" && last != "removed" {
		path = append(append([]string{}, path...), "added")
	}
	for i := len(path) - 1; i >= 0; i-- {
		inner = map[string]any{path[i]: inner}
	}
	text, _ := yaml.Marshal(inner)
	js, _ := json.Marshal(inner)
	for _, t := range []string{string(text), "# rules\n" + string(text), string(js)} {
		r := model.ValidateBreakingRulesConfigYAML([]byte(t))
		var got, want []string
		if r != nil {
			for _, x := range r.Errors {
				got = append(got, x.Path+" -> "+x.SuggestedPath)
				if x.Line <= 0 || x.Column <= 0 || x.Message == "" {
					e.Fail("where", "%s: error without a place or a text: %+v", t, x)
				}
			}
		}
		for _, x := range v.Errs {
			want = append(want, strings.Join(v.Path[:x.At], ".")+" -> "+x.To)
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, ";") != strings.Join(want, ";") || (r == nil) != v.Ok {
			e.Fail("validate", "%s: errors %v, expected %v", t, got, want)
		}
	}
	return nil
}

type brVec struct {
	Ver   int
	T     string
	Base  string
	At    []string
	Doc   *Tree
	Ruled []struct {
		Ed oasEdit
		Rl struct{ C, P, As string }
	}
}

var brCache = map[string]*model.BreakingRulesConfig{}

// every rule known to the library, from its default configuration.
func brAll() (out []brRule) {
	var m map[string]any
	b, _ := json.Marshal(model.GenerateDefaultBreakingRules())
	_ = json.Unmarshal(b, &m)
	word := func(x map[string]any) string {
		w := ""
		for _, k := range brKinds {
			if x[k] == true {
				w += "1"
			} else {
				w += "0"
			}
		}
		return w
	}
	for c, x := range m {
		y, ok := x.(map[string]any)
		if !ok {
			continue
		}
		if _, simple := y["added"].(bool); simple {
			out = append(out, brRule{c, "", word(y)})
			continue
		}
		for p, z := range y {
			out = append(out, brRule{c, p, word(z.(map[string]any))})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].C+"."+out[i].P < out[j].C+"."+out[j].P })
	return
}

// brFlipped is the defaults with one decision of one rule turned (others = false), or with every decision but those of the rule turned.
func brFlipped(c, p string, kind int, others bool) *model.BreakingRulesConfig {
	key := fmt.Sprint(c, "|", p, "|", kind, others)
	if x := brCache[key]; x != nil {
		return x
	}
	var ovs []brOv
	for _, r := range brAll() {
		for k, kk := range brKinds {
			mine := r.C == c && r.P == p
			if others && !mine || !others && mine && k == kind {
				ovs = append(ovs, brOv{r.C, r.P, kk, r.W[k] != '1'})
			}
		}
	}
	over, _, err := brConfig(ovs, false)
	if err != nil {
		return nil
	}
	model.ResetDefaultBreakingRules()
	x := model.GenerateDefaultBreakingRules()
	model.ResetDefaultBreakingRules()
	x.Merge(over)
	brCache[key] = x
	return x
}

func oasBreakRun(b []byte, e *Env) error {
	var v brVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	defer model.SetActiveBreakingRulesConfig(nil)
	where := fmt.Sprintf("%d %s at %s (%s)", v.Ver, v.T, strings.Join(v.At, "/"), v.Base)
	src := v.Doc.YAMLBytes()
	table := map[string]string{}
	model.SetActiveBreakingRulesConfig(nil)
	model.ResetDefaultBreakingRules()
	for _, r := range brAll() {
		table[r.C+"."+r.P] = r.W
	}
	for _, x := range v.Ruled {
		ed := x.Ed
		id := v.T + "." + ed.Key
		if ed.Kind == "self" || ed.Kind == "selfs" {
			id = v.T + ".*"
		}
		word, ok := table[x.Rl.C+"."+x.Rl.P]
		if !ok {
			e.Fail("rule:"+id, "the defaults have no rule %s.%s", x.Rl.C, x.Rl.P)
			continue
		}
		dst := ed.apply(v.Doc, v.At).YAMLBytes()
		for _, dir := range []string{"after ", "before "} {
			l, r := src, dst
			if dir == "before " {
				l, r = dst, src
			}
			what := where + " " + dir + ed.String()
			model.SetActiveBreakingRulesConfig(nil)
			fs, _, ok := compareSrc(e, what, l, r)
			if !ok {
				continue
			}
			// by how the rules stand: the decision for the change, one kind of the rule being turned
			says := func(k, turned int) bool {
				if k == 0 && x.Rl.As == "must" {
					return true
				}
				return (word[k] == '1') != (k == turned)
			}
			kind := func(f found) int {
				if x.Rl.As == "M" {
					return 1
				}
				return strings.Index("AMR", f.class())
			}
			bad := false
			seen := map[int]bool{}
			for _, f := range fs {
				k := kind(f)
				seen[k] = true
				e.Count("decided")
				if f.ch.Breaking != says(k, -1) && !bad {
					bad = true
					e.Fail(fmt.Sprintf("default:%s:%s", id, brKinds[k]), "%s: %s, by default %s.%s %s is %v", what, f, x.Rl.C, x.Rl.P, brKinds[k], word[k] == '1')
				}
			}
			if bad {
				continue
			}
			for k := range brKinds {
				// the one decision turned
				model.SetActiveBreakingRulesConfig(brFlipped(x.Rl.C, x.Rl.P, k, false))
				fs2, _, _ := compareSrc(e, what, l, r)
				for _, f := range fs2 {
					want := says(kind(f), k)
					if f.ch.Breaking != want {
						e.Fail(fmt.Sprintf("override:%s:%s:%s", id, brKinds[kind(f)], brKinds[k]), "%s: with only %s.%s %s turned: %s, expected %v", what, x.Rl.C, x.Rl.P, brKinds[k], f, want)
					}
				}
				if len(fs2) != len(fs) {
					e.Fail("number:"+id, "%s: %d changes by default, %d with %s.%s %s turned", what, len(fs), len(fs2), x.Rl.C, x.Rl.P, brKinds[k])
				}
			}
			model.SetActiveBreakingRulesConfig(brFlipped(x.Rl.C, x.Rl.P, 0, true))
			fs3, _, _ := compareSrc(e, what, l, r)
			for _, f := range fs3 {
				if want := says(kind(f), -1); f.ch.Breaking != want {
					e.Fail(fmt.Sprintf("others:%s:%s", id, brKinds[kind(f)]), "%s: with every rule but %s.%s turned: %s, expected %v", what, x.Rl.C, x.Rl.P, f, want)
				}
			}
		}
	}
	return nil
}
