package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	"github.com/pb33f/libopenapi/datamodel/high/base"
	v3 "github.com/pb33f/libopenapi/datamodel/high/v3"
	"github.com/pb33f/libopenapi/index"
)

func init() { drivers["cycles"] = cyclesRun }

// A graph of schemas of spec/Cycles.tla.
type cyVec struct {
	N     int
	File  []int
	Edges []struct {
		From, To int
		Via      string
	}
	Met, Sure, Maybe    []int
	Sccs, Noarr, Nopoly [][]int
}

func (v *cyVec) ref(from, to int) map[string]any {
	s := fmt.Sprintf("#/components/schemas/N%d", to)
	if v.File[from-1] != v.File[to-1] {
		s = map[int]string{1: "root.yaml", 2: "other.yaml"}[v.File[to-1]] + s
	}
	return map[string]any{"$ref": s}
}

func (v *cyVec) schema(i int) map[string]any {
	s := map[string]any{"description": fmt.Sprintf("n%d", i)}
	props := map[string]any{}
	var req []string
	for k, e := range v.Edges {
		if e.From != i {
			continue
		}
		r := v.ref(i, e.To)
		p := fmt.Sprintf("p%d", k)
		switch e.Via {
		case "alias":
			return r
		case "req":
			props[p] = r
			req = append(req, p)
		case "opt":
			props[p] = r
		case "arrReq":
			props[p] = map[string]any{"type": "array", "items": r}
			req = append(req, p)
		case "arrOpt":
			props[p] = map[string]any{"type": "array", "items": r}
		case "deep":
			props[p] = map[string]any{"type": "object", "required": []string{"x"}, "properties": map[string]any{"x": r}}
		case "items":
			s["type"], s["items"] = "array", r
		case "addl":
			s["additionalProperties"] = r
		default:
			l, _ := s[e.Via].([]any)
			s[e.Via] = append(l, r)
		}
	}
	if len(props) > 0 {
		s["type"], s["properties"] = "object", props
	}
	if req != nil {
		s["required"] = req
	}
	return s
}

func cyclesRun(b []byte, e *Env) error {
	var v cyVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	dir := filepath.Join(e.Scratch, "cy")
	defer os.RemoveAll(dir)
	must(os.MkdirAll(dir, 0o755))
	var root []byte
	for f := 1; f <= 2; f++ {
		ss := map[string]any{}
		for i := 1; i <= v.N; i++ {
			if v.File[i-1] == f {
				ss[fmt.Sprintf("N%d", i)] = v.schema(i)
			}
		}
		d := map[string]any{"openapi": "3.1.0", "info": map[string]any{"title": "t", "version": "1"}, "paths": map[string]any{}, "components": map[string]any{"schemas": ss}}
		if f == 1 {
			d["paths"] = map[string]any{"/p": map[string]any{"get": map[string]any{"responses": map[string]any{"200": map[string]any{"description": "d",
				"content": map[string]any{"application/json": map[string]any{"schema": map[string]any{"$ref": "#/components/schemas/N1"}}}}}}}}
		}
		j, _ := json.MarshalIndent(d, "", " ")
		must(os.WriteFile(filepath.Join(dir, map[int]string{1: "root.yaml", 2: "other.yaml"}[f]), j, 0o644))
		if f == 1 {
			root = j
		}
	}
	in := func(ss [][]int) map[int]int {
		m := map[int]int{}
		for k, s := range ss {
			for _, i := range s {
				m[i] = k + 1
			}
		}
		return m
	}
	set := func(s []int) map[int]bool {
		m := map[int]bool{}
		for _, i := range s {
			m[i] = true
		}
		return m
	}
	edge := map[[2]int]bool{}
	alias := map[int]int{}
	for _, x := range v.Edges {
		edge[[2]int{x.From, x.To}] = true
		if x.Via == "alias" {
			alias[x.From] = x.To
		}
	}
	leads := func(a, b int) bool { // an edge, possibly through components that are nothing but a reference
		for n := 0; n < 10; n++ {
			if edge[[2]int{a, b}] {
				return true
			}
			for x, y := range alias {
				if y == b && edge[[2]int{a, x}] {
					return true
				}
			}
			t, ok := alias[a]
			if !ok || t == b {
				return ok
			}
			a = t
		}
		return false
	}
	inAll, sure, maybe := in(v.Sccs), set(v.Sure), set(v.Maybe)
	// the kinds of edges in the graph
	kinds := map[string]bool{}
	for _, x := range v.Edges {
		switch x.Via {
		case "allOf", "anyOf", "oneOf":
			kinds["poly"] = true
		case "arrReq", "arrOpt", "items":
			kinds["array"] = true
		default:
			kinds["plain"] = true
		}
	}
	type rep struct {
		r  *index.CircularReferenceResult
		at int
	}
	id := func(r *index.Reference) (n int) {
		if r != nil {
			p := r.FullDefinition
			fmt.Sscanf(p[strings.LastIndex(p, "/")+1:], "N%d", &n)
		}
		return
	}
	open := func(arr, poly bool) (libopenapi.Document, *libopenapi.DocumentModel[v3.Document], error) {
		c := datamodel.NewDocumentConfiguration()
		c.Logger = quietLog
		c.BasePath, c.SpecFilePath, c.AllowFileReferences = dir, filepath.Join(dir, "root.yaml"), true
		c.IgnoreArrayCircularReferences, c.IgnorePolymorphicCircularReferences = arr, poly
		d, err := libopenapi.NewDocumentWithConfiguration(root, c)
		must(err)
		m, err := d.BuildV3Model()
		return d, m, err
	}
	tag := func(arr, poly bool) string {
		return map[[2]bool]string{{false, false}: "all", {true, false}: "ignore-array", {false, true}: "ignore-poly"}[[2]bool{arr, poly}]
	}
	check := func(arr, poly bool, want [][]int) {
		t := tag(arr, poly)
		d, m, err := open(arr, poly)
		defer d.Release()
		var reps []rep
		for _, r := range d.GetRolodex().GetRootIndex().GetCircularReferences() {
			reps = append(reps, rep{r, id(r.LoopPoint)})
		}
		e.Add("reports", len(reps))
		got, inf := map[int]bool{}, map[int]bool{}
		ninf := 0
		for _, r := range reps {
			k := inAll[r.at]
			path := r.r.GenerateJourneyPath()
			if k == 0 {
				e.Fail(e.Prop+":not-a-cycle", "[%s] reported %s, but N%d is on no cycle", t, path, r.at)
				continue
			}
			got[k] = true
			j := r.r.Journey
			back := false
			for x := 0; x+1 < len(j); x++ {
				if id(j[x]) == id(j[len(j)-1]) {
					back = true
				}
				if a, b := id(j[x]), id(j[x+1]); !leads(a, b) {
					e.Fail(e.Prop+":journey", "[%s] reported %s, but N%d does not refer to N%d", t, path, a, b)
				}
			}
			if !back || id(j[len(j)-1]) != r.at {
				e.Fail(e.Prop+":no-loop", "[%s] reported %s, which does not come back", t, path)
			}
			if r.r.IsInfiniteLoop {
				ninf++
				inf[k] = true
				if !maybe[r.at] {
					e.Fail(e.Prop+":infinite-wrong", "[%s] %s is said to be infinite, but no cycle of required properties passes through N%d", t, path, r.at)
				}
			}
		}
		for _, s := range want {
			if k := inAll[s[0]]; !got[k] {
				sig := ":cycle-missed-" + t
				if arr && kinds["array"] || poly && kinds["poly"] {
					sig = ":cycle-hidden-" + t
				}
				e.Fail(e.Prop+sig, "[%s] the cycle through %v is not reported; reported are %d", t, s, len(reps))
			}
		}
		if len(want) == 0 && len(reps) > 0 {
			sig := ":not-ignored-" + t
			if kinds["plain"] || kinds["array"] && kinds["poly"] {
				sig = ":mixed-not-ignored-" + t
			}
			e.Fail(e.Prop+sig, "[%s] every cycle is ignored, but %s is reported", t, reps[0].r.GenerateJourneyPath())
		}
		for i := range sure {
			if k := inAll[i]; !inf[k] {
				sig := ":infinite-missed-" + t
				if kinds["poly"] || arr && kinds["array"] {
					sig = ":infinite-hidden-" + t
				}
				e.Fail(e.Prop+sig, "[%s] a cycle of required properties passes through N%d, which is not reported as infinite", t, i)
			}
		}
		said := err != nil && strings.Contains(err.Error(), "infinite circular reference")
		if said != (ninf > 0) {
			e.Fail(e.Prop+":infinite-error-"+t, "[%s] infinite reports: %d, but the error is %v", t, ninf, err)
		}
		if err != nil && !said {
			e.Fail(e.Prop+":other-error", "[%s] %s", t, trunc(err.Error(), 300))
		}
		if m != nil && !arr && !poly {
			cyWalk(e, &v, m)
		}
	}
	check(false, false, v.Sccs)
	check(true, false, v.Noarr)
	check(false, true, v.Nopoly)
	if e.seq%3 == 0 { // resolving in place ends as well
		d, _, _ := open(false, false)
		d.GetRolodex().Resolve()
		d.Release()
		e.Count("resolved")
	}
	e.Add("components", len(v.Sccs))
	e.Add("required-cycles", len(v.Sure))
	return nil
}

// cyWalk follows every edge of the graph through the model and renders every schema, plainly and inline.
func cyWalk(e *Env, v *cyVec, m *libopenapi.DocumentModel[v3.Document]) {
	names := []int{}
	for i := 1; i <= v.N; i++ {
		if v.File[i-1] == 1 {
			names = append(names, i)
		}
	}
	sort.Ints(names)
	if b, err := m.Model.Render(); err != nil || len(b) == 0 {
		e.Fail(e.Prop+":render", "the document does not render: %v", err)
	}
	if _, err := m.Model.RenderInline(); err != nil {
		e.Count("inline-refused")
	}
	for _, i := range names {
		p := m.Model.Components.Schemas.GetOrZero(fmt.Sprintf("N%d", i))
		if p == nil {
			e.Fail(e.Prop+":schema-missing", "N%d is not in the model", i)
			continue
		}
		if _, err := p.Render(); err != nil {
			e.Count("schema-render-refused")
		}
		s, err := p.BuildSchema()
		if s == nil {
			e.Fail(e.Prop+":schema-unbuilt", "N%d: %v", i, err)
			continue
		}
		if _, err := s.RenderInline(); err != nil {
			e.Count("inline-refused")
		} else {
			e.Count("inlined")
		}
		if _, err := s.MarshalYAMLInline(); err != nil {
			e.Count("inline-refused")
		}
		// round and round: a model can be followed for ever
		at := []*base.SchemaProxy{p}
		seen := 0
		for step := 0; step < 30 && len(at) > 0; step++ {
			var next []*base.SchemaProxy
			for _, x := range at {
				y, err := x.BuildSchema()
				if y == nil {
					e.Fail(e.Prop+":schema-unbuilt", "after %d steps from N%d: %v", step, i, err)
					return
				}
				seen++
				for _, q := range y.Properties.FromOldest() {
					next = append(next, q)
				}
				next = append(append(append(next, y.AllOf...), y.AnyOf...), y.OneOf...)
				if y.Items != nil && y.Items.A != nil {
					next = append(next, y.Items.A)
				}
				if y.AdditionalProperties != nil && y.AdditionalProperties.A != nil {
					next = append(next, y.AdditionalProperties.A)
				}
			}
			if len(next) > 3 {
				next = next[step%(len(next)-2):][:3]
			}
			at = next
		}
		e.Add("steps", seen)
	}
}
