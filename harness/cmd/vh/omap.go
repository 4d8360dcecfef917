package main

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/pb33f/libopenapi/orderedmap"
	"go.yaml.in/yaml/v4"
)

func init() { drivers["omap"] = omapDriver }

type omPair struct {
	K string
	V int
}

func (o *omPair) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, &[]any{&o.K, &o.V}) }

func omapDriver(b []byte, e *Env) error {
	var v struct {
		Hist []struct {
			Op, K string
			V     int
			S     []omPair
		}
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	m := orderedmap.New[string, int]()
	omNil(e)
	omCheck(e, "start", m, nil)
	for i, h := range v.Hist {
		at := fmt.Sprintf("op%d:%s", i, h.Op)
		before := m
		var was []omPair
		for k, x := range m.FromOldest() {
			was = append(was, omPair{k, x})
		}
		switch h.Op {
		case "set":
			_, had := m.Get(h.K)
			if _, present := m.Set(h.K, h.V); present != had {
				e.Fail("set-present", "%s Set reports present=%v, was %v", at, present, had)
			}
		case "del":
			_, had := m.Get(h.K)
			if _, present := m.Delete(h.K); present != had {
				e.Fail("delete-present", "%s Delete reports present=%v, was %v", at, present, had)
			}
		case "ptr":
			for p := m.First(); p != nil; p = p.Next() {
				if p.Key() == h.K {
					*p.ValuePtr() = h.V
				}
			}
		case "sort":
			m = orderedmap.SortAlpha(m)
		case "copy":
			m = orderedmap.From(m.FromOldest())
		case "rev":
			m = orderedmap.From(m.FromNewest())
		case "pairs":
			var ps []orderedmap.Pair[string, int]
			for p := orderedmap.First(m); p != nil; p = p.Next() {
				ps = append(ps, orderedmap.NewPair(p.Key(), p.Value()))
			}
			m = orderedmap.FromPairs(ps...)
		case "gomap":
			g := map[string]int{}
			for k, x := range m.FromOldest() {
				g[k] = x
			}
			m = orderedmap.ToOrderedMap(g)
		}
		omCheck(e, at, m, h.S)
		if before != m { // derived maps leave their source alone
			omCheck(e, at+"/source", before, was)
		}
	}
	return nil
}

func omNil(e *Env) {
	var z *orderedmap.Map[string, int]
	omCheckEmpty(e, "nil", z)
	if orderedmap.SortAlpha(z) != nil {
		e.Fail("nil-sort", "SortAlpha(nil) is not nil")
	}
	if orderedmap.Cast[string, int](nil) != nil || orderedmap.Cast[string, int](3) != nil {
		e.Fail("cast", "Cast of something else is not nil")
	}
	if y, err := z.MarshalYAML(); err != nil || y != nil {
		e.Fail("nil-yaml", "MarshalYAML(nil) = %v, %v", y, err)
	}
}

func omCheckEmpty(e *Env, at string, m *orderedmap.Map[string, int]) {
	n := 0
	for range m.FromOldest() {
		n++
	}
	for range m.FromNewest() {
		n++
	}
	for range m.KeysFromOldest() {
		n++
	}
	for range m.KeysFromNewest() {
		n++
	}
	for range m.ValuesFromOldest() {
		n++
	}
	for range m.ValuesFromNewest() {
		n++
	}
	for range orderedmap.Iterate(context.Background(), m) {
		n++
	}
	if n != 0 || orderedmap.Len(m) != 0 || !m.IsZero() || m.First() != nil || orderedmap.First(m) != nil || m.FindValueUntyped("a") != nil {
		e.Fail("empty", "%s: empty map is observed as non-empty", at)
	}
}

func omCheck(e *Env, at string, m *orderedmap.Map[string, int], want []omPair) {
	bad := func(sig, f string, a ...any) {
		e.Fail(sig, "%s: "+f+", specified %v", append(append([]any{at}, a...), want)...)
	}
	if orderedmap.Len(m) != len(want) || m.IsZero() != (len(want) == 0) {
		bad("len", "size %d zero=%v", orderedmap.Len(m), m.IsZero())
	}
	if len(want) == 0 {
		omCheckEmpty(e, at, m)
	}
	eq := func(sig string, got []omPair) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			bad(sig, "observed %v", got)
		}
	}
	rev := func(in []omPair) []omPair {
		var o []omPair
		for i := len(in) - 1; i >= 0; i-- {
			o = append(o, in[i])
		}
		return o
	}
	var got []omPair
	for k, x := range m.FromOldest() {
		got = append(got, omPair{k, x})
	}
	eq("fromoldest", got)
	got = nil
	for k, x := range m.FromNewest() {
		got = append(got, omPair{k, x})
	}
	eq("fromnewest", rev(got))
	got = nil
	for p := m.First(); p != nil; p = p.Next() {
		if *p.KeyPtr() != p.Key() || *p.ValuePtr() != p.Value() {
			bad("pairptr", "pair pointers disagree at %v", p.Key())
		}
		got = append(got, omPair{p.Key(), p.Value()})
	}
	eq("pairs", got)
	got = nil
	for p := range orderedmap.Iterate(context.Background(), m) {
		got = append(got, omPair{p.Key(), p.Value()})
	}
	eq("iterate", got)
	var ks, kn []string
	var vs, vn []int
	for k := range m.KeysFromOldest() {
		ks = append(ks, k)
	}
	for k := range m.KeysFromNewest() {
		kn = append(kn, k)
	}
	for x := range m.ValuesFromOldest() {
		vs = append(vs, x)
	}
	for x := range m.ValuesFromNewest() {
		vn = append(vn, x)
	}
	if len(ks) != len(want) || len(kn) != len(want) || len(vs) != len(want) || len(vn) != len(want) {
		bad("keysvalues", "keys %v %v values %v %v", ks, kn, vs, vn)
	} else {
		for i, w := range want {
			j := len(want) - 1 - i
			if ks[i] != w.K || kn[j] != w.K || vs[i] != w.V || vn[j] != w.V {
				bad("keysvalues", "keys %v %v values %v %v", ks, kn, vs, vn)
			}
		}
	}
	// stopping early never yields more
	for stop := 1; stop <= len(want); stop++ {
		n := 0
		for range m.FromOldest() {
			if n++; n == stop {
				break
			}
		}
		for range m.FromNewest() {
			if n++; n == 2*stop {
				break
			}
		}
		for range m.KeysFromNewest() {
			if n++; n == 3*stop {
				break
			}
		}
		for range m.ValuesFromOldest() {
			if n++; n == 4*stop {
				break
			}
		}
		if n != 4*stop {
			bad("early-stop", "stopped iteration yielded %d, not %d", n, 4*stop)
		}
	}
	has := map[string]int{}
	for _, w := range want {
		has[w.K] = w.V
	}
	for _, k := range []string{"b", "B", "a", "a1", "10", "9", "", "zz", "A"} {
		x, ok := m.Get(k)
		w, wok := has[k]
		if ok != wok || x != w || m.GetOrZero(k) != w {
			bad("get", "Get(%q) = %v,%v", k, x, ok)
		}
		f := m.FindValueUntyped(k)
		if (f == nil) == wok || (wok && f.(int) != w) {
			bad("find", "FindValueUntyped(%q) = %v", k, f)
		}
	}
	y, err := m.MarshalYAML()
	if err != nil {
		bad("yaml", "MarshalYAML error %v", err)
		return
	}
	n, ok := y.(*yaml.Node)
	if !ok {
		bad("yaml", "MarshalYAML gives %T", y)
		return
	}
	got = nil
	for i := 0; i+1 < len(n.Content); i += 2 {
		got = append(got, omPair{n.Content[i].Value, azInt(n.Content[i+1].Value)})
	}
	eq("yaml", got)
	by, err := yaml.Marshal(m)
	if err != nil {
		bad("yaml", "marshal error %v", err)
	}
	got = nil
	for _, l := range strings.Split(strings.TrimSpace(string(by)), "\n") {
		if i := strings.LastIndex(l, ":"); i > 0 && l != "{}" {
			got = append(got, omPair{strings.Trim(l[:i], `"'`), azInt(strings.TrimSpace(l[i+1:]))})
		}
	}
	eq("yamlbytes", got)
	if c := orderedmap.Cast[string, int](any(m)); c != m {
		bad("cast", "Cast changes the map")
	}
}
