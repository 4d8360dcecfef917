package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"strconv"
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
)

// One description of the object model, an object in it and the edits of that object.
type oasVec struct {
	Ver   int
	T     string
	Base  string
	At    []string
	Eat   []string // where the edits apply
	Cmp   bool     // compared where it stands
	TCmp  bool     // what it refers to is compared where that stands
	Types []string
	Doc   *Tree
	Edits []oasEdit
	Moves []oasMove
}
type oasMove struct{ From, To string }
type oasEdit struct {
	Op, Key, Kind string
	V             *Tree
	R             []oasCh
	Q, Om, Bad    bool
}
type oasCh struct {
	C    string // kinds of change
	P    []string
	O, N string
	M    bool
}

func (e oasEdit) String() string {
	if e.Op == "del" {
		return "del " + e.Key
	}
	return fmt.Sprintf("set %s = %s", e.Key, e.V.Canon(true))
}

// vclass describes a value for signatures.
func vclass(t *Tree) string {
	if t == nil {
		return "none"
	}
	switch t.T {
	case "map", "seq":
		if len(t.C) == 0 {
			return t.T + "0"
		}
		return fmt.Sprintf("%s%d", t.T, len(t.C))
	case "str":
		if t.V == "" {
			return "str-empty"
		}
		return "str"
	case "bool":
		return t.V
	case "int", "float":
		if t.V == "0" || t.V == "0.0" {
			return t.T + "-zero"
		}
	}
	return t.T
}

func (t *Tree) clone() *Tree {
	c := *t
	c.K = append([]string(nil), t.K...)
	c.C = append([]*Tree(nil), t.C...)
	return &c
}

// at follows an address ("#n" is the n-th entry of a list).
func (t *Tree) at(addr []string) *Tree {
	for _, a := range addr {
		if t == nil {
			return nil
		}
		if t.T == "seq" {
			var n int
			fmt.Sscanf(a, "#%d", &n)
			if n < 1 || n > len(t.C) {
				return nil
			}
			t = t.C[n-1]
			continue
		}
		t = t.Get(a)
	}
	return t
}

// with returns a copy of the tree with the object at addr replaced by f of it.
func (t *Tree) with(addr []string, f func(*Tree) *Tree) *Tree {
	if len(addr) == 0 {
		return f(t)
	}
	c := t.clone()
	if t.T == "seq" {
		var n int
		fmt.Sscanf(addr[0], "#%d", &n)
		c.C[n-1] = t.C[n-1].with(addr[1:], f)
		return c
	}
	i := t.Idx(addr[0])
	c.C[i] = t.C[i].with(addr[1:], f)
	return c
}

func (t *Tree) set(k string, v *Tree) *Tree {
	c := t.clone()
	if i := c.Idx(k); i >= 0 {
		c.C[i] = v
	} else {
		c.K, c.C = append(c.K, k), append(c.C, v)
	}
	return c
}

func (t *Tree) del(k string) *Tree {
	c := &Tree{T: t.T, V: t.V}
	for i := range t.K {
		if t.K[i] != k {
			c.K, c.C = append(c.K, t.K[i]), append(c.C, t.C[i])
		}
	}
	return c
}

func (ed oasEdit) apply(doc *Tree, at []string) *Tree {
	return doc.with(at, func(l *Tree) *Tree {
		if ed.Op == "del" {
			return l.del(ed.Key)
		}
		return l.set(ed.Key, ed.V)
	})
}

// reversed has the keys of every map in the opposite order.
func (t *Tree) reversed() *Tree {
	c := &Tree{T: t.T, V: t.V}
	if t.T == "map" {
		for i := len(t.K) - 1; i >= 0; i-- {
			c.K, c.C = append(c.K, t.K[i]), append(c.C, t.C[i].reversed())
		}
		return c
	}
	for _, x := range t.C {
		c.C = append(c.C, x.reversed())
	}
	return c
}

func oasOpen(src []byte) (libopenapi.Document, error) {
	return libopenapi.NewDocumentWithConfiguration(src, &datamodel.DocumentConfiguration{})
}

func init() { drivers["oasrender"] = oasRender }

// every description of the model, untouched, renders to itself
func oasRender(b []byte, e *Env) error {
	var v oasVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if v.Ver == 20 { // Swagger models cannot be rendered
		e.Skip()
		return nil
	}
	oasRenderOne(e, &v, v.Doc, nil, "base", "base "+v.Base, true)
	turn := int(crc32.ChecksumIEEE([]byte(fmt.Sprint(v.Ver, v.At)))) % 4
	for i, ed := range v.Edits {
		if ed.Bad || v.Base == "clash" && len(v.At) > 2 && e.Tier == "quick" && i%4 != turn {
			continue
		}
		k := ed.Key
		if ed.Kind == "self" || ed.Kind == "selfs" {
			k = "*"
		}
		var alt *Tree
		t := ed.apply(v.Doc, v.Eat)
		if ed.Om {
			alt = oasEdit{Op: "del", Key: ed.Key}.apply(v.Doc, v.Eat)
		}
		oasRenderOne(e, &v, t, alt, k+":"+ed.Op+":"+vclass(ed.V), ed.String(), i%7 == 0 || e.Tier != "quick")
	}
	return nil
}

// sameTree compares a rendering with the description; alt is an equally good description.
func sameTree(want, alt, got *Tree, ordered bool) string {
	d := want.Diff(got, ordered)
	if d != "" && alt != nil && alt.Diff(got, ordered) == "" {
		return ""
	}
	return d
}

func oasRenderOne(e *Env, v *oasVec, tree, alt *Tree, tag, what string, full bool) {
	e.Count("documents")
	sig := func(s string) string { return s + ":" + v.T + "." + tag }
	where := func() string {
		return fmt.Sprintf("3.%d %s at %s (%s, %s)", v.Ver-30, v.T, strings.Join(v.At, "/"), v.Base, what)
	}
	src := tree.YAMLBytes()
	doc, err := oasOpen(src)
	if err != nil {
		e.Fail(sig("open"), "%s: %v", where(), err)
		return
	}
	m, err := doc.BuildV3Model()
	if m == nil || err != nil {
		e.Fail(sig("build"), "%s: %v", where(), err)
		return
	}
	out, err := m.Model.Render()
	if err != nil {
		e.Fail(sig("error"), "%s: %v", where(), err)
		return
	}
	got, err := Parse(out)
	if err != nil {
		e.Fail(sig("unparsable"), "%s: %v", where(), err)
		return
	}
	if d := sameTree(tree, alt, got, true); d != "" {
		e.Fail(sig("render"), "%s: description vs rendering: %s", where(), d)
		return
	}
	if !full {
		return
	}
	e.Count("full")
	if out2, err := m.Model.Render(); err != nil || !bytes.Equal(out, out2) {
		e.Fail(sig("again"), "%s: rendering twice gives different bytes: %v\n%s\n--\n%s", where(), err, trunc(string(out), 1500), trunc(string(out2), 1500))
	}
	jb, err := m.Model.RenderJSON("  ")
	if err != nil {
		e.Fail(sig("json-error"), "%s: %v", where(), err)
	} else if !json.Valid(jb) {
		e.Fail(sig("json-invalid"), "%s: RenderJSON gives invalid JSON: %s", where(), trunc(string(jb), 1500))
	} else if gj, err := Parse(jb); err != nil {
		e.Fail(sig("json-unparsable"), "%s: %v", where(), err)
	} else if d := sameTree(numeric(tree), numeric(alt), numeric(gj), false); d != "" {
		e.Fail(sig("json"), "%s: description vs RenderJSON: %s", where(), d)
	}
	rb, ndoc, m2, err := doc.RenderAndReload()
	if err != nil || m2 == nil {
		e.Fail(sig("reload"), "%s: RenderAndReload: %v", where(), err)
		return
	}
	if gr, err := Parse(rb); err != nil || sameTree(tree, alt, gr, true) != "" {
		e.Fail(sig("reload-bytes"), "%s: RenderAndReload returns other bytes: %v %s", where(), err, sameTree(tree, alt, gr, true))
	}
	if o3, err := m2.Model.Render(); err != nil || !bytes.Equal(o3, out) {
		e.Fail(sig("fixpoint"), "%s: rendering the reloaded model differs from the first rendering: %v\n%s\n--\n%s", where(), err, trunc(string(out), 1500), trunc(string(o3), 1500))
	}
	_ = ndoc
	// the same description given as indented and as single-line JSON
	var ind bytes.Buffer
	if json.Indent(&ind, []byte(tree.JSON()), "", "  ") == nil {
		oasRenderJSONIn(e, sig, where, "indented", ind.Bytes(), tree, alt)
	}
	oasRenderJSONIn(e, sig, where, "single-line", []byte(tree.JSON()), tree, alt)
}

func oasRenderJSONIn(e *Env, sig func(string) string, where func() string, form string, src []byte, tree, alt *Tree) {
	jd, err := oasOpen(src)
	if err != nil {
		e.Fail(sig("json-open"), "%s: as %s JSON: %v", where(), form, err)
		return
	}
	jm, err := jd.BuildV3Model()
	if jm == nil || err != nil {
		e.Fail(sig("json-build"), "%s: as %s JSON: %v", where(), form, err)
		return
	}
	o, err := jm.Model.Render()
	if err != nil {
		e.Fail(sig("json-render-error"), "%s: as %s JSON: %v", where(), form, err)
		return
	}
	g, err := Parse(o)
	if err != nil {
		e.Fail(sig("json-in-unparsable"), "%s: as %s JSON: %v", where(), form, err)
	} else if d := sameTree(numeric(tree), numeric(alt), numeric(g), true); d != "" {
		e.Fail(sig("json-in-"+form), "%s: given as %s JSON: description vs rendering: %s", where(), form, d)
	}
}

// numeric has every number in one form (JSON does not tell 1.0 from 1).
func numeric(t *Tree) *Tree {
	if t == nil {
		return nil
	}
	c := &Tree{T: t.T, V: t.V, K: t.K}
	if t.T == "int" || t.T == "float" {
		if f, err := strconv.ParseFloat(t.V, 64); err == nil {
			c.T, c.V = "float", strconv.FormatFloat(f, 'g', -1, 64)
		}
	}
	for _, x := range t.C {
		c.C = append(c.C, numeric(x))
	}
	return c
}
