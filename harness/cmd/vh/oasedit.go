package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/pb33f/libopenapi"
	v3 "github.com/pb33f/libopenapi/datamodel/high/v3"
)

func init() { drivers["oasedit"] = oasEditRun }

func oasModel(src []byte) (libopenapi.Document, *v3.Document, error) {
	doc, err := oasOpen(src)
	if err != nil {
		return nil, nil, err
	}
	m, err := doc.BuildV3Model()
	if err != nil {
		return nil, nil, err
	}
	if m == nil {
		return nil, nil, fmt.Errorf("no model")
	}
	return doc, &m.Model, nil
}

// every edit of the specification made through the model
func oasEditRun(b []byte, e *Env) error {
	var v oasVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if v.Ver == 20 || len(v.Edits) == 0 {
		e.Skip()
		return nil
	}
	src := v.Doc.YAMLBytes()
	// the model shows the description
	if _, m, err := oasModel(src); err != nil {
		e.Fail("open:"+v.T, "3.%d %s at %v: %v", v.Ver-30, v.T, v.At, err)
		return nil
	} else if d := modelDiff(m, v.Doc); d != "" {
		e.Fail("model:"+v.T, "3.%d %s at %v (%s): description vs model: %s", v.Ver-30, v.T, v.At, v.Base, d)
	}
	leaf := v.Doc.at(v.At)
	for i, ed := range v.Edits {
		if ed.Bad {
			continue
		}
		oasEditOne(e, &v, src, ed, false, i%5 == 0 || e.Tier != "quick")
		if ed.Op == "set" && leaf.Get(ed.Key) != nil && (ed.V.T == "map" || ed.V.T == "seq") && ed.Kind != "any" && ed.Kind != "ext" && ed.Kind != "self" && ed.Kind != "selfs" {
			oasEditOne(e, &v, src, ed, true, false)
		}
	}
	return nil
}

// modelDiff compares what the model shows with a description (zero values and empty lists say nothing).
func modelDiff(m *v3.Document, want *Tree) string {
	return prune(numeric(want)).Diff(prune(numeric(hmTree(reflect.ValueOf(m)))), false)
}

// prune leaves out map entries that say nothing: empty text, false, empty collections.
func prune(t *Tree) *Tree {
	c := &Tree{T: t.T, V: t.V}
	for i, x := range t.C {
		p := prune(x)
		if t.T == "map" {
			if p.T == "null" || (p.T == "map" || p.T == "seq") && len(p.C) == 0 || p.T == "str" && p.V == "" || p.T == "bool" && p.V == "false" {
				continue
			}
			c.K = append(c.K, t.K[i])
		}
		c.C = append(c.C, p)
	}
	return c
}

func oasEditOne(e *Env, v *oasVec, src []byte, ed oasEdit, patch, full bool) {
	e.Count("edits")
	k := ed.Key
	if ed.Kind == "self" || ed.Kind == "selfs" {
		k = "*"
	}
	how := ed.Op
	if patch {
		how = "patch"
	}
	sig := func(s string) string { return s + ":" + v.T + "." + k + ":" + how + ":" + numCls(ed.V) }
	where := func() string {
		return fmt.Sprintf("3.%d %s at %s (%s, %s)", v.Ver-30, v.T, strings.Join(v.At, "/"), v.Base, how+" "+strings.TrimPrefix(ed.String(), ed.Op+" "))
	}
	doc, m, err := oasModel(src)
	if err != nil {
		e.Fail(sig("open"), "%s: %v", where(), err)
		return
	}
	obj, err := hmAt(reflect.ValueOf(m), v.At)
	if err != nil {
		e.Fail(sig("address"), "%s: %v", where(), err)
		return
	}
	old := v.Doc.at(v.At).Get(ed.Key)
	switch {
	case ed.Op == "del":
		err = hmDel(obj, ed.Key)
	case patch:
		var ok bool
		if ok, err = hmPatch(obj, ed.Key, old, ed.V); err == nil && !ok {
			return
		}
	default:
		err = hmSet(obj, ed.Key, ed.V)
	}
	if err != nil {
		e.Fail(sig("set"), "%s: %v", where(), err)
		return
	}
	out, err := m.Render()
	if err != nil {
		e.Fail(sig("error"), "%s: %v", where(), err)
		return
	}
	got, err := Parse(out)
	if err != nil {
		e.Fail(sig("unparsable"), "%s: %v", where(), err)
		return
	}
	if d := editDiff(v, ed, old, got); d != "" {
		e.Fail(sig("render"), "%s: edited description vs rendering: %s", where(), d)
		return
	}
	if !full {
		return
	}
	e.Count("reloaded")
	rb, _, m2, err := doc.RenderAndReload()
	if err != nil || m2 == nil {
		e.Fail(sig("reload"), "%s: RenderAndReload: %v", where(), err)
		return
	}
	if !bytes.Equal(rb, out) {
		e.Fail(sig("reload-bytes"), "%s: RenderAndReload differs from Render\n%s\n--\n%s", where(), trunc(string(rb), 1200), trunc(string(out), 1200))
	}
	if d := modelDiff(&m2.Model, ed.apply(v.Doc, v.At)); d != "" {
		e.Fail(sig("reload-model"), "%s: edited description vs reloaded model: %s", where(), d)
	}
}

// editDiff: the rendering is the description with exactly the edit.
func editDiff(v *oasVec, ed oasEdit, old, got *Tree) string {
	wants := []*Tree{ed.apply(v.Doc, v.At)}
	clear := oasEdit{Op: "del", Key: ed.Key}.apply(v.Doc, v.At)
	if ed.Op == "set" {
		if ed.Om || emptyish(ed.V) && ed.Kind != "any" && ed.Kind != "ext" {
			wants = append(wants, clear)
		}
	} else if old != nil && ed.Kind == "bool" {
		// a cleared flag may be shown as false
		z := &Tree{T: "bool", V: "false"}
		wants = append(wants, oasEdit{Op: "set", Key: ed.Key, V: z}.apply(v.Doc, v.At))
	}
	first := ""
	for _, w := range wants {
		var d string
		got := got
		if ed.Kind == "num" || ed.Kind == "excl" { // a number may be written in any way
			w, got = numeric(w), numeric(got)
		}
		if w.at(v.At).Get(ed.Key) != nil && old == nil {
			// a new key may stand anywhere in its object
			d = w.Diff(got, false)
			if d == "" {
				rest := got.with(v.At, func(l *Tree) *Tree { return l.del(ed.Key) })
				c := clear
				if ed.Kind == "num" || ed.Kind == "excl" {
					c = numeric(c)
				}
				d = c.Diff(rest, true)
			}
		} else if d = w.Diff(got, false); d == "" {
			// the value of a replaced structured field may have any key order inside
			strip := func(t *Tree) *Tree {
				if ed.Kind == "any" || ed.Kind == "ext" || ed.Kind == "anys" {
					return t
				}
				return t.with(v.At, func(l *Tree) *Tree {
					if l.Get(ed.Key) == nil {
						return l
					}
					return l.set(ed.Key, &Tree{T: "str", V: "(value)"})
				})
			}
			d = strip(w).Diff(strip(got), true)
		}
		if d == "" {
			return ""
		}
		if first == "" {
			first = d
		}
	}
	return first
}

// numCls tells numbers apart in signatures.
func numCls(t *Tree) string {
	if t != nil && t.T == "float" {
		return "float" + t.V
	}
	return vclass(t)
}

func emptyish(t *Tree) bool {
	return t == nil || t.T == "str" && t.V == "" || t.T == "bool" && t.V == "false" || (t.T == "map" || t.T == "seq") && len(t.C) == 0
}

// A history of edits with renderings and reloads in between.
type oasHist struct {
	Ver   int
	Doc0  *Tree
	Doc   *Tree
	Types []string
	Steps []struct {
		Do string
		At []string
		T  string
		Ed oasEdit
	}
}

func init() { drivers["oashist"] = oasHistRun }

func oasHistRun(b []byte, e *Env) error {
	var v oasHist
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	doc, m, err := oasModel(v.Doc0.YAMLBytes())
	if err != nil {
		e.Fail("hist-open", "%v", err)
		return nil
	}
	tree := v.Doc0
	var did []string
	var last string
	check := func(what string, out []byte) bool {
		got, err := Parse(out)
		if err != nil {
			e.Fail("hist-unparsable:"+last, "3.%d after %s: %s: %v", v.Ver-30, strings.Join(did, "; "), what, err)
			return false
		}
		if d := prune(numeric(tree)).Diff(prune(numeric(got)), false); d != "" {
			e.Fail("hist-"+what+":"+last, "3.%d after %s: edited description vs %s: %s", v.Ver-30, strings.Join(did, "; "), what, d)
			return false
		}
		return true
	}
	for _, s := range v.Steps {
		switch s.Do {
		case "edit":
			did = append(did, fmt.Sprintf("%s of %s at /%s", s.Ed, s.T, strings.Join(s.At, "/")))
			last = s.T + "." + s.Ed.Key + ":" + s.Ed.Op + ":" + numCls(s.Ed.V)
			e.Count("edits")
			obj, err := hmAt(reflect.ValueOf(m), s.At)
			if err == nil {
				if s.Ed.Op == "del" {
					err = hmDel(obj, s.Ed.Key)
				} else {
					err = hmSet(obj, s.Ed.Key, s.Ed.V)
				}
			}
			if err != nil {
				e.Fail("hist-set:"+last, "3.%d after %s: %v", v.Ver-30, strings.Join(did, "; "), err)
				return nil
			}
			tree = s.Ed.apply(tree, s.At)
		case "render":
			did = append(did, "render")
			out, err := m.Render()
			if err != nil {
				e.Fail("hist-error:"+last, "after %s: %v", strings.Join(did, "; "), err)
				return nil
			}
			if !check("rendering", out) {
				return nil
			}
		case "reload":
			did = append(did, "reload")
			out, nd, m2, err := doc.RenderAndReload()
			if err != nil || m2 == nil {
				e.Fail("hist-reload:"+last, "after %s: %v", strings.Join(did, "; "), err)
				return nil
			}
			if !check("reload", out) {
				return nil
			}
			if d := modelDiff(&m2.Model, tree); d != "" {
				e.Fail("hist-reload-model:"+last, "after %s: edited description vs reloaded model: %s", strings.Join(did, "; "), d)
				return nil
			}
			doc, m = nd, &m2.Model
		}
	}
	if d := tree.Diff(v.Doc, false); d != "" {
		return fmt.Errorf("harness and specification disagree on the edited description: %s", d)
	}
	out, err := m.Render()
	if err != nil {
		e.Fail("hist-error:"+last, "after %s: %v", strings.Join(did, "; "), err)
		return nil
	}
	check("rendering", out)
	return nil
}
