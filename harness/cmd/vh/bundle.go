package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"go.yaml.in/yaml/v4"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/bundler"
)

// Bundling of the file sets of spec/RefGraph.tla: the bundle has to denote, at every place
// that can be reached, the object the specification's graph names for it.
func init() {
	drivers["bundle"] = bundleRun
	drivers["compose"] = composeRun
}

func bundleRun(b []byte, e *Env) error {
	var v rgVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	dir := filepath.Join(e.Scratch, "rg")
	if os.Getenv("VH_KEEP") == "" {
		defer os.RemoveAll(dir)
	}
	s := rgWrite(&v, dir)
	need := v.dangling()
	for _, inline := range []bool{false, true} {
		tag := "inline"
		if inline {
			tag = "inline-all"
		}
		in := inline
		run := func() ([]byte, error) {
			return bundler.BundleBytesWithConfig(s.root, s.config(v.Mode), &bundler.BundleInlineConfig{InlineLocalRefs: &in})
		}
		out, err := run()
		bundleCheck(e, &v, tag, out, err, need, func(t *Tree) {
			bdTree(e, &v, t, tag, inline)
		})
		again, err2 := run()
		if err == nil && string(again) != string(out) || (err == nil) != (err2 == nil) {
			e.Fail(e.Prop+":"+tag+":unstable", "[%s %s] bundling the same input again gives other bytes", v.Mode, v.Ver)
		}
		if !inline {
			// the other entry points
			o2, er2 := bundler.BundleBytes(s.root, s.config(v.Mode))
			if err == nil && string(o2) != string(out) || (err == nil) != (er2 == nil) {
				e.Fail(e.Prop+":entry-points", "[%s %s] BundleBytes and BundleBytesWithConfig differ", v.Mode, v.Ver)
			}
			if len(need) == 0 {
				doc, err := libopenapi.NewDocumentWithConfiguration(s.root, s.config(v.Mode))
				if err == nil {
					m, err := doc.BuildV3Model()
					if err == nil {
						o3, er3 := bundler.BundleDocument(&m.Model)
						if err == nil && string(o3) != string(out) || (er3 == nil) != (er2 == nil) {
							e.Fail(e.Prop+":entry-points", "[%s %s] BundleDocument and BundleBytes differ: %v", v.Mode, v.Ver, er3)
						}
					}
					doc.Release()
				}
			}
		}
	}
	return nil
}

func composeRun(b []byte, e *Env) error {
	var v rgVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	dir := filepath.Join(e.Scratch, "rg")
	if os.Getenv("VH_KEEP") == "" {
		defer os.RemoveAll(dir)
	}
	s := rgWrite(&v, dir)
	need := v.dangling()
	out, err := bundler.BundleBytesComposed(s.root, s.config(v.Mode), nil)
	bundleCheck(e, &v, "compose", out, err, need, func(t *Tree) {
		bdTree(e, &v, t, "compose", false)
		bdOnce(e, &v, t)
	})
	res, err2 := bundler.BundleBytesComposedWithOrigins(s.root, s.config(v.Mode), nil)
	if (err == nil) != (err2 == nil) || err == nil && string(res.Bytes) != string(out) {
		e.Fail(e.Prop+":compose:entry-points", "[%s %s] BundleBytesComposedWithOrigins and BundleBytesComposed differ", v.Mode, v.Ver)
	}
	if err2 == nil && err == nil && len(need) == 0 {
		bdOrigins(e, &v, s, res)
	}
	again, err3 := bundler.BundleBytesComposed(s.root, s.config(v.Mode), nil)
	if (err == nil) != (err3 == nil) || err == nil && string(again) != string(out) {
		e.Fail(e.Prop+":compose:unstable", "[%s %s] bundling the same input again gives other bytes", v.Mode, v.Ver)
	}
	if err == nil && len(need) == 0 {
		// another delimiter only changes names
		other, err := bundler.BundleBytesComposed(s.root, s.config(v.Mode), &bundler.BundleCompositionConfig{Delimiter: "@@"})
		bundleCheck(e, &v, "compose-delim", other, err, need, func(t *Tree) {
			bdTree(e, &v, t, "compose-delim", false)
			bdOnce(e, &v, t)
		})
	}
	return nil
}

// bdOrigins: the recorded origins name the file and the place where each lifted component was written.
func bdOrigins(e *Env, v *rgVec, s *rgSet, res *bundler.BundleResult) {
	t, err := Parse(res.Bytes)
	if err != nil {
		return
	}
	fail := func(sig, f string, a ...any) {
		e.Fail(e.Prop+":compose:origin-"+sig, "[%s %s] %s", v.Mode, v.Ver, fmt.Sprintf(f, a...))
	}
	root, err := Parse(s.root)
	must(err)
	for _, key := range sortedKeys(res.Origins) {
		o := res.Origins[key]
		e.Count("origins")
		if o.OriginalRef == "#/" {
			// a whole file, by the library's convention
			c := *o
			c.OriginalRef, o = "", &c
		}
		if o.BundledRef != key {
			fail("key", "%s is recorded as %s", key, o.BundledRef)
		}
		p := strings.Split(strings.TrimPrefix(key, "#/components/"), "/")
		if len(p) != 2 || p[0] != o.ComponentType {
			fail("type", "%s is recorded as one of the %s", key, o.ComponentType)
			continue
		}
		got := t.Get("components")
		for _, k := range p {
			if got != nil {
				got = got.Get(k)
			}
		}
		if got == nil {
			fail("missing", "%s is not in the bundle", key)
			continue
		}
		src, ok := s.web[o.OriginalFile]
		if !ok {
			if src, err = os.ReadFile(o.OriginalFile); err != nil {
				fail("file", "%s comes from %s: %v", key, o.OriginalFile, err)
				continue
			}
		}
		ft, err := Parse(src)
		must(err)
		at, err := bdPoint(ft, "#"+strings.TrimPrefix(o.OriginalRef, "#"))
		if err != nil {
			fail("ref", "%s comes from %s%s: %v", key, o.OriginalFile, o.OriginalRef, err)
			continue
		}
		if a, b := at.Get("x-id"), got.Get("x-id"); a == nil || b == nil || a.V != b.V {
			fail("place", "%s comes from %s%s, but that is another object", key, o.OriginalFile, o.OriginalRef)
			continue
		}
		if n := bdNodeAt(src, o.OriginalRef); n != nil && (n.Line != o.Line || n.Column != o.Column) {
			fail("line", "%s comes from %s%s at %d:%d, recorded as %d:%d", key, o.OriginalFile, o.OriginalRef, n.Line, n.Column, o.Line, o.Column)
		}
		name := filepath.Base(o.OriginalFile)
		name = strings.TrimSuffix(name, filepath.Ext(name))
		if i := strings.LastIndex(o.OriginalRef, "/"); i >= 0 && i < len(o.OriginalRef)-1 {
			name, _ = url.PathUnescape(o.OriginalRef[i+1:])
			name = strings.ReplaceAll(strings.ReplaceAll(name, "~1", "/"), "~0", "~")
		}
		if o.OriginalName != name {
			fail("name", "%s comes from %s%s, recorded name %s", key, o.OriginalFile, o.OriginalRef, o.OriginalName)
		}
		if o.WasRenamed != (p[1] != name) {
			fail("renamed", "%s comes from %s%s, recorded as renamed: %v", key, o.OriginalFile, o.OriginalRef, o.WasRenamed)
		}
	}
	cs := t.Get("components")
	if cs == nil {
		return
	}
	for i, sec := range cs.K {
		if cs.C[i].T != "map" {
			continue
		}
		for _, name := range cs.C[i].K {
			at := "#/components/" + sec + "/" + name
			own := false
			if rc := root.Get("components"); rc != nil && rc.Get(sec) != nil && rc.Get(sec).Get(name) != nil {
				own = true
			}
			if !own && res.Origins[at] == nil {
				fail("none", "%s was lifted but has no origin", at)
			}
			if own && res.Origins[at] != nil {
				fail("own", "%s is the root document's own, but has an origin %v", at, *res.Origins[at])
			}
		}
	}
}

func bdNodeAt(src []byte, ref string) *yaml.Node {
	var doc yaml.Node
	if yaml.Unmarshal(src, &doc) != nil {
		return nil
	}
	n := doc.Content[0]
	ref = strings.TrimPrefix(ref, "#")
	if ref == "" {
		return n
	}
	p, _ := url.PathUnescape(ref)
	for _, k := range strings.Split(p[1:], "/") {
		k = strings.ReplaceAll(strings.ReplaceAll(k, "~1", "/"), "~0", "~")
		var nx *yaml.Node
		for i := 0; n.Kind == yaml.MappingNode && i+1 < len(n.Content); i += 2 {
			if n.Content[i].Value == k {
				nx = n.Content[i+1]
			}
		}
		if n.Kind == yaml.SequenceNode {
			if j, err := strconv.Atoi(k); err == nil && j < len(n.Content) {
				nx = n.Content[j]
			}
		}
		if nx == nil {
			return nil
		}
		n = nx
	}
	return n
}

// bdOnce: every definition stands once in the components, and those of the root document keep their names.
func bdOnce(e *Env, v *rgVec, t *Tree) {
	seen := map[string]string{}
	cs := t.Get("components")
	if cs == nil {
		return
	}
	for i, sec := range cs.K {
		for j, name := range cs.C[i].K {
			x := cs.C[i].C[j].Get("x-id")
			if cs.C[i].C[j].T != "map" || x == nil {
				continue
			}
			at := sec + "/" + name
			e.Count("components")
			if seen[x.V] != "" {
				e.Fail(e.Prop+":compose:twice-"+sec, "[%s %s] %s stands at %s and %s", v.Mode, v.Ver, x.V, seen[x.V], at)
			}
			seen[x.V] = at
		}
	}
}

func bundleCheck(e *Env, v *rgVec, tag string, out []byte, err error, need map[int]string, ok func(t *Tree)) {
	if len(need) > 0 {
		e.Count(tag + ":dangling")
		if err == nil {
			e.Fail(e.Prop+":"+tag+":dangling-silent", "[%s %s] bundled without an error although %v designates nothing", v.Mode, v.Ver, need)
		}
		return
	}
	if err != nil {
		for _, r := range v.Refs {
			if r.Tgt <= 0 { // dangling, but the object it sits in is not reached
				e.Count(tag + ":refused-dangling")
				return
			}
		}
	}
	if err != nil && v.Loops == "other" && strings.Contains(err.Error(), "circular reference") {
		e.Count(tag + ":refused-circular")
		return
	}
	if err != nil {
		e.Fail(e.Prop+":"+tag+":error", "[%s %s] %s", v.Mode, v.Ver, trunc(err.Error(), 400))
		return
	}
	t, err := Parse(out)
	if err != nil {
		e.Fail(e.Prop+":"+tag+":unreadable", "[%s %s] %v", v.Mode, v.Ver, err)
		return
	}
	e.Count(tag)
	ok(t)
}

// bdPoint walks an RFC 6901 pointer in a tree.
func bdPoint(t *Tree, ref string) (*Tree, error) {
	if !strings.HasPrefix(ref, "#") {
		return nil, fmt.Errorf("`%s` is not a local reference", ref)
	}
	p, err := url.PathUnescape(ref[1:])
	if err != nil {
		return nil, err
	}
	if p == "" {
		return t, nil
	}
	cur := t
	for _, k := range strings.Split(p[1:], "/") {
		k = strings.ReplaceAll(strings.ReplaceAll(k, "~1", "/"), "~0", "~")
		nx := bdStep(cur, k)
		if nx == nil {
			return nil, fmt.Errorf("`%s` designates nothing", ref)
		}
		cur = nx
	}
	return cur, nil
}

func bdStep(t *Tree, k string) *Tree {
	if t.T == "seq" {
		n, err := strconv.Atoi(k)
		if err != nil || n >= len(t.C) {
			return nil
		}
		return t.C[n]
	}
	return t.Get(k)
}

func bdFollow(root, t *Tree) (*Tree, bool, error) {
	followed := false
	for i := 0; t.T == "map" && i < 40; i++ {
		r := t.Get("$ref")
		if r == nil || r.T != "str" {
			return t, followed, nil
		}
		n, err := bdPoint(root, r.V)
		if err != nil {
			return nil, true, err
		}
		followed, t = true, n
	}
	if t.T == "map" && t.Get("$ref") != nil {
		return nil, true, fmt.Errorf("the reference never ends")
	}
	return t, followed, nil
}

// bdTree walks the graph of the specification in a bundle.
func bdTree(e *Env, v *rgVec, root *Tree, tag string, inlineAll bool) {
	type item struct {
		t     *Tree
		id    int
		at    string
		depth int
	}
	var q []item
	fail := func(sig, f string, a ...any) { e.Fail(e.Prop+":"+tag+":"+sig, f, a...) }
	step := func(from *Tree, addr []string, id int, at string, depth int) {
		at += " " + strings.Join(addr, " > ")
		cur, kind := from, v.Nodes[id-1].Kind
		for i, a := range addr {
			if i > 0 || depth > 0 {
				var err error
				if cur, _, err = bdFollow(root, cur); err != nil {
					fail("ref-"+kind, "[%s %s]%s: expected n%d: %v", v.Mode, v.Ver, at, id, err)
					return
				}
			}
			nx := bdStep(cur, a)
			if nx == nil {
				fail("gone-"+kind, "[%s %s]%s: expected n%d, there is no %s", v.Mode, v.Ver, at, id, a)
				return
			}
			cur = nx
		}
		cur, _, err := bdFollow(root, cur)
		if err != nil {
			fail("ref-"+kind, "[%s %s]%s: expected n%d: %v", v.Mode, v.Ver, at, id, err)
			return
		}
		got := ""
		if x := cur.Get("x-id"); cur.T == "map" && x != nil {
			got = x.V
		}
		if got != "n"+strconv.Itoa(id) {
			fail("wrong-"+kind, "[%s %s]%s: expected n%d, found %q", v.Mode, v.Ver, at, id, got)
			return
		}
		q = append(q, item{cur, id, at + fmt.Sprintf(" =n%d;", id), depth})
	}
	for _, en := range v.Entries {
		if en.ID != 0 {
			step(root, en.Addr, en.ID, "", 0)
		}
	}
	budget := 4000
	for len(q) > 0 && budget > 0 {
		it := q[0]
		q = q[1:]
		if it.depth > 9 {
			continue
		}
		for _, ed := range v.Nodes[it.id-1].Edges {
			if ed.ID != 0 {
				budget--
				step(it.t, ed.Addr, ed.ID, it.at, it.depth+1)
			}
		}
	}
	e.Add("places", 4000-budget)
	// no reference may leave the document, and none may dangle, anywhere in it
	var all func(t *Tree, at string)
	all = func(t *Tree, at string) {
		if t.T == "map" {
			if r := t.Get("$ref"); r != nil && r.T == "str" {
				e.Count("refs-left")
				if _, err := bdPoint(root, r.V); err != nil {
					fail("left", "[%s %s] %s: %v", v.Mode, v.Ver, at, err)
				}
			}
			for i, k := range t.K {
				all(t.C[i], at+"/"+k)
			}
			return
		}
		for i, c := range t.C {
			all(c, at+"/"+strconv.Itoa(i))
		}
	}
	all(root, "")
}
