package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/overlay"
)

func init() { drivers["overlay"] = overlayDriver }

type ovSeg struct {
	S, N string
	I    int
}
type ovVec struct {
	Doc  *Tree
	Acts []struct {
		Target struct {
			Bad  bool
			Path []ovSeg
		}
		Copy   [][]ovSeg
		Update []*Tree
		Remove bool
	}
	Head, Err string
	Res       *Tree
	Warns     []int
}

func ovPath(p []ovSeg, alt bool) string {
	s := "$"
	for _, g := range p {
		switch g.S {
		case "name":
			if alt {
				s += "['" + g.N + "']"
			} else {
				s += "." + g.N
			}
		case "idx":
			s += fmt.Sprintf("[%d]", g.I)
		case "wild":
			if alt {
				s += "[*]"
			} else {
				s += ".*"
			}
		case "desc":
			s += ".." + g.N
		case "eq1":
			s += "[?@." + g.N + " == 1]"
		case "has":
			s += "[?@." + g.N + "]"
		}
	}
	return s
}

var ovErrs = map[string]error{"nooverlay": overlay.ErrMissingOverlayField, "noinfo": overlay.ErrMissingInfo, "noactions": overlay.ErrEmptyActions,
	"badpath": overlay.ErrInvalidJSONPath, "nosource": overlay.ErrCopySourceNotFound, "multisource": overlay.ErrCopySourceMultiple,
	"kind": overlay.ErrCopyTypeMismatch, "primitive": overlay.ErrPrimitiveTarget}

func overlayDriver(b []byte, e *Env) error {
	var v ovVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	for _, alt := range []bool{false, true} {
		ov := om{}
		if v.Head != "nooverlay" {
			ov = append(ov, kv{"overlay", "1.1.0"})
		}
		if v.Head != "noinfo" {
			ov = append(ov, kv{"info", om{{"title", "t"}, {"version", "1"}}})
		}
		acts := []any{}
		var targets []string
		for _, a := range v.Acts {
			t := ovPath(a.Target.Path, alt)
			if a.Target.Bad {
				t = "$..[[[invalid"
			}
			targets = append(targets, t)
			o := om{{"target", t}, {"description", "d"}}
			if len(a.Copy) > 0 {
				o = append(o, kv{"copy", ovPath(a.Copy[0], alt)})
			}
			if len(a.Update) > 0 {
				o = append(o, kv{"update", json.RawMessage(a.Update[0].JSON())})
			}
			if a.Remove {
				o = append(o, kv{"remove", true})
			}
			acts = append(acts, o)
		}
		if v.Head != "noactions" {
			ov = append(ov, kv{"actions", acts})
		}
		ovb, err := marshal(ov)
		must(err)
		if alt { // the other notation: block YAML
			t, err := Parse(ovb)
			must(err)
			ovb = t.YAMLBytes()
		}
		docb := []byte(v.Doc.JSON())
		if alt {
			docb = v.Doc.YAMLBytes()
		}
		ovApply(e, &v, docb, ovb, targets)
	}
	e.Count("err." + v.Err)
	return nil
}

func ovApply(e *Env, v *ovVec, docb, ovb []byte, targets []string) {
	orig, ovOrig := bytes.Clone(docb), bytes.Clone(ovb)
	fail := func(sig, f string, a ...any) {
		e.Fail(sig, f+"\ndoc: %s\noverlay: %s", append(a, orig, ovOrig)...)
	}
	type out struct {
		bytes []byte
		warns []*overlay.Warning
		err   error
	}
	run := map[string]func() out{
		"bytes": func() out {
			r, err := libopenapi.ApplyOverlayFromBytesToSpecBytes(docb, ovb)
			if r == nil {
				return out{err: err}
			}
			return out{r.Bytes, r.Warnings, err}
		},
		"doc": func() out {
			d, err := libopenapi.NewDocument(docb)
			if err != nil {
				return out{err: err}
			}
			r, err := libopenapi.ApplyOverlayFromBytes(d, ovb)
			if r == nil {
				return out{err: err}
			}
			if d2, _ := d.Serialize(); len(d2) > 0 {
				if t, _ := Parse(d2); t != nil && t.Diff(v.Doc, false) != "" {
					fail("doc-mutated", "source document changed: %s", t.Diff(v.Doc, false))
				}
			}
			if si := r.OverlayDocument.GetSpecInfo(); si == nil || si.SpecBytes == nil || !bytes.Equal(*si.SpecBytes, r.Bytes) {
				fail("overlaydoc", "the resulting document does not hold the resulting bytes")
			}
			return out{r.Bytes, r.Warnings, err}
		},
	}
	ovd, perr := libopenapi.NewOverlayDocument(ovb)
	if perr == nil {
		for i := 0; i < 2; i++ { // the same overlay object applied twice to the same input
			run[fmt.Sprintf("obj%d", i)] = func() out {
				r, err := overlay.Apply(docb, ovd)
				if r == nil {
					return out{err: err}
				}
				return out{r.Bytes, r.Warnings, err}
			}
		}
	}
	for _, name := range []string{"bytes", "obj0", "obj1", "doc"} {
		f := run[name]
		if f == nil {
			continue
		}
		o := f()
		if !bytes.Equal(docb, orig) || !bytes.Equal(ovb, ovOrig) {
			fail("input-mutated", "%s: input bytes changed", name)
		}
		if v.Err != "" {
			if o.err == nil {
				fail("noerror:"+v.Err, "%s: accepted, specified error %s; result %s", name, v.Err, o.bytes)
			} else if !errors.Is(o.err, ovErrs[v.Err]) && !(v.Err == "noactions" && errors.Is(o.err, overlay.ErrMissingActions)) {
				fail("error:"+v.Err, "%s: error %v, specified %s", name, o.err, v.Err)
			}
			continue
		}
		if o.err != nil {
			// the root may have been turned into something that is no longer a document
			if name != "obj0" && name != "obj1" && v.Res.Get("openapi") == nil {
				continue
			}
			if name != "obj0" && name != "obj1" && v.Res.Get("openapi").T != "str" {
				continue
			}
			if s := v.Res.Get("openapi"); name != "obj0" && name != "obj1" && s != nil && !strings.HasPrefix(s.V, "3.") {
				continue
			}
			fail("unexpected-error", "%s: error %v", name, o.err)
			continue
		}
		got, err := Parse(o.bytes)
		if err != nil {
			fail("unparsable", "%s: result does not parse: %v\n%s", name, err, o.bytes)
			continue
		}
		if d := got.Diff(v.Res, true); d != "" {
			fail("result", "%s: result differs from specification at %s\nresult:    %s\nspecified: %s", name, d, got.Canon(true), v.Res.Canon(true))
		}
		var ws, want []string
		for _, w := range o.warns {
			ws = append(ws, w.Target)
		}
		for _, w := range v.Warns {
			want = append(want, targets[w-1])
		}
		if fmt.Sprint(ws) != fmt.Sprint(want) {
			fail("warnings", "%s: warnings for %v, specified %v", name, ws, want)
		}
	}
}
