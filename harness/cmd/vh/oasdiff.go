package main

import (
	"encoding/json"
	"fmt"
	"go.yaml.in/yaml/v4"
	"reflect"
	"sort"
	"strings"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/what-changed/model"
)

func init() { drivers["oasdiff"] = oasDiffRun }

// one reported change and where it stands in the report
type found struct {
	ch   *model.Change
	typ  string   // the report object it stands in
	path []string // the names and keys leading there
}

func (f found) class() string {
	switch f.ch.ChangeType {
	case model.PropertyAdded, model.ObjectAdded:
		return "A"
	case model.PropertyRemoved, model.ObjectRemoved:
		return "R"
	case model.Modified:
		return "M"
	}
	return "?"
}

func (f found) String() string {
	return fmt.Sprintf("%s(%d) %s %q -> %q breaking=%v in %s %s", f.class(), f.ch.ChangeType, f.ch.Property, short(f.ch.Original), short(f.ch.New), f.ch.Breaking, f.typ, strings.Join(f.path, "/"))
}

func short(s string) string {
	if len(s) > 40 {
		return s[:40] + "..."
	}
	return s
}

type totals interface {
	TotalChanges() int
	TotalBreakingChanges() int
}

type tally [4]int

func (t tally) add(o tally) tally {
	for i := range t {
		t[i] += o[i]
	}
	return t
}

// countsExtensions names the reports whose breaking total counts the extensions.
var countsExtensions = map[string]bool{"CallbackChanges": true, "ContactChanges": true, "ExternalDocChanges": true,
	"InfoChanges": true, "LicenseChanges": true, "ResponseChanges": true, "ResponsesChanges": true, "ServerVariableChanges": true}

// collect walks a report and checks that the totals of every part of it count what it holds.
// br[0] counts the breaking changes; br[1] counts those beneath allOf twice, br[2] leaves out the extensions of most
// objects, br[3] does both: the code does so (recorded findings).
func collect(e *Env, what string, v reflect.Value, path []string, out *[]found) (n int, br tally) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type().Elem().Kind() != reflect.Struct {
			return
		}
		s := v.Elem()
		name := s.Type().Name()
		if name == "Change" {
			return
		}
		var mine []found
		for i := 0; i < s.NumField(); i++ {
			f := s.Type().Field(i)
			if f.Name == "PropertyChanges" {
				if s.Field(i).IsNil() {
					continue
				}
				for _, c := range s.Field(i).Interface().(*model.PropertyChanges).Changes {
					mine = append(mine, found{c, name, path})
					n++
					if c.Breaking {
						br = br.add(tally{1, 1, 1, 1})
					}
				}
				continue
			}
			if !f.IsExported() {
				continue
			}
			a, b := collect(e, what, s.Field(i), append(append([]string{}, path...), f.Name), &mine)
			if f.Name == "AllOfChanges" {
				b[1], b[3] = 2*b[1], 2*b[3]
			}
			if f.Name == "ExtensionChanges" && !countsExtensions[name] {
				b[2], b[3] = 0, 0
			}
			n, br = n+a, br.add(b)
		}
		*out = append(*out, mine...)
		if t, ok := v.Interface().(totals); ok {
			if t.TotalChanges() != n {
				e.Fail("total:"+name, "%s: %s at %v says %d changes, holds %d", what, name, path, t.TotalChanges(), n)
			}
			if b := t.TotalBreakingChanges(); b != br[0] {
				switch b {
				case br[1]:
					e.Fail("breaking-total-allof", "%s: %s at %v counts a breaking change beneath allOf twice: %d of %d", what, name, path, b, br[0])
				case br[2]:
					e.Fail("breaking-total-extensions", "%s: %s at %v leaves out the breaking changes of its extensions: %d of %d", what, name, path, b, br[0])
				case br[3]:
					e.Count("breaking-total-both")
				default:
					e.Fail("breaking-total:"+name, "%s: %s at %v says %d breaking changes, holds %d", what, name, path, b, br[0])
				}
			}
		}
		if t, ok := v.Interface().(interface{ GetAllChanges() []*model.Change }); ok {
			all := t.GetAllChanges()
			seen := map[*model.Change]int{}
			for _, c := range all {
				seen[c]++
			}
			bad := len(all) != len(mine)
			for _, f := range mine {
				bad = bad || seen[f.ch] != 1
			}
			if bad {
				e.Fail("all:"+name, "%s: %s at %v lists %d changes, holds %d", what, name, path, len(all), len(mine))
			}
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, k := range keys {
			a, b := collect(e, what, v.MapIndex(k), append(append([]string{}, path...), "="+k.String()), out)
			n, br = n+a, br.add(b)
		}
	case reflect.Slice:
		if cs, ok := v.Interface().([]*model.Change); ok {
			for _, c := range cs {
				*out = append(*out, found{c, path[len(path)-1], path})
				n++
				if c.Breaking {
					br = br.add(tally{1, 1, 1, 1})
				}
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			a, b := collect(e, what, v.Index(i), append(append([]string{}, path...), fmt.Sprint("#", i+1)), out)
			n, br = n+a, br.add(b)
		}
	}
	return
}

func compareSrc(e *Env, what string, l, r []byte) ([]found, *model.DocumentChanges, bool) {
	a, err := oasOpen(l)
	b, err2 := oasOpen(r)
	if err != nil || err2 != nil {
		e.Fail("open", "%s: %v %v", what, err, err2)
		return nil, nil, false
	}
	ch, err := libopenapi.CompareDocuments(a, b)
	if err != nil {
		e.Fail("compare-error", "%s: %v", what, err)
		return nil, nil, false
	}
	e.Count("compared")
	var out []found
	collect(e, what, reflect.ValueOf(ch), nil, &out)
	return out, ch, true
}

// dump writes a node tree without touching it.
func dump(b *strings.Builder, n *yaml.Node) {
	if n == nil {
		return
	}
	fmt.Fprintf(b, "%d %s %q %d %q %d:%d\n", n.Kind, n.Tag, n.Value, n.Style, n.Anchor, n.Line, n.Column)
	for _, c := range n.Content {
		dump(b, c)
	}
	b.WriteString(")\n")
}

func dumpDoc(d libopenapi.Document) string {
	var b strings.Builder
	dump(&b, d.GetSpecInfo().RootNode)
	return b.String()
}

func told(ch *model.DocumentChanges) string {
	var b strings.Builder
	for _, c := range ch.GetAllChanges() {
		fmt.Fprintf(&b, "%d %s %q %q %v %s %s", c.ChangeType, c.Property, c.Original, c.New, c.Breaking, c.Type, c.Path)
		if x := c.Context; x != nil {
			for _, p := range []*int{x.OriginalLine, x.OriginalColumn, x.NewLine, x.NewColumn} {
				if p == nil {
					b.WriteString(" -")
				} else {
					fmt.Fprint(&b, " ", *p)
				}
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

// again compares two descriptions several times: the same is said every time and neither is altered.
func again(e *Env, what, id string, l, r []byte) {
	a, err := oasOpen(l)
	b, err2 := oasOpen(r)
	if err != nil || err2 != nil {
		return
	}
	if _, err = a.BuildV3Model(); err != nil {
		a.BuildV2Model()
		b.BuildV2Model()
	} else {
		b.BuildV3Model()
	}
	da, db := dumpDoc(a), dumpDoc(b)
	e.Count("repeated")
	var first string
	for i := 0; i < 3; i++ {
		ch, err := libopenapi.CompareDocuments(a, b)
		if err != nil {
			e.Fail("compare-error", "%s: %v", what, err)
			return
		}
		t := told(ch)
		if i == 0 {
			first = t
		} else if t != first {
			e.Fail("repeat:"+id, "%s: comparing again says\n%s\nbefore it said\n%s", what, t, first)
			return
		}
		if dumpDoc(a) != da || dumpDoc(b) != db {
			e.Fail("altered:"+id, "%s: comparing alters a document", what)
			return
		}
	}
	if ch, _, _ := freshCompare(l, r); ch != first {
		e.Fail("repeat:"+id, "%s: comparing freshly read documents says\n%s\nbefore it said\n%s", what, ch, first)
	}
}

func freshCompare(l, r []byte) (string, libopenapi.Document, libopenapi.Document) {
	a, _ := oasOpen(l)
	b, _ := oasOpen(r)
	ch, err := libopenapi.CompareDocuments(a, b)
	if err != nil {
		return "error: " + err.Error(), a, b
	}
	return told(ch), a, b
}

func list(fs []found) string {
	var s []string
	for _, f := range fs {
		s = append(s, f.String())
	}
	return strings.Join(s, "; ")
}

func oasDiffRun(b []byte, e *Env) error {
	var v oasVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	where := fmt.Sprintf("%d %s at %s (%s)", v.Ver, v.T, strings.Join(v.At, "/"), v.Base)
	src := v.Doc.YAMLBytes()
	for _, o := range []struct {
		tag string
		src []byte
	}{{"itself", src}, {"its keys in another order", v.Doc.reversed().YAMLBytes()}, {"its JSON", []byte(v.Doc.JSON())}, {"comments", []byte("# c\n\n" + string(src))}} {
		if fs, _, ok := compareSrc(e, where+" with "+o.tag, src, o.src); ok && len(fs) > 0 {
			e.Fail("quiet:"+o.tag+":"+v.T+":"+v.Base, "%s compared with %s: %s", where, o.tag, list(fs))
		}
	}
	for i, ed := range v.Edits {
		if ed.Bad || !ed.Q || v.Base == "clash" && i%3 != 0 {
			continue
		}
		old := v.Doc.at(v.Eat).Get(ed.Key)
		if ed.V != nil && ed.V.T == "null" || old != nil && ed.V != nil && setlike(old) == setlike(ed.V) {
			continue
		}
		want := ed.R
		if v.Base == "ref" && !(v.Cmp || v.TCmp) || v.Base != "ref" && !v.Cmp {
			want = nil
		}
		k := ed.Key
		if ed.Kind == "self" || ed.Kind == "selfs" {
			k = "*"
		}
		op := ed.Op
		if old == nil {
			op = "add"
		}
		id := v.T + "." + k + ":" + op + ":" + ed.Kind + ":" + vclass(old) + ":" + vclass(ed.V)
		if v.Base == "ref" {
			id = "ref:" + id
		}
		e.Count("edits")
		next := ed.apply(v.Doc, v.Eat)
		dst := next.YAMLBytes()
		for _, dir := range []string{"", "back:"} {
			what := where + " after " + ed.String()
			l, r := src, dst
			w := want
			if dir != "" {
				what = where + " before " + ed.String()
				l, r = dst, src
				w = mirror(want)
			}
			if i%6 == 0 || v.Base == "rich" && i%2 == 0 {
				again(e, what, id, l, r)
			}
			fs, _, ok := compareSrc(e, what, l, r)
			if !ok {
				continue
			}
			if len(fs) == 0 && len(w) > 0 && !optional(w) {
				if v.T+"."+k == "Swagger.securityDefinitions" {
					dir, id = "", "Swagger.securityDefinitions"
				}
				e.Fail("missed:"+dir+id, "%s: no change reported", what)
				continue
			}
			if d := diffReport(w, fs, append(append([]string{}, v.Eat...), ed.Key)); d != "" {
				e.Fail("report:"+dir+id, "%s: %s\n  reported %s\n  expected %v", what, d, list(fs), w)
			}
		}
	}
	return nil
}

// optional tells whether nothing need be reported.
func optional(w []oasCh) bool {
	for _, c := range w {
		if !strings.Contains(c.C, "?") {
			return false
		}
	}
	return true
}

func mirror(r []oasCh) (out []oasCh) {
	for _, c := range r {
		m := c
		m.O, m.N, m.C = c.N, c.O, ""
		for _, x := range c.C {
			m.C += map[rune]string{'A': "R", 'R': "A", 'M': "M", '?': "?"}[x]
		}
		out = append(out, m)
	}
	return
}

func fold(xs []string, y string) bool {
	for _, x := range xs {
		if strings.EqualFold(x, y) {
			return true
		}
	}
	return false
}

func under(path, labels []string) bool {
	for _, p := range path {
		p = strings.ToLower(strings.TrimPrefix(p, "="))
		for _, l := range labels {
			l = strings.ToLower(strings.TrimPrefix(l, "$"))
			if p == l || strings.HasSuffix(p, "changes") && l != "" && strings.HasPrefix(strings.TrimPrefix(strings.TrimPrefix(p, "schema"), "oauth"), strings.TrimSuffix(strings.TrimSuffix(l, "s"), "ie")) {
				return true
			}
		}
	}
	return false
}

// diffReport matches the reported changes with the expected ones.
func diffReport(want []oasCh, got []found, at []string) string {
	left := append([]found{}, got...)
	open := false
	// first the changes of known texts, then those that name the first name as their value, then those that go by it
	rest := want
	for pass := 0; pass < 3; pass++ {
		todo := rest
		rest = nil
		for _, w := range todo {
			hit := -1
			for i, g := range left {
				named := fold(w.P[:1], g.ch.Property)
				if pass == 0 {
					named = named && w.O+w.N != ""
				} else if pass == 1 {
					named = fold(w.P[:1], g.ch.New) || fold(w.P[:1], g.ch.Original)
				}
				if !w.M && hit < 0 && strings.Contains(w.C, g.class()) && named && (w.O == "" || g.ch.Original == w.O) && (w.N == "" || g.ch.New == w.N) {
					hit = i
				}
			}
			if hit < 0 {
				rest = append(rest, w)
			} else {
				left = append(left[:hit], left[hit+1:]...)
			}
		}
	}
	for _, w := range rest {
		n := 0
		open = open || w.M
		for i := 0; i < len(left); i++ {
			g := left[i]
			if !strings.Contains(w.C, g.class()) || !(fold(w.P, g.ch.Property) || fold(w.P, g.ch.New) || fold(w.P, g.ch.Original) || under(g.path, w.P)) {
				continue
			}
			if !w.M && (w.O != "" && g.ch.Original != w.O || w.N != "" && g.ch.New != w.N) {
				continue
			}
			left = append(left[:i], left[i+1:]...)
			i--
			n++
			if !w.M {
				break
			}
		}
		if n == 0 && !strings.Contains(w.C, "?") {
			return fmt.Sprintf("no change %+v", w)
		}
	}
	if len(left) > 0 {
		return "unexpected: " + list(left)
	}
	return ""
}
