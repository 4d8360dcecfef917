package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/pb33f/libopenapi"
)

func init() { drivers["oashash"] = oasHashRun }

// ---- the low-level model by field name

func lowRoot(src []byte, ver int) (reflect.Value, error) {
	doc, err := oasOpen(src)
	if err != nil {
		return reflect.Value{}, err
	}
	if ver == 20 {
		m, err := doc.BuildV2Model()
		if err != nil {
			return reflect.Value{}, err
		}
		if m == nil {
			return reflect.Value{}, fmt.Errorf("no model")
		}
		return reflect.ValueOf(m.Model.GoLow()), nil
	}
	m, err := doc.BuildV3Model()
	if err != nil {
		return reflect.Value{}, err
	}
	if m == nil {
		return reflect.Value{}, fmt.Errorf("no model")
	}
	return reflect.ValueOf(m.Model.GoLow()), nil
}

// unref takes the value out of a node, value or key reference.
func unref(v reflect.Value) reflect.Value {
	for v.IsValid() && v.Kind() == reflect.Struct && (strings.HasPrefix(v.Type().Name(), "NodeReference[") || strings.HasPrefix(v.Type().Name(), "ValueReference[")) {
		v = v.FieldByName("Value")
	}
	if v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	return v
}

func lowMapGet(m reflect.Value, key string) reflect.Value {
	if m.IsNil() {
		return reflect.Value{}
	}
	for p := m.MethodByName("First").Call(nil)[0]; !p.IsNil(); p = p.MethodByName("Next").Call(nil)[0] {
		k := p.MethodByName("Key").Call(nil)[0]
		if k.Kind() == reflect.Struct {
			k = k.FieldByName("Value")
		}
		if k.String() == key {
			return unref(p.MethodByName("Value").Call(nil)[0])
		}
	}
	return reflect.Value{}
}

var lowAlias = map[string]string{"$schema": "SchemaTypeRef", "$ref": "Reference"}

// lowStep follows one part of an address.
func lowStep(v reflect.Value, a string) (reflect.Value, error) {
	v = unref(v)
	for v.IsValid() && v.Kind() == reflect.Struct && strings.HasPrefix(v.Type().Name(), "SchemaDynamicValue[") {
		if v.FieldByName("N").Int() == 0 {
			v = v.FieldByName("A")
		} else {
			v = v.FieldByName("B")
		}
		v = unref(v)
	}
	if !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil() {
		return v, fmt.Errorf("nothing at %s", a)
	}
	if isOMap(v.Type()) {
		if r := lowMapGet(v, a); r.IsValid() {
			return r, nil
		}
		return v, fmt.Errorf("no key %s", a)
	}
	if v.Kind() == reflect.Slice {
		n, _ := strconv.Atoi(strings.TrimPrefix(a, "#"))
		if n < 1 || n > v.Len() {
			return v, fmt.Errorf("no entry %s", a)
		}
		return unref(v.Index(n - 1)), nil
	}
	if m := v.MethodByName("Schema"); m.IsValid() && strings.HasSuffix(v.Type().String(), "base.SchemaProxy") {
		v = m.Call(nil)[0]
		if v.IsNil() {
			return v, fmt.Errorf("no schema")
		}
	}
	s := v
	if s.Kind() == reflect.Ptr {
		s = s.Elem()
	}
	if s.Kind() != reflect.Struct {
		return v, fmt.Errorf("%s has no %s", s.Type(), a)
	}
	name := strings.TrimPrefix(a, "$")
	if n, ok := lowAlias[a]; ok {
		name = n
	}
	for i := 0; i < s.NumField(); i++ {
		f := s.Type().Field(i)
		if f.IsExported() && strings.EqualFold(f.Name, name) {
			r := unref(s.Field(i))
			if !r.IsValid() || r.Kind() == reflect.Ptr && r.IsNil() {
				return r, fmt.Errorf("%s.%s is empty", s.Type(), f.Name)
			}
			return r, nil
		}
	}
	// an object that is a map itself
	for i := 0; i < s.NumField(); i++ {
		f := unref(s.Field(i))
		if s.Type().Field(i).IsExported() && f.IsValid() && f.Kind() == reflect.Ptr && isOMap(f.Type()) && !f.IsNil() {
			if r := lowMapGet(f, a); r.IsValid() {
				return r, nil
			}
		}
	}
	return v, fmt.Errorf("%s has no %s", s.Type(), a)
}

type hashed struct {
	depth int
	typ   string
	h     uint64
}

// lowHashes gives the hash of every object on the way to an address.
func lowHashes(root reflect.Value, at []string) ([]hashed, error) {
	var out []hashed
	v := root
	add := func(depth int) {
		t := v.Type().String()
		if v.Kind() == reflect.Struct { // methods have pointer receivers
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			v = p
		}
		if h, ok := v.Interface().(interface{ Hash() uint64 }); ok {
			out = append(out, hashed{depth, t, h.Hash()})
		}
	}
	add(0)
	for i, a := range at {
		n, err := lowStep(v, a)
		if err != nil {
			return out, err
		}
		v = n
		// dynamic values: the side in use
		for v.Kind() == reflect.Struct && strings.HasPrefix(v.Type().Name(), "SchemaDynamicValue[") {
			if v.FieldByName("N").Int() == 0 {
				v = unref(v.FieldByName("A"))
			} else {
				v = unref(v.FieldByName("B"))
			}
		}
		if v.Kind() == reflect.Ptr && v.IsNil() {
			return out, fmt.Errorf("nothing at %v", at[:i+1])
		}
		add(i + 1)
	}
	return out, nil
}

func oasHashRun(b []byte, e *Env) error {
	var v oasVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	where := func() string { return fmt.Sprintf("%d %s at %s (%s)", v.Ver, v.T, strings.Join(v.At, "/"), v.Base) }
	hashes := func(src []byte, what string) ([]hashed, reflect.Value, bool) {
		e.Count("hashed")
		root, err := lowRoot(src, v.Ver)
		if err != nil {
			e.Fail("open:"+v.T, "%s %s: %v", where(), what, err)
			return nil, root, false
		}
		h, err := lowHashes(root, v.At)
		if err != nil {
			e.Fail("address:"+v.T, "%s %s: %v", where(), what, err)
			return nil, root, false
		}
		return h, root, true
	}
	base, root, ok := hashes(v.Doc.YAMLBytes(), "")
	if !ok {
		return nil
	}
	same := func(tag string, g []hashed) {
		for i := range base {
			if i < len(g) && g[i].h != base[i].h {
				e.Fail("same:"+tag+":"+base[i].typ, "%s: the hash of %s (level %d) differs %s", where(), base[i].typ, base[i].depth, tag)
			}
		}
	}
	if again, err := lowHashes(root, v.At); err == nil {
		same("asked again", again)
	}
	if g, _, ok := hashes(v.Doc.YAMLBytes(), "rebuilt"); ok {
		same("when rebuilt", g)
	}
	libopenapi.ClearAllCaches()
	if again, err := lowHashes(root, v.At); err == nil {
		same("after clearing the caches", again)
	}
	if g, _, ok := hashes(v.Doc.reversed().YAMLBytes(), "reversed"); ok {
		same("with keys in another order", g)
	}
	src := "# a comment\n\n" + string(v.Doc.YAMLBytes())
	if g, _, ok := hashes([]byte(src), "commented"); ok {
		same("after a comment", g)
	}
	if g, _, ok := hashes([]byte(v.Doc.JSON()), "JSON"); ok {
		same("as JSON", g)
	}
	if v.Base == "ref" || v.Base == "refsib" {
		return nil
	}
	for _, m := range v.Moves {
		one := v.Doc.at(v.At).del(m.To)
		two := one.del(m.From).set(m.To, one.Get(m.From))
		g1, _, ok1 := hashes(v.Doc.with(v.At, func(*Tree) *Tree { return one }).YAMLBytes(), "without "+m.To)
		g2, _, ok2 := hashes(v.Doc.with(v.At, func(*Tree) *Tree { return two }).YAMLBytes(), m.From+" under "+m.To)
		if !ok1 || !ok2 {
			continue
		}
		for i := range g1 {
			if i < len(g2) && g1[i].h == g2[i].h {
				e.Fail("move:"+g1[i].typ+":"+fmt.Sprint(len(v.At)-g1[i].depth == 0)+":"+v.T+"."+m.From+":"+m.To, "%s: the hash of %s (level %d of %d) is the same with the value of %s under %s", where(), g1[i].typ, g1[i].depth, len(v.At), m.From, m.To)
			}
		}
	}
	for i, ed := range v.Edits {
		if ed.Bad || !ed.Q && emptyish(ed.V) || v.Base == "clash" && i%3 != 0 {
			continue
		}
		old := v.Doc.at(v.Eat).Get(ed.Key)
		if emptyish(old) && emptyish(ed.V) || ed.V != nil && ed.V.T == "null" {
			continue
		}
		if old != nil && ed.V != nil && setlike(old) == setlike(ed.V) { // the order of a list
			continue
		}
		k := ed.Key
		if ed.Kind == "self" || ed.Kind == "selfs" {
			k = "*"
		}
		g, _, ok := hashes(ed.apply(v.Doc, v.Eat).YAMLBytes(), ed.String())
		if !ok {
			continue
		}
		for i := range base {
			if i < len(g) && g[i].h == base[i].h && (v.Base != "ref" || base[i].depth == 0) {
				e.Fail("differ:"+base[i].typ+":"+fmt.Sprint(len(v.At)-base[i].depth == 0)+":"+v.T+"."+k+":"+ed.Op+":"+vclass(ed.V), "%s: the hash of %s (level %d of %d) is the same after %s", where(), base[i].typ, base[i].depth, len(v.At), ed)
			}
		}
	}
	return nil
}

func setlike(t *Tree) string {
	if t.T != "seq" {
		return t.Canon(false)
	}
	m := &Tree{T: "map"}
	for i, c := range t.C {
		m.K, m.C = append(m.K, c.Canon(false)+fmt.Sprint(i*0)), append(m.C, &Tree{T: "null"})
	}
	return "set" + m.Canon(false)
}
