package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/pb33f/libopenapi/datamodel/high/base"
	"go.yaml.in/yaml/v4"
)

// Reflection over the high-level model: fields by their description name.

var (
	tProxy = reflect.TypeOf((*base.SchemaProxy)(nil))
	tNode  = reflect.TypeOf((*yaml.Node)(nil))
)

var selfMaps = []string{"PathItems", "Codes", "Expression", "Requirements"}

func isOMap(t reflect.Type) bool {
	return t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct && strings.HasPrefix(t.Elem().Name(), "Map[")
}
func isDyn(t reflect.Type) bool {
	return t.Kind() == reflect.Ptr && strings.HasPrefix(t.Elem().Name(), "DynamicValue[")
}
func omapTypes(t reflect.Type) (k, v reflect.Type) {
	m, _ := t.MethodByName("Set")
	return m.Type.In(1), m.Type.In(2)
}
func newOMap(t reflect.Type) reflect.Value {
	m := reflect.New(t.Elem())
	f := m.Elem().Field(0)
	f.Set(reflect.New(f.Type().Elem()))
	out := f.MethodByName("UnmarshalJSON").Call([]reflect.Value{reflect.ValueOf([]byte("{}"))})
	if !out[0].IsNil() {
		panic(out[0].Interface())
	}
	return m
}
func omapGet(m reflect.Value, k string) reflect.Value {
	if m.IsNil() {
		return reflect.Value{}
	}
	r := m.MethodByName("Get").Call([]reflect.Value{reflect.ValueOf(k)})
	if !r[1].Bool() {
		return reflect.Value{}
	}
	return r[0]
}
func omapSet(m reflect.Value, k string, v reflect.Value) {
	m.MethodByName("Set").Call([]reflect.Value{reflect.ValueOf(k), v})
}
func omapDel(m reflect.Value, k string) {
	if !m.IsNil() {
		m.MethodByName("Delete").Call([]reflect.Value{reflect.ValueOf(k)})
	}
}
func omapKeys(m reflect.Value) (ks []string) {
	if m.IsNil() {
		return
	}
	p := m.MethodByName("First").Call(nil)[0]
	for !p.IsNil() {
		ks = append(ks, p.MethodByName("Key").Call(nil)[0].String())
		p = p.MethodByName("Next").Call(nil)[0]
	}
	return
}

// hmStruct is the struct behind a model value (schemas are built from their proxies).
func hmStruct(v reflect.Value) (reflect.Value, error) {
	for {
		if !v.IsValid() {
			return v, fmt.Errorf("nothing there")
		}
		if v.Kind() == reflect.Ptr && v.IsNil() {
			return v, fmt.Errorf("nil %s", v.Type())
		}
		switch {
		case v.Type() == tProxy:
			s := v.Interface().(*base.SchemaProxy).Schema()
			if s == nil {
				return v, fmt.Errorf("no schema behind the proxy: %v", v.Interface().(*base.SchemaProxy).GetBuildError())
			}
			v = reflect.ValueOf(s)
		case isDyn(v.Type()):
			if v.Elem().Field(0).Int() == 0 {
				v = v.Elem().Field(1)
			} else {
				v = v.Elem().Field(2)
			}
		case v.Kind() == reflect.Ptr:
			return v.Elem(), nil
		default:
			return v, nil
		}
	}
}

func tagOf(f reflect.StructField) string {
	if !f.IsExported() {
		return ""
	}
	t := strings.Split(f.Tag.Get("yaml"), ",")[0]
	if t == "-" {
		return ""
	}
	return t
}
func hmField(s reflect.Value, name string) (reflect.Value, bool) {
	for i := 0; i < s.NumField(); i++ {
		if tagOf(s.Type().Field(i)) == name {
			return s.Field(i), true
		}
	}
	return reflect.Value{}, false
}

// hmSelf is the map holding the entries of an object that is itself a map.
func hmSelf(s reflect.Value) (reflect.Value, bool) {
	for _, n := range selfMaps {
		if f := s.FieldByName(n); f.IsValid() {
			return f, true
		}
	}
	return reflect.Value{}, false
}

func hmAt(v reflect.Value, addr []string) (reflect.Value, error) {
	for _, a := range addr {
		if strings.HasPrefix(a, "#") && v.Kind() == reflect.Slice {
			n, _ := strconv.Atoi(a[1:])
			if n < 1 || n > v.Len() {
				return v, fmt.Errorf("no entry %s", a)
			}
			v = v.Index(n - 1)
			continue
		}
		if isOMap(v.Type()) {
			v = omapGet(v, a)
			if !v.IsValid() {
				return v, fmt.Errorf("no key %s", a)
			}
			continue
		}
		s, err := hmStruct(v)
		if err != nil {
			return v, err
		}
		if f, ok := hmField(s, a); ok {
			v = f
			continue
		}
		m, ok := hmSelf(s)
		if !ok {
			return v, fmt.Errorf("%s has no field %s", s.Type(), a)
		}
		v = omapGet(m, a)
		if !v.IsValid() {
			return v, fmt.Errorf("%s has no entry %s", s.Type(), a)
		}
	}
	return v, nil
}

// hmMake builds a model value from its description.
func hmMake(t reflect.Type, x *Tree) (reflect.Value, error) {
	bad := func() (reflect.Value, error) {
		return reflect.Value{}, fmt.Errorf("cannot make %s from %s", t, x.Canon(true))
	}
	switch {
	case t == tNode:
		return reflect.ValueOf(x.Yaml()), nil
	case t == tProxy:
		if r := x.Get("$ref"); r != nil {
			return reflect.ValueOf(base.CreateSchemaProxyRef(r.V)), nil
		}
		if x.T != "map" {
			return bad()
		}
		s, err := hmMake(reflect.TypeOf((*base.Schema)(nil)), x)
		if err != nil {
			return s, err
		}
		return reflect.ValueOf(base.CreateSchemaProxy(s.Interface().(*base.Schema))), nil
	case isDyn(t):
		d := reflect.New(t.Elem())
		for i := 1; i <= 2; i++ {
			if v, err := hmMake(t.Elem().Field(i).Type, x); err == nil {
				d.Elem().Field(0).SetInt(int64(i - 1))
				d.Elem().Field(i).Set(v)
				return d, nil
			}
		}
		return bad()
	case isOMap(t):
		if x.T != "map" {
			return bad()
		}
		m := newOMap(t)
		_, vt := omapTypes(t)
		for i := range x.K {
			v, err := hmMake(vt, x.C[i])
			if err != nil {
				return v, err
			}
			omapSet(m, x.K[i], v)
		}
		return m, nil
	}
	switch t.Kind() {
	case reflect.String:
		if x.T != "str" {
			return bad()
		}
		return reflect.ValueOf(x.V).Convert(t), nil
	case reflect.Bool:
		if x.T != "bool" {
			return bad()
		}
		return reflect.ValueOf(x.V == "true"), nil
	case reflect.Int, reflect.Int64:
		n, err := strconv.ParseInt(x.V, 10, 64)
		if err != nil || x.T != "int" {
			return bad()
		}
		return reflect.ValueOf(n).Convert(t), nil
	case reflect.Float64:
		n, err := strconv.ParseFloat(x.V, 64)
		if err != nil || x.T != "int" && x.T != "float" {
			return bad()
		}
		return reflect.ValueOf(n), nil
	case reflect.Slice:
		s := reflect.MakeSlice(t, 0, len(x.C))
		if x.T == "str" { // type: a single one
			x = &Tree{T: "seq", C: []*Tree{x}}
		}
		if x.T != "seq" {
			return bad()
		}
		for _, c := range x.C {
			v, err := hmMake(t.Elem(), c)
			if err != nil {
				return v, err
			}
			s = reflect.Append(s, v)
		}
		return s, nil
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		if t.Elem().Kind() != reflect.Struct {
			v, err := hmMake(t.Elem(), x)
			if err != nil {
				return v, err
			}
			p.Elem().Set(v)
			return p, nil
		}
		if x.T != "map" {
			return bad()
		}
		for i, k := range x.K {
			if err := hmSet(p, k, x.C[i]); err != nil {
				return p, err
			}
		}
		return p, nil
	}
	return bad()
}

func ensureMap(f reflect.Value) {
	if f.IsNil() {
		f.Set(newOMap(f.Type()))
	}
}

// hmSet gives the object's field (extension, entry) a value.
func hmSet(v reflect.Value, key string, x *Tree) error {
	s, err := hmStruct(v)
	if err != nil {
		return err
	}
	if f, ok := hmField(s, key); ok {
		n, err := hmMake(f.Type(), x)
		if err != nil {
			return err
		}
		f.Set(n)
		return nil
	}
	m, ok := s.FieldByName("Extensions"), strings.HasPrefix(key, "x-")
	if !ok {
		m, ok = hmSelf(s)
	}
	if !ok || !m.IsValid() {
		return fmt.Errorf("%s has no %s", s.Type(), key)
	}
	ensureMap(m)
	_, vt := omapTypes(m.Type())
	n, err := hmMake(vt, x)
	if err != nil {
		return err
	}
	omapSet(m, key, n)
	return nil
}

// hmPatch changes a map or list field entry by entry: what stays keeps its object.
func hmPatch(v reflect.Value, key string, old, x *Tree) (bool, error) {
	s, err := hmStruct(v)
	if err != nil {
		return false, err
	}
	f, ok := hmField(s, key)
	if !ok || f.Kind() == reflect.Ptr && f.IsNil() {
		return false, nil
	}
	switch {
	case isOMap(f.Type()) && old.T == "map" && x.T == "map":
		_, vt := omapTypes(f.Type())
		for _, k := range old.K {
			if x.Get(k) == nil {
				omapDel(f, k)
			}
		}
		for i, k := range x.K {
			if o := old.Get(k); o != nil && o.Diff(x.C[i], true) == "" {
				continue
			}
			n, err := hmMake(vt, x.C[i])
			if err != nil {
				return false, err
			}
			omapSet(f, k, n)
		}
		return true, nil
	case f.Kind() == reflect.Slice && old.T == "seq" && x.T == "seq" && len(old.C) == f.Len():
		n := reflect.MakeSlice(f.Type(), 0, len(x.C))
		for _, c := range x.C {
			var e reflect.Value
			for i, o := range old.C {
				if o.Diff(c, true) == "" {
					e = f.Index(i)
				}
			}
			if !e.IsValid() {
				if e, err = hmMake(f.Type().Elem(), c); err != nil {
					return false, err
				}
			}
			n = reflect.Append(n, e)
		}
		f.Set(n)
		return true, nil
	}
	return false, nil
}

func hmDel(v reflect.Value, key string) error {
	s, err := hmStruct(v)
	if err != nil {
		return err
	}
	if f, ok := hmField(s, key); ok {
		f.Set(reflect.Zero(f.Type()))
		return nil
	}
	m, ok := s.FieldByName("Extensions"), strings.HasPrefix(key, "x-")
	if !ok {
		m, ok = hmSelf(s)
	}
	if !ok || !m.IsValid() {
		return fmt.Errorf("%s has no %s", s.Type(), key)
	}
	omapDel(m, key)
	return nil
}

// hmTree is the description a model value stands for. Zero scalars that are not pointers and empty
// collections are left out.
func hmTree(v reflect.Value) *Tree {
	if !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil() {
		return nil
	}
	t := v.Type()
	switch {
	case t == tNode:
		return FromYaml(v.Interface().(*yaml.Node))
	case t == tProxy:
		p := v.Interface().(*base.SchemaProxy)
		if p.IsReference() {
			return &Tree{T: "map", K: []string{"$ref"}, C: []*Tree{{T: "str", V: p.GetReference()}}}
		}
		s := p.Schema()
		if s == nil {
			return &Tree{T: "str", V: fmt.Sprintf("!no schema: %v", p.GetBuildError())}
		}
		return hmTree(reflect.ValueOf(s))
	case isDyn(t):
		if v.Elem().Field(0).Int() == 0 {
			return hmTree(v.Elem().Field(1))
		}
		return hmTree(v.Elem().Field(2))
	case isOMap(t):
		m := &Tree{T: "map"}
		for _, k := range omapKeys(v) {
			c := hmTree(omapGet(v, k))
			if c == nil {
				c = &Tree{T: "null"}
			}
			m.K, m.C = append(m.K, k), append(m.C, c)
		}
		return m
	}
	switch v.Kind() {
	case reflect.String:
		return &Tree{T: "str", V: v.String()}
	case reflect.Bool:
		return &Tree{T: "bool", V: strconv.FormatBool(v.Bool())}
	case reflect.Int, reflect.Int64:
		return &Tree{T: "int", V: strconv.FormatInt(v.Int(), 10)}
	case reflect.Float64:
		return &Tree{T: "float", V: strconv.FormatFloat(v.Float(), 'g', -1, 64)}
	case reflect.Slice:
		s := &Tree{T: "seq"}
		for i := 0; i < v.Len(); i++ {
			c := hmTree(v.Index(i))
			if c == nil {
				c = &Tree{T: "null"}
			}
			s.C = append(s.C, c)
		}
		return s
	case reflect.Ptr:
		return hmTree(v.Elem())
	case reflect.Struct:
		m := &Tree{T: "map"}
		if r := v.FieldByName("Reference"); r.IsValid() && r.Kind() == reflect.String && r.String() != "" {
			return m.set("$ref", &Tree{T: "str", V: r.String()})
		}
		add := func(k string, f reflect.Value) {
			if f.Kind() != reflect.Ptr && f.IsZero() {
				return
			}
			c := hmTree(f)
			if c == nil || len(c.C) == 0 && f.Kind() == reflect.Slice {
				return
			}
			if k == "type" && c.T == "seq" && len(c.C) == 1 {
				c = c.C[0]
			}
			m.K, m.C = append(m.K, k), append(m.C, c)
		}
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			if n := tagOf(sf); n != "" {
				add(n, v.Field(i))
			} else if sf.Name == "Extensions" || in(sf.Name, selfMaps) {
				f := v.Field(i)
				for _, k := range omapKeys(f) {
					c := hmTree(omapGet(f, k))
					if c == nil {
						c = &Tree{T: "null"}
					}
					m.K, m.C = append(m.K, k), append(m.C, c)
				}
			}
		}
		return m
	}
	return &Tree{T: "str", V: "?" + t.String()}
}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
