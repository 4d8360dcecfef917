package main

import (
	"fmt"
	"strconv"
	"strings"

	"go.yaml.in/yaml/v4"
)

// Tree mirrors the Tree module of the specification.
type Tree struct {
	T string   `json:"t"`
	V string   `json:"v"`
	K []string `json:"k"`
	C []*Tree  `json:"c"`
}

// JSON renders the tree as JSON text.
func (t *Tree) JSON() string {
	var b strings.Builder
	t.json(&b)
	return b.String()
}

func (t *Tree) json(b *strings.Builder) {
	switch t.T {
	case "map":
		b.WriteByte('{')
		for i, k := range t.K {
			if i > 0 {
				b.WriteByte(',')
			}
			s, _ := marshal(k)
			b.Write(s)
			b.WriteByte(':')
			t.C[i].json(b)
		}
		b.WriteByte('}')
	case "seq":
		b.WriteByte('[')
		for i := range t.C {
			if i > 0 {
				b.WriteByte(',')
			}
			t.C[i].json(b)
		}
		b.WriteByte(']')
	case "str":
		s, _ := marshal(t.V)
		b.Write(s)
	case "null":
		b.WriteString("null")
	default:
		b.WriteString(t.V)
	}
}

// Yaml converts the tree to a yaml node (block style).
func (t *Tree) Yaml() *yaml.Node {
	switch t.T {
	case "map":
		n := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
		for i, k := range t.K {
			n.Content = append(n.Content, yamlStr(k), t.C[i].Yaml())
		}
		return n
	case "seq":
		n := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
		for _, c := range t.C {
			n.Content = append(n.Content, c.Yaml())
		}
		return n
	case "str":
		return yamlStr(t.V)
	case "null":
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Value: "null"}
	}
	return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!" + t.T, Value: t.V}
}

func yamlStr(s string) *yaml.Node {
	n := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: s}
	var probe yaml.Node
	if yaml.Unmarshal([]byte(s), &probe) != nil || len(probe.Content) != 1 || probe.Content[0].Kind != yaml.ScalarNode ||
		probe.Content[0].Tag != "!!str" || probe.Content[0].Value != s {
		n.Style = yaml.DoubleQuotedStyle
	}
	return n
}

// YAMLBytes renders block style YAML.
func (t *Tree) YAMLBytes() []byte {
	b, err := yaml.Marshal(t.Yaml())
	must(err)
	return b
}

// Parse reads YAML or JSON bytes into a canonical tree.
func Parse(b []byte) (*Tree, error) {
	var n yaml.Node
	if err := yaml.Unmarshal(b, &n); err != nil {
		return nil, err
	}
	if n.Kind == 0 {
		return &Tree{T: "null"}, nil
	}
	return FromYaml(&n), nil
}

// FromYaml converts a yaml node to a canonical tree; aliases are followed.
func FromYaml(n *yaml.Node) *Tree {
	switch n.Kind {
	case yaml.DocumentNode:
		if len(n.Content) == 0 {
			return &Tree{T: "null"}
		}
		return FromYaml(n.Content[0])
	case yaml.AliasNode:
		return FromYaml(n.Alias)
	case yaml.MappingNode:
		t := &Tree{T: "map"}
		for i := 0; i+1 < len(n.Content); i += 2 {
			t.K = append(t.K, n.Content[i].Value)
			t.C = append(t.C, FromYaml(n.Content[i+1]))
		}
		return t
	case yaml.SequenceNode:
		t := &Tree{T: "seq"}
		for _, c := range n.Content {
			t.C = append(t.C, FromYaml(c))
		}
		return t
	}
	switch n.ShortTag() {
	case "!!null":
		return &Tree{T: "null"}
	case "!!bool":
		b, err := strconv.ParseBool(n.Value)
		if err != nil {
			return &Tree{T: "badbool", V: n.Value}
		}
		return &Tree{T: "bool", V: strconv.FormatBool(b)}
	case "!!int":
		return &Tree{T: "int", V: n.Value}
	case "!!float":
		if f, err := strconv.ParseFloat(n.Value, 64); err == nil {
			return &Tree{T: "float", V: strconv.FormatFloat(f, 'g', -1, 64)}
		}
		return &Tree{T: "float", V: n.Value}
	case "!!str":
		return &Tree{T: "str", V: n.Value}
	}
	return &Tree{T: n.ShortTag(), V: n.Value}
}

// Canon is an unambiguous text form; ordered says whether key order counts.
func (t *Tree) Canon(ordered bool) string {
	var b strings.Builder
	t.canon(&b, ordered)
	return b.String()
}

func (t *Tree) canon(b *strings.Builder, ordered bool) {
	if t == nil {
		b.WriteString("<none>")
		return
	}
	switch t.T {
	case "map":
		idx := make([]int, len(t.K))
		for i := range idx {
			idx[i] = i
		}
		if !ordered {
			for i := 1; i < len(idx); i++ {
				for j := i; j > 0 && t.K[idx[j]] < t.K[idx[j-1]]; j-- {
					idx[j], idx[j-1] = idx[j-1], idx[j]
				}
			}
		}
		b.WriteByte('{')
		for n, i := range idx {
			if n > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(b, "%q: ", t.K[i])
			t.C[i].canon(b, ordered)
		}
		b.WriteByte('}')
	case "seq":
		b.WriteByte('[')
		for i, c := range t.C {
			if i > 0 {
				b.WriteString(", ")
			}
			c.canon(b, ordered)
		}
		b.WriteByte(']')
	case "str":
		fmt.Fprintf(b, "%q", t.V)
	case "null":
		b.WriteString("null")
	case "float":
		if f, err := strconv.ParseFloat(t.V, 64); err == nil {
			b.WriteString("f" + strconv.FormatFloat(f, 'g', -1, 64))
			return
		}
		b.WriteString(t.V)
	case "int", "bool":
		b.WriteString(t.V)
	default:
		fmt.Fprintf(b, "%s(%q)", t.T, t.V)
	}
}

// Diff describes the first difference between two trees ("" if equal).
func (t *Tree) Diff(o *Tree, ordered bool) string { return diffAt(t, o, ordered, "$") }

func diffAt(a, b *Tree, ordered bool, at string) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return at + ": one side missing"
	}
	if a.T != b.T {
		return fmt.Sprintf("%s: %s vs %s", at, trunc(a.Canon(ordered), 200), trunc(b.Canon(ordered), 200))
	}
	switch a.T {
	case "map":
		for i, k := range a.K {
			j := b.Idx(k)
			if j < 0 {
				return at + "." + k + ": missing on the right"
			}
			if ordered && j != i {
				return fmt.Sprintf("%s: key order %v vs %v", at, a.K, b.K)
			}
			if d := diffAt(a.C[i], b.C[j], ordered, at+"."+k); d != "" {
				return d
			}
		}
		for _, k := range b.K {
			if a.Idx(k) < 0 {
				return at + "." + k + ": missing on the left"
			}
		}
		if len(a.K) != len(b.K) {
			return fmt.Sprintf("%s: %d vs %d keys", at, len(a.K), len(b.K))
		}
		return ""
	case "seq":
		for i := range a.C {
			if i >= len(b.C) {
				return fmt.Sprintf("%s: %d vs %d items", at, len(a.C), len(b.C))
			}
			if d := diffAt(a.C[i], b.C[i], ordered, fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		if len(a.C) != len(b.C) {
			return fmt.Sprintf("%s: %d vs %d items", at, len(a.C), len(b.C))
		}
		return ""
	}
	if x, y := a.Canon(ordered), b.Canon(ordered); x != y {
		return fmt.Sprintf("%s: %s vs %s", at, trunc(x, 200), trunc(y, 200))
	}
	return ""
}

// Idx is the position of a key, or -1.
func (t *Tree) Idx(k string) int {
	for i := range t.K {
		if t.K[i] == k {
			return i
		}
	}
	return -1
}

// Get follows keys.
func (t *Tree) Get(keys ...string) *Tree {
	for _, k := range keys {
		if t == nil || t.T != "map" {
			return nil
		}
		i := t.Idx(k)
		if i < 0 {
			return nil
		}
		t = t.C[i]
	}
	return t
}
