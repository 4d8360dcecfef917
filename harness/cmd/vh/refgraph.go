package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	v3 "github.com/pb33f/libopenapi/datamodel/high/v3"
	"go.yaml.in/yaml/v4"
)

func init() { drivers["refgraph"] = refGraphRun }

// A file set of spec/RefGraph.tla.
type rgEdge struct {
	Addr []string `json:"addr"`
	ID   int      `json:"id"`
	P    int      `json:"p"`
}
type rgVec struct {
	Ver, Mode, Loops string
	Files            []struct {
		Host, Path string
		Loaded     bool
		Tree       *Tree
	}
	Nodes []struct {
		Kind  string
		Edges []rgEdge
	}
	Entries []rgEdge
	Refs    []struct {
		ID, File, Tgt, Tfile int
		Text                 string
		Toks                 []string
	}
}

var quietLog = slog.New(slog.NewTextHandler(nullW{}, &slog.HandlerOptions{Level: slog.LevelError}))

const rgWeb = "http://spec.test/w"

// rgSet is a file set written out: local files under dir, remote ones served by get.
type rgSet struct {
	dir  string
	root []byte
	web  map[string][]byte
	mu   sync.Mutex
	hits map[string]int
}

func rgWrite(v *rgVec, dir string) *rgSet {
	s := &rgSet{dir: dir, web: map[string][]byte{}, hits: map[string]int{}}
	must(os.MkdirAll(dir, 0o755))
	for i, f := range v.Files {
		t := rgSubst(f.Tree, dir)
		b := t.YAMLBytes()
		if strings.HasSuffix(f.Path, ".json") {
			b = []byte(t.JSON())
		}
		if f.Host == "w" {
			s.web[rgWeb+"/"+f.Path] = b
		} else {
			p := filepath.Join(dir, f.Path)
			must(os.MkdirAll(filepath.Dir(p), 0o755))
			must(os.WriteFile(p, b, 0o644))
		}
		if i == 0 {
			s.root = b
		}
	}
	return s
}

func rgSubst(t *Tree, dir string) *Tree {
	c := *t
	c.C = nil
	for _, x := range t.C {
		c.C = append(c.C, rgSubst(x, dir))
	}
	if c.T == "str" && strings.HasPrefix(c.V, "{L}") {
		c.V = dir + c.V[3:]
	}
	if c.T == "str" && strings.HasPrefix(c.V, "{W}") {
		c.V = rgWeb + c.V[3:]
	}
	return &c
}

func (s *rgSet) get(u string) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if p, err := url.Parse(u); err == nil {
		p.Fragment = ""
		u = p.String()
	}
	s.hits[u]++
	b, ok := s.web[u]
	if !ok {
		return &http.Response{StatusCode: 404, Status: "404 Not Found", Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(nil)), Request: rgReq(u)}, nil
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(b)), Request: rgReq(u)}, nil
}
func rgReq(u string) *http.Request {
	r, _ := http.NewRequest("GET", u, nil)
	return r
}

func (s *rgSet) config(mode string) *datamodel.DocumentConfiguration {
	c := datamodel.NewDocumentConfiguration()
	c.Logger = quietLog
	if mode == "web" {
		u, _ := url.Parse(rgWeb)
		c.BaseURL = u
		c.AllowRemoteReferences = true
		c.RemoteURLHandler = s.get
		return c
	}
	c.BasePath = s.dir
	c.SpecFilePath = filepath.Join(s.dir, "root.yaml")
	c.AllowFileReferences = true
	if mode == "mixed" {
		c.AllowRemoteReferences = true
		c.RemoteURLHandler = s.get
	}
	return c
}

func refGraphRun(b []byte, e *Env) error {
	var v rgVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	dir := filepath.Join(e.Scratch, "rg")
	if os.Getenv("VH_KEEP") == "" {
		defer os.RemoveAll(dir)
	}
	for _, r := range v.Refs { // a file referring to itself as a whole: a known finding of its own
		if r.Text == "#" && r.Tgt > 0 {
			defer func(p string) { e.Prop = p }(e.Prop)
			e.Prop += ":whole-document-ref"
			break
		}
	}
	s := rgWrite(&v, dir)
	doc, err := libopenapi.NewDocumentWithConfiguration(s.root, s.config(v.Mode))
	if err != nil {
		e.Fail(e.Prop+":open", "%v", err)
		return nil
	}
	defer doc.Release()
	m, err := doc.BuildV3Model()
	if need := v.dangling(); len(need) > 0 {
		e.Count("sets-dangling")
		e.Add("refs", len(v.Refs))
		rgDangling(e, &v, m, err, need)
		return nil
	}
	if err != nil {
		e.Fail(e.Prop+":resolvable-error", "[%s %s] %s", v.Mode, v.Ver, trunc(err.Error(), 400))
		return nil
	}
	if es := doc.GetRolodex().GetCaughtErrors(); len(es) > 0 {
		e.Fail(e.Prop+":resolvable-caught", "[%s %s] %v", v.Mode, v.Ver, trunc(fmt.Sprint(es), 400))
	}
	e.Add("refs", len(v.Refs))
	rgWalk(e, &v, &m.Model, func(sig, f string, a ...any) { e.Fail(e.Prop+":"+sig, f, a...) }, nil)
	return nil
}

// dangling is the set of references that designate nothing and can be reached from the root document.
func (v *rgVec) dangling() map[int]string {
	tgt, text := map[int]int{}, map[int]string{}
	for _, r := range v.Refs {
		tgt[r.ID], text[r.ID] = r.Tgt, r.Text
	}
	need, seen := map[int]string{}, map[int]bool{}
	var at func(p int)
	at = func(p int) {
		if seen[p] {
			return
		}
		seen[p] = true
		if t, ok := tgt[p]; ok {
			if t < 0 {
				need[p] = text[p]
			} else {
				at(t)
			}
			return
		}
		for _, ed := range v.Nodes[p-1].Edges {
			at(ed.P)
		}
	}
	for _, en := range v.Entries {
		at(en.P)
	}
	return need
}

// rgDangling requires every reachable reference that designates nothing to be reported, by the build or, for the schemas
// that are only built when they are asked for, by the proxy at the place of the reference.
func rgDangling(e *Env, v *rgVec, m *libopenapi.DocumentModel[v3.Document], err error, need map[int]string) {
	// a report names the reference itself or one that leads to it
	named := func(s string, p int) bool {
		tgt := map[int]int{}
		for _, r := range v.Refs {
			tgt[r.ID] = r.Tgt
		}
		for _, r := range v.Refs {
			x := r.ID
			for n := 0; n < 20 && x != p && tgt[x] > 0; n++ {
				x = tgt[x]
			}
			if x == p && strings.Contains(s, rgShort(r.Text)) {
				return true
			}
		}
		return false
	}
	for p := range need {
		if err != nil && named(err.Error(), p) {
			e.Count("dangling-reported")
			delete(need, p)
		}
	}
	if m == nil {
		if len(need) > 0 && err == nil {
			e.Fail(e.Prop+":dangling-silent", "[%s %s] no model and no error", v.Mode, v.Ver)
		}
		return
	}
	said := ""
	rgWalk(e, v, &m.Model, func(sig, f string, a ...any) {
		if strings.HasPrefix(sig, "wrong-object") {
			e.Fail(e.Prop+":"+sig, f, a...)
		}
		said += fmt.Sprintf(f, a...) + "\n"
	}, func(at string, x reflect.Value, xe error) {
		if xe != nil {
			said += xe.Error() + "\n"
		} else if st, se := hmStruct(x); se != nil {
			said += se.Error() + "\n"
		} else if id := rgID(st); id != "" {
			e.Fail(e.Prop+":dangling-wrong", "[%s %s]%s: the reference designates nothing but the model holds %s", v.Mode, v.Ver, at, id)
		}
	})
	for p := range need {
		if named(said, p) {
			e.Count("dangling-reported-late")
			delete(need, p)
		}
	}
	if err != nil {
		return // building stopped at something that was reported.
	}
	for _, t := range need {
		e.Fail(e.Prop+":dangling-silent", "[%s %s] %s designates nothing, which is not reported", v.Mode, v.Ver, t)
	}
}

// rgShort is the part of a reference that any report about it mentions.
func rgShort(t string) string {
	if i := strings.Index(t, "#"); i >= 0 {
		t = t[i:]
	}
	t = strings.TrimPrefix(strings.TrimPrefix(t, "{L}"), "{W}")
	if i := strings.LastIndex(t, "/"); i >= 0 {
		t = t[i+1:]
	}
	return t
}

// rgWalk follows the model along the expected objects and compares their identities.
func rgWalk(e *Env, v *rgVec, m *v3.Document, fail func(sig, f string, a ...any), none func(at string, x reflect.Value, err error)) {
	type item struct {
		val   reflect.Value
		id    int
		at    string
		depth int
	}
	budget := 4000
	var q []item
	step := func(from reflect.Value, addr []string, id int, at string, depth int) {
		at += " " + strings.Join(addr, " > ")
		x, err := rgAt(from, addr)
		kind := v.Nodes[id-1].Kind
		if err != nil {
			fail("unreachable-"+kind, "[%s %s]%s: expected n%d: %v", v.Mode, v.Ver, at, id, err)
			return
		}
		st, err := hmStruct(x)
		if err != nil {
			fail("empty-"+kind, "[%s %s]%s: expected n%d: %v", v.Mode, v.Ver, at, id, err)
			return
		}
		got := rgID(st)
		if got != "n"+strconv.Itoa(id) {
			fail("wrong-object-"+kind, "[%s %s]%s: expected n%d, found %q", v.Mode, v.Ver, at, id, got)
			return
		}
		q = append(q, item{x, id, at + fmt.Sprintf(" =n%d;", id), depth})
	}
	root := reflect.ValueOf(m)
	for _, en := range v.Entries {
		if en.ID != 0 {
			step(root, en.Addr, en.ID, "", 0)
		} else if none != nil {
			x, err := rgAt(root, en.Addr)
			none(strings.Join(en.Addr, " > "), x, err)
		}
	}
	for len(q) > 0 && budget > 0 {
		it := q[0]
		q = q[1:]
		if it.depth > 9 {
			continue
		}
		for _, ed := range v.Nodes[it.id-1].Edges {
			if ed.ID == 0 {
				if none != nil {
					x, err := rgAt(it.val, ed.Addr)
					none(it.at+" "+strings.Join(ed.Addr, " > "), x, err)
				}
				continue
			}
			budget--
			step(it.val, ed.Addr, ed.ID, it.at, it.depth+1)
		}
	}
	e.Add("objects", 4000-budget)
}

func rgAt(v reflect.Value, addr []string) (reflect.Value, error) {
	for _, a := range addr {
		if v.Kind() == reflect.Slice {
			n, _ := strconv.Atoi(a)
			a = "#" + strconv.Itoa(n+1)
		}
		x, err := hmAt(v, []string{a})
		if err != nil {
			return v, err
		}
		v = x
	}
	return v, nil
}

func rgID(s reflect.Value) string {
	f := s.FieldByName("Extensions")
	if !f.IsValid() || f.IsNil() {
		return ""
	}
	x := omapGet(f, "x-id")
	if !x.IsValid() || x.IsNil() {
		return ""
	}
	return x.Interface().(*yaml.Node).Value
}
