package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing/fstest"
	"unsafe"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
)

func init() { drivers["gates"] = gatesRun }

// The file sets of spec/Gates.tla built under every policy of the specification: what is touched, what is resolved and
// what is reported.
type gatePolicy struct {
	Name                string
	Local, Remote, Skip bool
	Open, Fin           []int
	Own                 bool
	Report              []int
}

// fsWatch records which files below a directory are opened, by inotify.
type fsWatch struct {
	fd   int
	dirs map[int]string
}

func newWatch(dir string) *fsWatch {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	must(err)
	w := &fsWatch{fd, map[int]string{}}
	must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			wd, e := syscall.InotifyAddWatch(fd, p, syscall.IN_OPEN)
			must(e)
			r, _ := filepath.Rel(dir, p)
			w.dirs[wd] = r
		}
		return err
	}))
	w.drain()
	return w
}
func (w *fsWatch) drain() (out []string) {
	b := make([]byte, 65536)
	seen := map[string]bool{}
	for {
		n, err := syscall.Read(w.fd, b)
		if n <= 0 || err != nil {
			break
		}
		for o := 0; o+syscall.SizeofInotifyEvent <= n; {
			ev := (*syscall.InotifyEvent)(unsafe.Pointer(&b[o]))
			name := strings.TrimRight(string(b[o+syscall.SizeofInotifyEvent:o+syscall.SizeofInotifyEvent+int(ev.Len)]), "\x00")
			o += syscall.SizeofInotifyEvent + int(ev.Len)
			seen[filepath.Join(w.dirs[int(ev.Wd)], name)] = true
		}
	}
	for k := range seen {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
func (w *fsWatch) close() { syscall.Close(w.fd) }

// countFS is a supplied file system.
type countFS struct {
	fstest.MapFS
	mu    sync.Mutex
	opens int
}

func (c *countFS) Open(name string) (fs.File, error) {
	c.mu.Lock()
	c.opens++
	c.mu.Unlock()
	return c.MapFS.Open(name)
}

func gatesRun(b []byte, e *Env) error {
	var v rgVec
	var g struct{ Gates []gatePolicy }
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if err := json.Unmarshal(b, &g); err != nil {
		return err
	}
	text := map[int]string{}
	for _, r := range v.Refs {
		text[r.ID] = r.Text
		if r.Text == "#" {
			e.Skip()
			return nil
		}
	}
	dir := filepath.Join(e.Scratch, "gt")
	defer os.RemoveAll(dir)
	s := rgWrite(&v, dir)
	if v.Mode != "fs" { // what is remote also lies where a local lookup would find it: it must not be taken from there
		for _, f := range v.Files {
			p := filepath.Join(dir, f.Path)
			if f.Host == "w" {
				must(os.MkdirAll(filepath.Dir(p), 0o755))
				if _, err := os.Stat(p); err != nil {
					must(os.WriteFile(p, s.web[rgWeb+"/"+f.Path], 0o644))
				}
			}
		}
	}
	cwd, _ := os.Getwd()
	must(os.Chdir(dir))
	defer os.Chdir(cwd)
	w := newWatch(dir)
	defer w.close()
	for _, q := range g.Gates {
		if q.Own { // whether the name of the root document itself is known is not prescribed
			continue
		}
		gateOne(&v, s, q, text, w, e)
	}
	return nil
}

func gateOne(v *rgVec, s *rgSet, q gatePolicy, text map[int]string, w *fsWatch, e *Env) {
	cfg := datamodel.NewDocumentConfiguration()
	cfg.Logger = quietLog
	var mu sync.Mutex
	var hits []string
	cfg.RemoteURLHandler = func(u string) (*http.Response, error) {
		mu.Lock()
		hits = append(hits, u)
		mu.Unlock()
		return s.get(u)
	}
	var sup *countFS
	switch q.Name {
	case "closed":
	case "remote-only":
		cfg.AllowRemoteReferences = true
	case "local":
		cfg.BasePath, cfg.SpecFilePath = s.dir, filepath.Join(s.dir, "root.yaml")
	case "supplied":
		sup = &countFS{MapFS: fstest.MapFS{}}
		for _, f := range v.Files {
			if f.Host == "l" {
				d, _ := os.ReadFile(filepath.Join(s.dir, f.Path))
				sup.MapFS[f.Path] = &fstest.MapFile{Data: d}
			}
		}
		cfg.BasePath, cfg.SpecFilePath, cfg.LocalFS = s.dir, filepath.Join(s.dir, "root.yaml"), sup
	case "open", "skip":
		cfg.BasePath, cfg.SpecFilePath = s.dir, filepath.Join(s.dir, "root.yaml")
		cfg.AllowFileReferences, cfg.AllowRemoteReferences = true, true
		cfg.SkipExternalRefResolution = q.Skip
	case "base-url", "web", "skip-web":
		cfg.BaseURL, _ = url.Parse(rgWeb)
		cfg.AllowRemoteReferences = q.Name != "base-url"
		cfg.SkipExternalRefResolution = q.Skip
	default:
		e.Fail(e.Prop+":policy", "unknown policy %q", q.Name)
		return
	}
	e.Count("policy-" + q.Name)
	w.drain()
	doc, err := libopenapi.NewDocumentWithConfiguration(s.root, cfg)
	if err != nil {
		e.Fail(e.Prop+":open", "[%s] %v", q.Name, err)
		return
	}
	m, err := doc.BuildV3Model()
	// the places of the model are visited as well: late lookups count
	vv := *v
	vv.Mode = v.Mode + " " + q.Name
	vv.Nodes = append(vv.Nodes[:0:0], v.Nodes...)
	vv.Entries = append(vv.Entries[:0:0], v.Entries...)
	for i := range vv.Entries {
		vv.Entries[i].ID = q.Fin[vv.Entries[i].P-1]
	}
	for i := range vv.Nodes {
		es := append([]rgEdge{}, vv.Nodes[i].Edges...)
		for j := range es {
			es[j].ID = q.Fin[es[j].P-1]
		}
		vv.Nodes[i].Edges = es
	}
	need := map[int]string{}
	for _, p := range q.Report {
		need[p] = text[p]
	}
	switch {
	case q.Skip:
		if m != nil {
			rgWalk(e, &vv, &m.Model, func(sig, f string, a ...any) {
				if strings.HasPrefix(sig, "wrong-object") {
					e.Fail(e.Prop+":"+sig, f, a...)
				}
			}, nil)
		}
	case len(need) > 0:
		n := len(need)
		rgDangling(e, &vv, m, err, need)
		e.Add("barred", n)
	case err != nil:
		e.Fail(e.Prop+":allowed-error", "[%s] everything is allowed, but: %s", vv.Mode, trunc(err.Error(), 300))
	default:
		rgWalk(e, &vv, &m.Model, func(sig, f string, a ...any) { e.Fail(e.Prop+":"+sig, f, a...) }, nil)
	}
	doc.Release()
	opens := w.drain()
	mu.Lock()
	defer mu.Unlock()
	if !q.Remote && len(hits) > 0 {
		e.Fail(e.Prop+":remote-touched", "[%s] remote lookups are not allowed, but %v was fetched", vv.Mode, hits)
	}
	if q.Remote {
		ok := map[string]bool{}
		for _, f := range q.Open {
			if v.Files[f-1].Host == "w" {
				ok[v.Files[f-1].Path] = true
			}
		}
		e.Add("fetched", len(hits))
		seen := map[string]int{}
		for _, h := range hits {
			u, _ := url.Parse(h)
			if u == nil || u.Host != "spec.test" {
				e.Fail(e.Prop+":remote-elsewhere", "[%s] %s was fetched, which nothing names", vv.Mode, h)
				continue
			}
			seen[h]++
			p := strings.TrimPrefix(u.Path, "/w/")
			if _, there := s.web[rgWeb+"/"+p]; there && !ok[p] {
				e.Fail(e.Prop+":remote-unneeded", "[%s] %s was fetched, which nothing allowed leads to", vv.Mode, h)
			}
			if _, there := s.web[rgWeb+"/"+p]; there && seen[h] == 2 {
				e.Fail(e.Prop+":fetched-twice", "[%s] %s was fetched more than once", vv.Mode, h)
			}
		}
	}
	if (!q.Local || sup != nil) && len(opens) > 0 {
		e.Fail(e.Prop+":local-touched", "[%s] the local file system is not to be consulted, but opened were %v", vv.Mode, opens)
	}
	if q.Local && sup == nil {
		e.Add("opened", len(opens))
	}
	if sup != nil {
		e.Add("supplied-opened", sup.opens)
	}
	_ = fmt.Sprint
}
