package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/pb33f/libopenapi/index"
)

// Replays the histories of the Loader specification on the real loaders: the environment (openers and ends of
// fetches) is driven step by step, and after every step the fetches under way and the opens that have returned are
// those of the specification. Afterwards the same opens run freely, all at once.

func init() { drivers["load"] = loadRun }

type loadObs struct {
	Fly  []int                `json:"fly"`
	Done []struct{ P, N int } `json:"done"`
}
type loadVec struct {
	Refs   [][]int  `json:"refs"`
	Kind   []string `json:"kind"`
	Script []struct {
		Ev struct {
			Do, Out string
			P, L    int
		} `json:"ev"`
		Before loadObs `json:"before"`
	} `json:"script"`
	After loadObs `json:"after"`
	Tied  int     `json:"tied"` // from this step on the outcome depends on who comes first
	Res   []struct {
		P, L int
		R    string
	} `json:"res"`
}

const loadHost = "http://spec.test/w/"

type loadRes struct {
	loc  int
	file index.RolodexFile
	err  error
}

type loader struct {
	v      *loadVec
	mode   string
	dir    string
	fifo   bool
	mu     sync.Mutex
	fly    map[int]int
	maxFly map[int]int
	calls  map[int]int
	oks    map[int]int
	gate   map[int]chan string
	res    map[int][]loadRes
	ro     *index.Rolodex
	free   func(l, attempt int) string // free running: how a fetch ends
	stop   chan struct{}
	wg     sync.WaitGroup
}

func (x *loader) name(l int) string { return fmt.Sprintf("loc%d.yaml", l) }
func (x *loader) content(l int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "components:\n  schemas:\n    S:\n      type: object\n      description: content of loc%d\n      properties:\n        p:\n          type: string\n", l)
	for i, r := range x.v.Refs[l-1] {
		fmt.Fprintf(&b, "        r%d:\n          $ref: '%s#/components/schemas/S'\n", i, x.name(r))
	}
	return b.String()
}

func (x *loader) begin(l int) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.calls[l]++
	x.fly[l]++
	if x.fly[l] > x.maxFly[l] {
		x.maxFly[l] = x.fly[l]
	}
	return x.calls[l]
}

func (x *loader) end(l int, ok bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.fly[l]--
	if ok {
		x.oks[l]++
	}
}

type loadBadBody struct{ l int }

func (b loadBadBody) Read([]byte) (int, error) { return 0, fmt.Errorf("body of loc%d breaks off", b.l) }
func (b loadBadBody) Close() error             { return nil }

// handle is the fetch handler of the remote loader.
func (x *loader) handle(u string) (*http.Response, error) {
	p, err := url.Parse(u)
	if err != nil {
		return nil, err
	}
	l := 0
	if _, err := fmt.Sscanf(filepath.Base(p.Path), "loc%d.yaml", &l); err != nil || l < 1 || l > len(x.v.Kind) {
		return nil, fmt.Errorf("unexpected location %s", u)
	}
	if x.v.Kind[l-1] == "dead" {
		return x.respond(l, []string{"err", "status", "body", "nil"}[l%4])
	}
	n := x.begin(l)
	var out string
	if x.free != nil {
		out = x.free(l, n)
	} else {
		select {
		case out = <-x.gate[l]:
		case <-x.stop:
			out = "err"
		}
	}
	x.end(l, out == "ok")
	return x.respond(l, out)
}

func (x *loader) respond(l int, out string) (*http.Response, error) {
	switch out {
	case "ok":
		return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(x.content(l))), Header: http.Header{}}, nil
	case "err":
		return nil, fmt.Errorf("no connection for loc%d", l)
	case "status":
		return &http.Response{StatusCode: 503, Body: io.NopCloser(strings.NewReader("unavailable")), Header: http.Header{}}, nil
	case "body":
		return &http.Response{StatusCode: 200, Body: loadBadBody{l}, Header: http.Header{}}, nil
	}
	return nil, nil
}

// feed plays the other end of a named pipe that stands for a local file.
func (x *loader) feed(l int) {
	defer x.wg.Done()
	p := filepath.Join(x.dir, x.name(l))
	for {
		f, err := os.OpenFile(p, os.O_WRONLY, 0) // blocks until somebody reads
		if err != nil {
			return
		}
		select {
		case <-x.stop:
			f.Close()
			return
		default:
		}
		x.begin(l)
		select {
		case <-x.gate[l]:
		case <-x.stop:
		}
		x.end(l, true)
		_, _ = f.WriteString(x.content(l))
		f.Close()
		for { // until the reader is gone: there is nobody to write to
			w, err := os.OpenFile(p, os.O_WRONLY|syscall.O_NONBLOCK, 0)
			if err != nil {
				break
			}
			w.Close()
			select {
			case <-x.stop:
				return
			case <-time.After(20 * time.Microsecond):
			}
		}
	}
}

func newLoader(v *loadVec, mode, dir string, fifo bool) *loader {
	x := &loader{v: v, mode: mode, dir: dir, fifo: fifo, fly: map[int]int{}, maxFly: map[int]int{}, calls: map[int]int{}, oks: map[int]int{},
		gate: map[int]chan string{}, res: map[int][]loadRes{}, stop: make(chan struct{})}
	cfg := index.CreateOpenAPIIndexConfig()
	cfg.Logger = quietLog
	cfg.AvoidCircularReferenceCheck = true
	cfg.ExtractRefsSequentially = true
	for l := 1; l <= len(v.Kind); l++ {
		x.gate[l] = make(chan string)
	}
	if mode == "remote" {
		u, _ := url.Parse(loadHost)
		cfg.BaseURL = u
		cfg.AllowRemoteLookup = true
		cfg.RemoteURLHandler = x.handle
		fs, err := index.NewRemoteFSWithConfig(cfg)
		must(err)
		x.ro = index.NewRolodex(cfg)
		x.ro.AddRemoteFS(loadHost, fs)
		return x
	}
	must(os.MkdirAll(dir, 0o755))
	for l := 1; l <= len(v.Kind); l++ {
		p := filepath.Join(dir, x.name(l))
		switch {
		case v.Kind[l-1] == "dead" && l%2 == 0:
			must(os.Mkdir(p, 0o755)) // cannot be read
		case v.Kind[l-1] == "dead": // is not there
		case fifo:
			must(syscall.Mkfifo(p, 0o600))
			x.wg.Add(1)
			go x.feed(l)
		default:
			must(os.WriteFile(p, []byte(x.content(l)), 0o644))
		}
	}
	cfg.BasePath = dir
	cfg.AllowFileLookup = true
	cfg.SpecAbsolutePath = filepath.Join(dir, "root.yaml")
	fs, err := index.NewLocalFSWithConfig(&index.LocalFSConfig{BaseDirectory: dir, IndexConfig: cfg, Logger: quietLog})
	must(err)
	x.ro = index.NewRolodex(cfg)
	x.ro.AddLocalFS(dir, fs)
	return x
}

func (x *loader) close() {
	close(x.stop)
	if x.fifo {
		for l := range x.v.Kind {
			// releases a writer that waits for a reader
			if f, err := os.OpenFile(filepath.Join(x.dir, x.name(l+1)), os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
				defer f.Close()
			}
		}
		x.wg.Wait()
	}
}

func (x *loader) open(p, l, n int) {
	at := loadHost + x.name(l)
	if x.mode == "local" {
		at = filepath.Join(x.dir, x.name(l))
	}
	f, err := x.ro.OpenWithContext(context.Background(), at)
	x.mu.Lock()
	x.res[p] = append(x.res[p], loadRes{l, f, err})
	x.mu.Unlock()
}

func (x *loader) see() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	var b bytes.Buffer
	for l := 1; l <= len(x.v.Kind); l++ {
		if n := x.fly[l]; n != 0 {
			fmt.Fprintf(&b, "loc%d:%d ", l, n)
		}
	}
	b.WriteString("| ")
	for p := 1; p <= 8; p++ {
		if n := len(x.res[p]); n > 0 {
			fmt.Fprintf(&b, "p%d:%d ", p, n)
		}
	}
	return b.String()
}

func (o *loadObs) String() string {
	var b bytes.Buffer
	fly, done := map[int]bool{}, map[int]int{}
	for _, l := range o.Fly {
		fly[l] = true
	}
	for _, d := range o.Done {
		done[d.P] = d.N
	}
	for l := 1; l <= 8; l++ {
		if fly[l] {
			fmt.Fprintf(&b, "loc%d:1 ", l)
		}
	}
	b.WriteString("| ")
	for p := 1; p <= 8; p++ {
		if done[p] > 0 {
			fmt.Fprintf(&b, "p%d:%d ", p, done[p])
		}
	}
	return b.String()
}

// openersRest is true when every opener has returned or is blocked.
func openersRest() bool {
	buf := make([]byte, 1<<18)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, rest, _ := strings.Cut(g, "\n")
		if strings.Contains(rest, "created by main.loadGated") && (strings.Contains(head, "[run") || strings.Contains(head, "[sleep") || strings.Contains(head, "[GC") || strings.Contains(head, "[sync.Cond")) {
			return false
		}
	}
	return true
}

// until waits for an observation and makes sure it lasts.
func (x *loader) until(want string) string {
	deadline := time.Now().Add(4 * time.Second)
	for i := 0; ; i++ {
		got := x.see()
		if got == want {
			for k := 0; k < 20; k++ {
				runtime.Gosched()
			}
			if openersRest() {
				time.Sleep(60 * time.Microsecond)
				if !openersRest() {
					continue
				}
				if got = x.see(); got == want {
					return got
				}
			}
		}
		if time.Now().After(deadline) {
			return got
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

// sound judges what one opener was handed.
func (x *loader) sound(e *Env, what string, r loadRes, canFail bool) {
	l := r.loc
	switch {
	case r.err == nil && (r.file == nil || isNilFile(r.file)):
		e.Fail(e.Prop+":"+what+":nothing", "opening loc%d gave neither a file nor an error", l)
	case r.err == nil:
		if r.file.GetContent() != x.content(l) {
			e.Fail(e.Prop+":"+what+":content", "opening loc%d gave the content %q", l, trunc(r.file.GetContent(), 200))
		}
		if x.v.Kind[l-1] == "dead" {
			e.Fail(e.Prop+":"+what+":dead", "opening loc%d, which cannot be read, succeeded", l)
		}
	default:
		if !canFail {
			e.Fail(e.Prop+":"+what+":error", "opening loc%d failed although its fetch succeeded: %v", l, r.err)
		}
		for o := range x.v.Kind {
			if o+1 != l && strings.Contains(r.err.Error(), fmt.Sprintf("loc%d", o+1)) {
				e.Fail(e.Prop+":"+what+":other", "opening loc%d failed with the error of loc%d: %v", l, o+1, r.err)
			}
		}
	}
}

func isNilFile(f index.RolodexFile) bool {
	defer func() { _ = recover() }()
	return f.GetFullPath() == ""
}

func (x *loader) sameIndex(e *Env, what string) {
	idx := map[int]*index.SpecIndex{}
	for _, rs := range x.res {
		for _, r := range rs {
			if r.err != nil || r.file == nil {
				continue
			}
			ix := r.file.GetIndex()
			if ix == nil {
				e.Fail(e.Prop+":"+what+":unindexed", "loc%d was opened but has no index when everything has come to rest", r.loc)
			} else if o := idx[r.loc]; o != nil && o != ix {
				e.Fail(e.Prop+":"+what+":two-indexes", "two openers of loc%d hold different indexes", r.loc)
			} else {
				idx[r.loc] = ix
			}
		}
	}
	for l, n := range x.oks {
		if n > 1 {
			e.Fail(e.Prop+":"+what+":fetched-again", "loc%d was fetched successfully %d times", l, n)
		}
	}
	for l, n := range x.maxFly {
		if n > 1 {
			e.Fail(e.Prop+":"+what+":fetched-together", "%d fetches of loc%d were under way at the same time", n, l)
		}
	}
}

func loadRun(b []byte, e *Env) error {
	var v loadVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	modes := []string{"remote"}
	steady := true
	for _, s := range v.Script {
		if s.Ev.Do == "finish" && s.Ev.Out != "ok" {
			steady = false
		}
	}
	if steady {
		modes = append(modes, "local")
	}
	for _, mode := range modes {
		// a step can come too early when an opener has not been blocked for good: only what repeats counts
		for try := 0; try < 3; try++ {
			n, per := len(e.viol), maps.Clone(e.perSig)
			loadGated(&v, mode, e)
			if len(e.viol) == n {
				break
			}
			if try < 2 {
				e.viol, e.perSig = e.viol[:n], per
				e.Count("tried-again")
			}
		}
		for k := 0; k < 3; k++ {
			loadFree(&v, mode, e, int64(e.seq*7+k))
		}
	}
	return nil
}

func loadGated(v *loadVec, mode string, e *Env) {
	dir := filepath.Join(e.Scratch, "load")
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	x := newLoader(v, mode, dir, true)
	defer x.close()
	e.Count("gated-" + mode)
	want := func(i int) string {
		if i < len(v.Script) {
			return v.Script[i].Before.String()
		}
		return v.After.String()
	}
	nth := map[int]int{}
	for i, s := range v.Script {
		if v.Tied > 0 && i+1 >= v.Tied {
			e.Count("tied")
			return
		}
		switch s.Ev.Do {
		case "open":
			nth[s.Ev.P]++
			go x.open(s.Ev.P, s.Ev.L, nth[s.Ev.P])
		case "finish":
			select {
			case x.gate[s.Ev.L] <- s.Ev.Out:
			case <-time.After(4 * time.Second):
				e.Fail(e.Prop+":gated:"+mode+":no-fetch", "step %d: no fetch of loc%d is under way", i, s.Ev.L)
				return
			}
		}
		e.Count("steps")
		if got := x.until(want(i + 1)); got != want(i+1) {
			e.Fail(e.Prop+":gated:"+mode+":observed", "step %d (%s p%d loc%d %s): fetches under way and returned opens are [%s], not [%s]; refs %v kinds %v",
				i, s.Ev.Do, s.Ev.P, s.Ev.L, s.Ev.Out, got, want(i+1), v.Refs, v.Kind)
			return
		}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	at := map[int]int{}
	for _, r := range v.Res {
		got := x.res[r.P][at[r.P]]
		at[r.P]++
		if (r.R == "file") != (got.err == nil) {
			e.Fail(e.Prop+":gated:"+mode+":outcome", "opener %d of loc%d gets (%v, %v), not %s", r.P, r.L, got.file != nil, got.err, r.R)
		}
		x.sound(e, "gated:"+mode, got, r.R != "file")
	}
	x.sameIndex(e, "gated:"+mode)
}

func loadFree(v *loadVec, mode string, e *Env, seed int64) {
	dir := filepath.Join(e.Scratch, "loadf")
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	x := newLoader(v, mode, dir, false)
	e.Count("free-" + mode)
	rng := rand.New(rand.NewSource(seed))
	var rmu sync.Mutex
	fails := map[int]int{}
	for _, s := range v.Script {
		if s.Ev.Do == "finish" && s.Ev.Out != "ok" {
			fails[s.Ev.L]++
		}
	}
	x.free = func(l, attempt int) string {
		rmu.Lock()
		n := rng.Intn(4)
		rmu.Unlock()
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
		if n == 3 {
			time.Sleep(20 * time.Microsecond)
		}
		if attempt <= fails[l] {
			return []string{"err", "status", "body", "nil"}[attempt%4]
		}
		return "ok"
	}
	ops := map[int][]int{}
	for _, s := range v.Script {
		if s.Ev.Do == "open" {
			ops[s.Ev.P] = append(ops[s.Ev.P], s.Ev.L)
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for p, ls := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n, l := range ls {
				x.open(p, l, n)
			}
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		e.Fail(e.Prop+":free:"+mode+":stuck", "openers wait for ever: %s; refs %v kinds %v", x.see(), v.Refs, v.Kind)
		return
	}
	for _, rs := range x.res {
		for _, r := range rs {
			x.sound(e, "free:"+mode, r, v.Kind[r.loc-1] == "dead" || fails[r.loc] > 0)
		}
	}
	x.sameIndex(e, "free:"+mode)
}
