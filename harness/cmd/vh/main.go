// Command vh replays behaviours emitted by the TLA+ specifications on the real library.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"log/slog"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"sync/atomic"
	"time"
)

// V is one disagreement between specification and code.
type V struct {
	Sig string `json:"sig"`
	Msg string `json:"msg"`
	Vec string `json:"vec"`
}

// Env is handed to drivers.
type Env struct {
	Seed     int64
	Tier     string
	Prop     string
	Scratch  string
	Counters map[string]int
	viol     []V
	cur      string
	perSig   map[string]int
	skipped  bool
	seq      int
}

// Fail records a violation for the current vector.
func (e *Env) Fail(sig, format string, args ...any) {
	if one := os.Getenv("VH_ONE"); one != "" {
		sig = e.Prop + ":" + one // inputs of a class that is known to be wrong
	}
	if e.perSig[sig]++; e.perSig[sig] > 20 {
		return
	}
	e.viol = append(e.viol, V{sig, fmt.Sprintf(format, args...), e.cur})
}
func (e *Env) Count(k string)      { e.Counters[k]++ }
func (e *Env) Add(k string, n int) { e.Counters[k] += n }

// Skip marks the vector as not applicable (not counted as validated).
func (e *Env) Skip() { e.skipped = true }

type driver func(vec []byte, e *Env) error

var drivers = map[string]driver{}
var finals = map[string]func(e *Env){}

type result struct {
	Validated  int            `json:"validated"`
	Counters   map[string]int `json:"counters"`
	Samples    []any          `json:"samples"`
	Violations []V            `json:"violations"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh driver flags")
		os.Exit(2)
	}
	name := os.Args[1]
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	in := fs.String("in", "", "")
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	seed := fs.Int64("seed", 1, "")
	out := fs.String("out", "", "")
	progress := fs.String("progress", "", "")
	skip := fs.String("skip", "", "")
	only := fs.String("only", "", "")
	vt := fs.Float64("vt", 30, "")
	limit := fs.Int("limit", 0, "")
	tier := fs.String("tier", "quick", "")
	prop := fs.String("prop", "", "")
	scratch := fs.String("scratch", "", "")
	replay := fs.String("replay", "", "replay file written by bin/check")
	prof := fs.String("prof", "", "write a CPU profile")
	_ = fs.Parse(os.Args[2:])
	if *prof != "" {
		if pf, err := os.Create(*prof); err == nil {
			_ = pprof.StartCPUProfile(pf)
			defer pprof.StopCPUProfile()
		}
	}
	slog.SetDefault(slog.New(slog.NewTextHandler(nullW{}, nil)))
	d := drivers[name]
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown driver", name)
		os.Exit(2)
	}
	e := &Env{Seed: *seed, Tier: *tier, Prop: *prop, Scratch: *scratch, Counters: map[string]int{}, perSig: map[string]int{}}
	if *scratch != "" {
		_ = os.MkdirAll(*scratch, 0o755)
	}
	debug.SetMaxStack(256 << 20)
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			panic(err)
		}
		var r struct{ Vector string }
		_ = json.Unmarshal(b, &r)
		if r.Vector == "" {
			r.Vector = string(b)
		}
		run(d, []byte(r.Vector), e)
		for _, v := range e.viol {
			fmt.Println(v.Sig, ":", v.Msg)
		}
		return
	}
	skips := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		skips[s] = true
	}
	var started atomic.Int64
	go func() { // watchdog: a vector that does not end is a hang of the code under test
		for {
			time.Sleep(200 * time.Millisecond)
			s := started.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > time.Duration(*vt*float64(time.Second)) {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "WATCHDOG: vector did not finish in %vs\n%s\n", *vt, buf[:n])
				os.Exit(3)
			}
		}
	}()
	res := result{Counters: e.Counters}
	seen := map[uint64]bool{}
	stop := false
	for _, fn := range strings.Split(*in, ",") {
		if stop {
			break
		}
		f, err := os.Open(fn)
		if err != nil {
			panic(err)
		}
		rd := bufio.NewReaderSize(f, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			line = bytes.TrimSpace(line)
			if len(line) > 0 {
				h := fnv.New64a()
				h.Write(line)
				hv := h.Sum64()
				id := fmt.Sprintf("%x", hv)
				mine := int(hv%uint64(*of)) == *shard
				if *only != "" {
					mine = id == *only
				}
				if mine && !seen[hv] && !skips[id] {
					seen[hv] = true
					vec := line
					if line[0] == '"' { // CSVWrite of ToJson: a JSON string holding JSON
						var s string
						if json.Unmarshal(line, &s) == nil {
							vec = []byte(s)
						}
					}
					if *progress != "" {
						_ = os.WriteFile(*progress, append([]byte(id+"\n"), vec...), 0o644)
					}
					started.Store(time.Now().UnixNano())
					e.skipped = false
					if run(d, vec, e); !e.skipped {
						res.Validated++
					}
					started.Store(0)
					if len(res.Samples) < 1 && len(vec) < 6000 {
						var s any
						_ = json.Unmarshal(vec, &s)
						res.Samples = append(res.Samples, s)
					}
					if *limit > 0 && res.Validated >= *limit {
						stop = true
						break
					}
				}
			}
			if err != nil {
				break
			}
		}
		f.Close()
	}
	if fin := finals[name]; fin != nil {
		fin(e)
	}
	res.Violations = e.viol
	b, _ := json.Marshal(res)
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		panic(err)
	}
}

// run executes one vector; a panic of the code under test is a violation.
func run(d driver, vec []byte, e *Env) {
	e.cur = string(vec)
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			e.Fail("panic:"+site(st), "panic: %v\n%s", r, st[:min(len(st), 3000)])
		}
	}()
	if err := d(vec, e); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err, "\n", string(vec)[:min(len(vec), 2000)])
		os.Exit(4)
	}
}

// site names the library function a panic came from.
func site(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/pb33f/libopenapi") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/pb33f/libopenapi/")
		}
	}
	return "?"
}

type nullW struct{}

func (nullW) Write(p []byte) (int, error) { return len(p), nil }
