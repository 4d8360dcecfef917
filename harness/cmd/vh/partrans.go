package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pb33f/libopenapi/datamodel"
	"github.com/pb33f/libopenapi/orderedmap"
)

func init() { drivers["partrans"] = parTrans }

// gate lets translations finish in the order the specification chose.
type gate struct {
	mu    sync.Mutex
	order []int
	pos   int
	wake  chan struct{}
	free  bool
}

func newGate(order []int) *gate { return &gate{order: order, wake: make(chan struct{})} }
func (g *gate) wait(i int) {
	for {
		g.mu.Lock()
		if g.free || g.pos >= len(g.order) || g.order[g.pos] == i || !contains(g.order[g.pos:], i) {
			g.mu.Unlock()
			return
		}
		ch := g.wake
		g.mu.Unlock()
		select {
		case <-ch:
		case <-time.After(15 * time.Millisecond): // the pool is smaller than the model's: stop forcing
			g.mu.Lock()
			g.free = true
			g.mu.Unlock()
		}
	}
}
func (g *gate) done(i int) {
	g.mu.Lock()
	if g.pos < len(g.order) && g.order[g.pos] == i {
		g.pos++
		close(g.wake)
		g.wake = make(chan struct{})
	}
	g.mu.Unlock()
}
func contains(s []int, i int) bool {
	for _, x := range s {
		if x == i {
			return true
		}
	}
	return false
}

type ptVec struct {
	Kinds     []string
	Order     []int
	Delivered []int
	Ret       string
}

func parTrans(b []byte, e *Env) error {
	var v ptVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	for _, pad := range []int{0, 20, 40} { // 0: inline path; otherwise the worker pool
		ptSlice(e, &v, pad)
		ptMap(e, &v, pad)
	}
	ptPipe(e, &v, 0)
	ptPipe(e, &v, 30)
	return nil
}

func ptErr(s string) error { return errors.New(s) }

func ptRet(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

// expected gives the padded expectation: pad leading items are plain.
func (v *ptVec) expected(pad int) (kinds []string, delivered []int) {
	for i := 0; i < pad; i++ {
		kinds = append(kinds, "ok")
		delivered = append(delivered, i)
	}
	kinds = append(kinds, v.Kinds...)
	for _, d := range v.Delivered {
		delivered = append(delivered, pad+d-1)
	}
	return
}

type ptRun struct {
	g         *gate
	kinds     []string
	pad       int
	calls     []int32
	inflight  atomic.Int32
	resulting atomic.Int32
	overlap   atomic.Bool
	got       []int
	after     bool
	stopped   bool
}

func (r *ptRun) translate(i int) (int, error) {
	atomic.AddInt32(&r.calls[i], 1)
	if i >= r.pad {
		r.g.wait(i - r.pad + 1)
		defer r.g.done(i - r.pad + 1)
	}
	switch r.kinds[i] {
	case "skip":
		return -1, datamodel.Continue
	case "err":
		return -1, ptErr(fmt.Sprintf("err%d", i-r.pad+1))
	case "eof":
		return -1, io.EOF
	}
	return i, nil
}
func (r *ptRun) result(i int) error {
	if r.resulting.Add(1) > 1 {
		r.overlap.Store(true)
	}
	defer r.resulting.Add(-1)
	if r.stopped {
		r.after = true
	}
	r.got = append(r.got, i)
	if i < 0 || i >= len(r.kinds) {
		return nil
	}
	switch r.kinds[i] {
	case "rerr":
		r.stopped = true
		return ptErr(fmt.Sprintf("rerr%d", i-r.pad+1))
	case "reof":
		r.stopped = true
		return io.EOF
	}
	return nil
}

func ptCheck(e *Env, what string, v *ptVec, r *ptRun, want []int, err error, base int) {
	if fmt.Sprint(r.got) != fmt.Sprint(want) {
		e.Fail(what+"-delivered", "%s pad %d: delivered %v, specified %v", what, r.pad, r.got, want)
	}
	if ptRet(err) != v.Ret {
		e.Fail(what+"-ret", "%s pad %d: returned %v, specified %s", what, r.pad, err, v.Ret)
	}
	for i := range r.calls {
		if n := atomic.LoadInt32(&r.calls[i]); n > 1 {
			e.Fail(what+"-twice", "%s pad %d: item %d translated %d times", what, r.pad, i, n)
		}
	}
	if r.overlap.Load() || r.after {
		e.Fail(what+"-callback", "%s pad %d: result callback overlapping or after stop", what, r.pad)
	}
	ptLeak(e, what, base)
}

func ptLeak(e *Env, what string, base int) {
	for i := 0; ; i++ {
		if runtime.NumGoroutine() <= base {
			return
		}
		if i > 2000 {
			e.Fail(what+"-leak", "%s: %d goroutines remain, %d before", what, runtime.NumGoroutine(), base)
			return
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

func ptSlice(e *Env, v *ptVec, pad int) {
	kinds, want := v.expected(pad)
	base := runtime.NumGoroutine()
	r := &ptRun{g: newGate(v.Order), kinds: kinds, pad: pad, calls: make([]int32, len(kinds))}
	if len(kinds) <= 16 {
		r.g.free = true
	}
	in := make([]int, len(kinds))
	for i := range in {
		in[i] = i + 1000
	}
	err := datamodel.TranslateSliceParallel(in, func(i int, x int) (int, error) {
		if x != i+1000 {
			e.Fail("slice-index", "index %d given with item %d", i, x)
		}
		return r.translate(i)
	}, r.result)
	ptCheck(e, "slice", v, r, want, err, base)
	// nil callback: only translation errors matter
	r2 := &ptRun{g: newGate(nil), kinds: kinds, pad: pad, calls: make([]int32, len(kinds))}
	err = datamodel.TranslateSliceParallel(in, func(i int, x int) (int, error) { return r2.translate(i) }, nil)
	wantErr := "nil"
	for i, k := range kinds {
		if k == "err" {
			wantErr = fmt.Sprintf("err%d", i-pad+1)
			break
		}
		if k == "eof" {
			break
		}
	}
	if ptRet(err) != wantErr {
		e.Fail("slice-nilresult", "pad %d nil callback: returned %v, specified %s", pad, err, wantErr)
	}
}

func ptMap(e *Env, v *ptVec, pad int) {
	for _, k := range v.Kinds {
		if k == "skip" { // map translation has no skip
			return
		}
	}
	kinds, want := v.expected(pad)
	base := runtime.NumGoroutine()
	r := &ptRun{g: newGate(v.Order), kinds: kinds, pad: pad, calls: make([]int32, len(kinds))}
	if len(kinds) <= 16 {
		r.g.free = true
	}
	m := orderedmap.New[int, int]()
	for i := range kinds {
		m.Set((i*7)%1009, i) // keys not in order
	}
	err := datamodel.TranslateMapParallel(m, func(p orderedmap.Pair[int, int]) (int, error) {
		if p.Key() != (p.Value()*7)%1009 {
			e.Fail("map-pair", "pair %d:%d", p.Key(), p.Value())
		}
		return r.translate(p.Value())
	}, r.result)
	ptCheck(e, "map", v, r, want, err, base)
}

// pipelines have no end-of-stream marker: eof is an ordinary error, and after an
// error the delivered items are a prefix of what precedes the first failing item.
func ptPipe(e *Env, v *ptVec, pad int) {
	kinds, _ := v.expected(pad)
	base := runtime.NumGoroutine()
	r := &ptRun{g: newGate(v.Order), kinds: kinds, pad: pad, calls: make([]int32, len(kinds))}
	if pad == 0 {
		r.g.order = v.Order
	}
	var full []int
	fails := map[string]bool{}
	failed := false
	for i, k := range kinds {
		switch k {
		case "err":
			fails[fmt.Sprintf("err%d", i-pad+1)] = true
			failed = true
		case "eof":
			fails["EOF"] = true
			failed = true
		case "skip":
		default:
			if !failed {
				full = append(full, i)
			}
		}
	}
	in := make(chan int)
	out := make(chan int)
	stop := make(chan struct{})
	var fed sync.WaitGroup
	fed.Add(2)
	go func() {
		defer fed.Done()
		defer close(in)
		for i := range kinds {
			select {
			case in <- i:
			case <-stop:
				return
			}
		}
	}()
	var got []int
	go func() {
		defer fed.Done()
		for x := range out {
			got = append(got, x)
		}
	}()
	err := datamodel.TranslatePipeline(in, out, r.translate)
	close(stop)
	fed.Wait()
	if !failed {
		if err != nil || fmt.Sprint(got) != fmt.Sprint(full) {
			e.Fail("pipe-delivered", "pad %d: delivered %v err %v, specified %v", pad, got, err, full)
		}
	} else {
		if err == nil || !fails[err.Error()] {
			e.Fail("pipe-ret", "pad %d: returned %v, one of %v specified", pad, err, fails)
		}
		if len(got) > len(full) || fmt.Sprint(got) != fmt.Sprint(full[:len(got)]) {
			e.Fail("pipe-prefix", "pad %d: delivered %v is not a prefix of %v", pad, got, full)
		}
	}
	for i, n := range r.calls {
		if n > 1 {
			e.Fail("pipe-twice", "item %d translated %d times", i, n)
		}
	}
	ptLeak(e, "pipe", base)
}
