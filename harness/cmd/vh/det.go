package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"github.com/pb33f/libopenapi"
	"github.com/pb33f/libopenapi/datamodel"
	"github.com/pb33f/libopenapi/index"
)

// The result of a build is a function of the description: whatever the schedule, every
// facet of it is the same (spec/RefGraph.tla generates the descriptions).
func init() { drivers["det"] = detRun }

var detFacets = []string{"errors", "objects", "render", "references", "circular", "indexes", "hash"}

type detOther struct {
	s    *rgSet
	mode string
	v    *rgVec
	snap map[string]string
}

var detPrev *detOther

func detSnap(v *rgVec, s *rgSet, tune func(c *datamodel.DocumentConfiguration)) map[string]string {
	r := map[string]string{}
	c := s.config(v.Mode)
	tune(c)
	doc, err := libopenapi.NewDocumentWithConfiguration(s.root, c)
	if err != nil {
		r["errors"] = err.Error()
		return r
	}
	defer doc.Release()
	m, err := doc.BuildV3Model()
	ro := doc.GetRolodex()
	var b strings.Builder
	fmt.Fprintln(&b, err)
	for _, x := range ro.GetCaughtErrors() {
		fmt.Fprintln(&b, "caught", x)
	}
	r["errors"] = b.String()
	b.Reset()
	show := func(c *index.CircularReferenceResult) {
		fmt.Fprintln(&b, "  ", c.Start.FullDefinition, "->", c.LoopPoint.FullDefinition, c.IsInfiniteLoop, c.IsArrayResult, c.IsPolymorphicResult)
		for _, j := range c.Journey {
			fmt.Fprint(&b, "      ", j.FullDefinition)
		}
		fmt.Fprintln(&b)
	}
	var rb, ib strings.Builder
	one := func(ix *index.SpecIndex) {
		if ix == nil {
			return
		}
		fmt.Fprintln(&ib, ix.GetSpecAbsolutePath())
		fmt.Fprintln(&b, "==", ix.GetSpecAbsolutePath())
		for _, c := range ix.GetCircularReferences() {
			show(c)
		}
		fmt.Fprintln(&rb, "==", ix.GetSpecAbsolutePath())
		for _, x := range ix.GetRawReferencesSequenced() {
			fmt.Fprintln(&rb, "  raw", x.Definition, x.FullDefinition, x.Circular, x.Node.Line, x.Path)
		}
		for _, x := range ix.GetMappedReferencesSequenced() {
			ri := "none"
			if x.Reference != nil && x.Reference.Index != nil {
				ri = x.Reference.Index.GetSpecAbsolutePath()
			}
			fmt.Fprintln(&rb, "  map", x.Definition, x.FullDefinition, ri)
		}
		for _, x := range ix.GetReferenceIndexErrors() {
			fmt.Fprintln(&rb, "  err", x)
		}
	}
	one(ro.GetRootIndex())
	for _, ix := range ro.GetIndexes() {
		one(ix)
	}
	fmt.Fprintln(&b, "safe")
	for _, c := range ro.GetSafeCircularReferences() {
		show(c)
	}
	fmt.Fprintln(&b, "ignored")
	for _, c := range ro.GetIgnoredCircularReferences() {
		show(c)
	}
	r["circular"], r["references"], r["indexes"] = b.String(), rb.String(), ib.String()
	if m != nil {
		b.Reset()
		quiet := &Env{Counters: map[string]int{}}
		rgWalk(quiet, v, &m.Model, func(sig, f string, a ...any) { fmt.Fprintln(&b, sig, fmt.Sprintf(f, a...)) }, nil)
		r["objects"] = b.String()
		out, err := m.Model.Render()
		r["render"] = fmt.Sprint(string(out), err)
		if len(v.dangling()) == 0 && m.Model.Components != nil {
			r["hash"] = fmt.Sprint(m.Model.Components.GoLow().Hash())
		}
	}
	return r
}

func detDiff(e *Env, v *rgVec, what string, base, got map[string]string) {
	for _, f := range detFacets {
		if base[f] != got[f] {
			e.Fail(e.Prop+":"+what+":"+f, "[%s %s] %s", v.Mode, v.Ver, detFirst(base[f], got[f]))
		}
	}
}

func detFirst(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			ctx := ""
			if len(a)+len(b) < 1500 {
				ctx = fmt.Sprintf(" (whole: %q becomes %q)", a, b)
			}
			return fmt.Sprintf("line %d: `%s` becomes `%s`%s", i+1, trunc(p, 200), trunc(q, 200), ctx)
		}
	}
	return "?"
}

func detRun(b []byte, e *Env) error {
	var v rgVec
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	for _, r := range v.Refs {
		if r.Text == "#" && r.Tgt > 0 {
			e.Skip()
			return nil
		}
	}
	e.seq++
	dir := filepath.Join(e.Scratch, fmt.Sprint("rg", e.seq%2))
	os.RemoveAll(dir)
	s := rgWrite(&v, dir)
	none := func(*datamodel.DocumentConfiguration) {}
	base := detSnap(&v, s, none)
	detDiff(e, &v, "again", base, detSnap(&v, s, none))
	seq := func(c *datamodel.DocumentConfiguration) { c.ExtractRefsSequentially = true }
	detDiff(e, &v, "sequential", base, detSnap(&v, s, seq))
	procs := runtime.GOMAXPROCS(1)
	one := detSnap(&v, s, none)
	runtime.GOMAXPROCS(procs)
	detDiff(e, &v, "one-processor", base, one)
	// beside other builds
	const N = 4
	got := make([]map[string]string, N)
	oth := make([]map[string]string, N)
	var wg sync.WaitGroup
	for i := 0; i < N; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i] = detSnap(&v, s, none)
		}()
		if detPrev != nil && e.seq > 1 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				oth[i] = detSnap(detPrev.v, detPrev.s, none)
			}()
		}
	}
	wg.Wait()
	for i := range got {
		detDiff(e, &v, "concurrent", base, got[i])
		if oth[i] != nil {
			detDiff(e, &v, "concurrent-other", detPrev.snap, oth[i])
		}
	}
	detPrev = &detOther{s, v.Mode, &v, base}
	e.Count("builds-" + v.Mode)
	e.Add("refs", len(v.Refs))
	return nil
}
