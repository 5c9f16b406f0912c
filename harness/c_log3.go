package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
)

func init() {
	register(&property{id: "C12", quick: 2400, thorough: 60000, run: runC12,
		rule: "half of the cases: logs over shared documents, patch values and slices used in turn on one goroutine, everything else compared with its copy after every call; " +
			"the other half: 3 to 8 goroutines, each with logs of its own over shared inputs, under the race detector, their answers compared with a sequential run; distinct by script",
		assume: []string{"the race detector sees the interleavings and accesses that happened in this run"},
		needs:  []string{"calls on shared inputs", "concurrent scripts", "answers compared with a sequential run", "slices used next to their parent"}})
}

func docString(t tson.Tson) string { return fromTson(t).String() }

func runC12(c *Ctx) {
	if c.Index%2 == 0 {
		runC12seq(c)
	} else {
		runC12conc(c)
	}
}

// shared inputs: documents and patches several logs are fed with.
type shared struct {
	docs    []tson.Tson
	models  []*Doc
	patches []Patch // each applies to every document
	texts   []string
}

func makeShared(c *Ctx, g *Gen) *shared {
	s := &shared{}
	base := g.object(max(g.Depth, 2))
	for i := 1 + c.R.IntN(2); i > 0; i-- {
		s.models = append(s.models, base)
		s.docs = append(s.docs, base.toTson())
	}
	d := base
	for i := 2 + c.R.IntN(4); i > 0; i-- {
		var ops []Op
		for n := 1 + c.R.IntN(3); n > 0; n-- {
			op := g.validOp(d)
			nd, err := applyOp(d, op)
			if err != nil {
				c.Stop("no operation fits")
			}
			d = nd
			ops = append(ops, op)
		}
		p := make(Patch, len(ops), len(ops)+c.R.IntN(6)) // room for others to write into
		copy(p, ops)
		s.patches = append(s.patches, p)
		s.texts = append(s.texts, patchJSON(ops))
	}
	return s
}

func (s *shared) capture() string {
	var b strings.Builder
	for _, d := range s.docs {
		b.WriteString(docString(d) + "\n")
	}
	for _, p := range s.patches {
		b.WriteString(opsString(p[:cap(p)]) + "\n")
	}
	return b.String()
}

// step does one thing to a log: next is the index of the next shared patch for it.
func step(r *rand.Rand, s *shared, l *logument.Logument, next *int) (name string, f func() string) {
	none := func(f func()) func() string { return func() string { f(); return "" } }
	latest := func() uint64 { return l.Version[len(l.Version)-1] }
	first := func() uint64 { return l.Version[0] }
	span := func() (uint64, uint64) {
		n := len(l.Version)
		i := r.IntN(n)
		j := i + r.IntN(n-i)
		return l.Version[i], l.Version[j]
	}
	_ = first
	switch n := r.IntN(16); {
	case n < 3:
		if *next >= len(s.patches) {
			return "append", none(func() { _ = l.Append() })
		}
		k := *next
		*next++
		switch r.IntN(5) {
		case 0:
			return fmt.Sprintf("store operation of %d", k), none(func() {
				for _, op := range s.patches[k] {
					l.Store(op)
				}
			})
		case 1:
			return fmt.Sprintf("store text %d", k), none(func() { l.Store(s.texts[k]) })
		case 2:
			if *next < len(s.patches) { // the first has room behind it
				m := *next
				*next++
				return fmt.Sprintf("store list %d %d", k, m), none(func() { l.Store([]Patch{s.patches[k], s.patches[m]}) })
			}
			i := r.IntN(len(s.patches[k]) + 1)
			return fmt.Sprintf("store list %d at %d", k, i), none(func() { l.Store([]Patch{s.patches[k][:i], nil, s.patches[k][i:]}) })
		case 3:
			return fmt.Sprintf("store operations %d", k), none(func() { l.Store([]Op(s.patches[k])) })
		}
		return fmt.Sprintf("store %d", k), none(func() { l.Store(s.patches[k]) })
	case n < 5:
		return "append", none(func() { _ = l.Append() })
	case n < 7:
		k := latest()
		return fmt.Sprintf("snapshot %d", k), func() string { return docString(l.Snapshot(k)) }
	case n < 8:
		t := int64(r.IntN(20))
		return fmt.Sprintf("time snapshot %d", t), func() string { return docString(l.TemporalSnapshot(t)) }
	case n < 9:
		i, j := span()
		return fmt.Sprintf("track %d %d", i, j), func() string { return patchesString(l.Track(i, j)) }
	case n < 10:
		t := int64(r.IntN(20))
		return fmt.Sprintf("time track 0 %d", t), func() string { return patchesString(l.TemporalTrack(0, t)) }
	case n < 11:
		return "history", func() string { return historyString(l.History("")) }
	case n < 12:
		return "compact", none(func() { l.Compact("") })
	case n < 13:
		op := Op{Op: "add", Path: "/set" + fmt.Sprint(r.IntN(3)), Value: float64(r.IntN(5)), Timestamp: int64(r.IntN(20))}
		return "set " + opString(op), none(func() { l.Set(latest(), op) })
	case n < 14:
		op := Op{Op: "replace", Path: "/a", Value: float64(r.IntN(5)), Timestamp: int64(r.IntN(20))}
		return "test-set " + opString(op), none(func() { l.TestSet(latest(), op) })
	case n < 15:
		i, j := span()
		return fmt.Sprintf("slice %d %d", i, j), func() string { return sliceString(l.Slice(i, j)) }
	default:
		t := int64(r.IntN(20))
		return fmt.Sprintf("time slice 0 %d", t), func() string { return sliceString(l.TemporalSlice(0, t)) }
	}
}

func runC12seq(c *Ctx) {
	g := logGen(c)
	g.TS = func() int64 { return int64(c.R.IntN(20)) }
	s := makeShared(c, g)
	before := s.capture()
	type member struct {
		name string
		l    *logument.Logument
		next int
	}
	var all []*member
	for i := 2 + c.R.IntN(2); i > 0; i-- {
		m := &member{name: fmt.Sprintf("log %d", len(all))}
		k := c.R.IntN(len(s.docs))
		c.Pre("NewLogument", func() {
			if c.R.IntN(2) == 0 {
				m.l = logument.NewLogument(s.docs[k], s.patches[0])
				m.next = 1
			} else {
				m.l = logument.NewLogument(s.docs[k], nil)
			}
		})
		all = append(all, m)
	}
	if w := s.capture(); w != before {
		c.Fail("inputs", "creating logs changed the shared inputs from %s to %s", before, w)
	}
	trace := ""
	for n := 6 + c.R.IntN(20); n > 0; n-- {
		m := pick(c.R, all)
		caps := make([]capture, len(all))
		for i, o := range all {
			caps[i] = captureLog(o.l)
		}
		var name string
		if c.R.IntN(8) == 0 && len(all) < 7 { // a slice joins
			i := c.R.IntN(len(m.l.Version))
			j := i + c.R.IntN(len(m.l.Version)-i)
			var sl *logument.Logument
			if c.R.IntN(3) == 0 {
				name = "time slice"
				_ = try(func() { sl = m.l.TemporalSlice(0, int64(c.R.IntN(20))) })
			} else {
				name = fmt.Sprintf("slice %d..%d", m.l.Version[i], m.l.Version[j])
				_ = try(func() { sl = m.l.Slice(m.l.Version[i], m.l.Version[j]) })
			}
			if sl != nil {
				name = fmt.Sprintf("%s of %s", name, m.name)
				all = append(all, &member{name: name, l: sl, next: len(s.patches)})
				caps = append(caps, captureLog(sl))
				c.Count("slices used next to their parent", 1)
			}
		} else {
			var f func() string
			name, f = step(c.R, s, m.l, &m.next)
			if p := try(func() { f() }); p != nil {
				name += " (panic)"
			}
		}
		c.Log("%s: %s", m.name, name)
		trace += m.name + name + ";"
		c.Count("calls on shared inputs", 1)
		if w := s.capture(); w != before {
			c.Fail("inputs", "%s: %s changed the shared inputs from %s to %s", m.name, name, before, w)
		}
		for i, o := range all {
			if o == m {
				continue
			}
			now := captureLog(o.l)
			if d := caps[i].unchanged(now, false); d != "" || len(now.snaps) != len(caps[i].snaps) {
				c.Fail("other-log", "%s: %s changed %s: %s", m.name, name, o.name, d)
			}
		}
	}
	c.Key(trace)
	c.Sample(map[string]any{"steps": trace})
}

// runScript runs the same steps on a log of its own and notes every answer.
func runScript(seed uint64, s *shared, doc tson.Tson, text string, parent *logument.Logument, steps int) (out []string) {
	r := rand.New(rand.NewPCG(seed, 5))
	var l *logument.Logument
	next := 0
	switch {
	case parent != nil:
		l, next = parent, len(s.patches)
	case seed%5 == 0:
		l = logument.NewLogument(text, s.patches[0])
		next = 1
	case seed%2 == 0:
		l = logument.NewLogument(doc, s.patches[0])
		next = 1
	default:
		l = logument.NewLogument(doc, nil)
	}
	for i := 0; i < steps; i++ {
		name, f := step(r, s, l, &next)
		var a string
		if p := try(func() { a = f() }); p != nil {
			a = fmt.Sprintf("panic %v", p)
		}
		out = append(out, name+" -> "+a)
	}
	return append(out, "end "+captureLog(l).current)
}

func runC12conc(c *Ctx) {
	g := logGen(c)
	g.TS = func() int64 { return int64(c.R.IntN(20)) }
	s := makeShared(c, g)
	text := writeTson(s.models[0], nil)
	steps := 4 + c.R.IntN(12)
	n := 3 + c.R.IntN(6)
	type job struct {
		seed   uint64
		doc    tson.Tson
		parent *logument.Logument
	}
	// A parent whose slices are used by some of the goroutines, and itself by one
	mkParent := func() []*logument.Logument {
		p := logument.NewLogument(s.docs[0], nil)
		for _, x := range s.patches {
			p.Store(x)
			_ = p.Append()
		}
		last := p.Version[len(p.Version)-1]
		return []*logument.Logument{p, p.Slice(0, last), p.Slice(last/2, last), p.TemporalSlice(0, 30)}
	}
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = c.R.IntN(3)
	}
	mkJobs := func(seeds []uint64) (jobs []job) {
		var slices []*logument.Logument
		if try(func() { slices = mkParent() }) != nil {
			slices = nil
		}
		for i := 0; i < n; i++ {
			j := job{seed: seeds[i], doc: s.docs[i%len(s.docs)]}
			if kinds[i] == 0 && len(slices) > 0 {
				j.parent = slices[0]
				slices = slices[1:]
			}
			jobs = append(jobs, j)
		}
		return jobs
	}
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = c.R.Uint64()
	}
	before := s.capture()
	// alone, one after the other
	want := make([][]string, n)
	for i, j := range mkJobs(seeds) {
		if p := try(func() { want[i] = runScript(j.seed, s, j.doc, text, j.parent, steps) }); p != nil {
			c.Stop(fmt.Sprint("script panicked: ", p))
		}
	}
	if w := s.capture(); w != before {
		c.Fail("inputs", "scripts changed the shared inputs from %s to %s", before, w)
	}
	// at the same time
	got := make([][]string, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, j := range mkJobs(seeds) {
		if j.parent != nil {
			c.Count("slices used next to their parent", 1)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if p := try(func() { got[i] = runScript(j.seed, s, j.doc, text, j.parent, steps) }); p != nil {
				got[i] = []string{fmt.Sprint("panic ", p)}
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Count("concurrent scripts", n)
	for i := range want {
		for k := range want[i] {
			if k >= len(got[i]) || got[i][k] != want[i][k] {
				c.Fail("answers-differ", "goroutine %d, step %d: alone %q, with others %q", i, k, want[i][k], at(got[i], k))
			}
			c.Count("answers compared with a sequential run", 1)
		}
		c.Key(strings.Join(want[i], "|"))
	}
	if w := s.capture(); w != before {
		c.Fail("inputs", "concurrent scripts changed the shared inputs from %s to %s", before, w)
	}
	c.Sample(map[string]any{"goroutines": n, "script of the first": want[0]})
}

func at(s []string, i int) string {
	if i < len(s) {
		return s[i]
	}
	return "(nothing)"
}
