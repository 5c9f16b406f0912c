package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

func init() {
	register(&property{id: "C43", quick: 480, thorough: 20000, run: runC43,
		assume: []string{"memory is what is still reachable after garbage collection; a leak shows within some hundred repetitions and goes on growing over fifteen times as many; the clock and the speed of the machine do not matter"},
		rule:   "one kind of work is repeated with fresh random inputs some tens to hundreds of times after a warm-up; objects and bytes alive, goroutines and open files are counted before and after, the directories and settings of the process compared; growth is looked at again over twice, four and eight times as many. Non-trivial and distinct: a case, by its kind and its first inputs",
		needs:  []string{"repetitions", "refusals", "files counted", "repetitions of texts", "repetitions of patches", "repetitions of logs", "repetitions of questions", "repetitions of growing logs", "repetitions of storages", "repetitions of recorders", "repetitions of interval documents", "repetitions of vehicles", "repetitions of experiments", "repetitions of data sets", "repetitions of simulations", "repetitions of requests"}})
}

// A chore is a kind of work that is finished when it returns.
type chore struct {
	n    int // repetitions
	rare int // one case in so many
	set  func(c *Ctx) (first string, do func())
	at   func(c *Ctx) observer // where to look, if not here
}

// An observer counts what a process holds.
type observer interface {
	measure() usage        // after garbage collection
	count() (files int)    // from now on garbage is not collected
	settled() (usage, int) // goroutines and open files only
}

type here struct{ percent int }

func (h *here) measure() usage {
	if h.percent != 0 {
		debug.SetGCPercent(h.percent)
	}
	return measure()
}

func (h *here) count() int {
	if p := debug.SetGCPercent(-1); p >= 0 { // files left open stay so
		h.percent = p
	}
	return openFiles()
}

func (h *here) settled() (usage, int) {
	return usage{goroutines: runtime.NumGoroutine()}, openFiles()
}

var chores = map[string]chore{
	"texts":        {n: 120, set: choreTexts},
	"patches":      {n: 100, set: chorePatches},
	"logs":         {n: 60, set: choreLogs},
	"questions":    {n: 100, set: choreQuestions},
	"growing logs": {n: 0, set: nil},
}

// refusal counts the calls that are refused: they end some other way.
func refusal(c *Ctx, f func() error) {
	var err error
	if p := try(func() { err = f() }); p != nil || err != nil {
		c.Count("refusals", 1)
	}
}

func choreTexts(c *Ctx) (string, func()) {
	kind := c.R.IntN(4)
	return fmt.Sprint(kind, c.R.IntN(1000)), func() {
		g := docGen(c)
		g.OddKeys = kind == 1
		d := g.root()
		t := d.toTson()
		texts := []string{writeTson(d, nil)}
		add := func(b []byte, err error) {
			if err == nil {
				texts = append(texts, string(b))
			}
		}
		add(tson.Marshal(t))
		add(tson.MarshalIndent(t, "", pick(c.R, []string{"", " ", "\t"})))
		add(tson.ToJsonBytes(t))
		add(tson.ToCompatibleTsonBytes(t))
		add(tson.ToCompatibleTsonBytesSorted(t))
		_ = tson.ToCompatibleTsonString(t)
		var o any
		_ = tson.ToJson(t, &o)
		_ = tson.ToCompatibleTson(t, &o)
		_ = tson.ToAny(t)
		for _, s := range texts {
			if kind > 1 && len(s) > 2 && c.R.IntN(2) == 0 { // spoilt
				i := c.R.IntN(len(s))
				s = pick(c.R, []string{s[:i], s[:i] + pick(c.R, []string{"<", "}", "\"", "x", ",", "\x00"}) + s[i:], s + "}"})
			}
			var a tson.Tson
			refusal(c, func() error { return tson.Unmarshal([]byte(s), &a) })
			refusal(c, func() error { return tson.FromJsonBytes([]byte(s), &a) })
			refusal(c, func() error { return tson.FromCompatibleTsonBytes([]byte(s), &a) })
		}
		for _, n := range []node{pick(c.R, d.nodes()), pick(c.R, d.nodes())} {
			p := pointer(n.path)
			tson.SplitPath(p)
			refusal(c, func() error { _, err := tson.GetValue(t, p); return err })
			refusal(c, func() error { _, err := tson.GetValue(t, p+"/none"+fmt.Sprint(c.R.IntN(100000))); return err })
		}
		tson.GetLatestTimestamp(t)
		u := d.toTson()
		refusal(c, func() error { _, err := tson.Equal(t, u); return err })
		refusal(c, func() error { _, err := tson.EqualWithoutTimestamp(t, u); return err })
		if f, ok := any(d.toAny()).(map[string]any); ok {
			refusal(c, func() error { return tson.FromJson(f, &u) })
		}
	}
}

func chorePatches(c *Ctx) (string, func()) {
	return fmt.Sprint(c.R.IntN(1000)), func() {
		g := docGen(c)
		a, b := pair(c, g)
		x, y := a.toTson(), b.toTson()
		for _, gen := range []func(a, b tson.Tson) (Patch, error){tsonpatch.GeneratePatch, tsonpatch.GeneratePatchWithTimestamp} {
			refusal(c, func() error {
				p, err := gen(x, y)
				if err == nil {
					_ = p.String()
					_, err = tsonpatch.ApplyPatch(x, p)
				}
				return err
			})
		}
		var ops []Op
		for i := 1 + c.R.IntN(4); i > 0; i-- {
			op := g.anyOp(a)
			if c.R.IntN(3) == 0 {
				op = g.badOp(a)
			}
			ops = append(ops, op)
			refusal(c, func() error { _, err := tsonpatch.ApplyOperation(x, op); return err })
			refusal(c, func() error { _, err := op.Marshal(); return err })
			_ = op.String()
		}
		refusal(c, func() error { _, err := tsonpatch.ApplyPatch(x, Patch(ops)); return err })
		s := patchJSON(ops)
		if c.R.IntN(3) == 0 {
			s = s[:c.R.IntN(len(s))]
		}
		refusal(c, func() error { _, err := tsonpatch.Unmarshal([]byte(s)); return err })
		var j any
		_ = json.Unmarshal([]byte(s), &j)
		refusal(c, func() error { _, err := tsonpatch.FromJson(j); return err })
	}
}

// ask puts any question to a log.
func ask(c *Ctx, lgm *logument.Logument, base, last uint64, instant func() int64, paths []string) {
	i, j := base+uint64(c.R.IntN(int(last-base)+1)), base+uint64(c.R.IntN(int(last-base)+1))
	i, j = min(i, j), max(i, j)
	s, t := instant(), instant()
	s, t = min(s, t), max(s, t)
	if c.R.IntN(12) == 0 { // refused
		j += 1000
	}
	refusal(c, func() error {
		switch c.R.IntN(8) {
		case 0:
			lgm.Snapshot(j)
		case 1:
			lgm.TemporalSnapshot(t)
		case 2:
			lgm.Slice(i, j)
		case 3:
			lgm.TemporalSlice(s, t)
		case 4:
			lgm.Track(i, j)
		case 5:
			lgm.TemporalTrack(s, t)
		case 6:
			lgm.History(pick(c.R, paths))
		default:
			lgm.TestSet(j, Op{Op: "replace", Path: pick(c.R, paths), Value: 1.0, Timestamp: t})
		}
		return nil
	})
}

func pathsOf(d *Doc) (paths []string) {
	for _, n := range d.nodes() {
		if len(n.path) > 0 {
			paths = append(paths, pointer(n.path))
		}
	}
	return append(paths, "/none")
}

func choreLogs(c *Ctx) (string, func()) {
	return fmt.Sprint(c.R.IntN(1000)), func() {
		g := logGen(c)
		r := newRun(c, g)
		for k := 1 + c.R.IntN(5); k > 0; k-- {
			r.store(r.ops(1 + c.R.IntN(3)))
			r.append()
		}
		r.c.log = nil
		paths := pathsOf(r.state)
		for k := 6; k > 0; k-- {
			ask(c, r.lgm, 0, r.latest(), func() int64 { return g.TS() + int64(c.R.IntN(3)) - 1 }, paths)
		}
		refusal(c, func() error { r.lgm.Set(r.latest(), g.validOp(r.state)); return nil })
		refusal(c, func() error { return r.lgm.Append() })
		refusal(c, func() error { r.lgm.Compact(pick(c.R, paths)); return nil })
		refusal(c, func() error { r.lgm.Store("[{"); return nil })
		refusal(c, func() error { logument.NewLogument(`{"a": `, nil); return nil })
	}
}

// choreQuestions asks one and the same log, which then holds no more than
// a snapshot of each version.
func choreQuestions(c *Ctx) (string, func()) {
	g := logGen(c)
	r := newRun(c, g)
	for k := 1 + c.R.IntN(8); k > 0; k-- {
		r.store(r.ops(1 + c.R.IntN(3)))
		r.append()
	}
	paths := pathsOf(r.state)
	var times []int64
	for _, op := range r.all() {
		times = append(times, op.Timestamp)
	}
	times = append(times, 0)
	for v := uint64(0); v <= r.latest(); v++ {
		c.Pre("a snapshot", func() { r.lgm.Snapshot(v) })
	}
	return opsString(r.all()), func() {
		for k := 16; k > 0; k-- {
			ask(c, r.lgm, 0, r.latest(), func() int64 {
				if c.R.IntN(2) == 0 {
					return pick(c.R, times) + c.R.Int64N(1<<40)
				}
				return pick(c.R, times) + int64(c.R.IntN(3)) - 1
			}, paths)
		}
	}
}

// growingLog measures what a log holds per version.
func growingLog(c *Ctx) {
	g := logGen(c)
	lgm := logument.NewLogument(`{"a": 1, "b": {"c": "x"}, "l": [1, 2]}`, nil)
	k := int64(0)
	grow := func(n int) uint64 {
		before := measure().bytes
		for i := 0; i < n; i++ {
			k++
			op := Op{Op: "replace", Path: pick(c.R, []string{"/a", "/b/c", "/l/0"}), Value: float64(k), Timestamp: k}
			lgm.Store(op)
			_ = lgm.Append()
		}
		after := measure().bytes
		c.Count("repetitions", n)
		c.Count("repetitions of growing logs", n)
		return max(after, before) - before
	}
	n := 200 + c.R.IntN(200)
	grow(n)
	first := grow(n)
	second := grow(2 * n)
	third := grow(4 * n)
	if second > 3*first+1<<16 && third > 3*second {
		c.Fail("growing log", "versions of one operation each cost a log more and more memory: %d of them %d bytes, then %d of them %d bytes, then %d of them %d bytes", n, first, 2*n, second, 4*n, third)
	}
	runtime.KeepAlive(lgm)
	c.Key("growing", n, g.Depth)
}

type usage struct {
	objects, bytes uint64
	goroutines     int
}

func measure() usage {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return usage{m.Mallocs - m.Frees, m.HeapAlloc, runtime.NumGoroutine()}
}

// openFiles counts what the process has open.
func openFiles() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(l)
}

// settings is what work must leave as it is.
func settings() string {
	wd, _ := os.Getwd()
	return fmt.Sprintln(wd, os.Environ(), os.Args, runtime.GOMAXPROCS(0), time.Local, os.Stdin, os.Stdout, os.Stderr)
}

func runC43(c *Ctx) {
	var kinds []string
	for _, k := range sortedKeys(chores) {
		if r := chores[k].rare; r == 0 || c.Index%r == r-1 {
			kinds = append(kinds, k)
		}
	}
	name := kinds[c.Index%len(kinds)]
	for _, k := range kinds {
		if chores[k].rare > 0 {
			name = k
		}
	}
	if name == "growing logs" {
		growingLog(c)
		return
	}
	work := chores[name]
	place := filepath.Join(c.Scratch, "leak")
	_ = os.RemoveAll(place)
	defer os.RemoveAll(place)
	if err := os.MkdirAll(place, 0o755); err != nil {
		fatal("%v", err)
	}
	was := settings()
	first, do := work.set(c)
	before := listing(c.Scratch)
	repeat := func(n int) {
		for i := 0; i < n; i++ {
			c.Must("repeating "+name, do)
			c.log = nil
		}
		c.Count("repetitions", n)
		c.Count("repetitions of "+name, n)
	}
	var at observer = &here{}
	if work.at != nil {
		at = work.at(c)
	}
	repeat(work.n/2 + 1)
	start := at.measure()
	open := at.count()
	var story []string
	suspects := map[string]bool{"objects": true, "bytes": true, "goroutines": true, "files": true}
	for round, n := 0, work.n; round < 4; round, n = round+1, 2*n {
		repeat(n)
		now, files := at.settled()
		for i := 0; i < 40 && (now.goroutines > start.goroutines || files > open); i++ {
			time.Sleep(50 * time.Millisecond)
			now, files = at.settled()
		}
		end := at.measure()
		end.goroutines = now.goroutines
		c.Count("files counted", files)
		some, many := max(3, n/10), max(20, n/10)
		growth := map[string][2]int{
			"objects":    {int(end.objects) - int(start.objects), many},
			"bytes":      {int(end.bytes) - int(start.bytes), max(1500, 8*n)},
			"goroutines": {end.goroutines - start.goroutines, some},
			"files":      {files - open, some},
		}
		story = append(story, fmt.Sprintf("%d repetitions: %+d objects, %+d bytes, %+d goroutines, %+d open files", n, growth["objects"][0], growth["bytes"][0], growth["goroutines"][0], growth["files"][0]))
		any := false
		for what, g := range growth {
			suspects[what] = suspects[what] && g[0] >= g[1]
			any = any || suspects[what]
		}
		if !any {
			break
		}
		c.Count("looked at again", 1)
		start = end
		open = at.count()
	}
	at.measure()
	for _, what := range sortedKeys(suspects) {
		if suspects[what] {
			c.Fail(what+" left by "+name, "%s: %s keep growing: %s", name, what, strings.Join(story, "; "))
		}
	}
	if now := settings(); now != was {
		c.Fail("settings", "%s changed the process: %s was %s", name, now, was)
	}
	_ = os.RemoveAll(place)
	for p := range listing(c.Scratch) {
		if !before[p] && p != "leak" && !strings.HasPrefix(p, "leak/") {
			c.Fail("files", "%s left the file %s", name, p)
		}
	}
	c.Key(name, first)
	c.Sample(map[string]any{"kind": name, "observed": story})
}

func listing(dir string) map[string]bool {
	m := map[string]bool{}
	_ = filepath.Walk(dir, func(p string, _ os.FileInfo, err error) error {
		if rel, e := filepath.Rel(dir, p); err == nil && e == nil {
			m[rel] = true
		}
		return nil
	})
	return m
}
