package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strconv"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
)

// Run is a log under test together with its reference model.
type Run struct {
	c        *Ctx
	g        *Gen
	init     *Doc
	initT    tson.Tson
	lgm      *logument.Logument
	versions [][]Op // versions[0] is empty
	pool     []Op
	state    *Doc   // everything appended and pending, applied
	base     uint64 // the first version of a log that is a slice
	docs     []*Doc // the documents at the versions, as far as they were asked for
	loose    bool   // compacted: the times in the documents depend on what was kept before
}

// same compares with what the log should answer.
func (r *Run) same(key, what string, got tson.Tson, want *Doc) {
	if !r.loose {
		r.c.same(key, what, got, want)
		return
	}
	if d := diffDoc(fromTson(got), want, false); d != "" {
		r.c.Fail(key, "%s (compacted before): %s", what, d)
	}
}

// compact compacts the log and notes what it left.
func (r *Run) compact() {
	t := target(r.c, r)
	r.c.Log("compact %q", t)
	r.c.Pre("Compact", func() { r.lgm.Compact(t) })
	for v := max(r.base, 1); v <= r.latest(); v++ {
		r.versions[v] = cloneOps(r.lgm.Patches[v])
	}
	r.docs, r.loose = nil, true
	r.c.Count("compactions before more queries", 1)
}

// again says whether a property is looked at once more, after the log
// has gone on.
func (r *Run) again(round int) bool {
	if round == 0 {
		return true
	}
	if round > 4 || len(r.all()) > 500 || r.c.R.IntN(3) != 0 {
		return false
	}
	for n := 1 + r.c.R.IntN(2); n > 0; n-- {
		switch r.c.R.IntN(6) {
		case 0, 1:
			r.compact()
		case 2:
			r.grow(1, 3)
		case 3:
			r.store(r.ops(1 + r.c.R.IntN(2)))
			r.append()
		case 4:
			if op := r.g.validOp(r.state); isSet(op) {
				r.c.Log("set %s", opString(op))
				r.c.Pre("Set", func() { r.lgm.Set(r.latest(), op) })
				r.stored([]Op{op})
				r.append()
			}
		default:
			k := r.version()
			r.c.Log("some queries, snapshot %d", k)
			_ = try(func() {
				r.lgm.Snapshot(k)
				r.lgm.Track(r.base, k)
				r.lgm.History("")
				r.lgm.TemporalTrack(0, 5)
				r.lgm.Slice(k, r.latest()).Compact("")
			})
		}
	}
	r.c.Count("logs queried again after more changes", 1)
	return true
}

// earlier gives, every other time, what was asked before.
func earlier[T any](c *Ctx, asked *[]T, now T) T {
	if len(*asked) > 0 && c.R.IntN(2) == 0 {
		return pick(c.R, *asked)
	}
	*asked = append(*asked, now)
	return now
}

// timeMode chooses how the operations of a log are stamped.
func timeMode(g *Gen) {
	r := g.R
	switch r.IntN(6) {
	case 0, 1: // in time order, with ties
		t := int64(r.IntN(3))
		if r.IntN(3) == 0 {
			t = 1700000000123456789
		}
		g.TS = func() int64 {
			if r.IntN(3) != 0 {
				t += int64(1 + r.IntN(3))
			}
			return t
		}
	case 2: // any order, few instants
		g.TS = func() int64 { return int64(r.IntN(8)) }
	case 3: // mostly in order
		t := int64(10)
		g.TS = func() int64 {
			t++
			if r.IntN(5) == 0 {
				return t - int64(r.IntN(6))
			}
			return t
		}
	case 4: // around the epoch
		g.TS = func() int64 { return int64(r.IntN(9)) - 4 }
	default:
		g.TS = g.timestamps()
	}
}

func logGen(c *Ctx) *Gen {
	g := &Gen{R: c.R, Small: true, Depth: 1 + c.R.IntN(3), Width: 1 + c.R.IntN(4)}
	if c.R.IntN(4) == 0 {
		g.Hostile = 0.25
	}
	if c.R.IntN(8) == 0 { // now and then large
		g.Small = false
		g.Hostile = 0.2
	}
	if c.R.IntN(25) == 0 { // and wide
		g.Width = 10 + c.R.IntN(10)
	}
	g.Dotted = c.R.IntN(5) == 0
	timeMode(g)
	return g
}

// many is a number of calls: from min, few mostly.
func many(c *Ctx, min, n int) int {
	if c.R.IntN(150) == 0 {
		n *= 15
	}
	return min + c.R.IntN(n)
}

// length is the number of versions of a log: short ones mostly.
func length(c *Ctx, n int) int {
	switch c.R.IntN(60) {
	case 0:
		return 15 + c.R.IntN(25)
	case 1:
		if c.R.IntN(4) == 0 {
			if c.R.IntN(4) == 0 {
				return 100 + c.R.IntN(250)
			}
			return 60 + c.R.IntN(80)
		}
	}
	return c.R.IntN(n + 1)
}

func newRun(c *Ctx, g *Gen) *Run {
	ts := g.TS
	if c.R.IntN(2) == 0 { // the document may be older than the operations
		g.TS = func() int64 { return int64(c.R.IntN(3)) }
	}
	init := g.object(g.Depth)
	if c.R.IntN(250) == 0 {
		init = g.enlarge(init, 3)
	}
	g.TS = ts
	return runOf(c, g, init)
}

// logRun is newRun for logs that come about in any of the offered ways.
func logRun(c *Ctx, g *Gen) *Run {
	r := newRun(c, g)
	doc, text := any(r.initT), false
	if c.R.IntN(8) == 0 && r.init.writable() {
		doc, text = writeTson(r.init, nil), true
		if c.R.IntN(2) == 0 {
			doc = []byte(doc.(string))
		}
	}
	first := any(nil)
	var handed []Op
	if c.R.IntN(8) == 0 {
		var name string
		first, name, handed, _ = inputForm(c, r.ops(1+c.R.IntN(3)))
		c.Log("created with %s %s", name, opsString(handed))
	}
	if text || first != nil {
		c.Pre("NewLogument", func() { r.lgm = logument.NewLogument(doc, first) })
		r.stored(handed)
		if c.R.IntN(2) == 0 {
			r.append()
		}
	}
	r.long()
	return r
}

// writable: as timestamped text, in which negative times cannot be written.
func (d *Doc) writable() bool {
	for _, n := range d.nodes() {
		if n.d.leaf() && n.d.T < 0 {
			return false
		}
	}
	return true
}

// slice turns the log, now and then, into a slice of itself.
func (r *Run) slice() {
	if r.c.R.IntN(6) != 0 {
		return
	}
	for n := 1 + r.c.R.IntN(2); n > 0; n-- {
		i := r.version()
		j := r.base + uint64(r.c.R.IntN(int(r.latest()-r.base)+1))
		if r.c.R.IntN(2) == 0 {
			j = r.latest()
		}
		i, j = min(i, j), max(i, j)
		r.c.Log("continue with the slice %d..%d", i, j)
		r.c.Pre("Slice", func() { r.lgm = r.lgm.Slice(i, j) })
		r.base, r.versions, r.pool = i, r.versions[:j+1:j+1], nil
		r.docs = r.docs[:min(len(r.docs), int(j)+1)]
		r.state = r.at(j)
	}
	r.c.Count("logs that are slices", 1)
}

// own is what the log holds of the versions.
func (r *Run) own() [][]Op {
	own := make([][]Op, len(r.versions))
	copy(own[r.base:], r.versions[r.base:])
	return own
}

// version is any version of the log.
func (r *Run) version() uint64 {
	return r.base + uint64(r.c.R.IntN(int(r.latest()-r.base)+1))
}

// longOps makes n operations on a few members of an object, quickly.
func longOps(g *Gen, d *Doc, n int) []Op {
	r := g.R
	if d.K != 'o' {
		return nil
	}
	var keys []string
	for _, k := range []string{"n", "m", "count", "a", "x"} {
		if e := d.M[k]; e == nil || e.leaf() {
			keys = append(keys, k)
		}
	}
	more := pick(r, []int{0, 0, 20, 200, 1500})
	if more > 1000 {
		n = min(n, 5000)
	}
	for i := 0; i < more; i++ {
		keys = append(keys, "n"+strconv.Itoa(i))
	}
	set := map[string]bool{}
	for _, k := range keys {
		set[k] = d.M[k] != nil
	}
	ops := make([]Op, 0, n)
	repeats := r.IntN(4)
	for len(ops) < n {
		k := pick(r, keys)
		op := Op{Op: "add", Path: "/" + k, Timestamp: g.TS()}
		switch {
		case set[k] && r.IntN(10) == 0:
			op.Op = "remove"
			set[k] = false
			ops = append(ops, op)
			continue
		case r.IntN(2) == 0:
			op.Op = "replace"
		}
		set[k] = true
		switch {
		case r.IntN(4) < repeats:
			op.Value = pick(r, []any{1.0, 2.0, true, false, "on", ""})
		default:
			op.Value = float64(len(ops))
		}
		ops = append(ops, op)
	}
	return ops
}

// longLength is a number of operations that is larger than usual.
func longLength(r *rand.Rand) int {
	if r.IntN(8) == 0 {
		return 10000 + r.IntN(8000)
	}
	return 1<<(8+r.IntN(6)) + r.IntN(50)
}

// long lets the log, once in a while, have thousands of operations in
// one version, pending or in as many versions.
func (r *Run) long() {
	if r.c.R.IntN(4000) != 0 {
		return
	}
	ops := longOps(r.g, r.state, longLength(r.c.R))
	if len(ops) == 0 {
		return
	}
	size := len(ops)
	if r.c.R.IntN(3) == 0 { // many versions
		size = 1 + r.c.R.IntN(3)
		ops = ops[:min(len(ops), 4200)]
	}
	pending := r.c.R.IntN(3) == 0
	for len(ops) > 0 {
		n := min(size, len(ops))
		r.store(ops[:n:n])
		ops = ops[n:]
		if len(ops) > 0 || !pending {
			r.append()
		}
	}
	r.c.Count("logs of thousands of operations", 1)
}

func runOf(c *Ctx, g *Gen, init *Doc) *Run {
	r := &Run{c: c, g: g, init: init, initT: init.toTson(), state: init, versions: [][]Op{nil}}
	c.Log("initial %s", init)
	c.Pre("NewLogument", func() { r.lgm = logument.NewLogument(r.initT, nil) })
	return r
}

func (r *Run) latest() uint64 { return uint64(len(r.versions) - 1) }

// ops makes n operations that can be applied one after the other.
func (r *Run) ops(n int) (ops []Op) {
	d := r.state
	for len(ops) < n {
		op := r.g.validOp(d)
		if len(ops)+len(r.pool) > 0 && r.c.R.IntN(5) == 0 { // again what was there
			prev := r.recent(ops)
			op = Op{Op: prev.Op, Path: prev.Path, Value: prev.Value, Timestamp: r.g.TS()}
		} else if r.c.R.IntN(6) == 0 && len(r.versions) > 1 {
			prev := r.recent(nil)
			op = Op{Op: prev.Op, Path: prev.Path, Value: prev.Value, Timestamp: r.g.TS()}
			if isSet(op) && r.c.R.IntN(2) == 0 {
				op.Value = r.g.opValue()
			}
		}
		n, err := applyOp(d, op)
		if err != nil {
			op = r.g.validOp(d)
			if n, err = applyOp(d, op); err != nil {
				r.c.Stop("no operation fits")
			}
		}
		d = n
		ops = append(ops, op)
	}
	return ops
}

func (r *Run) recent(ops []Op) Op {
	all := append(append([]Op(nil), r.pool...), ops...)
	for i := len(r.versions) - 1; i > 0 && len(all) < 12; i-- {
		all = append(all, r.versions[i]...)
	}
	if len(all) == 0 {
		return r.g.validOp(r.state)
	}
	return pick(r.c.R, all)
}

func (r *Run) store(ops []Op) {
	r.c.Log("store %s", opsString(ops))
	p := Patch(cloneOps(ops))
	r.c.Pre("Store", func() { r.lgm.Store(p) })
	r.stored(ops)
}

func (r *Run) stored(ops []Op) {
	r.pool = append(r.pool, ops...)
	n, err := applyAll(r.state, ops)
	if err != nil {
		r.c.Stop("stored operations do not apply")
	}
	r.state = n
}

func (r *Run) append() {
	r.c.Log("append")
	r.c.Pre("Append", func() {
		if err := r.lgm.Append(); err != nil {
			panic(err)
		}
	})
	r.appended()
}

func (r *Run) appended() {
	if len(r.pool) > 0 {
		r.versions = append(r.versions, r.pool)
		r.pool = nil
	}
}

// at is the document at a version, by the model.
func (r *Run) at(k uint64) *Doc {
	if len(r.docs) == 0 {
		r.docs = []*Doc{r.init}
	}
	for v := len(r.docs); v <= int(k); v++ {
		d, err := applyAll(r.docs[v-1], r.versions[v])
		if err != nil {
			r.c.Stop("model replay failed")
		}
		r.docs = append(r.docs, d)
	}
	return r.docs[k]
}

func (r *Run) all() (ops []Op) {
	for _, v := range r.versions[r.base:] {
		ops = append(ops, v...)
	}
	return ops
}

// grow stores and appends n versions of up to m operations.
func (r *Run) grow(n, m int) {
	for i := 0; i < n; i++ {
		k := 1 + r.c.R.IntN(m)
		if r.c.R.IntN(1000) == 0 {
			k = 20 + r.c.R.IntN(200)
		}
		r.store(r.ops(k))
		if r.c.R.IntN(4) == 0 {
			r.store(r.ops(1))
		}
		r.append()
	}
}

// asOf is the state as of an instant, by the model. ok is false
// when the operations up to then cannot be applied in that order.
func asOf(init *Doc, ops []Op, included func(ts int64) bool) (*Doc, bool) {
	var sel []Op
	for _, op := range ops {
		if included(op.Timestamp) {
			sel = append(sel, op)
		}
	}
	sort.SliceStable(sel, func(i, j int) bool { return sel[i].Timestamp < sel[j].Timestamp })
	d, err := applyAll(init, sel)
	return d, err == nil
}

// instants are the times worth asking about: before, on, between and after.
func instants(ops []Op) []int64 {
	set := map[int64]bool{0: true, -1: true}
	for _, op := range ops {
		set[op.Timestamp] = true
		if op.Timestamp > -1<<63 {
			set[op.Timestamp-1] = true
		}
		if op.Timestamp < 1<<63-1 {
			set[op.Timestamp+1] = true
		}
	}
	ts := make([]int64, 0, len(set))
	for t := range set {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	return ts
}

// ---------------------------------------------------------------- capture

// capture is a deep copy of everything a log holds, as text.
type capture struct {
	versions string
	current  string
	pool     string
	patches  map[uint64]string
	snaps    map[uint64]string
}

func captureLog(l *logument.Logument) capture {
	s := capture{
		versions: fmt.Sprint(l.Version),
		current:  fromTson(l.CurrentState).String(),
		pool:     opsString(l.PatchPool),
		patches:  map[uint64]string{},
		snaps:    map[uint64]string{},
	}
	for v, p := range l.Patches {
		s.patches[v] = opsString(p)
	}
	for v, d := range l.Snapshots {
		s.snaps[v] = fromTson(d).String()
	}
	return s
}

// unchanged says what a query changed that it must not change ("" if nothing).
// Snapshots may be kept; with appended the pool may have become the next version.
func (s capture) unchanged(n capture, mayAppend bool) string {
	if s.current != n.current {
		return fmt.Sprintf("the current state was %s and is now %s", s.current, n.current)
	}
	for v, p := range s.patches {
		if n.patches[v] != p {
			return fmt.Sprintf("version %d held %s and now holds %s", v, p, n.patches[v])
		}
	}
	for v, d := range s.snaps {
		if n.snaps[v] != d {
			return fmt.Sprintf("the snapshot of version %d was %s and is now %s", v, d, n.snaps[v])
		}
	}
	if s.versions == n.versions && s.pool == n.pool && len(s.patches) == len(n.patches) {
		return ""
	}
	if !mayAppend {
		return fmt.Sprintf("versions %s, pending %s became versions %s, pending %s", s.versions, s.pool, n.versions, n.pool)
	}
	if n.pool != "[]" || len(n.patches) != len(s.patches)+1 {
		return fmt.Sprintf("versions %s, pending %s became versions %s, pending %s", s.versions, s.pool, n.versions, n.pool)
	}
	for v, p := range n.patches {
		if _, old := s.patches[v]; !old && p != s.pool {
			return fmt.Sprintf("pending %s became version %d: %s", s.pool, v, p)
		}
	}
	return ""
}
