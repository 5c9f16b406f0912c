package main

import (
	"fmt"
	"sort"
	"strconv"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
)

func init() {
	register(&property{id: "C04", quick: 180000, thorough: 1500000, run: runC04,
		rule:  "random logs with repeated values, removals and re-additions, random pairs of versions; the tracked operations are judged one by one (must be kept, must be left out) and replayed on the model; distinct by log and range",
		needs: []string{"operations that had to be left out", "operations that had to be kept", "replays compared", "invalid ranges refused"}})
	register(&property{id: "C05", quick: 180000, thorough: 1500000, run: runC05,
		rule:  "random logs in any time order, random windows on, between and outside the recorded instants; the tracked operations are judged one by one; distinct by log and window",
		needs: []string{"operations that had to be left out", "operations that had to be kept", "operations outside the window", "reversed windows refused"}})
	register(&property{id: "C06", quick: 120000, thorough: 1000000, run: runC06,
		rule:  "the same operations split into versions in different ways, with different stored snapshots and pending operations, asked for the state at every interesting instant; distinct by operations and instant",
		needs: []string{"instants compared", "instants in a log out of time order", "pending operations"}})
	register(&property{id: "C07", quick: 120000, thorough: 1000000, run: runC07,
		rule:  "random logs with random stored snapshots, every range of versions and ranges of slices; distinct by log and range",
		needs: []string{"snapshots of slices compared", "slices of slices", "invalid ranges refused"}})
	register(&property{id: "C08", quick: 90000, thorough: 800000, run: runC08,
		rule:  "random logs, random windows; operations, versions, time snapshots and time tracks of the slice compared with the model and the original; distinct by log and window",
		needs: []string{"time snapshots compared", "time tracks compared", "empty windows", "reversed windows refused"}})
	register(&property{id: "C09", quick: 180000, thorough: 1500000, run: runC09,
		rule:  "random logs with repeated values, targets at, above, beside and below the recorded paths; removed operations judged one by one, values at every version replayed by the model and the code; distinct by log and target",
		needs: []string{"operations that had to be left out", "operations that had to be kept", "operations outside the target", "values compared"}})
	register(&property{id: "C10", quick: 180000, thorough: 1500000, run: runC10,
		rule:  "random logs in any time order, targets at, above, beside and below the recorded paths; every list of the history judged against the recorded operations; distinct by log and target",
		needs: []string{"initial values", "operations listed", "paths outside the target"}})
}

// trackGen makes logs in which the same values come back often.
func trackGen(c *Ctx) *Gen {
	g := logGen(c)
	if c.R.IntN(4) != 0 {
		g.Small = true
		g.Depth = 1 + c.R.IntN(2)
		g.Width = 1 + c.R.IntN(3)
	}
	return g
}

type duty byte

const (
	either duty = iota
	keep
	drop
)

// duties says of each operation whether a summary of value
// changes must keep it or must leave it out.
func duties(ops []Op) []duty {
	out := make([]duty, len(ops))
	type setOp struct {
		op    Op
		clean bool // nothing on an enclosing, enclosed or shifting path since
		sure  bool // and certainly so
	}
	last := map[string]*setOp{} // by path as the keys it consists of
	parts := map[string][]string{}
	for i, op := range ops {
		p := split(op.Path)
		key := pointer(p)
		prev := last[key]
		switch {
		case !isSet(op) || prev == nil:
			out[i] = keep
		case !looselySame(prev.op.Value, op.Value):
			out[i] = keep
		case !prev.clean:
			out[i] = keep
		case prev.sure && prev.op.Path == op.Path && sameVal(prev.op.Value, op.Value):
			out[i] = drop
		}
		// What this operation does to what was known
		var parent []string
		shifting := false
		if !isSet(op) && len(p) > 0 {
			if _, err := strconv.Atoi(p[len(p)-1]); err == nil {
				shifting, parent = true, p[:len(p)-1]
			}
		}
		for k, s := range last {
			q := parts[k]
			if k == key {
				continue
			}
			if related(p, q) {
				s.clean, s.sure = false, false
			}
			if shifting && hasPrefix(q, parent) {
				s.sure = false
				if isShifted(p, q) {
					s.clean = false
				}
			}
		}
		if isSet(op) {
			last[key] = &setOp{op, true, true}
			parts[key] = p
		} else if s := last[key]; s != nil {
			s.clean, s.sure = false, false
		}
	}
	return out
}

// isShifted: removing p (an element) may move the element that q leads through.
func isShifted(p, q []string) bool {
	if len(q) < len(p) {
		return false
	}
	i, ok1 := index(p[len(p)-1])
	j, ok2 := index(q[len(p)-1])
	return ok1 && ok2 && j >= i
}

// looselySame: equal as numbers even if the Go types differ.
func looselySame(a, b any) bool {
	if i, ok := a.(int); ok {
		a = float64(i)
	}
	if i, ok := b.(int); ok {
		b = float64(i)
	}
	return sameVal(a, b)
}

// follows reports whether got is ops less some that need not be kept.
// Operations may be equal, so all ways are tried.
func follows(ops, got []Op, what func(i int) duty) bool {
	at := []int{0} // how many of got may be accounted for, ascending
	for i, op := range ops {
		var next []int
		add := func(j int) {
			if n := len(next); (n == 0 || next[n-1] < j) && len(got)-j < len(ops)-i {
				next = append(next, j)
			}
		}
		d := what(i)
		for _, j := range at {
			if d != keep {
				add(j)
			}
			if d != drop && j < len(got) && sameOp(op, got[j]) {
				add(j + 1)
			}
		}
		at = next
	}
	return len(at) > 0 && at[len(at)-1] == len(got)
}

// judge compares what a summary kept of ops (in order) with the duties.
func judge(c *Ctx, what string, ops []Op, got []Op) {
	duties := duties(ops)
	// The kept operations must be a subsequence with every must-keep
	// in it and no must-drop. Operations may be equal, so search all ways.
	if !follows(ops, got, func(i int) duty { return duties[i] }) {
		var s string
		for i, op := range ops {
			s += fmt.Sprintf("\n  %s %s", [...]string{"either", "keep  ", "drop  "}[duties[i]], opString(op))
		}
		c.Fail("wrong-changes", "%s gave %s for%s", what, opsString(got), s)
	}
	for i := range ops {
		switch duties[i] {
		case keep:
			c.Count("operations that had to be kept", 1)
		case drop:
			c.Count("operations that had to be left out", 1)
		}
	}
}

func flat(m map[uint64]Patch) (ops []Op) {
	for _, v := range sortedKeys(m) {
		ops = append(ops, m[v]...)
	}
	return ops
}

// ---------------------------------------------------------------- C04

func runC04(c *Ctx) {
	g := trackGen(c)
	r := logRun(c, g)
	r.grow(length(c, 7), 5)
	r.slice()
	if c.R.IntN(4) == 0 {
		r.grow(1, 3)
	}
	if c.R.IntN(3) == 0 {
		r.store(r.ops(1))
	}
	var asked [][2]int
	for round := 0; r.again(round); round++ {
		trackRound(c, r, &asked)
	}
	latest := int(r.latest())
	i, j := uint64(latest), uint64(latest+1+c.R.IntN(3))
	if c.R.IntN(2) == 0 && latest > int(r.base) {
		j = r.base + uint64(c.R.IntN(latest-int(r.base)))
	} else if c.R.IntN(2) == 0 {
		i = j
	}
	c.Log("track %d..%d (invalid)", i, j)
	c.Refused(fmt.Sprintf("Track(%d,%d) of a log up to %d", i, j, latest), func() { r.lgm.Track(i, j) })
	c.Count("invalid ranges refused", 1)
	c.Sample(map[string]any{"operations": opsString(r.all()), "versions": latest})
}

func trackRound(c *Ctx, r *Run, asked *[][2]int) {
	latest := int(r.latest())
	for n := 0; n < 4; n++ {
		i := int(r.version())
		j := i + c.R.IntN(latest+1-i)
		if n == 0 {
			i, j = int(r.base)+c.R.IntN(2), latest
			if i > j {
				i = int(r.base)
			}
		}
		ij := earlier(c, asked, [2]int{i, j})
		i, j = ij[0], ij[1]
		if c.R.IntN(4) == 0 {
			_ = try(func() { r.lgm.Snapshot(r.version()) })
		}
		c.Log("track %d..%d", i, j)
		var got map[uint64]Patch
		c.Must("Track", func() { got = r.lgm.Track(uint64(i), uint64(j)) })
		var ops, kept []Op
		var bound []int // how many operations up to each version
		for v := i; v <= j; v++ {
			ops = append(ops, r.versions[v]...)
			kept = append(kept, got[uint64(v)]...)
			bound = append(bound, len(kept))
			holds := holder(r.versions[v])
			for _, op := range got[uint64(v)] { // under the version that holds it
				if !holds(op) {
					c.Fail("foreign", "Track(%d,%d) lists %s under version %d, which does not hold it", i, j, opString(op), v)
				}
			}
		}
		for v, p := range got {
			if (v < uint64(i) || v > uint64(j)) && len(p) > 0 {
				c.Fail("foreign", "Track(%d,%d) lists operations of version %d", i, j, v)
			}
		}
		judge(c, fmt.Sprintf("Track(%d,%d)", i, j), ops, kept)
		// replay
		d := r.init
		if i > 0 {
			d = r.at(uint64(i - 1))
		}
		done := 0
		for v := i; v <= j; v++ {
			var err error
			if d, err = applyAll(d, kept[done:bound[v-i]]); err != nil {
				c.Fail("no-replay", "the tracked changes %d..%d do not apply: %v", i, j, err)
			}
			done = bound[v-i]
			if w := diffDoc(d, r.at(uint64(v)), false); w != "" {
				c.Fail("wrong-replay", "the tracked changes %d..%d replayed up to version %d: %s", i, j, v, w)
			}
			c.Count("replays compared", 1)
		}
		c.Key(opsString(ops), i)
	}
}

// holder says what is one of the operations.
func holder(ops []Op) func(op Op) bool {
	if len(ops) < 50 {
		return func(op Op) bool {
			for _, o := range ops {
				if sameOp(o, op) {
					return true
				}
			}
			return false
		}
	}
	type place struct {
		path string
		ts   int64
	}
	at := map[place][]Op{}
	for _, o := range ops {
		p := place{o.Path, o.Timestamp}
		at[p] = append(at[p], o)
	}
	return func(op Op) bool {
		for _, o := range at[place{op.Path, op.Timestamp}] {
			if sameOp(o, op) {
				return true
			}
		}
		return false
	}
}

// ---------------------------------------------------------------- C05

func window(c *Ctx, ops []Op) (int64, int64) {
	ts := instants(ops)
	a, b := pick(c.R, ts), pick(c.R, ts)
	switch c.R.IntN(8) {
	case 0:
		b = a
	case 1:
		a, b = -1<<63, 1<<63-1
	case 2:
		a, b = 0, ts[len(ts)-1]
	}
	if a > b {
		a, b = b, a
	}
	return a, b
}

func within(ops []Op, a, b int64) (in []Op) {
	for _, op := range ops {
		if op.Timestamp >= a && op.Timestamp <= b {
			in = append(in, op)
		}
	}
	return in
}

// checkTimeTrack judges one time track of a log whose recorded operations are versions.
func checkTimeTrack(c *Ctx, what string, versions [][]Op, got map[uint64]Patch, a, b int64) {
	var ops, kept []Op
	for v := range versions {
		in := within(versions[v], a, b)
		c.Count("operations outside the window", len(versions[v])-len(in))
		ops = append(ops, in...)
		kept = append(kept, got[uint64(v)]...)
		holds := holder(versions[v])
		for _, op := range got[uint64(v)] {
			if !holds(op) {
				c.Fail("foreign", "%s lists %s under version %d, which does not hold it", what, opString(op), v)
			}
			if op.Timestamp < a || op.Timestamp > b {
				c.Fail("outside", "%s lists %s", what, opString(op))
			}
		}
	}
	for v, p := range got {
		if v >= uint64(len(versions)) && len(p) > 0 {
			c.Fail("foreign", "%s lists operations of version %d", what, v)
		}
	}
	judge(c, what, ops, kept)
}

func runC05(c *Ctx) {
	g := trackGen(c)
	r := logRun(c, g)
	r.append()
	r.grow(length(c, 7), 5)
	r.slice()
	var asked [][2]int64
	for n, round := 0, 0; n < 5 || r.again(round+1); n++ {
		if n == 5 {
			n, round = 0, round+1
		}
		a, b := window(c, r.all())
		ab := earlier(c, &asked, [2]int64{a, b})
		a, b = ab[0], ab[1]
		c.Log("time track %d..%d", a, b)
		var got map[uint64]Patch
		c.Must("TemporalTrack", func() { got = r.lgm.TemporalTrack(a, b) })
		checkTimeTrack(c, fmt.Sprintf("TemporalTrack(%d,%d)", a, b), r.own(), got, a, b)
		if len(within(r.all(), a, b)) > 1 {
			c.Key(opsString(r.all()), a, b)
		}
		if b > a {
			c.Refused("a reversed window", func() { r.lgm.TemporalTrack(b, a) })
			c.Count("reversed windows refused", 1)
		}
	}
	c.Sample(map[string]any{"operations": opsString(r.all())})
}

// ---------------------------------------------------------------- C06

// build makes a log of the operations, split into versions at random;
// the last part may stay pending. Some snapshots are stored.
func build(c *Ctx, init *Doc, ops []Op, pendingToo bool) (*logument.Logument, [][]Op, []Op) {
	var l *logument.Logument
	c.Pre("NewLogument", func() { l = logument.NewLogument(init.toTson(), nil) })
	versions := [][]Op{nil}
	var pool []Op
	stored := c.R.IntN(3)
	if c.R.IntN(10) == 0 {
		stored = 50
	}
	trace := "split"
	most := 4
	if len(ops) > 200 {
		most = pick(c.R, []int{4, 100, len(ops), 2 * len(ops)})
	}
	for i := 0; i < len(ops); {
		n := min(1+c.R.IntN(most), len(ops)-i)
		part := ops[i : i+n]
		i += n
		c.Pre("Store", func() { l.Store(Patch(cloneOps(part))) })
		pool = append(pool, part...)
		trace += " " + strconv.Itoa(n)
		if i < len(ops) && c.R.IntN(5) != 0 || i == len(ops) && (!pendingToo || c.R.IntN(2) == 0) {
			c.Pre("Append", func() { _ = l.Append() })
			versions = append(versions, pool)
			pool = nil
			trace += "!"
			if stored > 0 && c.R.IntN(3) == 0 || stored > 3 {
				stored--
				k := uint64(c.R.IntN(len(versions)))
				trace += "s" + strconv.Itoa(int(k))
				_ = try(func() { l.Snapshot(k) })
			}
		}
	}
	c.Log("%s", trace)
	return l, versions, pool
}

func runC06(c *Ctx) {
	g := logGen(c)
	r := newRun(c, g)
	ops := r.ops(c.R.IntN(11))
	if c.R.IntN(30) == 0 {
		ops = r.ops(40 + c.R.IntN(60))
	}
	if c.R.IntN(4000) == 0 {
		ops = longOps(g, r.init, longLength(c.R))
		c.Count("logs of thousands of operations", 1)
	}
	c.Log("operations %s", opsString(ops))
	ordered := sort.SliceIsSorted(ops, func(i, j int) bool { return ops[i].Timestamp < ops[j].Timestamp })
	ts := instants(ops)
	first, state := ops, r.state
	for n := 0; n < 3; n++ {
		ops, r.state, r.loose = first, state, false
		l, _, pool := build(c, r.init, ops, true)
		c.Count("pending operations", len(pool))
		var asked []int64
		for k, round := 0, 0; ; k++ {
			if k == 6 {
				if k, round = 0, round+1; round > 3 || c.R.IntN(3) != 0 {
					break
				}
				switch c.R.IntN(3) {
				case 0:
					t := ""
					if len(ops) > 0 && c.R.IntN(2) == 0 {
						t = pick(c.R, ops).Path
						if t == "/" {
							t = ""
						}
					}
					c.Log("compact %q", t)
					c.Pre("Compact", func() { l.Compact(t) })
					ops, r.loose = nil, true
					for _, v := range l.Version {
						ops = append(ops, l.Patches[v]...)
					}
					ops = append(ops, l.PatchPool...)
					c.Count("compactions before more queries", 1)
				default:
					r.state = state
					if d, err := applyAll(r.init, ops); err == nil {
						r.state = d
					} else {
						c.Stop("stored operations do not apply")
					}
					more := r.ops(1 + c.R.IntN(3))
					c.Log("store %s", opsString(more))
					c.Pre("Store", func() { l.Store(Patch(cloneOps(more))) })
					if c.R.IntN(2) == 0 {
						c.Pre("Append", func() { _ = l.Append() })
					}
					ops = append(ops[:len(ops):len(ops)], more...)
				}
				ts = instants(ops)
				c.Count("logs queried again after more changes", 1)
			}
			t := earlier(c, &asked, pick(c.R, ts))
			want, ok := asOf(r.init, ops, func(x int64) bool { return x <= t })
			if !ok {
				_ = try(func() { l.TemporalSnapshot(t) })
				c.Count("instants the operations cannot be applied up to", 1)
				continue
			}
			c.Log("time snapshot %d", t)
			var got tson.Tson
			c.Must("TemporalSnapshot", func() { got = l.TemporalSnapshot(t) })
			r.same("wrong-state", fmt.Sprintf("TemporalSnapshot(%d)", t), got, want)
			c.Count("instants compared", 1)
			if !ordered {
				c.Count("instants in a log out of time order", 1)
			}
			c.Key(opsString(ops), t)
			switch c.R.IntN(8) {
			case 0:
				_ = try(func() { l.Snapshot(uint64(c.R.IntN(len(l.Version)))) })
			case 1:
				_ = try(func() { l.TemporalTrack(t, t+1) })
			case 2:
				_ = try(func() { l.History("") })
			}
		}
	}
	c.Sample(map[string]any{"initial": r.init.String(), "operations": opsString(ops), "in time order": ordered})
}

// ---------------------------------------------------------------- C07

func runC07(c *Ctx) {
	g := logGen(c)
	r := logRun(c, g)
	r.grow(length(c, 7), 3)
	r.slice()
	if r.base > 0 {
		r.grow(c.R.IntN(3), 3)
	}
	if c.R.IntN(3) == 0 {
		r.store(r.ops(1))
	}
	latest := int(r.latest())
	stored := c.R.IntN(3)
	if c.R.IntN(10) == 0 { // many of them
		stored = latest + c.R.IntN(3*latest+1)
	}
	for n := min(stored, 300); n > 0; n-- {
		k := r.version()
		c.Log("snapshot %d", k)
		_ = try(func() { r.lgm.Snapshot(k) })
	}
	check := func(what string, s *logument.Logument, i, j int) {
		if len(s.Version) != j-i+1 {
			c.Fail("versions", "%s has versions %v", what, s.Version)
		}
		for n, v := range s.Version {
			if v != uint64(i+n) {
				c.Fail("versions", "%s has versions %v", what, s.Version)
			}
		}
		for v := i; v <= j; v++ {
			if !sameOps(s.Patches[uint64(v)], r.versions[v]) {
				c.Fail("operations", "%s holds %s in version %d, expected %s", what, opsString(s.Patches[uint64(v)]), v, opsString(r.versions[v]))
			}
		}
		for v := range s.Patches {
			if v < uint64(i) || v > uint64(j) {
				c.Fail("operations", "%s holds version %d", what, v)
			}
		}
		r.same("current-state", what+": the current state", s.CurrentState, r.at(uint64(j)))
		if len(s.PatchPool) > 0 {
			c.Fail("pending", "%s has pending operations %s", what, opsString(s.PatchPool))
		}
	}
	answers := func(what string, s *logument.Logument, i, j int) {
		for n := min(j-i+1, 6); n > 0; n-- {
			k := uint64(i + c.R.IntN(j-i+1))
			var got tson.Tson
			c.Log("%s: snapshot %d", what, k)
			c.Must("Snapshot of a slice", func() { got = s.Snapshot(k) })
			r.same("wrong-snapshot", fmt.Sprintf("%s: Snapshot(%d)", what, k), got, r.at(k))
			c.Count("snapshots of slices compared", 1)
		}
	}
	var asked [][2]int
	for n, round := 0, 0; n < 3 || r.again(round+1); n++ {
		if n == 3 {
			n, round = 0, round+1
			latest = int(r.latest())
		}
		i := int(r.version())
		ij := earlier(c, &asked, [2]int{i, i + c.R.IntN(latest+1-i)})
		i, j := ij[0], ij[1]
		what := fmt.Sprintf("Slice(%d,%d)", i, j)
		c.Log("%s", what)
		var s *logument.Logument
		c.Must("Slice", func() { s = r.lgm.Slice(uint64(i), uint64(j)) })
		check(what, s, i, j)
		c.Key(opsString(r.all()), i, j)
		if c.R.IntN(2) == 0 {
			answers(what, s, i, j)
		}
		for m := c.R.IntN(3); m > 0; m-- {
			x := i + c.R.IntN(j-i+1)
			y := x + c.R.IntN(j-x+1)
			what2 := what + fmt.Sprintf(".Slice(%d,%d)", x, y)
			c.Log("%s", what2)
			var s2 *logument.Logument
			c.Must("Slice of a slice", func() { s2 = s.Slice(uint64(x), uint64(y)) })
			check(what2, s2, x, y)
			answers(what2, s2, x, y)
			c.Count("slices of slices", 1)
		}
		answers(what, s, i, j)
		bad := uint64(j + 1)
		c.Refused(what+".Snapshot beyond its latest version", func() { s.Snapshot(bad) })
	}
	i, j := uint64(latest), uint64(latest+1+c.R.IntN(3))
	if c.R.IntN(2) == 0 && latest > int(r.base) {
		j = r.base + uint64(c.R.IntN(latest-int(r.base)))
	} else if c.R.IntN(2) == 0 {
		i = j
	}
	c.Log("slice %d..%d (invalid)", i, j)
	c.Refused(fmt.Sprintf("Slice(%d,%d) of a log up to %d", i, j, latest), func() { r.lgm.Slice(i, j) })
	c.Count("invalid ranges refused", 1)
	c.Sample(map[string]any{"operations": opsString(r.all()), "versions": latest})
}

// ---------------------------------------------------------------- C08

func runC08(c *Ctx) {
	g := trackGen(c)
	r := newRun(c, g)
	ops := r.ops(c.R.IntN(13))
	if c.R.IntN(30) == 0 {
		ops = r.ops(40 + c.R.IntN(60))
	}
	if c.R.IntN(4000) == 0 {
		ops = longOps(g, r.init, longLength(c.R))
		c.Count("logs of thousands of operations", 1)
	}
	c.Log("operations %s", opsString(ops))
	l, versions, _ := build(c, r.init, ops, false)
	ts := instants(ops)
	var check func(l, orig *logument.Logument, of string, a, b int64)
	check = func(l, orig *logument.Logument, of string, a, b int64) {
		if _, ok := asOf(r.init, ops, func(x int64) bool { return x <= b }); !ok {
			c.Count("windows the operations cannot be applied up to", 1)
			return
		}
		start, ok := asOf(r.init, ops, func(x int64) bool { return x < a })
		if !ok {
			return
		}
		what := of + fmt.Sprintf("TemporalSlice(%d,%d)", a, b)
		c.Log("%s", what)
		var s *logument.Logument
		c.Must("TemporalSlice", func() { s = l.TemporalSlice(a, b) })
		total := 0
		for v := range versions {
			in := within(versions[v], a, b)
			total += len(in)
			if !sameOps(s.Patches[uint64(v)], in) {
				c.Fail("operations", "%s holds %s in version %d, expected %s", what, opsString(s.Patches[uint64(v)]), v, opsString(in))
			}
		}
		for v, p := range s.Patches {
			if v >= uint64(len(versions)) && len(p) > 0 {
				c.Fail("operations", "%s holds version %d", what, v)
			}
		}
		for k := 1; k < len(s.Version); k++ {
			if s.Version[k] <= s.Version[k-1] {
				c.Fail("versions", "%s has versions %v", what, s.Version)
			}
		}
		listed := map[uint64]bool{}
		for _, v := range s.Version {
			listed[v] = true
		}
		for v, p := range s.Patches {
			if len(p) > 0 && !listed[v] {
				c.Fail("versions", "%s has versions %v but operations in %d", what, s.Version, v)
			}
		}
		if total == 0 {
			r.same("current-state", what+" of an empty window: the current state", s.CurrentState, start)
			c.Count("empty windows", 1)
		} else {
			c.Key(opsString(ops), a, b)
		}
		if len(s.PatchPool) > 0 {
			c.Fail("pending", "%s has pending operations", what)
		}
		for k := 0; k < 5; k++ {
			t := pick(c.R, ts)
			if k == 0 {
				t = a
			}
			if k == 1 {
				t = b
			}
			if t < a || t > b {
				continue
			}
			want, ok := asOf(r.init, ops, func(x int64) bool { return x <= t })
			if !ok {
				continue
			}
			var got, other tson.Tson
			c.Log("%s: time snapshot %d", what, t)
			c.Must("TemporalSnapshot of a time slice", func() { got = s.TemporalSnapshot(t) })
			r.same("wrong-state", fmt.Sprintf("%s: TemporalSnapshot(%d)", what, t), got, want)
			if try(func() { other = orig.TemporalSnapshot(t) }) == nil {
				r.same("differs", fmt.Sprintf("%s: TemporalSnapshot(%d) compared with the original log's", what, t), got, fromTson(other))
			}
			c.Count("time snapshots compared", 1)
		}
		for k := 0; k < 4; k++ {
			x, y := pick(c.R, ts), pick(c.R, ts)
			if k == 0 {
				x, y = a, b
			}
			if x > y {
				x, y = y, x
			}
			x, y = max(x, a), min(y, b)
			if x > y {
				continue
			}
			var got, other map[uint64]Patch
			c.Must("TemporalTrack of a time slice", func() { got = s.TemporalTrack(x, y) })
			if p := try(func() { other = orig.TemporalTrack(x, y) }); p == nil && patchesString(got) != patchesString(other) {
				c.Fail("track-differs", "%s: TemporalTrack(%d,%d) gives %s, the original log %s", what, x, y, patchesString(got), patchesString(other))
			}
			c.Count("time tracks compared", 1)
		}
		for k := c.R.IntN(3); k > 1; k-- { // a slice of the slice
			x, y := pick(c.R, ts), pick(c.R, ts)
			if x, y = max(min(x, y), a), min(max(x, y), b); x <= y {
				c.Count("time slices of time slices", 1)
				check(s, orig, what+".", x, y)
			}
		}
		if b > a {
			c.Refused("a reversed window", func() { l.TemporalSlice(b, a) })
			c.Count("reversed windows refused", 1)
		}
	}
	var asked [][2]int64
	for n, round := 0, 0; ; n++ {
		if n == 4 || n == 2 && len(ops) > 500 {
			if n, round = 0, round+1; round > 3 || len(ops) > 500 || c.R.IntN(3) != 0 {
				break
			}
			if c.R.IntN(2) == 0 {
				t := pick(c.R, []string{"", "/a", "/b"})
				c.Log("compact %q", t)
				c.Pre("Compact", func() { l.Compact(t) })
				r.loose = true
				ops = nil
				for v := 1; v < len(versions); v++ {
					versions[v] = cloneOps(l.Patches[uint64(v)])
					ops = append(ops, versions[v]...)
				}
				c.Count("compactions before more queries", 1)
			} else {
				d, err := applyAll(r.init, ops)
				if err != nil {
					c.Stop("stored operations do not apply")
				}
				r.state = d
				more := r.ops(1 + c.R.IntN(3))
				c.Log("store and append %s", opsString(more))
				c.Pre("Store", func() { l.Store(Patch(cloneOps(more))); _ = l.Append() })
				versions = append(versions, more)
				ops = append(ops[:len(ops):len(ops)], more...)
			}
			ts = instants(ops)
			c.Count("logs queried again after more changes", 1)
		}
		a, b := window(c, ops)
		ab := earlier(c, &asked, [2]int64{a, b})
		check(l, l, "", ab[0], ab[1])
	}
	c.Sample(map[string]any{"initial": r.init.String(), "operations": opsString(ops)})
}

// ---------------------------------------------------------------- C09

// targets are paths at, above, beside and below the recorded ones.
func target(c *Ctx, r *Run) string {
	var paths [][]string
	for _, op := range r.all() {
		paths = append(paths, split(op.Path))
	}
	if len(paths) == 0 {
		return ""
	}
	p := append([]string(nil), pick(c.R, paths)...)
	switch c.R.IntN(8) {
	case 0:
		return ""
	case 1, 2:
		p = p[:c.R.IntN(len(p)+1)]
	case 3:
		if len(p) > 0 && len(p[len(p)-1]) > 1 { // a prefix of the name only
			p[len(p)-1] = p[len(p)-1][:len(p[len(p)-1])-1]
		}
	case 4:
		p = append(p, pick(c.R, plainKeys))
	case 5:
		if q, ok := dotted(p); ok && c.R.IntN(2) == 0 {
			return q
		}
	}
	if len(p) > 0 && p[len(p)-1] == "" && len(p) == 1 {
		return "/a" // "/" is left alone: it is read as the root or as the empty key
	}
	return pointer(p)
}

func runC09(c *Ctx) {
	g := trackGen(c)
	r := logRun(c, g)
	r.grow(length(c, 7), 5)
	r.slice()
	first := int(r.base) // version 0 holds nothing
	if c.R.IntN(3) == 0 {
		r.store(r.ops(1))
	}
	if c.R.IntN(2) == 0 {
		k := r.version()
		c.Log("snapshot %d", k)
		_ = try(func() { r.lgm.Snapshot(k) })
	}
	versions := r.own()
	var asked []string
	for n := 1 + c.R.IntN(3); n > 0; n-- {
		if len(asked) > 0 && c.R.IntN(2) == 0 {
			r.grow(1+c.R.IntN(2), 3)
			versions = append(versions, r.versions[len(versions):]...)
			c.Count("compactions of a log that had grown", 1)
		}
		t := earlier(c, &asked, target(c, r))
		tp := split(t)
		before := captureLog(r.lgm)
		c.Log("compact %q", t)
		c.Must("Compact", func() { r.lgm.Compact(t) })
		now := captureLog(r.lgm)
		if now.versions != before.versions || now.pool != before.pool || now.current != before.current {
			c.Fail("side-effect", "Compact(%q) changed versions %s to %s, pending %s to %s, state %s to %s", t,
				before.versions, now.versions, before.pool, now.pool, before.current, now.current)
		}
		var all, kept []Op
		next := make([][]Op, first, len(versions))
		for v := first; v < len(versions); v++ {
			got := r.lgm.Patches[uint64(v)]
			holds := holder(versions[v])
			for _, op := range got {
				if !holds(op) {
					c.Fail("foreign", "after Compact(%q) version %d holds %s", t, v, opString(op))
				}
			}
			next = append(next, cloneOps(got))
			all = append(all, versions[v]...)
			kept = append(kept, got...)
		}
		for v, p := range r.lgm.Patches {
			if v >= uint64(len(versions)) && len(p) > 0 {
				c.Fail("foreign", "after Compact(%q) there are operations in version %d", t, v)
			}
		}
		judgeTarget(c, fmt.Sprintf("Compact(%q)", t), all, kept, tp)
		// The values of every version stay
		d := r.at(r.base)
		for v := first + 1; v < len(versions); v++ {
			var err error
			if d, err = applyAll(d, next[v]); err != nil {
				c.Fail("no-replay", "after Compact(%q) version %d does not apply: %v", t, v, err)
			}
			if w := diffDoc(d, r.at(uint64(v)), false); w != "" {
				c.Fail("wrong-values", "after Compact(%q) the document at version %d: %s", t, v, w)
			}
		}
		for m := min(len(versions), 4); m > 0; m-- {
			k := r.version()
			var got tson.Tson
			c.Must("Snapshot after Compact", func() { got = r.lgm.Snapshot(k) })
			if w := diffDoc(fromTson(got), r.at(k), false); w != "" {
				c.Fail("wrong-values", "after Compact(%q) Snapshot(%d): %s", t, k, w)
			}
			c.Count("values compared", 1)
		}
		c.Must("Compact again", func() { r.lgm.Compact(t) })
		again := captureLog(r.lgm)
		for v := range now.patches {
			if now.patches[v] != again.patches[v] {
				c.Fail("not-idempotent", "compacting %q again turned version %d from %s to %s", t, v, now.patches[v], again.patches[v])
			}
		}
		if len(kept) < len(all) {
			c.Key(opsString(all), t)
		}
		versions = next
	}
	c.Sample(map[string]any{"operations": opsString(r.all()), "after": patchesString(r.lgm.Patches)})
}

// judgeTarget is judge with everything outside the target to be kept.
func judgeTarget(c *Ctx, what string, ops []Op, got []Op, target []string) {
	duties := duties(ops)
	for i, op := range ops {
		if !hasPrefix(split(op.Path), target) {
			if duties[i] != keep {
				c.Count("operations outside the target", 1)
			}
			duties[i] = keep
		}
	}
	if !follows(ops, got, func(i int) duty { return duties[i] }) {
		var s string
		for i, op := range ops {
			s += fmt.Sprintf("\n  %s %s", [...]string{"either", "keep  ", "drop  "}[duties[i]], opString(op))
		}
		c.Fail("wrong-changes", "%s gave %s for%s", what, opsString(got), s)
	}
	for i := range ops {
		switch duties[i] {
		case keep:
			c.Count("operations that had to be kept", 1)
		case drop:
			c.Count("operations that had to be left out", 1)
		}
	}
}

// ---------------------------------------------------------------- C10

func runC10(c *Ctx) {
	g := trackGen(c)
	g.Dotted = false // the history is listed by spelling
	r := logRun(c, g)
	r.append()
	r.grow(length(c, 6), 5)
	if c.R.IntN(4) == 0 {
		r.store(r.ops(1))
	}
	if c.R.IntN(2) == 0 {
		k := r.version()
		_ = try(func() { r.lgm.Snapshot(k) })
	}
	var all []Op
	var asked []string
	for n, round := 0, 0; n < 3 || r.again(round+1); n++ {
		if n == 3 {
			n, round = 0, round+1
		}
		all = r.all()
		sort.SliceStable(all, func(i, j int) bool { return all[i].Timestamp < all[j].Timestamp })
		t := earlier(c, &asked, target(c, r))
		tp := split(t)
		c.Log("history %q", t)
		var got map[string]Patch
		c.Must("History", func() { got = r.lgm.History(t) })
		byPath := map[string][]Op{}
		for _, op := range all {
			if hasPrefix(split(op.Path), tp) {
				byPath[op.Path] = append(byPath[op.Path], op)
			} else {
				c.Count("paths outside the target", 1)
			}
		}
		for p := range got {
			if byPath[p] == nil && len(got[p]) > 0 {
				c.Fail("foreign", "History(%q) lists the path %q", t, p)
			}
		}
		for _, p := range sortedKeys(byPath) {
			ops := byPath[p]
			list := got[p]
			if len(list) == 0 {
				c.Fail("missing", "History(%q) does not list the path %q with %s", t, p, opsString(ops))
			}
			start := r.init.at(split(p))
			if start != nil && start.K == 'n' {
				if _, isT := list[0].Value.(tson.Tson); list[0].Value == nil && list[0].Op != "remove" || isT {
					start = nil
					list = list[1:] // a null may be listed or not
				} else {
					start = nil
				}
			}
			if start != nil {
				var v *Doc
				if t, ok := list[0].Value.(tson.Tson); ok {
					v = fromTson(t)
				} else {
					v = leafOf(list[0].Value, 0)
				}
				if v == nil || diffDoc(v, start, false) != "" || list[0].Op == "remove" {
					c.Fail("initial", "History(%q) begins the path %q with %s; the initial value is %s", t, p, opString(list[0]), start)
				}
				list = list[1:]
				c.Count("initial values", 1)
			}
			// what follows: the operations in time order, save repetitions
			may := func(i int) duty {
				if i > 0 && isSet(ops[i]) && isSet(ops[i-1]) && looselySame(ops[i].Value, ops[i-1].Value) {
					return either
				}
				return keep
			}
			if !follows(ops, list, may) {
				c.Fail("wrong-history", "History(%q) lists for %q %s; recorded (in time order): %s; initial %v", t, p, historyString(map[string]Patch{p: got[p]}), opsString(ops), start)
			}
			c.Count("operations listed", len(list))
		}
		if len(byPath) > 0 {
			c.Key(opsString(all), t)
		}
	}
	c.Sample(map[string]any{"initial": r.init.String(), "operations": opsString(all)})
}
