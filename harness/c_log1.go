package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
)

func init() {
	register(&property{id: "C01", quick: 300000, thorough: 3000000, run: runC01,
		rule:  "random logs (documents, stores, sets, appends) with snapshot requests for random versions, repeated and interleaved with growth; non-trivial: a snapshot two or more versions above the nearest stored one, distinct by log content and version",
		needs: []string{"snapshots compared", "snapshots over several versions", "requests beyond the latest refused"}})
	register(&property{id: "C02", quick: 450000, thorough: 4000000, run: runC02,
		rule:  "random sequences of store (every input form), set, append, malformed input; the whole log is compared with the list of operations handed in after every call; distinct by sequence of calls",
		needs: []string{"operations accounted for", "versions appended", "malformed inputs refused"}})
	register(&property{id: "C03", quick: 120000, thorough: 1000000, run: runC03,
		rule:  "random logs, random sequences of queries with valid and invalid arguments; everything the log holds is copied before and compared after each query, and answers of repeated and reordered queries are compared; distinct by log and query",
		needs: []string{"queries watched", "answers repeated", "answers in another order"}})
	register(&property{id: "C11", quick: 360000, thorough: 3000000, run: runC11,
		rule:  "random interleavings of set, test-set, store, append, snapshot; state and pool are compared with the model after every call; distinct by sequence of calls",
		needs: []string{"sets accepted", "test-sets dropped", "test-sets queued", "sets refused", "snapshots compared"}})
}

func (c *Ctx) same(key, what string, got tson.Tson, want *Doc) {
	if d := diffDoc(fromTson(got), want, true); d != "" {
		c.Fail(key, "%s: %s; got %s, expected %s", what, d, fromTson(got), want)
	}
}

// ---------------------------------------------------------------- C01

func runC01(c *Ctx) {
	g := logGen(c)
	r := logRun(c, g)
	type answer struct {
		t    tson.Tson
		want *Doc
		k    uint64
	}
	var answers []answer
	steps := many(c, 3, 12)
	far := c.R.IntN(2) == 0 // grow first, then ask
	if far {
		r.grow(1+length(c, 8), 3)
		r.slice()
	}
	ask := func(k uint64) {
		near := uint64(0)
		for v := range r.lgm.Snapshots {
			if v <= k && v > near {
				near = v
			}
		}
		var got tson.Tson
		c.Log("snapshot %d", k)
		c.Must("Snapshot", func() { got = r.lgm.Snapshot(k) })
		want := r.at(k)
		r.same("wrong-snapshot", fmt.Sprintf("Snapshot(%d) of %d versions", k, r.latest()), got, want)
		if r.loose {
			want = fromTson(got)
		}
		answers = append(answers, answer{got, want, k})
		c.Count("snapshots compared", 1)
		if k >= near+2 {
			c.Count("snapshots over several versions", 1)
			c.Key(want, k, r.latest())
		}
	}
	for i := 0; i < steps; i++ {
		switch n := c.R.IntN(10); {
		case n < 2:
			r.store(r.ops(1 + c.R.IntN(3)))
		case n < 3:
			op := g.validOp(r.state)
			if !isSet(op) {
				continue
			}
			c.Log("set %s", opString(op))
			c.Pre("Set", func() { r.lgm.Set(r.latest(), op) })
			r.stored([]Op{op})
		case n < 5:
			r.append()
		case n < 6:
			before := captureLog(r.lgm)
			k := r.latest() + 1 + uint64(c.R.IntN(3))
			if c.R.IntN(10) == 0 {
				k = math.MaxUint64
			}
			c.Log("snapshot %d (beyond)", k)
			c.Refused("snapshot beyond the latest version", func() { r.lgm.Snapshot(k) })
			if d := before.unchanged(captureLog(r.lgm), false); d != "" || len(captureLog(r.lgm).snaps) != len(before.snaps) {
				c.Fail("refusal-changed", "a refused snapshot changed the log: %s", d)
			}
			c.Count("requests beyond the latest refused", 1)
		default:
			ask(r.version())
			if c.R.IntN(10) == 0 {
				r.slice()
			}
			if c.R.IntN(40) == 0 {
				r.compact()
			}
		}
	}
	for _, k := range c.R.Perm(len(r.versions) - int(r.base)) {
		ask(r.base + uint64(k))
	}
	for _, a := range answers {
		c.same("answer-changed", fmt.Sprintf("the snapshot of version %d returned earlier", a.k), a.t, a.want)
	}
	c.Sample(map[string]any{"initial": r.init.String(), "versions": r.latest(), "last": r.at(r.latest()).String()})
}

// ---------------------------------------------------------------- C02

var otherKinds = []string{"move", "copy", "test", "", "Add", "set", "merge"}

// anyOp makes an operation that may or may not be applicable.
func (g *Gen) anyOp(d *Doc) Op {
	if g.R.IntN(4) != 0 {
		return g.validOp(d)
	}
	op := g.validOp(d)
	switch g.R.IntN(4) {
	case 0:
		op.Op = "remove"
		op.Value = nil
	case 1:
		op.Op = "test"
		if g.R.IntN(2) == 0 {
			op.Op = "move"
		}
	case 2:
		op.Path = pick(g.R, []string{"", "/", "a", "a.b", "//", "/nowhere/x/y", "/~", "/a/-1"})
	default:
		op.Path += "/deeper/x"
	}
	return op
}

// patchJSON writes operations as JSON text, by its own means.
// quote writes JSON, with <, > and & as they are or escaped.
func quote(v any) string {
	var b strings.Builder
	e := json.NewEncoder(&b)
	if s, ok := v.(string); !ok || len(s)%3 > 0 {
		e.SetEscapeHTML(false)
	}
	if err := e.Encode(v); err != nil {
		fatal("%v", err)
	}
	return strings.TrimSuffix(b.String(), "\n")
}

func patchJSON(ops []Op) string {
	var b strings.Builder
	b.WriteString("[")
	for i, op := range ops {
		if i > 0 {
			b.WriteString(",")
		}
		k, _ := json.Marshal(string(op.Op))
		p := quote(op.Path)
		fmt.Fprintf(&b, `{"op":%s,"path":%s`, k, p)
		if op.Value != nil {
			v := quote(op.Value)
			fmt.Fprintf(&b, `,"value":%s`, v)
		}
		fmt.Fprintf(&b, `,"timestamp":%d}`, op.Timestamp)
	}
	b.WriteString("]")
	return b.String()
}

func asRead(ops []Op) []Op {
	out := cloneOps(ops)
	for i := range out {
		if v, ok := out[i].Value.(int); ok {
			out[i].Value = float64(v)
		}
	}
	return out
}

// inputForm turns operations into one of the accepted forms, and
// says which operations that form hands over.
func inputForm(c *Ctx, ops []Op) (form any, name string, handed []Op, scramble func()) {
	p := Patch(cloneOps(ops))
	if c.R.IntN(2) == 0 { // with room at its end
		q := make(Patch, len(p), len(p)+4)
		copy(q, p)
		p = q
	}
	scramble = func() {
		for i := range p {
			p[i] = Op{Op: "add", Path: "/scrambled", Value: "scrambled", Timestamp: 77}
		}
	}
	switch c.R.IntN(6) {
	case 0:
		return patchJSON(ops), "text", asRead(ops), func() {}
	case 1:
		b := []byte(patchJSON(ops))
		return b, "bytes", asRead(ops), func() {
			for i := range b {
				b[i] = 'x'
			}
		}
	case 2:
		if len(ops) == 1 {
			return p[0], "operation", ops, func() {}
		}
		return p, "patch", ops, scramble
	case 3:
		return []Op(p), "operations", ops, scramble
	case 4:
		k := c.R.IntN(len(p) + 1)
		l := []Patch{p[:k], p[k:]}
		if c.R.IntN(3) == 0 {
			l = []Patch{p[:k], nil, p[k:], {}}
		}
		return l, "patches", ops, scramble
	}
	return p, "patch", ops, scramble
}

func checkLog(c *Ctx, l *logument.Logument, versions [][]Op, pool []Op, mayEmpty bool) (extra bool) {
	n := len(versions)
	if mayEmpty && len(l.Version) == n+1 && len(l.Patches[uint64(n)]) == 0 {
		extra = true
		n++
	}
	if len(l.Version) != n {
		c.Fail("versions", "versions are %v, expected 0..%d", l.Version, n-1)
	}
	for i, v := range l.Version {
		if v != uint64(i) {
			c.Fail("versions", "versions are %v, expected 0..%d", l.Version, n-1)
		}
	}
	for v, p := range l.Patches {
		if v >= uint64(n) || v == 0 {
			c.Fail("versions", "operations %s are kept under version %d of 0..%d", opsString(p), v, n-1)
		}
	}
	for v := 1; v < len(versions); v++ {
		if !sameOps(l.Patches[uint64(v)], versions[v]) {
			c.Fail("conservation", "version %d holds %s, expected %s", v, opsString(l.Patches[uint64(v)]), opsString(versions[v]))
		}
	}
	if !sameOps(l.PatchPool, pool) {
		c.Fail("conservation", "the pool holds %s, expected %s", opsString(l.PatchPool), opsString(pool))
	}
	return extra
}

func runC02(c *Ctx) {
	g := logGen(c)
	init := g.object(g.Depth)
	var l *logument.Logument
	var versions = [][]Op{nil}
	var pool []Op
	state := init
	gen := func() []Op {
		var ops []Op
		d := state
		n := c.R.IntN(4)
		if c.R.IntN(500) == 0 {
			n = 20 + c.R.IntN(200)
		}
		if c.R.IntN(30000) == 0 {
			if ops = longOps(g, d, longLength(c.R)); len(ops) > 0 {
				c.Count("thousands of operations at once", 1)
				return ops
			}
		}
		for ; n >= 0; n-- {
			op := g.anyOp(d)
			if len(ops) > 0 && c.R.IntN(4) == 0 { // the very same again
				op = ops[len(ops)-1]
			} else if len(pool) > 0 && c.R.IntN(6) == 0 {
				op = pool[c.R.IntN(len(pool))]
			}
			ops = append(ops, op)
			if n, err := applyOp(d, op); err == nil {
				d = n
			}
		}
		return ops
	}
	follow := func(ops []Op) {
		pool = append(pool, ops...)
		for _, op := range ops {
			if n, err := applyOp(state, op); err == nil {
				state = n
			}
		}
	}
	trace := ""
	initial := any(nil)
	var after func() = func() {}
	if c.R.IntN(3) == 0 {
		ops := gen()
		form, name, handed, scramble := inputForm(c, ops)
		c.Log("created with %s %s", name, opsString(ops))
		initial, after = form, scramble
		follow(handed)
		trace += "new-" + name + ";"
	}
	doc := any(init.toTson())
	form := c.R.IntN(4)
	if !init.writable() {
		form = 3
	}
	switch form {
	case 0:
		doc = writeTson(init, nil)
	case 1:
		doc = []byte(writeTson(init, nil))
	}
	c.Log("initial %s", init)
	c.Must("NewLogument", func() { l = logument.NewLogument(doc, initial) })
	after()
	checkLog(c, l, versions, pool, false)
	c.same("wrong-initial", "the snapshot 0 of the new log", l.Snapshots[0], init)

	emptied := false // an empty patch was stored with nothing pending
	for i := many(c, 2, 14); i > 0; i-- {
		switch n := c.R.IntN(12); {
		case n < 5:
			ops := gen()
			form, name, handed, scramble := inputForm(c, ops)
			c.Log("store %s %s", name, opsString(ops))
			c.Must("Store", func() { l.Store(form) })
			scramble()
			follow(handed)
			c.Count("operations accounted for", len(handed))
			trace += "store-" + name + strconv.Itoa(len(handed)) + ";"
		case n < 6:
			form := pick(c.R, []any{Patch{}, Patch(nil), "[]", []byte("[]"), []Op{}, []Patch{}, []Patch{{}, nil}})
			c.Log("store nothing %T", form)
			c.Must("Store", func() { l.Store(form) })
			if len(pool) == 0 {
				emptied = true
			}
			c.Count("empty stores", 1)
			trace += "empty;"
		case n < 7:
			op := g.validOp(state)
			if !isSet(op) || c.R.IntN(5) == 0 {
				op = g.anyOp(state)
			}
			next, err := applyOp(state, op)
			c.Log("set %s", opString(op))
			if !isSet(op) {
				_ = try(func() { l.Set(0, op) })
				break
			}
			if err != nil {
				_ = try(func() { l.Set(0, op) })
				break
			}
			c.Must("Set", func() { l.Set(uint64(c.R.IntN(len(versions))), op) })
			state = next
			pool = append(pool, op)
			trace += "set;"
		case n < 8:
			bad := pick(c.R, []any{"", "{", "[", `[{"op":"add"`, "nonsense", []byte("[{]"), `{"op":"add"}`, `[1]`, `[{"op":1}]`, `[{"op":"add","path":"/a","value":1,"timestamp":"x"}]`,
				`[] x`, 5, nil, true, map[string]any{}, []any{}, 1.5, struct{}{}, `"a"`, `[{"op":"add","path":"/a","value":1,"timestamp":1}`, []byte(nil)})
			before := captureLog(l)
			c.Log("store malformed %T %v", bad, bad)
			c.Refused(fmt.Sprintf("malformed input %v", bad), func() { l.Store(bad) })
			if d := before.unchanged(captureLog(l), false); d != "" {
				c.Fail("refusal-changed", "malformed input %v changed the log: %s", bad, d)
			}
			c.Count("malformed inputs refused", 1)
		default:
			c.Log("append")
			c.Must("Append", func() {
				if err := l.Append(); err != nil {
					c.Fail("append-error", "Append failed: %v", err)
				}
			})
			if len(pool) > 0 {
				versions = append(versions, pool)
				pool = nil
				c.Count("versions appended", 1)
			} else {
				if checkLog(c, l, versions, pool, emptied) {
					versions = append(versions, nil)
				}
				c.Count("appends with nothing pending", 1)
			}
			emptied = false
			trace += "append;"
		}
		checkLog(c, l, versions, pool, false)
	}
	c.Key(trace)
	c.Sample(map[string]any{"calls": trace, "versions": len(versions) - 1})
}

// writeTson writes a document in the timestamp format by the grammar
// (each leaf with its timestamp after the key, before the element, or after the value).
func writeTson(d *Doc, style func(n int) int) string {
	if style == nil {
		style = func(int) int { return 0 }
	}
	var b strings.Builder
	var w func(d *Doc)
	prim := func(d *Doc) {
		switch d.K {
		case 's':
			b.WriteString(quote(d.S))
		case 'f':
			b.WriteString(strconv.FormatFloat(d.F, 'g', -1, 64))
		case 'b':
			b.WriteString(strconv.FormatBool(d.B))
		}
	}
	w = func(d *Doc) {
		switch d.K {
		case 'n':
			b.WriteString("null")
		case 'o':
			b.WriteByte('{')
			for i, k := range d.keys() {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(quote(k))
				e := d.M[k]
				if e.leaf() {
					fmt.Fprintf(&b, " <%d>:", e.T)
					prim(e)
				} else {
					b.WriteByte(':')
					w(e)
				}
			}
			b.WriteByte('}')
		case 'a':
			b.WriteByte('[')
			for i, e := range d.A {
				if i > 0 {
					b.WriteByte(',')
				}
				if e.leaf() {
					fmt.Fprintf(&b, "<%d> ", e.T)
					prim(e)
				} else {
					w(e)
				}
			}
			b.WriteByte(']')
		default:
			prim(d)
			fmt.Fprintf(&b, " <%d>", d.T)
		}
	}
	w(d)
	return b.String()
}

// ---------------------------------------------------------------- C03

func patchesString(m map[uint64]Patch) string {
	var b strings.Builder
	for _, v := range sortedKeys(m) {
		if len(m[v]) > 0 {
			fmt.Fprintf(&b, "%d%s ", v, opsString(m[v]))
		}
	}
	return b.String()
}

type query struct {
	name string
	ask  func(l *logument.Logument) string
}

func makeQueries(c *Ctx, r *Run, n int) []query {
	var qs []query
	ops := append(r.all(), r.pool...)
	ts := instants(ops)
	latest := int(r.latest())
	var paths []string
	for _, op := range ops {
		paths = append(paths, op.Path)
	}
	paths = append(paths, "", "/a", "/a/b", "/nowhere")
	for i := 0; i < n; i++ {
		vi, vj := r.version(), r.version()
		if vi > vj && c.R.IntN(10) != 0 {
			vi, vj = vj, vi
		}
		if c.R.IntN(15) == 0 {
			vj = uint64(latest + 1 + c.R.IntN(3))
		}
		ti, tj := pick(c.R, ts), pick(c.R, ts)
		if ti > tj && c.R.IntN(10) != 0 {
			ti, tj = tj, ti
		}
		path := pick(c.R, paths)
		if c.R.IntN(300) == 0 {
			qs = append(qs, query{"Print()", func(l *logument.Logument) string {
				if output(c, "Print", l.Print) == "" {
					c.Fail("nothing printed", "the log is printed as nothing")
				}
				return ""
			}})
		}
		switch c.R.IntN(7) {
		case 0:
			qs = append(qs, query{fmt.Sprintf("Snapshot(%d)", vj), func(l *logument.Logument) string { return fromTson(l.Snapshot(vj)).String() }})
		case 1:
			qs = append(qs, query{fmt.Sprintf("TemporalSnapshot(%d)", tj), func(l *logument.Logument) string { return fromTson(l.TemporalSnapshot(tj)).String() }})
		case 2:
			qs = append(qs, query{fmt.Sprintf("Slice(%d,%d)", vi, vj), func(l *logument.Logument) string { return sliceString(l.Slice(vi, vj)) }})
		case 3:
			qs = append(qs, query{fmt.Sprintf("TemporalSlice(%d,%d)", ti, tj), func(l *logument.Logument) string { return sliceString(l.TemporalSlice(ti, tj)) }})
		case 4:
			qs = append(qs, query{fmt.Sprintf("Track(%d,%d)", vi, vj), func(l *logument.Logument) string { return patchesString(l.Track(vi, vj)) }})
		case 5:
			qs = append(qs, query{fmt.Sprintf("TemporalTrack(%d,%d)", ti, tj), func(l *logument.Logument) string { return patchesString(l.TemporalTrack(ti, tj)) }})
		default:
			qs = append(qs, query{fmt.Sprintf("History(%q)", path), func(l *logument.Logument) string { return historyString(l.History(path)) }})
		}
	}
	return qs
}

func sliceString(s *logument.Logument) string {
	// the stored snapshots of a slice may vary, what it answers may not
	return fmt.Sprint(s.Version) + patchesString(s.Patches) + opsString(s.PatchPool) + fromTson(s.CurrentState).String()
}

func historyString(h map[string]Patch) string {
	var b strings.Builder
	for _, p := range sortedKeys(h) {
		fmt.Fprintf(&b, "%q:", p)
		for _, op := range h[p] {
			if t, ok := op.Value.(tson.Tson); ok && op.Value != nil {
				fmt.Fprintf(&b, "%s=%s<%d>;", op.Op, fromTson(t), op.Timestamp)
			} else {
				b.WriteString(opString(op) + ";")
			}
		}
	}
	return b.String()
}

func runC03(c *Ctx) {
	g := logGen(c)
	r := logRun(c, g)
	r.grow(length(c, 6), 4)
	r.slice()
	if c.R.IntN(2) == 0 {
		r.store(r.ops(1 + c.R.IntN(2)))
	}
	qs := makeQueries(c, r, 4+c.R.IntN(12))
	type ans struct {
		text     string
		panicked bool
	}
	ask := func(l *logument.Logument, q query) (a ans) {
		if p := try(func() { a.text = q.ask(l) }); p != nil {
			return ans{"", true}
		}
		return a
	}
	answers := map[string]ans{}
	watch := func(q query) {
		before := captureLog(r.lgm)
		c.Log("%s", q.name)
		a := ask(r.lgm, q)
		now := captureLog(r.lgm)
		mayAppend := strings.HasPrefix(q.name, "TemporalSnapshot") && len(r.lgm.Version) == int(r.latest()-r.base)+2
		if d := before.unchanged(now, mayAppend); d != "" {
			c.Fail("query-changed", "%s changed the log: %s", q.name, d)
		}
		for v := range now.snaps {
			if _, old := before.snaps[v]; !old {
				if v > r.latest()+1 {
					c.Fail("query-changed", "%s kept a snapshot of version %d, which does not exist", q.name, v)
				}
				if mayAppend {
					continue
				}
				if d := diffDoc(fromTson(r.lgm.Snapshots[v]), r.at(v), !r.loose); d != "" {
					want := r.at(v).String()
					c.Fail("query-changed", "%s kept a wrong snapshot of version %d: %s, expected %s", q.name, v, now.snaps[v], want)
				}
			}
		}
		if len(now.patches) != len(before.patches) { // the pending operations became a version
			r.versions = append(r.versions, r.pool)
			r.pool = nil
			answers = map[string]ans{}
			c.Count("pending operations appended by a time snapshot", 1)
			return
		}
		if old, ok := answers[q.name]; ok {
			if old != a {
				c.Fail("answer-differs", "%s answered %v, and before %v", q.name, a, old)
			}
			c.Count("answers repeated", 1)
		}
		answers[q.name] = a
		c.Count("queries watched", 1)
		c.Key(q.name, before.versions, before.current)
	}
	for _, q := range qs {
		watch(q)
	}
	for round := 0; r.again(round); round++ {
		if round > 0 {
			answers = map[string]ans{}
			qs = append(qs, makeQueries(c, r, 1+c.R.IntN(4))...)
		}
		for i := c.R.IntN(10); i >= 0; i-- {
			watch(pick(c.R, qs))
		}
	}
	// A second log with the same content, queried in another order
	r2 := logument.NewLogument(r.init.toTson(), nil)
	for _, ops := range r.versions[1:] {
		if r.loose {
			break
		}
		c.Pre("Store", func() { r2.Store(Patch(cloneOps(ops))); _ = r2.Append() })
	}
	if r.base > 0 && !r.loose {
		c.Pre("Slice", func() { r2 = r2.Slice(r.base, r.latest()) })
	}
	if !r.loose && len(r.lgm.Version) == len(r2.Version) && len(r.pool) == 0 {
		for _, i := range c.R.Perm(len(qs)) {
			a := ask(r2, qs[i])
			if old, ok := answers[qs[i].name]; ok {
				if old != a {
					c.Fail("order-matters", "%s answered %v, and in another order of queries %v", qs[i].name, old, a)
				}
				c.Count("answers in another order", 1)
			}
		}
	}
	c.Sample(map[string]any{"log": captureLog(r.lgm).current, "queries": len(qs)})
}

// ---------------------------------------------------------------- C11

func runC11(c *Ctx) {
	g := logGen(c)
	r := logRun(c, g)
	trace := ""
	check := func(what string) {
		c.same("wrong-state", "the current state after "+what, r.lgm.CurrentState, r.state)
		if !sameOps(r.lgm.PatchPool, r.pool) {
			c.Fail("wrong-pool", "after %s the pool holds %s, expected %s", what, opsString(r.lgm.PatchPool), opsString(r.pool))
		}
	}
	version := r.version
	for i := many(c, 3, 15); i > 0; i-- {
		switch n := c.R.IntN(14); {
		case n < 4: // set
			op := g.anyOp(r.state)
			if c.R.IntN(3) == 0 {
				op = r.recent(nil)
				op.Timestamp = g.TS()
			}
			_, err := applyOp(r.state, op)
			if err == errUnsure {
				continue
			}
			before := captureLog(r.lgm)
			k := version()
			c.Log("set %d %s", k, opString(op))
			switch {
			case !isSet(op):
				c.Must("Set of another kind", func() { r.lgm.Set(k, op) })
				if d := before.unchanged(captureLog(r.lgm), false); d != "" {
					c.Fail("kind", "set with kind %q did something: %s", op.Op, d)
				}
				trace += "other;"
			case err != nil:
				c.Refused("a set that cannot be applied ("+opString(op)+")", func() { r.lgm.Set(k, op) })
				if d := before.unchanged(captureLog(r.lgm), false); d != "" {
					c.Fail("refusal-changed", "a refused set changed the log: %s", d)
				}
				c.Count("sets refused", 1)
				trace += "refused;"
			default:
				c.Must("Set", func() { r.lgm.Set(k, op) })
				r.stored([]Op{op})
				c.Count("sets accepted", 1)
				trace += "set;"
			}
			check("set " + opString(op))
		case n < 9: // test-set
			op := g.anyOp(r.state)
			if c.R.IntN(2) == 0 && len(r.state.nodes()) > 1 {
				nd := pick(c.R, r.state.nodes()[1:])
				op = Op{Op: "replace", Path: pointer(nd.path), Value: g.opValue(), Timestamp: g.TS()}
				if nd.d.leaf() && c.R.IntN(3) != 0 {
					op.Value = nd.d.value()
				}
				if p, ok := dotted(nd.path); ok && c.R.IntN(5) == 0 {
					op.Path = p
				}
			}
			if v, ok := op.Value.(int); ok {
				op.Value = float64(v)
			}
			cur := r.state.at(split(op.Path))
			k := version()
			before := captureLog(r.lgm)
			c.Log("test-set %d %s", k, opString(op))
			queue := op
			switch {
			case !isSet(op):
				c.Must("TestSet of another kind", func() { r.lgm.TestSet(k, op) })
				if d := before.unchanged(captureLog(r.lgm), false); d != "" {
					c.Fail("kind", "test-set with kind %q did something: %s", op.Op, d)
				}
				continue
			case op.Op == "add":
			case cur == nil:
				queue.Op = "add"
			case cur.leaf() && sameVal(cur.value(), op.Value):
				c.Must("TestSet", func() { r.lgm.TestSet(k, op) })
				if d := before.unchanged(captureLog(r.lgm), false); d != "" {
					c.Fail("test-set-queued", "test-set %s of the value that is there already did something: %s", opString(op), d)
				}
				c.Count("test-sets dropped", 1)
				trace += "dropped;"
				check("test-set")
				continue
			}
			_, err := applyOp(r.state, queue)
			if err == errUnsure {
				continue
			}
			if err != nil {
				c.Refused("a test-set that cannot be applied ("+opString(op)+")", func() { r.lgm.TestSet(k, op) })
				if d := before.unchanged(captureLog(r.lgm), false); d != "" {
					c.Fail("refusal-changed", "a refused test-set changed the log: %s", d)
				}
				check("refused test-set")
				continue
			}
			c.Must("TestSet", func() { r.lgm.TestSet(k, op) })
			r.stored([]Op{queue})
			c.Count("test-sets queued", 1)
			trace += "queued;"
			check("test-set " + opString(op))
		case n < 11:
			r.store(r.ops(1 + c.R.IntN(3)))
			trace += "store;"
			check("store")
		case n < 12:
			r.append()
			trace += "append;"
			check("append")
			if c.R.IntN(20) == 0 {
				r.compact()
				trace += "compact;"
				check("compact")
			}
			if c.R.IntN(4) == 0 && !r.loose {
				r.slice()
				check("slice")
			}
		default:
			k := version()
			c.Log("snapshot %d", k)
			var got tson.Tson
			c.Pre("Snapshot", func() { got = r.lgm.Snapshot(k) })
			r.same("wrong-snapshot", fmt.Sprintf("Snapshot(%d)", k), got, r.at(k))
			c.Count("snapshots compared", 1)
			check("snapshot")
		}
	}
	r.append()
	var got tson.Tson
	c.Pre("Snapshot", func() { got = r.lgm.Snapshot(r.latest()) })
	r.same("wrong-snapshot", "the snapshot after the last append", got, r.state)
	c.Count("snapshots compared", 1)
	c.Key(trace, r.state)
	c.Sample(map[string]any{"calls": trace, "state": r.state.String()})
}
