package main

import (
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

func init() {
	register(&property{id: "C13", quick: 450000, thorough: 4000000, run: runC13,
		rule:  "random documents and patches, most with an operation that cannot be applied at a random position; document and patch compared with deep copies, earlier results compared again after later calls; distinct by document and patch",
		needs: []string{"failures reported", "successes", "failures after applied operations", "empty patches", "earlier results compared again"}})
	register(&property{id: "C14", quick: 450000, thorough: 4000000, run: runC14,
		rule:  "random documents (nested arrays and objects, nulls), random applicable patches, applied whole and one by one, every result compared with the model; distinct by document and patch",
		needs: []string{"documents compared", "removals", "containers created", "arrays extended", "elements shifted"}})
	register(&property{id: "C15", quick: 700000, thorough: 3000000, run: func(c *Ctx) { runGenerate(c, false) },
		rule:  "pairs of documents, unrelated or some edits apart (values, timestamps, kinds, members, array lengths); the generated patch is applied by the code and by the model, and searched for needless operations; distinct by pair",
		needs: []string{"patches generated", "refusals", "equal values", "equal members looked for"}})
	register(&property{id: "C16", quick: 700000, thorough: 3000000, run: func(c *Ctx) { runGenerate(c, true) },
		rule:  "pairs of documents, unrelated or some edits apart (values, timestamps by one, kinds, members, array lengths); the generated patch is applied by the code and by the model; distinct by pair",
		needs: []string{"patches generated", "refusals", "equal documents", "timestamp-only changes"}})
	register(&property{id: "C17", quick: 300000, thorough: 3000000, run: runC17,
		rule:  "random patches (hostile paths and values, 64-bit timestamps) written in every offered way, checked to be JSON, read back in every way; malformed texts by truncation and mutation; distinct by patch",
		needs: []string{"texts read back", "texts in other spellings read", "malformed texts refused", "values that cannot be written"}})
	register(&property{id: "C18", quick: 25000, thorough: 600000, run: runC18,
		rule:  "documents with hostile keys, every node addressed by its escaped path and (where possible) its dotted path, by reading, by patching and by the paths of generated patches; distinct by path",
		needs: []string{"nodes read", "nodes patched", "dotted paths", "generated paths", "paths to nothing"}})
}

func docGen(c *Ctx) *Gen {
	g := newGen(c.R)
	switch c.R.IntN(4) {
	case 0:
		g.Hostile = 0.5
	case 1:
		g.Small = true
	case 2:
		g.Hostile = 0.1
	}
	if c.R.IntN(30) == 0 {
		g.Width = 10 + c.R.IntN(10)
	}
	return g
}

type odd struct{ X int }

// badOp makes an operation that mostly cannot be applied.
func (g *Gen) badOp(d *Doc) Op {
	op := g.validOp(d)
	r := g.R
	switch r.IntN(9) {
	case 0:
		op.Op = tsonpatch.OpType(pick(r, []string{"move", "copy", "test", "", "ADD", "unknown", "removed", "add "}))
	case 1:
		op.Op = "add"
		op.Value = pick(r, []any{nil, map[string]any{"a": 1.0}, []any{1.0}, odd{3}, []string{"a"}, &odd{}, struct{}{}})
		if r.IntN(2) == 0 {
			op.Op = "replace"
		}
	case 2: // through a leaf
		var leaves []node
		for _, n := range d.nodes() {
			if n.d.leaf() {
				leaves = append(leaves, n)
			}
		}
		if len(leaves) > 0 {
			p := append([]string(nil), pick(r, leaves).path...)
			for i := 1 + r.IntN(3); i > 0; i-- {
				p = append(p, pick(r, []string{"a", "0", "", "x"}))
			}
			op.Path = pointer(p)
		}
	case 3, 4: // bad index
		var arrays []node
		for _, n := range d.nodes() {
			if n.d.K == 'a' {
				arrays = append(arrays, n)
			}
		}
		if len(arrays) > 0 {
			a := pick(r, arrays)
			p := append([]string(nil), a.path...)
			p = append(p, pick(r, []string{"-1", "-", "x", "", "1.5", "1e2", " 1", "99999999999999999999", "1099511627776", "9223372036854775807",
				"-9223372036854775808", "0x1", "18446744073709551616", "4611686018427387904", strconv.Itoa(len(a.d.A))}))
			if r.IntN(4) == 0 {
				p = append(p, pick(r, []string{"a", "0"}))
			}
			op.Path = pointer(p)
			if r.IntN(2) == 0 {
				op.Op = "remove"
				op.Value = nil
			} else if op.Op == "remove" {
				op.Op, op.Value = "add", 1.0
			}
		}
	case 5:
		op.Op, op.Path, op.Value = "remove", "", nil
	case 6: // remove through nothing
		op.Op, op.Value = "remove", nil
		op.Path += "/nothing/x"
	case 7:
		op.Path = pick(r, []string{"", "/", "//", "///", "a", "a.b", ".", "..", "/a//b", "/~0", "/~1", "/0/0/0", "0", "/-1", "/a/-1", "/a/1099511627776", "/nothing/1099511627776/1"})
	case 8:
		op.Path = strings.Repeat("/a", r.IntN(40))
	}
	return op
}

func (g *Gen) patchWithBad(d *Doc) []Op {
	var ops []Op
	for n := g.R.IntN(5); n > 0; n-- {
		op := g.validOp(d)
		if nd, err := applyOp(d, op); err == nil {
			d = nd
			ops = append(ops, op)
		}
	}
	if g.R.IntN(4) != 0 {
		k := g.R.IntN(len(ops) + 1)
		if g.R.IntN(2) == 0 {
			k = len(ops)
		}
		ops = append(ops[:k:k], append([]Op{g.badOp(d)}, ops[k:]...)...)
	}
	return ops
}

// values that may not be compared with ==: by their text.
func opsFull(ops []Op) string {
	var b strings.Builder
	for _, op := range ops {
		fmt.Fprintf(&b, "%q %q %T %#v %d;", op.Op, op.Path, op.Value, op.Value, op.Timestamp)
	}
	return b.String()
}

func runC13(c *Ctx) {
	g := docGen(c)
	g.Bad = c.R.IntN(6) == 0
	g.Huge = c.R.IntN(2) == 0
	d := g.root()
	in := d.toTson()
	c.Log("document %s", d)
	type result struct {
		t    tson.Tson
		want string
	}
	var results []result
	for n := 1 + c.R.IntN(4); n > 0; n-- {
		ops := g.patchWithBad(d)
		if c.R.IntN(20000) == 0 {
			if long := longOps(g, d, longLength(c.R)); len(long) > 0 {
				ops = long
				if e, err := applyAll(d, ops); err == nil && c.R.IntN(2) == 0 {
					ops = append(ops, g.badOp(e))
				}
				c.Count("patches of thousands of operations", 1)
			}
		}
		p := make(Patch, len(ops), len(ops)+2)
		copy(p, ops)
		before := opsFull(p[:cap(p)])
		want, wantErr := applyAll(d, ops)
		c.Log("patch %s", opsString(ops))
		var got tson.Tson
		var err error
		what := "ApplyPatch"
		if len(ops) == 1 && c.R.IntN(2) == 0 {
			what = "ApplyOperation"
			c.Must(what, func() { got, err = tsonpatch.ApplyOperation(in, p[0]) })
		} else {
			c.Must(what, func() { got, err = tsonpatch.ApplyPatch(in, p) })
		}
		if w := diffDoc(fromTson(in), d, true); w != "" {
			c.Fail("input-changed", "%s of %s changed the document it was given: %s", what, opsString(ops), w)
		}
		if w := opsFull(p[:cap(p)]); w != before {
			c.Fail("patch-changed", "%s changed the patch it was given from %s to %s", what, before, w)
		}
		unsure := wantErr != nil && strings.Contains(wantErr.Error(), errUnsure.msg)
		switch {
		case unsure:
		case wantErr != nil && err == nil:
			c.Fail("no-error", "%s of %s to %s gave %s; expected an error: %v", what, opsString(ops), d, fromTson(got), wantErr)
		case wantErr == nil && err != nil:
			c.Fail("error", "%s of %s to %s failed: %v", what, opsString(ops), d, err)
		}
		if err != nil {
			if got != nil {
				c.Fail("half-done", "%s of %s failed (%v) and yielded %s", what, opsString(ops), err, fromTson(got))
			}
			c.Count("failures reported", 1)
			if len(ops) > 1 {
				c.Count("failures after applied operations", 1)
			}
		} else if !unsure {
			if w := diffDoc(fromTson(got), want, true); w != "" {
				c.Fail("wrong-result", "%s of %s to %s: %s", what, opsString(ops), d, w)
			}
			results = append(results, result{got, want.String()})
			c.Count("successes", 1)
			if len(ops) == 0 {
				c.Count("empty patches", 1)
			}
		}
		c.Key(d, before)
		if c.R.IntN(3) == 0 && err == nil && !unsure { // go on from the result
			d, in = want, got
		}
	}
	for _, r := range results {
		if s := fromTson(r.t).String(); s != r.want {
			c.Fail("result-changed", "a document returned earlier was %s and is now %s", r.want, s)
		}
		c.Count("earlier results compared again", 1)
	}
	c.Sample(map[string]any{"document": d.String()})
}

func runC14(c *Ctx) {
	g := docGen(c)
	g.Bad = c.R.IntN(6) == 0
	g.Huge = c.R.IntN(2) == 0
	d := g.root()
	if c.R.IntN(3) == 0 { // arrays in arrays, objects in arrays
		a := &Doc{K: 'a', A: []*Doc{}}
		for n := c.R.IntN(14); n > 0; n-- {
			a.A = append(a.A, g.doc(2))
		}
		if d.K == 'o' {
			d.M["arr"] = a
		} else {
			d = a
		}
	}
	start := d
	var ops []Op
	docs := []*Doc{d}
	n := 1 + c.R.IntN(6)
	if c.R.IntN(50) == 0 {
		n = 60
	}
	for len(ops) < n {
		op := g.validOp(d)
		if c.R.IntN(40) == 0 || d.leaf() {
			op = Op{Op: "add", Path: "", Value: g.opValue(), Timestamp: g.TS()}
		}
		nd, err := applyOp(d, op)
		if err != nil {
			c.Stop("no operation fits")
		}
		p := split(op.Path)
		if len(p) > 0 {
			parent := d.at(p[:len(p)-1])
			switch {
			case parent == nil || parent.K == 'n':
				c.Count("containers created", 1)
			case parent.K == 'a' && isSet(op):
				if i, _ := index(p[len(p)-1]); i >= len(parent.A) {
					c.Count("arrays extended", 1)
				}
			case parent.K == 'a':
				if i, _ := index(p[len(p)-1]); i < len(parent.A)-1 {
					c.Count("elements shifted", 1)
				}
			}
		}
		if op.Op == "remove" {
			c.Count("removals", 1)
		}
		d = nd
		ops = append(ops, op)
		docs = append(docs, d)
	}
	if c.R.IntN(12000) == 0 {
		if long := longOps(g, start, longLength(c.R)); len(long) > 0 {
			ops, docs = long, []*Doc{start}
			for _, op := range ops {
				nd, err := applyOp(docs[len(docs)-1], op)
				if err != nil {
					c.Stop("no operation fits")
				}
				docs = append(docs, nd)
			}
			d = docs[len(ops)]
			c.Count("patches of thousands of operations", 1)
		}
	}
	c.Log("document %s", start)
	c.Log("patch %s", opsString(ops))
	t := start.toTson()
	for i, op := range ops {
		c.Must("ApplyOperation", func() {
			var err error
			if t, err = tsonpatch.ApplyOperation(t, op); err != nil {
				c.Fail("error", "%s on %s failed: %v", opString(op), docs[i], err)
			}
		})
		if w := diffDoc(fromTson(t), docs[i+1], true); w != "" {
			c.Fail("wrong-effect", "%s on %s: %s; got %s", opString(op), docs[i], w, fromTson(t))
		}
		c.Count("documents compared", 1)
	}
	c.Must("ApplyPatch", func() {
		got, err := tsonpatch.ApplyPatch(start.toTson(), Patch(cloneOps(ops)))
		if err != nil {
			c.Fail("error", "ApplyPatch failed: %v", err)
		}
		if w := diffDoc(fromTson(got), d, true); w != "" {
			c.Fail("wrong-effect", "the whole patch %s on %s: %s", opsString(ops), start, w)
		}
		c.Count("documents compared", 1)
	})
	c.Key(start, opsString(ops))
	c.Sample(map[string]any{"document": start.String(), "patch": opsString(ops), "result": d.String()})
}

// edited returns a copy of a document some edits away from it.
func (g *Gen) edited(d *Doc, n int) *Doc {
	d = d.clone()
	r := g.R
	for ; n > 0; n-- {
		x := pick(r, d.nodes()).d
		switch r.IntN(10) {
		case 0, 1:
			x = g.spot(d)
		case 2:
			x = d
		}
		switch r.IntN(9) {
		case 0, 1: // value
			if x.leaf() {
				l := g.leaf()
				if r.IntN(4) == 0 {
					l = leafOf(g.near(x.value()), 0)
				}
				l.T = x.T
				if r.IntN(2) == 0 {
					l.T = g.TS()
				}
				if x.K == 'f' && r.IntN(3) == 0 {
					l = &Doc{K: 'f', F: math.Nextafter(x.F, 1e308), T: x.T}
				}
				*x = *l
			}
		case 2: // timestamp
			if x.leaf() {
				switch r.IntN(3) {
				case 0:
					x.T++
				case 1:
					x.T--
				default:
					x.T = g.TS()
				}
			}
		case 3: // kind
			switch r.IntN(3) {
			case 0:
				*x = *g.leaf()
			case 1:
				if r.IntN(2) == 0 {
					*x = *null()
				}
			default:
				if r.IntN(3) == 0 {
					*x = *g.doc(2)
				}
			}
		case 4: // members
			if x.K == 'o' {
				if k := x.keys(); len(k) > 0 && r.IntN(2) == 0 {
					delete(x.M, pick(r, k))
				} else {
					x.M[g.key()] = g.leaf()
				}
			}
		case 5, 6: // elements
			if x.K == 'a' {
				switch r.IntN(3) {
				case 0:
					x.A = append(x.A, g.leaf())
				case 1:
					if len(x.A) > 0 {
						i := r.IntN(len(x.A))
						x.A = append(x.A[:i:i], x.A[i+1:]...)
					}
				default:
					i := r.IntN(len(x.A) + 1)
					x.A = append(x.A[:i:i], append([]*Doc{g.leaf()}, x.A[i:]...)...)
				}
			}
		case 7: // a whole subtree anew
			values, times := r.IntN(2) == 0, r.IntN(3) != 0
			x.walk(nil, func(_ []string, y *Doc) {
				if y.leaf() && values {
					*y = *leafOf(g.near(y.value()), y.T)
				}
				if y.leaf() && (times || !values) {
					y.T = g.TS()
				}
			})
		case 8: // swap elements
			if x.K == 'a' && len(x.A) > 1 {
				i, j := r.IntN(len(x.A)), r.IntN(len(x.A))
				x.A[i], x.A[j] = x.A[j], x.A[i]
			}
		}
	}
	return d
}

func pair(c *Ctx, g *Gen) (a, b *Doc) {
	a = g.root()
	if a.container() && len(a.A)+len(a.M) > 5000 { // some edits apart, for the patch to be short
		c.Count("pairs of huge documents", 1)
		b = a.clone()
		for n := c.R.IntN(6); n > 0; n-- {
			if c.R.IntN(3) == 0 && a.K == 'a' {
				b.A = append(b.A, g.leaf())
			} else if x := pick(c.R, b.nodes()).d; x.leaf() {
				l := g.leaf()
				*x = *l
			} else if x.K == 'o' && c.R.IntN(2) == 0 {
				x.M[g.key()] = g.leaf()
			}
			if k := pick(c.R, b.nodes()).path; b.K == 'o' && len(k) > 0 {
				delete(b.M, k[0])
			} else if b.K == 'a' && c.R.IntN(2) == 0 {
				b.A = b.A[:len(b.A)-1]
			}
		}
		return a, b
	}
	switch c.R.IntN(6) {
	case 0:
		return a, g.root()
	case 1:
		return a, a.clone()
	case 2:
		return a, g.edited(a, 1)
	}
	return a, g.edited(a, 1+c.R.IntN(5))
}

func runGenerate(c *Ctx, ts bool) {
	g := docGen(c)
	g.Bad = c.R.IntN(6) == 0
	g.Huge = c.R.IntN(3) == 0
	g.OddKeys = c.R.IntN(4) == 0
	a, b := pair(c, g)
	c.Log("from %s", a)
	c.Log("to   %s", b)
	at, bt := a.toTson(), b.toTson()
	var p Patch
	var err error
	name := "GeneratePatch"
	c.Must(name, func() {
		if ts {
			name = "GeneratePatchWithTimestamp"
			p, err = tsonpatch.GeneratePatchWithTimestamp(at, bt)
		} else {
			p, err = tsonpatch.GeneratePatch(at, bt)
		}
	})
	if w := diffDoc(fromTson(at), a, true); w != "" {
		c.Fail("input-changed", "%s changed the first document: %s", name, w)
	}
	if w := diffDoc(fromTson(bt), b, true); w != "" {
		c.Fail("input-changed", "%s changed the second document: %s", name, w)
	}
	c.Key(a, b)
	if err != nil {
		if !needsCreate(a, b) {
			c.Fail("refused", "%s from %s to %s failed: %v", name, a, b, err)
		}
		c.Count("refusals", 1)
		return
	}
	c.Count("patches generated", 1)
	c.Log("patch %s", opsString(p))
	got, err := tsonpatch.ApplyPatch(at, p)
	if err != nil {
		c.Fail("not-applicable", "%s from %s to %s gave %s, which fails: %v", name, a, b, opsString(p), err)
	}
	if w := diffDoc(fromTson(got), b, ts); w != "" {
		c.Fail("wrong-patch", "%s from %s to %s gave %s: after applying it, %s", name, a, b, opsString(p), w)
	}
	if !g.OddKeys { // by the model
		d, err := applyAll(a, p)
		if err != nil {
			c.Fail("not-applicable", "%s from %s to %s gave %s: %v", name, a, b, opsString(p), err)
		}
		if w := diffDoc(d, b, ts); w != "" {
			c.Fail("wrong-patch", "%s from %s to %s gave %s: by the model, %s", name, a, b, opsString(p), w)
		}
	}
	if ts {
		equal := diffDoc(a, b, true) == ""
		if equal {
			c.Count("equal documents", 1)
		}
		if equal != (len(p) == 0) {
			c.Fail("empty", "%s from %s to %s gave %s", name, a, b, opsString(p))
		}
		if !equal && diffDoc(a, b, false) == "" {
			c.Count("timestamp-only changes", 1)
		}
		for _, op := range p {
			if !isSet(op) {
				continue
			}
			x := b.at(split(op.Path))
			if x == nil || !x.leaf() || !looselySame(x.value(), op.Value) || x.T != op.Timestamp {
				c.Fail("foreign-value", "%s from %s to %s gave %s, but the second document has %v there", name, a, b, opString(op), x)
			}
		}
	} else {
		equal := diffDoc(a, b, false) == ""
		if equal {
			c.Count("equal values", 1)
			if len(p) != 0 {
				c.Fail("not-minimal", "%s from %s to %s (equal values) gave %s", name, a, b, opsString(p))
			}
		}
		// No operation for an object member that has the same value in both
		for _, op := range p {
			path := split(op.Path)
			x, y := a, b
			for i, k := range path {
				if x == nil || y == nil || x.K != 'o' || y.K != 'o' {
					break
				}
				if x, y = x.M[k], y.M[k]; x != nil && y != nil && diffDoc(x, y, false) == "" {
					c.Fail("not-minimal", "%s from %s to %s gave %s, but %q has the same value in both", name, a, b, opString(op), pointer(path[:i+1]))
				}
				c.Count("equal members looked for", 1)
			}
		}
	}
	c.Sample(map[string]any{"from": a.String(), "to": b.String(), "patch": opsString(p)})
}

// ---------------------------------------------------------------- C17

// spell writes operations as JSON in some spelling: members in any order,
// white space, escaped characters, exponents.
func spell(c *Ctx, ops []Op) string {
	ws := func() string {
		if c.R.IntN(3) == 0 {
			return pick(c.R, []string{" ", "\n", "\t", "\r\n", "  "})
		}
		return ""
	}
	str := func(s string) string {
		if c.R.IntN(3) != 0 {
			return quote(s)
		}
		var b strings.Builder
		b.WriteByte('"')
		for _, r := range utf16.Encode([]rune(s)) {
			switch {
			case c.R.IntN(3) == 0 && r >= ' ' && r < 0x7f && r != '"' && r != '\\':
				b.WriteByte(byte(r))
			case r == '/' && c.R.IntN(2) == 0:
				b.WriteString("\\/")
			case c.R.IntN(2) == 0:
				fmt.Fprintf(&b, "\\u%04x", r)
			default:
				fmt.Fprintf(&b, "\\u%04X", r)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	val := func(v any) string {
		switch v := v.(type) {
		case string:
			return str(v)
		case float64:
			switch c.R.IntN(4) {
			case 0:
				return strconv.FormatFloat(v, 'e', -1, 64)
			case 1:
				return strconv.FormatFloat(v, 'E', 17, 64)
			case 2:
				if math.Abs(v) < 1e300 && math.Abs(v) > 1e-300 {
					return strconv.FormatFloat(v, 'f', -1, 64)
				}
			}
		case nil:
			return "null"
		}
		return quote(v)
	}
	var list []string
	for _, op := range ops {
		m := []string{
			`"op"` + ws() + ":" + ws() + str(string(op.Op)),
			`"path"` + ws() + ":" + ws() + str(op.Path),
			`"timestamp"` + ws() + ":" + ws() + strconv.FormatInt(op.Timestamp, 10),
		}
		if op.Value != nil || c.R.IntN(3) == 0 {
			m = append(m, `"value"`+ws()+":"+ws()+val(op.Value))
		}
		if c.R.IntN(2) == 0 {
			c.R.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
		}
		list = append(list, "{"+ws()+strings.Join(m, ws()+","+ws())+ws()+"}")
	}
	return ws() + "[" + ws() + strings.Join(list, ws()+","+ws()) + ws() + "]" + ws()
}

func runC17(c *Ctx) {
	g := docGen(c)
	g.Hostile = c.R.Float64()
	g.OddKeys = true
	var ops []Op
	n := c.R.IntN(5)
	if c.R.IntN(500) == 0 {
		n = 20 + c.R.IntN(300)
	}
	if c.R.IntN(15000) == 0 {
		n = longLength(c.R)
		c.Count("patches of thousands of operations", 1)
	}
	for ; n >= 0; n-- {
		op := Op{Op: tsonpatch.OpType(pick(c.R, []string{"add", "replace", "remove", "add", "replace", "test", "move", "copy"})), Timestamp: g.TS()}
		if op.Op != "remove" && op.Op != "move" && op.Op != "copy" || c.R.IntN(8) == 0 {
			op.Value = g.opValue()
			if c.R.IntN(4) == 0 {
				op.Value = pick(c.R, []any{false, 0.0, "", true, 0, -1, "null"})
			}
		}
		switch c.R.IntN(4) {
		case 0:
			op.Path = g.randString()
		case 1:
			op.Path = pick(c.R, hostileStrings)
		default:
			var p []string
			for k := c.R.IntN(4); k >= 0; k-- {
				p = append(p, g.key())
			}
			op.Path = pointer(p)
		}
		ops = append(ops, op)
	}
	if c.R.IntN(20) == 0 {
		ops = nil
	}
	c.Log("patch %s", opsString(ops))
	p := Patch(cloneOps(ops))
	want := asRead(ops)
	list := func(each func(op *Op) string) string {
		var s []string
		for i := range p {
			s = append(s, each(&p[i]))
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	texts := map[string]string{}
	c.Must("writing a patch", func() {
		texts["Patch.String"] = p.String()
		texts["Operation.String"] = list(func(op *Op) string { return op.String() })
		texts["Operation.Marshal"] = list(func(op *Op) string {
			b, err := op.Marshal()
			if err != nil {
				c.Fail("marshal-error", "Marshal of %s failed: %v", opString(*op), err)
			}
			return string(b)
		})
		b, err := json.Marshal(p)
		if err != nil {
			c.Fail("marshal-error", "json.Marshal failed: %v", err)
		}
		texts["json.Marshal"] = string(b)
		if b, err = json.MarshalIndent(p, "", "  "); err == nil {
			texts["json.MarshalIndent"] = string(b)
		}
	})
	if c.R.IntN(10) == 0 { // a value that cannot be written
		bad := Op{Op: "add", Path: "/a", Timestamp: g.TS()}
		if len(ops) > 0 {
			bad = pick(c.R, ops)
			bad.Op = pick(c.R, []tsonpatch.OpType{"add", "replace", "test"})
		}
		bad.Value = pick(c.R, []any{math.NaN(), math.Inf(1), math.Inf(-1), func() {}, make(chan int), []any{1.0, math.NaN()}, map[string]any{"a": math.Inf(1)}, complex(1, 2)})
		var b []byte
		var err error
		c.Must("Marshal of what cannot be written", func() { b, err = bad.Marshal() })
		if err == nil {
			c.Fail("not refused", "Marshal of %s with the value %v (%T) gives no error: %s", opString(bad), bad.Value, bad.Value, b)
		}
		c.Must("FromJson of what cannot be written", func() {
			_, err = tsonpatch.FromJson([]any{map[string]any{"op": "add", "path": "/a", "value": bad.Value, "timestamp": 1}})
		})
		if err == nil {
			c.Fail("not refused", "FromJson of the value %v (%T) gives no error", bad.Value, bad.Value)
		}
		c.Count("values that cannot be written", 1)
	}
	for _, name := range sortedKeys(texts) {
		text := texts[name]
		if !json.Valid([]byte(text)) {
			c.Fail("invalid-json:"+name, "%s of %s gave invalid JSON: %s", name, opsString(ops), text)
		}
		same := func(how string, got Patch, err error) {
			if err != nil {
				c.Fail("read-error", "%s: %s could not be read by %s: %v", name, text, how, err)
			}
			if !sameOps(asRead(got), want) {
				c.Fail("changed:"+name, "%s of %s gave %s, read by %s as %s", name, opsString(ops), text, how, opsString(got))
			}
			c.Count("texts read back", 1)
		}
		c.Must("reading a patch", func() {
			got, err := tsonpatch.Unmarshal([]byte(text))
			same("Unmarshal", got, err)
			var v any
			dec := json.NewDecoder(strings.NewReader(text))
			dec.UseNumber()
			if dec.Decode(&v) == nil {
				got, err = tsonpatch.FromJson(v)
				same("FromJson", got, err)
			}
		})
	}
	c.Must("FromJson", func() {
		got, err := tsonpatch.FromJson(p)
		if err != nil || !sameOps(asRead(got), want) {
			c.Fail("changed:FromJson", "FromJson of %s gave %s, %v", opsString(ops), opsString(got), err)
		}
	})
	// Texts by others, in any spelling
	other := spell(c, ops)
	c.Must("reading a patch", func() {
		got, err := tsonpatch.Unmarshal([]byte(other))
		if err != nil || !sameOps(asRead(got), want) {
			c.Fail("changed:other", "the patch text %s was read as %s, %v", other, opsString(got), err)
		}
		var direct Patch
		if err := json.Unmarshal([]byte(other), &direct); err != nil || !sameOps(asRead(direct), want) {
			c.Fail("changed:other", "the patch text %s was read by json.Unmarshal as %s, %v", other, opsString(direct), err)
		}
		c.Count("texts in other spellings read", 1)
	})
	for _, op := range ops {
		if n := tsonpatch.NewOperation(op.Op, op.Path, op.Value, op.Timestamp); !sameOp(n, op) {
			c.Fail("new-operation", "NewOperation gave %s for %s", opString(n), opString(op))
		}
	}
	if !sameOps(p, ops) {
		c.Fail("input-changed", "writing changed the patch from %s to %s", opsString(ops), opsString(p))
	}
	c.Key(opsString(ops))
	// Malformed
	text := texts["Patch.String"]
	for n := 0; n < 4; n++ {
		bad := text
		switch c.R.IntN(4) {
		case 0:
			bad = bad[:c.R.IntN(len(bad))]
		case 1:
			i := c.R.IntN(len(bad))
			bad = bad[:i] + pick(c.R, []string{"\"", "{", "}", "[", "]", ",", ":", "x", "\\", "\x00"}) + bad[i:]
		case 2:
			i := c.R.IntN(len(bad))
			bad = bad[:i] + bad[i+1:]
		case 3:
			bad = pick(c.R, []string{"", " ", "{}", "1", "\"a\"", "true", "[1]", "[[]]", `["x"]`, `[{"op":1}]`, `[{"op":"add","path":1,"value":1,"timestamp":1}]`,
				`[{"op":"add","path":"/a","value":1,"timestamp":"1"}]`, `[{"op":"add","path":"/a","value":1,"timestamp":1.5}]`, `[{"op":"add","path":"/a","value":1,"timestamp":9223372036854775808}]`, "nul", "[null", "[] []", "[],"})
		}
		malformed := !json.Valid([]byte(bad)) || bad[0] != '[' || bad == "[1]" || bad == "[[]]" || strings.HasPrefix(bad, `["x`) || strings.HasPrefix(bad, `[{"op":`)
		c.Log("reading %q", bad)
		c.Must("reading malformed text", func() {
			_, err := tsonpatch.Unmarshal([]byte(bad))
			if malformed && err == nil {
				c.Fail("malformed-accepted", "malformed patch text %q was accepted", bad)
			}
			if malformed {
				c.Count("malformed texts refused", 1)
			}
		})
	}
	c.Sample(map[string]any{"patch": opsString(ops), "text": text})
}

// ---------------------------------------------------------------- C18

func runC18(c *Ctx) {
	g := docGen(c)
	g.OddKeys = true
	g.Hostile = 0.5 + c.R.Float64()/2
	if g.Small {
		g.Depth = 3
	}
	d := g.root()
	c.Log("document %s", d)
	t := d.toTson()
	all := d.nodes()
	if len(all) > 40 {
		c.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		if len(all) > 200 {
			all = all[:8]
		}
		all = all[:min(len(all), 40)]
	}
	forms := func(p []string) []string {
		f := []string{pointer(p)}
		if s, ok := dotted(p); ok {
			f = append(f, s)
			c.Count("dotted paths", 1)
		}
		return f
	}
	for _, n := range all {
		for _, path := range forms(n.path) {
			var parts []string
			c.Must("SplitPath", func() { parts = tson.SplitPath(path) })
			if !slices.Equal(parts, n.path) {
				c.Fail("wrong-split", "SplitPath(%q) gave %q, expected %q", path, parts, n.path)
			}
			var got tson.Tson
			var err error
			c.Log("read %q", path)
			c.Must("GetValue", func() { got, err = tson.GetValue(t, path) })
			if err != nil {
				c.Fail("not-found", "GetValue(%q) of %s failed: %v", path, d, err)
			}
			if w := diffDoc(fromTson(got), n.d, true); w != "" {
				c.Fail("wrong-node", "GetValue(%q) of %s gave %s, expected %s", path, d, fromTson(got), n.d)
			}
			c.Count("nodes read", 1)
			c.Key(path)
			if len(n.path) == 0 {
				continue
			}
			ops := []Op{{Op: "replace", Path: path, Value: "changed", Timestamp: 4}, {Op: "remove", Path: path, Timestamp: 5}}
			if n.d.K == 'o' { // and a new member of it
				k := g.key()
				ops = append(ops, Op{Op: "add", Path: pointer(append(n.path[:len(n.path):len(n.path)], k)), Value: 1.0, Timestamp: 6})
			}
			for _, op := range ops {
				want, err := applyOp(d, op)
				if err != nil {
					continue
				}
				c.Log("%s", opString(op))
				var res tson.Tson
				c.Must("ApplyOperation", func() { res, err = tsonpatch.ApplyOperation(t, op) })
				if err != nil {
					c.Fail("not-patched", "%s on %s failed: %v", opString(op), d, err)
				}
				if w := diffDoc(fromTson(res), want, true); w != "" {
					c.Fail("wrong-place", "%s on %s: %s", opString(op), d, w)
				}
				c.Count("nodes patched", 1)
				if op.Op != "remove" {
					c.Must("GetValue", func() { got, err = tson.GetValue(res, op.Path) })
					if err != nil || diffDoc(fromTson(got), leafOf(op.Value, op.Timestamp), true) != "" {
						c.Fail("disagree", "after %s, GetValue(%q) gives %v, %v", opString(op), op.Path, got, err)
					}
				}
				// the path a generated patch gives to this change
				if throughArray(d, n.path) && op.Op == "remove" {
					continue
				}
				var p Patch
				c.Must("GeneratePatch", func() {
					if c.R.IntN(2) == 0 {
						p, err = tsonpatch.GeneratePatch(t, want.toTson())
					} else {
						p, err = tsonpatch.GeneratePatchWithTimestamp(t, want.toTson())
					}
				})
				if err != nil {
					c.Fail("not-generated", "no patch from %s to %s: %v", d, want, err)
				}
				for _, q := range p {
					if !samePath(split(q.Path), split(op.Path)) && !related(split(q.Path), split(op.Path)) {
						c.Fail("generated-path", "the patch from %s to %s has the path %q, expected %q", d, want, q.Path, op.Path)
					}
					if q.Path != "" && q.Path[0] != '/' {
						c.Fail("generated-path", "the patch from %s to %s has the path %q, expected %q", d, want, q.Path, op.Path)
					}
				}
				if r, err := applyAll(d, p); err != nil || diffDoc(r, want, false) != "" {
					c.Fail("generated-path", "the patch from %s to %s is %s: %v", d, want, opsString(p), err)
				}
				c.Count("generated paths", len(p))
			}
		}
	}
	// paths that lead nowhere or elsewhere
	for i := 0; i < 6; i++ {
		n := pick(c.R, all)
		p := append([]string(nil), n.path...)
		switch c.R.IntN(4) {
		case 0:
			p = append(p, g.key())
		case 1:
			if len(p) > 0 {
				p[c.R.IntN(len(p))] = g.key()
			}
		case 2:
			p = append(p, "")
		default:
			if len(p) > 1 {
				p = p[1:]
			}
		}
		if oddIndex(d, p) {
			continue
		}
		path := pointer(p)
		want := d.at(p)
		var got tson.Tson
		var err error
		c.Must("GetValue", func() { got, err = tson.GetValue(t, path) })
		if want == nil {
			if err == nil {
				c.Fail("found", "GetValue(%q) of %s gave %s", path, d, fromTson(got))
			}
			c.Count("paths to nothing", 1)
		} else if err != nil || diffDoc(fromTson(got), want, true) != "" {
			c.Fail("wrong-node", "GetValue(%q) of %s gave %v, %v, expected %s", path, d, got, err, want)
		}
	}
	if w := diffDoc(fromTson(t), d, true); w != "" {
		c.Fail("input-changed", "the document changed: %s", w)
	}
	c.Sample(map[string]any{"document": d.String()})
}

func throughArray(d *Doc, path []string) bool {
	for i := range path {
		if x := d.at(path[:i]); x != nil && x.K == 'a' {
			return true
		}
	}
	return false
}

// oddIndex: the path steps into an array by something like "01" or "+1".
func oddIndex(d *Doc, path []string) bool {
	for i, p := range path {
		if x := d.at(path[:i]); x != nil && x.K == 'a' {
			if n, err := strconv.Atoi(p); err == nil && strconv.Itoa(n) != p {
				return true
			}
		}
	}
	return false
}
