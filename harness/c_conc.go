package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

func init() {
	register(&property{id: "C42", quick: 2000, thorough: 60000, run: runC42,
		rule: "2 to 8 goroutines, each with a script of reading calls (write, read, look up, compare, convert, generate, apply) on the same documents, patches and texts, under the race detector; " +
			"every answer compared with the one of the same call alone, at once and again after everything ended; distinct by documents and scripts",
		assume: []string{"the race detector sees the interleavings and accesses that happened in this run"},
		needs: []string{"calls at the same time", "calls alone", "answers looked at again later", "answers scribbled over by their receiver",
			"refusals at the same time", "patches generated at the same time", "patches applied at the same time", "texts read at the same time", "texts written at the same time"}})
}

// reply is what a call gave: what it means, how to look at it again, and
// how its receiver may use it up: append to it, then scribble over it.
type reply struct {
	says  string
	again func() string
	spoil func() (wrong string)
	// extend appends something, to be found there later
	extend func(k int) (there func() bool)
}

// grown appends a mark to every list of an answer; the marks must all stay,
// and the answer must not change by them.
type grown struct{ check []func() bool }

func grow[T any](g *grown, list []T, mark T, same func(a, b T) bool) {
	longer := append(list, mark)
	g.check = append(g.check, func() bool { return same(longer[len(list)], mark) })
}

func (g *grown) lost() string {
	for _, f := range g.check {
		if !f() {
			return "what was appended to one list of the answer was overwritten by what was appended to another"
		}
	}
	return ""
}

type concCall struct {
	name, kind string
	f          func() reply
}

func textAnswer(b []byte, err error, means func(b []byte) string) reply {
	if err != nil {
		return reply{says: "error"}
	}
	again := func() string { return means(b) }
	return reply{again(), again, func() string { scramble(b[:cap(b)]); return "" }, func(k int) func() bool {
		longer := append(b, byte(k))
		return func() bool { return longer[len(b)] == byte(k) }
	}}
}

func docAnswer(t tson.Tson, err error) reply {
	if err != nil {
		return reply{says: "error"}
	}
	again := func() string { return docString(t) }
	return reply{says: again(), again: again}
}

// freshAnswer is one that nothing else can be part of.
func freshAnswer(t tson.Tson, err error) reply {
	a := docAnswer(t, err)
	if a.again != nil {
		a.spoil = func() string {
			var g grown
			growDoc(&g, t)
			wrong := g.lost()
			if now := docString(t); wrong == "" && now != a.says {
				wrong = fmt.Sprintf("appending to its arrays turned %s into %s", a.says, now)
			}
			spoilDoc(t)
			return wrong
		}
	}
	return a
}

func growDoc(g *grown, t tson.Tson) {
	switch t := t.(type) {
	case tson.Object:
		for _, v := range t {
			growDoc(g, v)
		}
	case tson.Array:
		grow(g, t, tson.Value(tson.Leaf[float64]{Value: float64(len(g.check)), Timestamp: 1}), func(a, b tson.Value) bool { return a == b })
		for _, v := range t {
			growDoc(g, v)
		}
	}
}

func growAny(g *grown, o any) {
	switch o := o.(type) {
	case map[string]any:
		for _, v := range o {
			growAny(g, v)
		}
	case []any:
		grow(g, o, any(float64(len(g.check))), func(a, b any) bool { return a == b })
		for _, v := range o {
			growAny(g, v)
		}
	}
}

func spoilDoc(t tson.Tson) {
	switch t := t.(type) {
	case tson.Object:
		for k, v := range t {
			spoilDoc(v)
			delete(t, k)
		}
		t["spoilt"] = nil
	case tson.Array:
		for i, v := range t {
			spoilDoc(v)
			t[i] = tson.Leaf[string]{Value: "spoilt", Timestamp: 1}
		}
	}
}

func meansTson(b []byte) string {
	d, err := readTson(string(b))
	if err != nil {
		return "not readable: " + string(b)
	}
	return d.String()
}

func anyAnswer(o any, err error) reply {
	if err != nil {
		return reply{says: "error"}
	}
	again := func() string { return describe(o) }
	return reply{again(), again, func() string {
		var g grown
		growAny(&g, o)
		wrong := g.lost()
		spoilAny(o)
		return wrong
	}, nil}
}

func spoilAny(o any) {
	switch o := o.(type) {
	case map[string]any:
		for k, v := range o {
			spoilAny(v)
			delete(o, k)
		}
	case []any:
		for i, v := range o {
			spoilAny(v)
			o[i] = "spoilt"
		}
	}
}

// patchAnswer stands for what the patch does to a document.
func patchAnswer(p Patch, err error, means func(p Patch) string) reply {
	if err != nil {
		return reply{says: "error"}
	}
	again := func() string { return means(p) }
	return reply{again(), again, func() string {
		p = p[:cap(p)]
		for i := range p {
			p[i] = Op{Op: "test", Path: "/spoilt", Value: "spoilt", Timestamp: 7}
		}
		return ""
	}, func(k int) func() bool {
		longer := append(p, Op{Op: "add", Path: "/mine", Value: float64(k), Timestamp: 9})
		return func() bool { return longer[len(longer)-1].Value == float64(k) }
	}}
}

func runC42(c *Ctx) {
	g := docGen(c)
	g.Huge = c.R.IntN(200) == 0
	g.OddKeys = c.R.IntN(3) == 0
	type text struct {
		b    []byte
		was  string
		kind string
	}
	var models []*Doc
	var docs []tson.Tson
	var patches []Patch
	var texts []*text
	a, b := pair(c, g)
	models = append(models, a, b)
	if c.R.IntN(2) == 0 {
		models = append(models, g.root())
	}
	for _, d := range models {
		docs = append(docs, d.toTson())
		s := writeTson(d, nil)
		texts = append(texts, &text{[]byte(s), s, "tson"})
		if c.R.IntN(3) == 0 && len(s) > 2 { // cut off: refused
			s = s[:1+c.R.IntN(len(s)-1)]
			texts = append(texts, &text{[]byte(s), s, "tson"})
		}
		if d.K != 'n' {
			j := string(must(json.Marshal(d.toAny())))
			texts = append(texts, &text{[]byte(j), j, "json"})
			p, _ := tson.ToCompatibleTsonBytes(d.toTson())
			texts = append(texts, &text{p, string(p), "pairs"})
		}
	}
	for n := 1 + c.R.IntN(3); n > 0; n-- {
		d := a
		var ops []Op
		for k := 1 + c.R.IntN(5); k > 0; k-- {
			op := g.anyOp(d)
			if d.K == 'o' || d.K == 'a' {
				op = g.validOp(d)
			}
			if c.R.IntN(10) == 0 {
				op = g.badOp(d)
			}
			if nd, err := applyOp(d, op); err == nil {
				d = nd
			}
			ops = append(ops, op)
		}
		p := make(Patch, len(ops), len(ops)+c.R.IntN(6))
		copy(p, ops)
		patches = append(patches, p)
		s := patchJSON(ops)
		texts = append(texts, &text{[]byte(s), s, "patch"})
	}
	state := func() string {
		var s strings.Builder
		for _, d := range docs {
			s.WriteString(docString(d) + "\n")
		}
		for _, p := range patches {
			s.WriteString(opsFull(p[:cap(p)]) + "\n")
		}
		for _, t := range texts {
			s.WriteString(string(t.b) + "\n")
		}
		return s.String()
	}
	before := state()
	c.Log("shared: %s", before)

	var calls []concCall
	add := func(kind, name string, f func() reply) { calls = append(calls, concCall{name, kind, f}) }
	for i, t := range docs {
		d := models[i]
		add("texts written", fmt.Sprintf("Marshal %d", i), func() reply {
			b, err := tson.Marshal(t)
			return textAnswer(b, err, meansTson)
		})
		indent := pick(c.R, []string{"", " ", "\t", "    "})
		add("texts written", fmt.Sprintf("MarshalIndent %d %q", i, indent), func() reply {
			b, err := tson.MarshalIndent(t, "", indent)
			return textAnswer(b, err, meansTson)
		})
		add("texts written", fmt.Sprintf("ToJsonBytes %d", i), func() reply {
			b, err := tson.ToJsonBytes(t)
			return textAnswer(b, err, func(b []byte) string { return describe(jsonAny(b)) })
		})
		add("texts written", fmt.Sprintf("ToCompatibleTsonBytes %d", i), func() reply {
			b, err := tson.ToCompatibleTsonBytes(t)
			return textAnswer(b, err, func(b []byte) string { return describe(jsonAny(b)) })
		})
		add("texts written", fmt.Sprintf("ToCompatibleTsonBytesSorted %d", i), func() reply {
			b, err := tson.ToCompatibleTsonBytesSorted(t)
			return textAnswer(b, err, func(b []byte) string { return string(b) })
		})
		add("texts written", fmt.Sprintf("ToCompatibleTsonString %d", i), func() reply {
			s := tson.ToCompatibleTsonString(t)
			again := func() string { return describe(jsonAny([]byte(s))) }
			return reply{says: again(), again: again}
		})
		add("documents converted", fmt.Sprintf("ToJson %d", i), func() reply {
			var o any
			err := tson.ToJson(t, &o)
			return anyAnswer(o, err)
		})
		add("documents converted", fmt.Sprintf("ToCompatibleTson %d", i), func() reply {
			var o any
			err := tson.ToCompatibleTson(t, &o)
			return anyAnswer(o, err)
		})
		in := d.toAny()
		add("documents converted", fmt.Sprintf("FromJson %d", i), func() reply {
			var o tson.Tson
			err := tson.FromJson(in, &o)
			return freshAnswer(o, err)
		})
		add("lookups", fmt.Sprintf("GetLatestTimestamp %d", i), func() reply {
			n := tson.GetLatestTimestamp(t)
			return reply{says: fmt.Sprint(n)}
		})
		for k, n := range []node{pick(c.R, d.nodes()), pick(c.R, d.nodes())} {
			path := pointer(n.path)
			if k == 1 && c.R.IntN(3) == 0 {
				path += "/no such member"
			}
			add("lookups", fmt.Sprintf("GetValue %d %q", i, path), func() reply {
				v, err := tson.GetValue(t, path)
				if err != nil {
					return reply{says: "error"}
				}
				return reply{says: docString(v)}
			})
			add("lookups", fmt.Sprintf("SplitPath %q", path), func() reply {
				parts := tson.SplitPath(path)
				again := func() string { return fmt.Sprintf("%q", parts) }
				return reply{again(), again, func() string {
					for i := range parts {
						parts[i] = "spoilt"
					}
					return ""
				}, nil}
			})
		}
		for j, u := range docs {
			e := models[j]
			add("documents compared", fmt.Sprintf("Equal %d %d", i, j), func() reply {
				x, err := tson.Equal(t, u)
				y, err2 := tson.EqualWithoutTimestamp(t, u)
				return reply{says: fmt.Sprint(x, err != nil, y, err2 != nil)}
			})
			if len(e.M)+len(e.A)+len(d.M)+len(d.A) > 2000 && i == j {
				continue
			}
			add("patches generated", fmt.Sprintf("GeneratePatch %d %d", i, j), func() reply {
				p, err := tsonpatch.GeneratePatch(t, u)
				return patchAnswer(p, err, func(p Patch) string { return turns(d, p, false) })
			})
			add("patches generated", fmt.Sprintf("GeneratePatchWithTimestamp %d %d", i, j), func() reply {
				p, err := tsonpatch.GeneratePatchWithTimestamp(t, u)
				return patchAnswer(p, err, func(p Patch) string { return turns(d, p, true) })
			})
		}
		for k, p := range patches {
			add("patches applied", fmt.Sprintf("ApplyPatch %d %d", i, k), func() reply { return docAnswer(tsonpatch.ApplyPatch(t, p)) })
			op := pick(c.R, p)
			add("patches applied", fmt.Sprintf("ApplyOperation %d %s", i, opString(op)), func() reply { return docAnswer(tsonpatch.ApplyOperation(t, op)) })
		}
	}
	for k, p := range patches {
		add("texts written", fmt.Sprintf("Patch.String %d", k), func() reply { return reply{says: p.String()} })
		i := c.R.IntN(len(p))
		add("texts written", fmt.Sprintf("Operation.Marshal %d %d", k, i), func() reply {
			b, err := p[i].Marshal()
			return textAnswer(b, err, func(b []byte) string { return string(b) })
		})
	}
	for k, x := range texts {
		switch x.kind {
		case "tson":
			add("texts read", fmt.Sprintf("Unmarshal %d", k), func() reply {
				var t tson.Tson
				err := tson.Unmarshal(x.b, &t)
				return freshAnswer(t, err)
			})
		case "json":
			add("texts read", fmt.Sprintf("FromJsonBytes %d", k), func() reply {
				var t tson.Tson
				err := tson.FromJsonBytes(x.b, &t)
				return freshAnswer(t, err)
			})
		case "pairs":
			add("texts read", fmt.Sprintf("FromCompatibleTsonBytes %d", k), func() reply {
				var t tson.Tson
				err := tson.FromCompatibleTsonBytes(x.b, &t)
				return freshAnswer(t, err)
			})
		case "patch":
			add("texts read", fmt.Sprintf("patch Unmarshal %d", k), func() reply {
				p, err := tsonpatch.Unmarshal(x.b)
				return patchAnswer(p, err, func(p Patch) string { return opsFull(p) })
			})
			j := jsonAny(x.b)
			add("texts read", fmt.Sprintf("patch FromJson %d", k), func() reply {
				p, err := tsonpatch.FromJson(j)
				return patchAnswer(p, err, func(p Patch) string { return opsFull(p) })
			})
		}
	}

	want := make([]string, len(calls))
	ask := func(i int) (a reply) {
		if p := try(func() { a = calls[i].f() }); p != nil {
			a = reply{says: fmt.Sprint("panic ", p)}
		}
		return a
	}
	// each call twice, with the first answer used up in between
	alone := func() {
		var kept []reply
		for i := range calls {
			a := ask(i)
			want[i] = a.says
			if k := i; a.extend != nil { // appended to by its receiver
				more := a.extend(k)
				says, again := a.says, a.again
				a.again = func() string {
					if !more() {
						return says + ", and what its receiver appended is gone"
					}
					return again()
				}
			}
			if a.again != nil {
				kept = append(kept, a)
			}
			c.Count("calls alone", 1)
			if strings.HasPrefix(a.says, "panic") {
				c.Stop(calls[i].name + ": " + a.says) // what C13..C25 are for
			}
		}
		for _, i := range c.R.Perm(len(calls)) {
			a := ask(i)
			if a.says != want[i] {
				c.Fail("answers-differ", "%s: first %s, later %s", calls[i].name, want[i], a.says)
			}
			if a.spoil != nil {
				if w := a.spoil(); w != "" {
					c.Fail("answer-shared", "%s: %s", calls[i].name, w)
				}
				c.Count("answers scribbled over by their receiver", 1)
			}
		}
		for _, a := range kept {
			if now := a.again(); now != a.says {
				c.Fail("answer-changed", "an answer %s became %s through later calls", a.says, now)
			}
			c.Count("answers looked at again later", 1)
		}
		if now := state(); now != before {
			c.Fail("inputs", "reading calls changed the shared inputs from %s to %s", before, now)
		}
	}

	// either may come first: what is kept from call to call is new only once
	first := c.R.IntN(2) == 0
	if first {
		alone()
	}

	// at the same time
	type note struct {
		call  int
		a     reply
		wrong string
		more  func() bool
	}
	n := 2 + c.R.IntN(7)
	per := 5 + c.R.IntN(25)
	few := c.R.IntN(3) == 0 // everyone asks for the same things
	order := make([][]int, n)
	trace := ""
	some := c.R.Perm(len(calls))[:min(len(calls), 1+c.R.IntN(4))]
	for i := range order {
		for k := 0; k < per; k++ {
			j := c.R.IntN(len(calls))
			if few {
				j = pick(c.R, some)
			}
			order[i] = append(order[i], j)
			c.Count(calls[j].kind+" at the same time", 1)
		}
		trace += fmt.Sprint(order[i])
	}
	notes := make([][]note, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range order {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k, j := range order[i] {
				a := ask(j)
				notes[i] = append(notes[i], note{call: j, a: a})
				if first && a.says != want[j] {
					continue
				}
				if a.spoil != nil && k%4 == 3 {
					notes[i][k].wrong = a.spoil()
					notes[i][k].a.again = nil
				} else if a.extend != nil {
					notes[i][k].more = a.extend(i*100 + k)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Count("calls at the same time", n*per)
	if !first {
		alone()
	}
	for i := range notes {
		for _, x := range notes[i] {
			if want[x.call] == "error" {
				c.Count("refusals at the same time", 1)
			}
			if x.a.says != want[x.call] {
				c.Fail("answers-differ", "goroutine %d, %s: alone %s, with others %s", i, calls[x.call].name, want[x.call], x.a.says)
			}
			if x.wrong != "" {
				c.Fail("answer-shared", "goroutine %d, %s: %s", i, calls[x.call].name, x.wrong)
			}
			if x.more != nil && !x.more() {
				c.Fail("answer-shared", "goroutine %d, %s: what it appended to its answer was overwritten", i, calls[x.call].name)
			}
			if x.a.again != nil {
				if now := x.a.again(); now != x.a.says {
					c.Fail("answer-changed", "goroutine %d, %s: %s became %s while others went on", i, calls[x.call].name, x.a.says, now)
				}
				c.Count("answers looked at again later", 1)
			}
		}
	}
	if now := state(); now != before {
		c.Fail("inputs", "reading calls at the same time changed the shared inputs from %s to %s", before, now)
	}
	c.Key(before, trace)
	c.Sample(map[string]any{"goroutines": n, "calls each": per, "first": calls[order[0][0]].name + " -> " + trim(want[order[0][0]], 200)})
}

// turns is what a patch makes of a document, by the model.
func turns(d *Doc, p Patch, ts bool) string {
	got, err := applyAll(d, p)
	if err != nil {
		return "not applicable"
	}
	if !ts {
		got = got.clone()
		got.walk(nil, func(_ []string, n *Doc) { n.T = 0 })
	}
	return got.String()
}

func jsonAny(b []byte) (o any) {
	if err := json.Unmarshal(b, &o); err != nil {
		return "not JSON: " + string(b)
	}
	return o
}
