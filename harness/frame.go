// Package main is the monitor: it drives the real code of /repo with
// generated workloads and judges what it does against independent models.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime/debug"
	"strings"
)

// Ctx is one case of one property: its random source, its observations
// and its verdict.
type Ctx struct {
	Prop    string
	Index   int
	Thor    bool
	R       *rand.Rand
	Scratch string // a directory of this worker's own

	counts  map[string]int64
	keys    []uint64
	sample  any
	log     []string
	skipped string
}

type violation struct{ key, msg string }
type inconclusive struct{ why string }

// Fail ends the case with a violation. The key identifies the kind of failure.
func (c *Ctx) Fail(key, format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 10000 {
		s = s[:5000] + " ... " + s[len(s)-5000:]
	}
	panic(violation{key, s})
}

// Stop ends the case without a verdict (something the property says nothing about).
func (c *Ctx) Stop(why string) { panic(inconclusive{why}) }

func (c *Ctx) Count(name string, n int) {
	if n != 0 {
		c.counts[name] += int64(n)
	}
}

// Key records a distinct non-trivial observation.
func (c *Ctx) Key(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	c.keys = append(c.keys, h.Sum64())
}

func (c *Ctx) Sample(s any) {
	if m, ok := s.(map[string]any); ok {
		for k, v := range m {
			if v, ok := v.(string); ok && len(v) > 4000 {
				m[k] = v[:4000] + "..."
			}
		}
	}
	c.sample = s
}

// Log notes a step of the case: shown in the replay file.
func (c *Ctx) Log(format string, args ...any) {
	if len(c.log) < 400 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.log = append(c.log, s)
	}
}

// try runs f and returns what it panicked with, if it did.
func try(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case violation, inconclusive:
				panic(r)
			}
			p = r
			if p == nil {
				p = "nil panic"
			}
		}
	}()
	f()
	return nil
}

// Must runs f, an operation the property is about: a panic is a violation.
func (c *Ctx) Must(what string, f func()) {
	if p := try(f); p != nil {
		c.Fail("panic:"+what, "%s panicked: %v", what, p)
	}
}

// Pre runs f, an operation that only prepares the case: if it
// panics the case has no verdict.
func (c *Ctx) Pre(what string, f func()) {
	if p := try(f); p != nil {
		c.Stop(fmt.Sprintf("%s panicked: %v", what, p))
	}
}

// Refused runs f, which has to panic.
func (c *Ctx) Refused(what string, f func()) {
	if p := try(f); p == nil {
		c.Fail("accepted:"+what, "%s was not refused", what)
	}
}

type property struct {
	id       string
	quick    int // cases
	thorough int
	rule     string
	assume   []string
	run      func(c *Ctx)
	needs    []string // counters which must not be zero after a run
	single   bool     // one worker at a time
}

var properties = map[string]*property{}

func register(p *property) { properties[p.id] = p }

type caseResult struct {
	Index int      `json:"index"`
	Key   string   `json:"key"`
	Msg   string   `json:"msg"`
	Log   []string `json:"log"`
}

type workerResult struct {
	Evaluations  int64            `json:"evaluations"`
	Inconclusive int64            `json:"inconclusive"`
	Why          map[string]int64 `json:"why"`
	Counts       map[string]int64 `json:"counts"`
	Keys         []uint64         `json:"keys"`
	Samples      []any            `json:"samples"`
	Violations   []caseResult     `json:"violations"`
}

func seedOf(seed uint64, prop string, index int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", prop, index)
	return rand.New(rand.NewPCG(seed, h.Sum64()))
}

// runCase runs one case and returns its verdict: nil when it held.
func runCase(p *property, c *Ctx) (v *caseResult) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case violation:
			v = &caseResult{c.Index, r.key, r.msg, c.log}
		case inconclusive:
			c.skipped = r.why
		default:
			// A panic that no oracle caught: the harness's own fault or an
			// operation the case does not judge. It has no verdict.
			c.skipped = fmt.Sprintf("uncaught panic: %v\n%s", r, debug.Stack())
		}
	}()
	p.run(c)
	return nil
}

func newCtx(p *property, seed uint64, index int, thor bool, scratch string) *Ctx {
	return &Ctx{Prop: p.id, Index: index, Thor: thor, R: seedOf(seed, p.id, index),
		Scratch: scratch, counts: map[string]int64{}}
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("cannot encode %s: %v", path, err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("cannot write %s: %v", path, err)
	}
}

// fatal ends the run with an error of the check itself: neither held nor violated.
func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", args...)
	os.Exit(2)
}
