package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// readTson is an independent reader of timestamped text: a timestamp follows
// an object key, precedes an array element or the whole, or follows a primitive.
func readTson(s string) (*Doc, error) { return readText(s, false) }

// readText reads timestamped text; strict allows no second timestamp and none without a value.
func readText(s string, strict bool) (d *Doc, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(readErr)
			if !ok {
				panic(r)
			}
			d, err = nil, fmt.Errorf("%s", string(e))
		}
	}()
	p := &reader{s: s, strict: strict}
	d = p.stamped()
	p.ws()
	if p.i < len(p.s) {
		p.fail("text after the document")
	}
	return d, nil
}

type readErr string

type reader struct {
	s      string
	i      int
	strict bool
	stamps bool // whether the value just read had a timestamp
}

func (p *reader) fail(f string, a ...any) {
	panic(readErr(fmt.Sprintf(f, a...) + fmt.Sprintf(" at byte %d", p.i)))
}

func (p *reader) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *reader) peek() byte {
	p.ws()
	if p.i >= len(p.s) {
		p.fail("the end")
	}
	return p.s[p.i]
}

func (p *reader) eat(c byte) bool {
	if p.peek() != c {
		return false
	}
	p.i++
	return true
}

func (p *reader) need(c byte) {
	if !p.eat(c) {
		p.fail("%q instead of %q", p.s[p.i], c)
	}
}

// stamp reads an optional timestamp.
func (p *reader) stamp() (int64, bool) {
	p.ws()
	if p.i >= len(p.s) || p.s[p.i] != '<' {
		return -1, false
	}
	end := strings.IndexByte(p.s[p.i:], '>')
	if end < 0 {
		p.fail("an open timestamp")
	}
	text := p.s[p.i+1 : p.i+end]
	if text == "" {
		p.i += end + 1
		return -1, true
	}
	n, err := strconv.ParseInt(text, 10, 64)
	if err != nil {
		p.fail("%v", err)
	}
	p.i += end + 1
	return n, true
}

// stamped reads a value with a timestamp in front of it or behind it.
func (p *reader) stamped() *Doc {
	ts, ok := p.stamp()
	d := p.value()
	if !ok && d.leaf() {
		ts, ok = p.stamp()
	}
	if p.strict && ok {
		if !d.leaf() {
			p.fail("a timestamp of no value")
		}
		if _, two := p.stamp(); two {
			p.fail("two timestamps")
		}
	}
	if ok && d.leaf() {
		d.T = ts
	}
	p.stamps = ok
	return d
}

func (p *reader) str() string {
	p.need('"')
	start := p.i - 1
	for p.i < len(p.s) && p.s[p.i] != '"' {
		if p.s[p.i] == '\\' {
			p.i++
		}
		p.i++
	}
	if p.i >= len(p.s) {
		p.fail("an open string")
	}
	p.i++
	var s string
	if err := json.Unmarshal([]byte(p.s[start:p.i]), &s); err != nil {
		// the format also writes strings with Go's escapes
		s, err2 := strconv.Unquote(p.s[start:p.i])
		if err2 != nil {
			p.fail("%v", err)
		}
		return s
	}
	return s
}

func (p *reader) value() *Doc {
	switch p.peek() {
	case '{':
		p.i++
		d := &Doc{K: 'o', M: map[string]*Doc{}}
		if p.eat('}') {
			return d
		}
		for {
			k := p.strAt()
			ts, ok := p.stamp()
			p.need(':')
			e := p.stamped()
			if p.strict && ok && (p.stamps || !e.leaf()) {
				p.fail("a second timestamp, or one of no value")
			}
			if ok && e.leaf() {
				e.T = ts
			}
			d.M[k] = e
			if p.eat('}') {
				return d
			}
			p.need(',')
		}
	case '[':
		p.i++
		d := &Doc{K: 'a'}
		if p.eat(']') {
			return d
		}
		for {
			d.A = append(d.A, p.stamped())
			if p.eat(']') {
				return d
			}
			p.need(',')
		}
	case '"':
		return &Doc{K: 's', S: p.str(), T: -1}
	}
	start := p.i
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n,:<>[]{}\"", p.s[p.i]) < 0 {
		p.i++
	}
	var v any
	if err := json.Unmarshal([]byte(p.s[start:p.i]), &v); err != nil {
		p.fail("%v", err)
	}
	return fromAny(v, -1)
}

func (p *reader) strAt() string {
	p.ws()
	return p.str()
}
