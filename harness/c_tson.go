package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/CAU-CPSS/logument/internal/tson"
)

func init() {
	register(&property{id: "C40", quick: 300000, thorough: 3000000, run: runC40,
		rule:  "random documents, as in C19, written compactly and with white-space prefixes and indents, the texts read by an independent reader that takes nothing but the grammar, and their layout checked byte by byte; distinct by document",
		needs: []string{"compact texts", "indented texts", "indented lines", "JSON-like documents"}})
	register(&property{id: "C19", quick: 300000, thorough: 3000000, run: runC19,
		rule:  "random documents (hostile strings and keys, invalid UTF-8, numbers of every magnitude, every timestamp), written compactly and indented, read back; distinct by document",
		needs: []string{"compact texts read back", "indented texts read back", "negative timestamps"}})
	register(&property{id: "C20", quick: 180000, thorough: 2000000, run: runC20,
		rule:  "all sequences of up to 5 tokens (thorough: 6) of the three formats, mutated, truncated and extended documents, random bytes, deep nesting, given to the three readers; whatever is accepted is written and read back; distinct by text",
		needs: []string{"texts refused", "texts accepted and written back", "token sequences", "truncated texts refused", "deeply nested texts"}})
	register(&property{id: "C21", quick: 300000, thorough: 3000000, run: runC21,
		rule:  "random documents written by the documented grammar with random placement of timestamps, white space, escapes and number spellings, read and compared; distinct by text",
		needs: []string{"texts read", "timestamps after keys", "timestamps before elements", "timestamps after values", "omitted timestamps", "escapes", "exponents"}})
	register(&property{id: "C22", quick: 240000, thorough: 2000000, run: runC22,
		rule:  "random documents (64-bit timestamps, members named value and timestamp, nulls, empty containers), converted in every way, the text checked independently and read back; distinct by document",
		needs: []string{"texts read back", "objects compared", "sorted texts compared"}})
	register(&property{id: "C23", quick: 240000, thorough: 2000000, run: runC23,
		rule:  "random documents and JSON values of every kind, converted both ways by bytes and by object, inputs compared with copies; distinct by document",
		needs: []string{"documents to JSON", "JSON to documents", "top-level primitives", "arrays of leaves converted"}})
	register(&property{id: "C24", quick: 300000, thorough: 3000000, run: runC24,
		rule:  "pairs of documents: the same built anew, a single small edit apart, several edits apart, unrelated; both equality tests against an independent comparison; distinct by pair",
		needs: []string{"equal pairs", "unequal pairs", "pairs differing in timestamps only", "documents refused"}})
	register(&property{id: "C25", quick: 240000, thorough: 2000000, run: runC25,
		rule:  "random documents, every node and near-miss paths looked up, latest timestamp of every node; distinct by document and path",
		needs: []string{"nodes looked up", "lookups refused", "latest timestamps"}})
}

// normTS is what a document reads like once written: negative timestamps are -1.
func normTS(d *Doc) *Doc {
	d = d.clone()
	d.walk(nil, func(_ []string, n *Doc) {
		if n.leaf() && n.T < 0 {
			n.T = -1
		}
	})
	return d
}

func tsonGen(c *Ctx, bad bool) *Gen {
	g := docGen(c)
	g.OddKeys = true
	g.Huge = true
	g.Bad = bad && c.R.IntN(2) == 0
	if c.R.IntN(3) == 0 {
		g.Hostile = c.R.Float64()
	}
	return g
}

func scramble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

// ---------------------------------------------------------------- C19

func runC19(c *Ctx) {
	g := tsonGen(c, true)
	g.Flat = c.R.IntN(5) != 0 // the time of laying it out grows with the square of the depth
	d := g.root()
	want := normTS(d)
	t := d.toTson()
	c.Log("document %s", d)
	if want.String() != d.String() {
		c.Count("negative timestamps", 1)
	}
	read := func(what string, text []byte) {
		c.Log("%s: %q", what, text)
		var got tson.Tson
		if c.R.IntN(3) == 0 {
			got = tson.Object{"old": nil}
		}
		keep := append([]byte(nil), text...)
		c.Must("Unmarshal", func() {
			if err := tson.Unmarshal(text, &got); err != nil {
				c.Fail("not-read", "%s of %s gave %q, which is not read: %v", what, d, keep, err)
			}
		})
		if !bytes.Equal(text, keep) {
			c.Fail("text-changed", "reading changed the text")
		}
		scramble(text)
		if w := diffDoc(fromTson(got), want, true); w != "" {
			c.Fail("changed", "%s of %s gave %q, read back: %s", what, d, keep, w)
		}
	}
	c.Must("Marshal", func() {
		text, err := tson.Marshal(t)
		if err != nil {
			c.Fail("not-written", "Marshal of %s failed: %v", d, err)
		}
		read("Marshal", text)
		c.Count("compact texts read back", 1)
	})
	if !g.Flat {
		return
	}
	for n := 0; n < 2; n++ {
		prefix := strings.Join(picks(c, []string{" ", "\t", "\n", "\r", "  "}, c.R.IntN(3)), "")
		indent := strings.Join(picks(c, []string{" ", "\t", "\n", "\r", "    "}, c.R.IntN(3)), "")
		if c.R.IntN(20) == 0 {
			indent = strings.Repeat(indent, c.R.IntN(20))
		}
		c.Must("MarshalIndent", func() {
			text, err := tson.MarshalIndent(t, prefix, indent)
			if err != nil {
				c.Fail("not-written", "MarshalIndent of %s failed: %v", d, err)
			}
			read(fmt.Sprintf("MarshalIndent(%q,%q)", prefix, indent), text)
			c.Count("indented texts read back", 1)
		})
	}
	if w := diffDoc(fromTson(t), d, true); w != "" {
		c.Fail("input-changed", "writing changed the document: %s", w)
	}
	// MarshalIndent also writes JSON-like documents, with and without timestamps
	if c.R.IntN(3) == 0 {
		what, like := "MarshalIndent of the value/timestamp form", stampedAs(d.pairAny(), c.R.IntN(4))
		if c.R.IntN(3) == 0 && !pairLike(d) {
			what, like = "MarshalIndent of the JSON form", d.toAny()
			want = want.clone()
			want.walk(nil, func(_ []string, n *Doc) { n.T = -1 })
		}
		before := describe(like)
		c.Must("MarshalIndent", func() {
			text, err := tson.MarshalIndent(like, "", pick(c.R, []string{"", " ", "\t", "    "}))
			if err != nil {
				c.Fail("not-written", "%s of %s failed: %v", what, d, err)
			}
			read(what, text)
			c.Count("JSON-like documents read back", 1)
		})
		if describe(like) != before {
			c.Fail("input-changed", "writing changed the JSON-like document")
		}
	}
	c.Key(d)
	c.Sample(map[string]any{"document": d.String()})
}

// stampedAs gives the timestamps of a value/timestamp form the kind int64, int, (where it fits) float64 or json.Number.
func stampedAs(v any, kind int) any {
	switch v := v.(type) {
	case map[string]any:
		for k, e := range v {
			if num, ok := e.(json.Number); ok && k == "timestamp" {
				n, _ := num.Int64()
				switch {
				case kind == 1:
					v[k] = int(n)
				case kind == 2 && n < 1<<53 && n > -1<<53:
					v[k] = float64(n)
				case kind < 3:
					v[k] = n
				}
			} else {
				stampedAs(e, kind)
			}
		}
	case []any:
		for _, e := range v {
			stampedAs(e, kind)
		}
	}
	return v
}

// pairLike reports whether an object of the document looks like a value with its timestamp.
func pairLike(d *Doc) bool {
	found := false
	d.walk(nil, func(_ []string, n *Doc) {
		if n.K == 'o' && len(n.M) == 2 && n.M["value"] != nil && n.M["timestamp"] != nil {
			found = true
		}
	})
	return found
}

func picks(c *Ctx, from []string, n int) (out []string) {
	for ; n > 0; n-- {
		out = append(out, pick(c.R, from))
	}
	return out
}

// ---------------------------------------------------------------- C40

// layout checks that a text has the layout of encoding/json's indenting: every
// member and element on a line of its own, after the prefix and an indent per level.
func layout(s, prefix, indent string) string {
	depth := 0
	line := func(i int) string { // what follows i must be a new line of this depth
		lead := "\n" + prefix + strings.Repeat(indent, depth)
		if !strings.HasPrefix(s[i:], lead) {
			return fmt.Sprintf("a line does not start with the prefix and %d indents at byte %d", depth, i)
		}
		if n := i + len(lead); n < len(s) && strings.IndexByte(" \t\n\r", s[n]) >= 0 {
			return fmt.Sprintf("the indent of %d levels is too long at byte %d", depth, i)
		}
		return ""
	}
	for i := 0; i < len(s); i++ {
		w := ""
		switch s[i] {
		case '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case '{', '[':
			rest := strings.TrimLeft(s[i+1:], " \t\n\r")
			if rest != "" && (rest[0] == '}' || rest[0] == ']') { // empty: in any way
				i = len(s) - len(rest)
				break
			}
			depth++
			if w = line(i + 1); w == "" {
				i += 1 + len(prefix) + depth*len(indent)
			}
		case '}', ']':
			depth--
			lead := "\n" + prefix + strings.Repeat(indent, depth)
			if !strings.HasSuffix(s[:i], lead) || strings.HasSuffix(strings.TrimSuffix(s[:i], lead), "\n") {
				w = fmt.Sprintf("a closing bracket is not on a line of its own, at %d indents, at byte %d", depth, i)
			}
		case ',':
			if w = line(i + 1); w == "" {
				i += 1 + len(prefix) + depth*len(indent)
			}
		case '\n', '\r', '\t':
			if rest := strings.TrimLeft(s[i:], " \t\n\r"); rest == "" || rest[0] != '}' && rest[0] != ']' {
				w = fmt.Sprintf("a line breaks within a member at byte %d", i)
			}
		}
		if w != "" {
			return w
		}
	}
	return ""
}

func runC40(c *Ctx) {
	g := tsonGen(c, true)
	g.Flat = true // the time of laying it out grows with the square of the depth
	d := g.root()
	want := normTS(d)
	t := d.toTson()
	c.Log("document %s", d)
	read := func(what string, text []byte, want *Doc) {
		got, err := readText(string(text), true)
		if err != nil {
			c.Fail("grammar", "%s of %s gave %q, which is not of the grammar: %v", what, d, text, err)
		}
		if w := diffDoc(got, want, true); w != "" {
			c.Fail("meaning", "%s of %s gave %q, which means another document: %s", what, d, text, w)
		}
	}
	c.Must("Marshal", func() {
		text, err := tson.Marshal(t)
		if err != nil {
			c.Fail("not written", "Marshal of %s failed: %v", d, err)
		}
		read("Marshal", text, want)
		c.Count("compact texts", 1)
	})
	blank := func() string {
		return strings.Join(picks(c, []string{" ", "\t", "  ", "    "}, c.R.IntN(4)), "")
	}
	write := func(what string, v any, want *Doc) {
		prefix, indent := blank(), blank()
		if c.R.IntN(4) == 0 {
			prefix, indent = "", "  "
		}
		c.Must(what, func() {
			text, err := tson.MarshalIndent(v, prefix, indent)
			if err != nil {
				c.Fail("not written", "%s of %s failed: %v", what, d, err)
			}
			read(what, text, want)
			if w := layout(string(text), prefix, indent); w != "" {
				c.Fail("layout", "%s of %s with prefix %q and indent %q gave %q: %s", what, d, prefix, indent, text, w)
			}
		})
		c.Count("indented texts", 1)
		c.Count("indented lines", lines(d))
	}
	write("MarshalIndent", t, want)
	if c.R.IntN(3) == 0 {
		if c.R.IntN(3) == 0 && !pairLike(d) {
			want = want.clone()
			want.walk(nil, func(_ []string, n *Doc) { n.T = -1 })
			write("MarshalIndent of the JSON form", d.toAny(), want)
		} else {
			write("MarshalIndent of the value/timestamp form", stampedAs(d.pairAny(), c.R.IntN(4)), want)
		}
		c.Count("JSON-like documents", 1)
	}
	c.Key(d)
	c.Sample(map[string]any{"document": d.String()})
}

func lines(d *Doc) (n int) {
	d.walk(nil, func([]string, *Doc) { n++ })
	return n
}

// ---------------------------------------------------------------- C20

// structured reports whether a text can be a document at all: one value with
// balanced brackets, every separator and terminated strings. It is generous:
// words and timestamps may be anything.
func structured(s string) bool {
	p := &scan{s: s}
	if !p.value(0) {
		return false
	}
	p.ws()
	return p.i == len(s)
}

type scan struct {
	s string
	i int
}

func (p *scan) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *scan) eat(c byte) bool {
	p.ws()
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *scan) str() bool {
	if !p.eat('"') {
		return false
	}
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case '\\':
			p.i++
		case '"':
			p.i++
			return true
		}
		p.i++
	}
	return false
}

func (p *scan) stamps() bool {
	for p.eat('<') {
		start := p.i
		for p.i < len(p.s) && strings.IndexByte("0123456789 \t\r\n+-", p.s[p.i]) >= 0 {
			p.i++
		}
		if t := strings.Trim(p.s[start:p.i], " \t\r\n"); t != "" {
			if _, err := strconv.ParseInt(t, 10, 64); err != nil {
				return false
			}
		}
		if !p.eat('>') {
			return false
		}
	}
	return true
}

func (p *scan) value(depth int) bool {
	if depth > 20000 {
		return true
	}
	if !p.stamps() {
		return false
	}
	p.ws()
	if p.i >= len(p.s) {
		return false
	}
	switch p.s[p.i] {
	case '{':
		p.i++
		if p.eat('}') {
			return p.stamps()
		}
		for {
			if !p.str() || !p.stamps() || !p.eat(':') || !p.value(depth+1) {
				return false
			}
			if p.eat(',') {
				continue
			}
			return p.eat('}') && p.stamps()
		}
	case '[':
		p.i++
		if p.eat(']') {
			return p.stamps()
		}
		for {
			if !p.value(depth + 1) {
				return false
			}
			if p.eat(',') {
				continue
			}
			return p.eat(']') && p.stamps()
		}
	case '"':
		return p.str() && p.stamps()
	}
	start := p.i
	for p.i < len(p.s) && strings.IndexByte("{}[]\",:<> \t\r\n", p.s[p.i]) < 0 {
		p.i++
	}
	switch word := p.s[start:p.i]; word {
	case "true", "false", "null":
	default:
		if !numeral.MatchString(word) {
			return false
		}
		if _, err := strconv.ParseFloat(word, 64); err != nil {
			return false
		}
	}
	return p.stamps()
}

var numeral = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

var tokens = []string{"{", "}", "[", "]", `"a"`, ":", ",", "<5>", "<", ">", "1", "true", "null", `"`, " ", `"value":1`, `"timestamp":2`}

// readAll gives one text to the three readers and judges what they do.
func readAll(c *Ctx, text string, kinds int) {
	check := func(name string, malformed bool, read func(b []byte, t *tson.Tson) error, write func(t tson.Tson) ([]byte, error), norm bool) {
		var got tson.Tson
		var err error
		if p := try(func() { err = read([]byte(text), &got) }); p != nil {
			c.Fail("panic:"+name, "reading %q by %s panicked: %v", trim(text, 300), name, p)
		}
		if err != nil {
			c.Count("texts refused", 1)
			return
		}
		if malformed {
			c.Fail("accepted:"+name, "malformed text %q was accepted by %s as %s", trim(text, 300), name, trim(fromTson(got).String(), 300))
		}
		var again tson.Tson
		var out []byte
		if p := try(func() {
			if out, err = write(got); err == nil {
				err = read(append([]byte(nil), out...), &again)
			}
		}); p != nil {
			c.Fail("panic:"+name, "writing and reading back %q (%s) panicked: %v", trim(text, 300), name, p)
		}
		if err != nil {
			c.Fail("not-rewritten:"+name, "%q was accepted by %s as %s, but writing that and reading it back fails: %v", trim(text, 300), name, trim(fromTson(got).String(), 300), err)
		}
		if w := diffDoc(fromTson(again), fromTson(got), true); w != "" {
			c.Fail("not-stable:"+name, "%q was accepted by %s, written as %q and read back: %s", trim(text, 300), name, trim(string(out), 300), w)
		}
		c.Count("texts accepted and written back", 1)
	}
	if kinds&1 != 0 {
		check("Unmarshal", !structured(text), tson.Unmarshal, tson.Marshal, true)
	}
	if kinds&2 != 0 {
		check("FromJsonBytes", !json.Valid([]byte(text)), tson.FromJsonBytes, tson.ToJsonBytes, false)
	}
	if kinds&4 != 0 {
		check("FromCompatibleTsonBytes", !json.Valid([]byte(text)), tson.FromCompatibleTsonBytes, tson.ToCompatibleTsonBytes, false)
	}
}

func runC20(c *Ctx) {
	nt := len(tokens)
	if c.Index < nt*nt { // all sequences beginning with these two tokens
		first, second := tokens[c.Index/nt], tokens[c.Index%nt]
		depth := 5
		if c.Thor {
			depth = 6
		}
		n := 0
		var rec func(s string, left int)
		rec = func(s string, left int) {
			readAll(c, s, 7)
			n++
			if left == 0 {
				return
			}
			for _, t := range tokens {
				rec(s+t, left-1)
			}
		}
		if c.Index%nt == 0 {
			readAll(c, first, 7)
		}
		rec(first+second, depth-2)
		c.Count("token sequences", n)
		c.Key("tokens", c.Index)
		return
	}
	k := c.Index - nt*nt
	if k < 12 { // deep nesting
		n := []int{9000, 20000, 200000, 10000000}[k/3]
		var text string
		switch k % 3 {
		case 0:
			text = strings.Repeat("[", n)
		case 1:
			text = strings.Repeat(`{"a":`, n)
		default:
			text = strings.Repeat(`[{"a":`, n/2) + "1" + strings.Repeat("}]", n/2)
		}
		if n >= 1000000 || k%3 != 2 {
			readAll(c, text, 7)
		} else { // closed: may be accepted, writing it back takes long
			for _, read := range []func([]byte, *tson.Tson) error{tson.Unmarshal, tson.FromJsonBytes, tson.FromCompatibleTsonBytes} {
				var t tson.Tson
				if p := try(func() { _ = read([]byte(text), &t) }); p != nil {
					c.Fail("panic:deep", "reading %d levels panicked: %v", n, p)
				}
			}
		}
		c.Count("deeply nested texts", 1)
		c.Key("deep", k)
		return
	}
	g := tsonGen(c, true)
	g.Huge = false
	d := g.root()
	var text string
	kinds := 1
	switch c.R.IntN(5) {
	case 0:
		b, _ := json.Marshal(d.toAny())
		text, kinds = string(b), 2
	case 1:
		b, _ := json.Marshal(d.pairAny())
		text, kinds = string(b), 6
	case 2:
		var b []byte
		_ = try(func() { b, _ = tson.Marshal(d.toTson()) })
		text = string(b)
	default:
		text = (&writer{g: g}).write(normTS(d))
	}
	if len(text) == 0 {
		text = "{}"
	}
	c.Log("from %q", text)
	for n := 0; n < 12; n++ {
		bad := text
		switch c.R.IntN(9) {
		case 0: // cut short
			bad = bad[:c.R.IntN(len(bad))]
			if d.container() {
				before := c.counts["texts refused"]
				readAll(c, bad, kinds)
				if c.counts["texts refused"] == before && strings.TrimRight(text, " \t\r\n") != strings.TrimRight(bad, " \t\r\n") {
					c.Fail("cut-short", "%q, %q cut short, was accepted", bad, text)
				}
				c.Count("truncated texts refused", 1)
				continue
			}
		case 1: // something after it
			bad = bad + pick(c.R, []string{"", " ", "\n"}) + pick(c.R, []string{"x", "}", "]", ",", "{}", "[]", "1", "null", "\"", ":", "<5>", "\x00", "true", "//", text, "\xff", "\v", "\u00a0"})
		case 2: // one token less
			i := c.R.IntN(len(bad))
			for j := 0; j < len(bad); j++ {
				if k := (i + j) % len(bad); strings.IndexByte("{}[]\",:<>", bad[k]) >= 0 {
					bad = bad[:k] + bad[k+1:]
					break
				}
			}
		case 3: // one token more
			i := c.R.IntN(len(bad) + 1)
			bad = bad[:i] + pick(c.R, tokens) + bad[i:]
		case 4: // a byte changed
			i := c.R.IntN(len(bad))
			bad = bad[:i] + string([]byte{byte(c.R.IntN(256))}) + bad[i+1:]
		case 5: // a piece moved
			i, j := c.R.IntN(len(bad)+1), c.R.IntN(len(bad)+1)
			if i > j {
				i, j = j, i
			}
			k := c.R.IntN(len(bad) + 1)
			bad = bad[:k] + bad[i:j] + bad[k:]
		case 6: // escapes, numbers and timestamps spelled wrongly
			i := c.R.IntN(len(bad) + 1)
			bad = bad[:i] + pick(c.R, []string{`\`, `\u`, `\u12`, `\ud800`, `\udc00\ud800`, `\x`, `\xf`, `\U0011ffff`, `\Uffffffff`, `\q`, "1e", "1e999", "-", "--1", ".", "1.", "0x1", "+1", "00", "NaN", "Infinity",
				"<99999999999999999999>", "<9223372036854775808>", "<18446744073709551617>", "<-1>", "1-", "1e+", "1e5e5", "1.5.5", "truefalse", "nulll", "-true", "<1", "<a>", "<1.5>", "<>", "<<", ">>", "tru", "nul", "fals", "TRUE", "'"}) + bad[i:]
		case 7: // random bytes
			b := make([]byte, c.R.IntN(20))
			for i := range b {
				b[i] = byte(c.R.Uint32())
				if c.R.IntN(2) == 0 {
					const soup = "{}[]\",:<>0123456789eE+-.tfn\\u "
					b[i] = soup[c.R.IntN(len(soup))]
				}
			}
			bad = string(b)
		default:
			var b strings.Builder
			for i := c.R.IntN(25); i > 0; i-- {
				b.WriteString(pick(c.R, tokens))
			}
			bad = b.String()
		}
		readAll(c, bad, 7)
		c.Key(bad)
	}
	c.Sample(map[string]any{"text": text})
}

// ---------------------------------------------------------------- C21

// writer writes documents by the documented grammar in any of the spellings it allows.
type writer struct {
	g       *Gen
	b       strings.Builder
	counted func(name string, n int)
}

func (w *writer) count(name string) {
	if w.counted != nil {
		w.counted(name, 1)
	}
}

func (w *writer) ws() {
	for w.g.R.IntN(3) == 0 {
		space := pick(w.g.R, []string{" ", "\n", "\t", "\r", "  ", "\r\n"})
		if w.g.R.IntN(10000) == 0 {
			space = strings.Repeat(space, 1<<w.g.R.IntN(13))
		}
		w.b.WriteString(space)
	}
}

func (w *writer) write(d *Doc) string {
	w.b.Reset()
	w.ws()
	w.value(d, 0)
	w.ws()
	return w.b.String()
}

// stamp writes a timestamp; -1 is written as nothing or as empty brackets.
func (w *writer) stamp(t int64) {
	if t == -1 {
		w.b.WriteString("<>")
		w.count("omitted timestamps")
		return
	}
	fmt.Fprintf(&w.b, "<%d>", t)
}

const (
	inTop = iota
	inObject
	inArray
)

func (w *writer) value(d *Doc, ctx int) {
	switch d.K {
	case 'n':
		w.b.WriteString("null")
	case 'o':
		w.b.WriteByte('{')
		ks := d.keys()
		w.g.R.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for i, k := range ks {
			if i > 0 {
				w.b.WriteByte(',')
			}
			w.ws()
			w.str(k)
			w.ws()
			e := d.M[k]
			after := e
			if e.leaf() && (w.g.R.IntN(2) == 0) {
				if e.T != -1 || w.g.R.IntN(2) == 0 {
					w.stamp(e.T)
					w.count("timestamps after keys")
					w.ws()
				} else {
					w.count("omitted timestamps")
				}
				after = &Doc{K: e.K, S: e.S, F: e.F, B: e.B, T: -2} // written
			}
			w.b.WriteByte(':')
			w.ws()
			w.value(after, inObject)
			w.ws()
		}
		if len(ks) == 0 {
			w.ws()
		}
		w.b.WriteByte('}')
	case 'a':
		w.b.WriteByte('[')
		for i, e := range d.A {
			if i > 0 {
				w.b.WriteByte(',')
			}
			w.ws()
			after := e
			if e.leaf() && w.g.R.IntN(2) == 0 {
				if e.T != -1 || w.g.R.IntN(2) == 0 {
					w.stamp(e.T)
					w.count("timestamps before elements")
					w.ws()
				} else {
					w.count("omitted timestamps")
				}
				after = &Doc{K: e.K, S: e.S, F: e.F, B: e.B, T: -2}
			}
			w.value(after, inArray)
			w.ws()
		}
		if len(d.A) == 0 {
			w.ws()
		}
		w.b.WriteByte(']')
	default:
		switch d.K {
		case 's':
			w.str(d.S)
		case 'f':
			w.num(d.F)
		default:
			w.b.WriteString(strconv.FormatBool(d.B))
		}
		if d.T == -2 { // no timestamp after it
			return
		}
		if d.T != -1 || w.g.R.IntN(2) == 0 {
			w.ws()
			w.stamp(d.T)
			w.count("timestamps after values")
		} else {
			w.count("omitted timestamps")
		}
	}
}

func (w *writer) str(s string) {
	w.b.WriteByte('"')
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n <= 1 { // as it is
			w.b.WriteString(s[i : i+1])
			i++
			continue
		}
		i += n
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\b': `\b`, '\f': `\f`, '/': `\/`}[r]
		must := r < 0x20 || r == '"' || r == '\\'
		switch {
		case short != "" && (must || w.g.R.IntN(3) == 0) && w.g.R.IntN(4) != 0:
			w.b.WriteString(short)
			w.count("escapes")
		case must || w.g.R.IntN(8) == 0:
			f := `\u%04x`
			if w.g.R.IntN(2) == 0 {
				f = `\u%04X`
			}
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(&w.b, f+f, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			} else {
				fmt.Fprintf(&w.b, f, r)
			}
			w.count("escapes")
		default:
			w.b.WriteRune(r)
		}
	}
	w.b.WriteByte('"')
}

func (w *writer) num(f float64) {
	var s string
	switch w.g.R.IntN(6) {
	case 0:
		s = strconv.FormatFloat(f, 'e', -1, 64)
	case 1:
		s = strconv.FormatFloat(f, 'E', -1, 64)
	case 2:
		s = strconv.FormatFloat(f, 'f', -1, 64)
	case 3: // the exponent without sign or padding
		s = strings.Replace(strings.Replace(strconv.FormatFloat(f, 'e', -1, 64), "e+0", "e", 1), "e+", "E", 1)
	case 4:
		s = strconv.FormatFloat(f, 'g', -1, 64)
	default:
		b, _ := json.Marshal(f)
		s = string(b)
	}
	switch w.g.R.IntN(30) {
	case 0: // more digits than are needed
		s = strconv.FormatFloat(f, 'e', 17+w.g.R.IntN(1<<w.g.R.IntN(10)), 64)
	case 1: // the same shifted
		if i := strings.IndexAny(s, "eE"); i < 0 {
			s = strings.TrimSuffix(s, ".")
			if j := strings.IndexByte(s, '.'); j >= 0 && s[j-1] != '0' {
				k := len(s) - j - 1
				s = s[:j] + s[j+1:] + fmt.Sprintf("e-%0*d", 1+w.g.R.IntN(4), k)
			} else if j < 0 && s != "0" && s != "-0" {
				k := w.g.R.IntN(1 << w.g.R.IntN(9))
				s += strings.Repeat("0", k) + fmt.Sprintf("E-%d", k)
			}
		}
	case 2: // zeros at the end
		if strings.Contains(s, ".") && !strings.ContainsAny(s, "eE") {
			s += strings.Repeat("0", 1<<w.g.R.IntN(10))
		}
	}
	if !strings.ContainsAny(s, ".eE") && w.g.R.IntN(4) == 0 {
		s += pick(w.g.R, []string{".0", ".000", "e0", "E+0", "e-0", ".0e00"})
	}
	if strings.ContainsAny(s, "eE") {
		w.count("exponents")
	}
	w.b.WriteString(s)
}

func runC21(c *Ctx) {
	g := tsonGen(c, false)
	d := normTS(g.root())
	w := &writer{g: g, counted: c.Count}
	for n := 0; n < 3; n++ {
		text := w.write(d)
		c.Log("text %q", text)
		var got tson.Tson
		c.Must("Unmarshal", func() {
			if err := tson.Unmarshal([]byte(text), &got); err != nil {
				c.Fail("refused", "%q was refused: %v", text, err)
			}
		})
		if x := diffDoc(fromTson(got), d, true); x != "" {
			c.Fail("misread", "%q was read as %s: %s", text, fromTson(got), x)
		}
		c.Count("texts read", 1)
		c.Key(text)
		if n == 0 {
			c.Sample(map[string]any{"text": text, "document": d.String()})
		}
	}
}

// ---------------------------------------------------------------- C22

func readPairs(c *Ctx, text []byte) any {
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		c.Fail("invalid-json", "invalid JSON %q: %v", text, err)
	}
	return v
}

// fromPairs reads the pair form by the model of the document (a pair and an
// object with these members are told apart by what the document has there).
func pairsDiffer(v any, d *Doc, at string) string {
	bad := func() string { return fmt.Sprintf("at %q: %v, expected %s", at, v, d) }
	switch d.K {
	case 'n':
		if v != nil {
			return bad()
		}
	case 'o':
		m, ok := v.(map[string]any)
		if !ok || len(m) != len(d.M) {
			return bad()
		}
		for k, e := range d.M {
			x, ok := m[k]
			if !ok {
				return bad()
			}
			if w := pairsDiffer(x, e, at+"/"+k); w != "" {
				return w
			}
		}
	case 'a':
		a, ok := v.([]any)
		if !ok || len(a) != len(d.A) {
			return bad()
		}
		for i, e := range d.A {
			if w := pairsDiffer(a[i], e, at+"/"+strconv.Itoa(i)); w != "" {
				return w
			}
		}
	default:
		m, ok := v.(map[string]any)
		if !ok || len(m) != 2 {
			return bad()
		}
		var ts string
		switch t := m["timestamp"].(type) {
		case json.Number:
			ts = t.String()
		case float64:
			ts = strconv.FormatFloat(t, 'f', -1, 64)
		case int64:
			ts = strconv.FormatInt(t, 10)
		}
		if ts != strconv.FormatInt(d.T, 10) {
			return bad()
		}
		x := fromAny(m["value"], d.T)
		if diffDoc(x, d, true) != "" {
			return bad()
		}
	}
	return ""
}

func runC22(c *Ctx) {
	g := tsonGen(c, false)
	d := g.root()
	if c.R.IntN(4) == 0 { // look-alikes of a pair
		x := &Doc{K: 'o', M: map[string]*Doc{"value": g.doc(1), "timestamp": g.doc(1)}}
		switch c.R.IntN(4) {
		case 0:
			x.M["value"] = null()
		case 1:
			x.M["timestamp"] = null()
		case 2:
			x = &Doc{K: 'a', A: []*Doc{x, g.leaf()}}
		}
		if d.K == 'o' {
			d.M[g.key()] = x
		} else {
			d = x
		}
	}
	t := d.toTson()
	c.Log("document %s", d)
	texts := map[string][]byte{}
	c.Must("converting", func() {
		var err error
		if texts["ToCompatibleTsonBytes"], err = tson.ToCompatibleTsonBytes(t); err != nil {
			c.Fail("error", "ToCompatibleTsonBytes of %s failed: %v", d, err)
		}
		if texts["ToCompatibleTsonBytesSorted"], err = tson.ToCompatibleTsonBytesSorted(t); err != nil {
			c.Fail("error", "ToCompatibleTsonBytesSorted of %s failed: %v", d, err)
		}
		texts["ToCompatibleTsonString"] = []byte(tson.ToCompatibleTsonString(t))
	})
	for _, name := range sortedKeys(texts) {
		text := texts[name]
		if !json.Valid(text) {
			c.Fail("invalid-json", "%s of %s gave %q", name, d, text)
		}
		if w := pairsDiffer(readPairs(c, text), d, ""); w != "" {
			c.Fail("lost", "%s of %s gave %q: %s", name, d, text, w)
		}
		keep := append([]byte(nil), text...)
		var got tson.Tson
		c.Must("FromCompatibleTsonBytes", func() {
			if err := tson.FromCompatibleTsonBytes(text, &got); err != nil {
				c.Fail("not-read", "%q is not read back: %v", text, err)
			}
		})
		scramble(text)
		if w := diffDoc(fromTson(got), d, true); w != "" {
			c.Fail("changed", "%s of %s gave %q, read back: %s", name, d, keep, w)
		}
		copy(text, keep)
		c.Count("texts read back", 1)
	}
	// The same document built anew has the same sorted bytes
	c.Must("ToCompatibleTsonBytesSorted", func() {
		b, err := tson.ToCompatibleTsonBytesSorted(shuffled(c, d).toTson())
		if err != nil || !bytes.Equal(b, texts["ToCompatibleTsonBytesSorted"]) {
			c.Fail("not-sorted", "an equal document gave %q and %q", b, texts["ToCompatibleTsonBytesSorted"])
		}
		c.Count("sorted texts compared", 1)
	})
	// The object form holds what a double can hold
	fits := true
	d.walk(nil, func(_ []string, n *Doc) {
		if n.leaf() && (n.T > 1<<53 || n.T < -(1<<53)) {
			fits = false
		}
	})
	if fits {
		var o any
		c.Must("ToCompatibleTson", func() {
			if err := tson.ToCompatibleTson(t, &o); err != nil {
				c.Fail("error", "ToCompatibleTson of %s failed: %v", d, err)
			}
		})
		if w := pairsDiffer(o, d, ""); w != "" {
			c.Fail("lost", "ToCompatibleTson of %s gave %v: %s", d, o, w)
		}
		if b, err := json.Marshal(o); err == nil {
			var got tson.Tson
			c.Must("FromCompatibleTsonBytes", func() {
				if err := tson.FromCompatibleTsonBytes(b, &got); err != nil {
					c.Fail("not-read", "%q is not read back: %v", b, err)
				}
			})
			if w := diffDoc(fromTson(got), d, true); w != "" {
				c.Fail("changed", "ToCompatibleTson of %s gave %s: %s", d, b, w)
			}
		}
		c.Count("objects compared", 1)
	}
	if w := diffDoc(fromTson(t), d, true); w != "" {
		c.Fail("input-changed", "converting changed the document: %s", w)
	}
	c.Key(d)
	c.Sample(map[string]any{"document": d.String(), "text": string(texts["ToCompatibleTsonBytes"])})
}

// shuffled is the same document with its maps filled in another order.
func shuffled(c *Ctx, d *Doc) *Doc {
	x := *d
	if d.K == 'o' {
		ks := d.keys()
		c.R.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		x.M = map[string]*Doc{}
		for _, k := range ks {
			x.M[k] = shuffled(c, d.M[k])
		}
	}
	if d.K == 'a' {
		x.A = nil
		for _, e := range d.A {
			x.A = append(x.A, shuffled(c, e))
		}
	}
	return &x
}

// ---------------------------------------------------------------- C23

func runC23(c *Ctx) {
	g := tsonGen(c, false)
	d := g.root()
	if c.R.IntN(6) == 0 {
		d = g.leaf()
		if c.R.IntN(4) == 0 {
			d = null()
		}
	}
	if !d.container() {
		c.Count("top-level primitives", 1)
	}
	c.Log("document %s", d)
	t := d.toTson()
	stamped := d.clone()
	stamped.walk(nil, func(_ []string, n *Doc) {
		if n.leaf() {
			n.T = -1
		}
	})
	var o any
	if c.R.IntN(2) == 0 {
		o = map[string]any{"old": 1}
	}
	var b []byte
	c.Must("ToJson", func() {
		if err := tson.ToJson(t, &o); err != nil {
			c.Fail("error", "ToJson of %s failed: %v", d, err)
		}
		if w := diffDoc(fromAny(o, -1), stamped, true); w != "" {
			c.Fail("to-json", "ToJson of %s gave %v: %s", d, o, w)
		}
	})
	c.Must("ToJsonBytes", func() {
		var err error
		if b, err = tson.ToJsonBytes(t); err != nil {
			c.Fail("error", "ToJsonBytes of %s failed: %v", d, err)
		}
		if w := diffDoc(fromAny(readPairs(c, b), -1), stamped, true); w != "" {
			c.Fail("to-json", "ToJsonBytes of %s gave %s: %s", d, b, w)
		}
	})
	for _, n := range d.nodes() {
		if n.d.K != 'a' || c.R.IntN(2) == 0 {
			continue
		}
		leaves := true
		for _, e := range n.d.A {
			leaves = leaves && e.leaf()
		}
		c.Must("ToArray", func() {
			a := n.d.toTson().(tson.Array)
			got, err := tson.ToArray(a)
			switch {
			case !leaves && err == nil:
				c.Fail("to-array", "ToArray of %s gave %v", n.d, got)
			case leaves && err != nil:
				c.Fail("to-array", "ToArray of %s failed: %v", n.d, err)
			case leaves:
				e := n.d.clone()
				for _, l := range e.A {
					l.T = -1
				}
				if w := diffDoc(fromAny(got, -1), e, true); w != "" {
					c.Fail("to-array", "ToArray of %s gave %v: %s", n.d, got, w)
				}
				c.Count("arrays of leaves converted", 1)
			}
			if w := diffDoc(fromTson(a), n.d, true); w != "" {
				c.Fail("input-changed", "ToArray changed the array: %s", w)
			}
		})
	}
	c.Must("ToAny", func() {
		if o, ok := tson.ToAny(t).(tson.Tson); (ok || d.K != 'n') && (!ok || diffDoc(fromTson(o), d, true) != "") {
			c.Fail("to-any", "ToAny of %s gave another document", d)
		}
	})
	if w := diffDoc(fromTson(t), d, true); w != "" {
		c.Fail("input-changed", "converting changed the document: %s", w)
	}
	c.Count("documents to JSON", 2)
	// and the other way
	in := d.toAny()
	var t1, t2 tson.Tson
	c.Must("FromJson", func() {
		if err := tson.FromJson(in, &t1); err != nil {
			c.Fail("error", "FromJson of %v failed: %v", in, err)
		}
		if w := diffDoc(fromTson(t1), stamped, true); w != "" {
			c.Fail("from-json", "FromJson of %v gave %s: %s", in, fromTson(t1), w)
		}
	})
	if w := diffDoc(fromAny(in, -1), stamped, true); w != "" {
		c.Fail("input-changed", "FromJson changed what it was given: %s", w)
	}
	text, _ := json.Marshal(d.toAny())
	if c.R.IntN(3) == 0 {
		text, _ = json.MarshalIndent(d.toAny(), " ", "\t")
	}
	keep := append([]byte(nil), text...)
	c.Must("FromJsonBytes", func() {
		if err := tson.FromJsonBytes(text, &t2); err != nil {
			c.Fail("error", "FromJsonBytes of %s failed: %v", text, err)
		}
	})
	if !bytes.Equal(text, keep) {
		c.Fail("input-changed", "FromJsonBytes changed the text")
	}
	scramble(text)
	if w := diffDoc(fromTson(t2), stamped, true); w != "" {
		c.Fail("from-json", "FromJsonBytes of %s gave %s: %s", keep, fromTson(t2), w)
	}
	c.Count("JSON to documents", 2)
	// there and back
	c.Must("JSON to document to JSON", func() {
		var back any
		if err := tson.ToJson(t2, &back); err != nil {
			c.Fail("error", "ToJson failed: %v", err)
		}
		if w := diffDoc(fromAny(back, -1), stamped, true); w != "" {
			c.Fail("to-json", "%s to a document and back gave %v: %s", keep, back, w)
		}
		var t3 tson.Tson
		if err := tson.FromJson(o, &t3); err != nil {
			c.Fail("error", "FromJson failed: %v", err)
		}
		if w := diffDoc(fromTson(t3), stamped, true); w != "" {
			c.Fail("from-json", "%s to JSON and back gave %s: %s", d, fromTson(t3), w)
		}
	})
	c.Key(d)
	c.Sample(map[string]any{"document": d.String(), "json": string(b)})
}

// ---------------------------------------------------------------- C24

// smallEdit changes exactly one thing.
func (g *Gen) smallEdit(d *Doc) *Doc {
	d = d.clone()
	r := g.R
	all := d.nodes()
	for try := 0; try < 50; try++ {
		x := pick(r, all).d
		if r.IntN(4) == 0 {
			x = g.spot(d)
		}
		switch r.IntN(11) {
		case 9: // the case of a letter
			if x.K == 's' {
				if s := otherCase(r, x.S); s != x.S {
					x.S = s
					return d
				}
			}
		case 10: // the spelling of a key
			if ks := x.keys(); x.K == 'o' && len(ks) > 0 {
				k := pick(r, ks)
				n := otherCase(r, k)
				if r.IntN(3) == 0 {
					n = pick(r, []string{k + " ", " " + k, k + "\u0000", k + ".", strings.TrimSuffix(k, "a")})
				}
				if x.M[n] == nil {
					x.M[n] = x.M[k]
					delete(x.M, k)
					return d
				}
			}
		case 0: // timestamp by one
			if x.leaf() && x.T < math.MaxInt64 {
				x.T++
				return d
			}
		case 1:
			if x.leaf() && x.T > math.MinInt64 {
				x.T--
				return d
			}
		case 2: // number by a hair
			if x.K == 'f' {
				x.F = math.Nextafter(x.F, 0)
				if x.F == 0 {
					x.F = 5e-324
				}
				return d
			}
		case 3:
			if x.K == 's' {
				if r.IntN(3) == 0 {
					x.S = g.near(x.S).(string)
				} else if len(x.S) > 0 && r.IntN(2) == 0 {
					_, n := utf8.DecodeRuneInString(x.S)
					x.S = x.S[n:]
				} else {
					x.S += pick(r, []string{" ", "a", "\u0000", "\n", "é"})
				}
				return d
			}
			if x.K == 'b' {
				x.B = !x.B
				return d
			}
		case 4: // kind, looking the same
			switch x.K {
			case 's':
				if f, err := strconv.ParseFloat(x.S, 64); err == nil && !math.IsNaN(f) && !math.IsInf(f, 0) {
					*x = Doc{K: 'f', F: f, T: x.T}
				} else if x.S == "true" {
					*x = Doc{K: 'b', B: true, T: x.T}
				} else {
					*x = Doc{K: 'n'}
				}
				return d
			case 'f':
				*x = Doc{K: 's', S: strconv.FormatFloat(x.F, 'g', -1, 64), T: x.T}
				return d
			case 'b':
				*x = Doc{K: 's', S: strconv.FormatBool(x.B), T: x.T}
				return d
			case 'n':
				*x = Doc{K: 'o', M: map[string]*Doc{}}
				return d
			case 'o':
				if len(x.M) == 0 {
					*x = Doc{K: 'a', A: []*Doc{}}
					return d
				}
			case 'a':
				if len(x.A) == 0 {
					*x = Doc{K: 'n'}
					return d
				}
			}
		case 5: // a member more or less
			if x.K == 'o' {
				if ks := x.keys(); len(ks) > 0 && r.IntN(2) == 0 {
					delete(x.M, pick(r, ks))
				} else {
					k := g.key()
					for x.M[k] != nil {
						k += "'"
					}
					if x.M[k] = g.leaf(); r.IntN(2) == 0 {
						x.M[k] = null()
					}
				}
				return d
			}
		case 6: // an element more or less
			if x.K == 'a' {
				if len(x.A) > 0 && r.IntN(2) == 0 {
					x.A = x.A[:len(x.A)-1]
				} else if x.A = append(x.A, null()); r.IntN(2) == 0 {
					x.A[len(x.A)-1] = g.leaf()
				}
				return d
			}
		case 7: // two elements exchanged
			if x.K == 'a' && len(x.A) > 1 {
				i := r.IntN(len(x.A) - 1)
				x.A[i], x.A[i+1] = x.A[i+1], x.A[i]
				return d
			}
		case 8: // a leaf and an object that looks like it
			if x.leaf() {
				*x = Doc{K: 'o', M: map[string]*Doc{"value": {K: x.K, S: x.S, F: x.F, B: x.B, T: x.T}, "timestamp": {K: 'f', F: float64(x.T), T: x.T}}}
				return d
			}
		}
	}
	return d
}

// otherCase turns the case of one letter, or changes a byte that is
// not valid, if there is any.
func otherCase(r *rand.Rand, s string) string {
	rs := []rune(s)
	if !utf8.ValidString(s) { // another byte that is not valid either
		for i := 0; i < len(s); i++ {
			if s[i] >= 0x80 {
				if n := s[:i] + string([]byte{s[i] ^ 1}) + s[i+1:]; !utf8.ValidString(n) {
					return n
				}
			}
		}
		return s
	}
	for _, i := range r.Perm(len(rs)) {
		if u := unicode.ToUpper(rs[i]); u != rs[i] {
			rs[i] = u
			break
		} else if l := unicode.ToLower(rs[i]); l != rs[i] {
			rs[i] = l
			break
		}
	}
	return string(rs)
}

func runC24(c *Ctx) {
	g := tsonGen(c, true)
	g.Huge = false
	a := g.root()
	var b *Doc
	switch c.R.IntN(8) {
	case 0:
		b = shuffled(c, a)
	case 1:
		b = g.root()
	case 2:
		b = g.edited(a, 1+c.R.IntN(3))
	case 3: // other timestamps only
		b = a.clone()
		b.walk(nil, func(_ []string, n *Doc) {
			if n.leaf() && c.R.IntN(3) == 0 {
				n.T = g.TS()
			}
		})
	default:
		b = g.smallEdit(a)
	}
	c.Log("a = %s", a)
	c.Log("b = %s", b)
	at, bt := a.toTson(), b.toTson()
	equal, values := diffDoc(a, b, true) == "", diffDoc(a, b, false) == ""
	for _, swap := range []bool{false, true} {
		x, y := at, bt
		if swap {
			x, y = bt, at
		}
		c.Must("Equal", func() {
			got, err := tson.Equal(x, y)
			if err != nil {
				c.Fail("error", "Equal of %s and %s failed: %v", a, b, err)
			}
			if got != equal {
				c.Fail("equal", "Equal of %s and %s is %v", a, b, got)
			}
		})
		c.Must("EqualWithoutTimestamp", func() {
			got, err := tson.EqualWithoutTimestamp(x, y)
			if err != nil {
				c.Fail("error", "EqualWithoutTimestamp of %s and %s failed: %v", a, b, err)
			}
			if got != values {
				c.Fail("equal-values", "EqualWithoutTimestamp of %s and %s is %v", a, b, got)
			}
		})
	}
	if diffDoc(fromTson(at), a, true) != "" || diffDoc(fromTson(bt), b, true) != "" {
		c.Fail("input-changed", "comparing changed a document")
	}
	if c.R.IntN(10) == 0 { // a number that cannot be written, in one of them
		d := b.clone()
		n := pick(c.R, d.nodes()).d
		*n = Doc{K: 'f', F: pick(c.R, []float64{math.NaN(), math.Inf(1), math.Inf(-1)}), T: g.TS()}
		c.Log("refused: %s", d)
		bad := d.toTson()
		for _, p := range [][2]tson.Tson{{at, bad}, {bad, at}, {bad, bad}} {
			c.Must("Equal", func() {
				if got, err := tson.Equal(p[0], p[1]); err == nil || got {
					c.Fail("not refused", "Equal with %s gives %v, %v", d, got, err)
				}
			})
			c.Must("EqualWithoutTimestamp", func() {
				if got, err := tson.EqualWithoutTimestamp(p[0], p[1]); err == nil || got {
					c.Fail("not refused", "EqualWithoutTimestamp with %s gives %v, %v", d, got, err)
				}
			})
		}
		c.Count("documents refused", 1)
	}
	if equal {
		c.Count("equal pairs", 1)
	} else {
		c.Count("unequal pairs", 1)
		if values {
			c.Count("pairs differing in timestamps only", 1)
		}
	}
	c.Key(a, b)
	c.Sample(map[string]any{"a": a.String(), "b": b.String(), "equal": equal, "equal values": values})
}

// ---------------------------------------------------------------- C25

func runC25(c *Ctx) {
	g := tsonGen(c, true)
	d := g.root()
	t := d.toTson()
	c.Log("document %s", d)
	all := d.nodes()
	if len(all) > 30 {
		c.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		all = all[:30]
	}
	look := func(path string, want *Doc) {
		var got tson.Tson
		var err error
		c.Must("GetValue", func() { got, err = tson.GetValue(t, path) })
		if want == nil {
			if err == nil {
				c.Fail("found", "GetValue(%q) of %s gave %s", path, d, fromTson(got))
			}
			c.Count("lookups refused", 1)
			return
		}
		if err != nil {
			c.Fail("not-found", "GetValue(%q) of %s failed: %v", path, d, err)
		}
		if w := diffDoc(fromTson(got), want, true); w != "" {
			c.Fail("wrong-node", "GetValue(%q) of %s gave %s, expected %s", path, d, fromTson(got), want)
		}
		c.Count("nodes looked up", 1)
	}
	for _, n := range all {
		path := pointer(n.path)
		look(path, n.d)
		c.Key(d.shape(), path)
		c.Must("GetLatestTimestamp", func() {
			if got, want := tson.GetLatestTimestamp(n.d.toTson()), n.d.maxTS(); got != want {
				c.Fail("latest", "GetLatestTimestamp of %s is %d, expected %d", n.d, got, want)
			}
			c.Count("latest timestamps", 1)
		})
		var near []string
		switch n.d.K {
		case 'o':
			near = append(near, g.key(), "missing", "0")
			for _, k := range n.d.keys() {
				near = append(near, k+"x", strings.ToUpper(k), k+" ")
			}
		case 'a':
			near = append(near, "-1", "", "x", "-", strconv.Itoa(len(n.d.A)), strconv.Itoa(len(n.d.A)+5), "1.0", "1e0", "0x0", " 0", "99999999999999999999", "-9223372036854775808", "9223372036854775807", "18446744073709551616")
		default:
			near = append(near, "value", "timestamp", "0", "", "x")
		}
		for i := 0; i < 3; i++ {
			p := append(n.path[:len(n.path):len(n.path)], pick(c.R, near))
			if c.R.IntN(4) == 0 {
				p = append(p, pick(c.R, []string{"0", "a", ""}))
			}
			if oddIndex(d, p) {
				continue
			}
			look(pointer(p), d.at(p))
		}
	}
	c.Must("GetLatestTimestamp", func() {
		if got, want := tson.GetLatestTimestamp(t), d.maxTS(); got != want {
			c.Fail("latest", "GetLatestTimestamp of %s is %d, expected %d", d, got, want)
		}
	})
	if w := diffDoc(fromTson(t), d, true); w != "" {
		c.Fail("input-changed", "looking changed the document: %s", w)
	}
	c.Sample(map[string]any{"document": d.String()})
}
