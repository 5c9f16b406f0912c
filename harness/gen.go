package main

import (
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"unicode/utf8"
)

var (
	plainKeys   = []string{"a", "b", "c", "ab", "abc", "a1", "speed", "Vehicle", "x"}
	hostileKeys = []string{"", "/", "~", "~1", "~0", "~01", "a/b", "a~b", "a.b", ".", "..", "0", "1", "2", "10", "-1", "007", "+1", "00",
		"value", "timestamp", " ", "a b", "é", "日本", "\"", "\\", "\n", "\t", "<", ">", "<5>", "{", "}", "[", ",", ":", "null", "true",
		"\u2028", "😀", "\u0000", "\x7f", "&", "'", "%2F", "$", "#", "%d", "%s", "*", "//", "/a", "a/", "~2", "~~", "&lt;", "\\u0041", "\\n", "-"}
	badKeys = []string{"\xff", "a\x80b", "\xc3", "\xed\xa0\x80", "\xf0\x9f\x98"}

	plainStrings   = []string{"", "a", "b", "on", "off", "hello world", "1", "true"}
	hostileStrings = []string{"\"", "\\", "\\\"", "\n", "\r\n", "\t", "\u0000", "\u0001", "\u001f", "\x7f", "\u0080", "é", "日本語", "😀", "\u2028\u2029",
		"<5>", "a <7>", "<", ">", "{", "}", "[]", "{\"a\": 1}", "null", "true", " lead", "trail ", "a,b", "a:b", "\\u0041", "\\n", "/", "\b\f", "%s%d", "&amp;", "&lt;", "a&amp;lt;", "<b>x</b>", "</code>", "&#39;", "<img src=x onerror=y>", "\ufeff", "\ufffd", "]", "[1 <2>]", "-1", "1e5", "//x", "/*", "'", "`"}
	badStrings = []string{"\xff", "a\x80b", "\xc3\x28", "\xed\xa0\x80", "\xf0\x9f\x98", "\xff\xfe\"\\"}

	numbers = []float64{0, 1, -1, 2, 0.1, -0.5, 3.14159, 100, 1e6, 999999, 123456789, 1e15, 1e20, 1e21, 1e22, -1e21, 1e-6, 1e-7, 1e-9, 5e-324, 2.2250738585072014e-308,
		math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 9007199254740991, 9007199254740992, 9007199254740994, 1 << 62, 1 << 63, -(1 << 63), 0.30000000000000004, 1.0 / 3, 4.35, 100.5, 123456.789e3, math.MaxInt32, math.MinInt32}
)

// values that a careless comparison takes for one another
var (
	closeNumbers = []float64{1.0000000000000002, 0.9999999999999999, 1 + 1e-12, 1 + 1e-9, 1 + 1e-7, 1.00001, 1.001, 0.999, 1.4, 1.5, 0.1, 0.30000000000000004, 0.3,
		1e-12, 5e-324, -1, -1e-9, 16777216, 16777217, 4294967296, 4294967297, 2147483648, 9007199254740991, 9007199254740992, 9007199254740994, 1e21, 1e22}
	closeStrings = []string{"X", " x", "x ", "x\n", "xx", "True", "TRUE", "false", "0", "1.0", "01", "null", "nil", "<nil>", "é", "e\u0301", "x\x00", "x\x00y", "-0",
		strings.Repeat("x", 40), strings.Repeat("x", 40) + "y", strings.Repeat("x", 300), strings.Repeat("x", 300) + "y",
		strings.Repeat("x", 150) + "y" + strings.Repeat("x", 149), strings.Repeat("x", 35) + "y" + strings.Repeat("x", 4), strings.Repeat("x", 299) + "y"}
)

// Gen says what kind of documents to make.
type Gen struct {
	R        *rand.Rand
	Hostile  float64 // probability of an unusual key or string
	Bad      bool    // strings that are not valid UTF-8 too
	NoNull   bool
	Depth    int
	Width    int
	Small    bool // few keys and values, so that things repeat
	TS       func() int64
	NoArray  bool
	PlainKey bool // plain keys even if Hostile
	OddKeys  bool // also "007", "+1", "00", "+1"
	Dotted   bool // some paths in dotted form
	JSONNum  bool // numbers that JSON keeps
	Huge     bool // once in a while tens of thousands of members
	Flat     bool // never more than about a hundred levels
}

func newGen(r *rand.Rand) *Gen {
	g := &Gen{R: r, Depth: 1 + r.IntN(4), Width: 1 + r.IntN(4)}
	g.TS = g.timestamps()
	return g
}

// timestamps chooses a way to draw timestamps.
func (g *Gen) timestamps() func() int64 {
	r, base := g.R, g.baseTimes()
	return func() int64 {
		if r.IntN(25) == 0 {
			return int64(r.IntN(3)) - 1
		}
		return base()
	}
}

func (g *Gen) baseTimes() func() int64 {
	r := g.R
	switch r.IntN(5) {
	case 0:
		return func() int64 { return int64(r.IntN(4)) }
	case 1:
		return func() int64 { return 1700000000 + int64(r.IntN(100)) }
	case 2:
		return func() int64 { return 1700000000123456789 + int64(r.IntN(1000)) }
	case 3:
		return func() int64 {
			switch r.IntN(6) {
			case 0:
				return math.MaxInt64 - int64(r.IntN(3))
			case 1:
				return math.MinInt64 + int64(r.IntN(3))
			case 2:
				return -int64(r.IntN(5))
			case 3:
				return 1<<53 + int64(r.IntN(5))
			case 4:
				return int64(r.Uint64())
			default:
				return int64(r.IntN(10))
			}
		}
	default:
		return func() int64 { return int64(r.Uint64() >> uint(1+r.IntN(62))) }
	}
}

func pick[T any](r *rand.Rand, s []T) T { return s[r.IntN(len(s))] }

func (g *Gen) chance(p float64) bool { return g.R.Float64() < p }

// key draws a key. Odd spellings of numbers are left out where
// a key may come to address an array.
func (g *Gen) key() string {
	k := g.anyKey()
	if !g.OddKeys {
		if i, err := strconv.Atoi(k); err == nil && strconv.Itoa(i) != k {
			return "k" + k
		}
	}
	return k
}

func (g *Gen) anyKey() string {
	if g.R.IntN(3000) == 0 {
		return strings.Repeat("long", 10<<g.R.IntN(7)) + pick(g.R, plainKeys)
	}
	if g.Small {
		if !g.PlainKey && g.chance(g.Hostile) {
			return pick(g.R, hostileKeys)
		}
		return pick(g.R, plainKeys[:5])
	}
	if !g.PlainKey && g.chance(g.Hostile) {
		if g.Bad && g.chance(0.1) {
			return pick(g.R, badKeys)
		}
		switch g.R.IntN(8) {
		case 0:
			return pick(g.R, hostileKeys) + pick(g.R, hostileKeys)
		case 1:
			return g.randString()
		}
		return pick(g.R, hostileKeys)
	}
	if g.chance(0.2) {
		return "k" + strconv.Itoa(g.R.IntN(30))
	}
	return pick(g.R, plainKeys)
}

func (g *Gen) randString() string {
	var b strings.Builder
	for n := g.R.IntN(12); n > 0; n-- {
		switch g.R.IntN(7) {
		case 0:
			b.WriteByte(byte(g.R.IntN(32)))
		case 1:
			b.WriteRune(rune(0x80 + g.R.IntN(0x700)))
		case 2:
			b.WriteRune(rune(0x10000 + g.R.IntN(0x100000)))
		case 3:
			b.WriteString(pick(g.R, []string{"\"", "\\", "/", "<", ">", "~", "\u2028", "\ufffe", "\uffff"}))
		default:
			b.WriteByte(byte(32 + g.R.IntN(95)))
		}
	}
	if g.Bad && g.chance(0.1) {
		b.WriteByte(byte(0x80 + g.R.IntN(128)))
	}
	return b.String()
}

func (g *Gen) str() string {
	if g.R.IntN(1000) == 0 { // long
		s := g.randString() + pick(g.R, plainStrings) + "-"
		return strings.Repeat(s, 1+g.R.IntN(1<<g.R.IntN(14)))
	}
	if g.chance(g.Hostile) {
		if g.Bad && g.chance(0.1) {
			return pick(g.R, badStrings)
		}
		if g.chance(0.4) {
			return g.randString()
		}
		return pick(g.R, hostileStrings)
	}
	return pick(g.R, plainStrings)
}

func (g *Gen) num() float64 {
	if g.Small {
		if g.R.IntN(15) == 0 {
			return pick(g.R, closeNumbers)
		}
		return float64(g.R.IntN(3))
	}
	switch g.R.IntN(5) {
	case 0:
		return pick(g.R, numbers)
	case 1:
		return float64(g.R.IntN(2000) - 1000)
	case 2:
		for {
			f := math.Float64frombits(g.R.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) && f != 0 {
				return f
			}
		}
	case 3:
		return float64(g.R.IntN(200000)-100000) / 100
	default:
		return float64(int64(g.R.Uint64() >> uint(g.R.IntN(63))))
	}
}

func (g *Gen) leaf() *Doc {
	d := &Doc{T: g.TS()}
	switch g.R.IntN(3) {
	case 0:
		d.K = 's'
		if g.Small {
			d.S = pick(g.R, []string{"", "x", "y", "true", "1"})
			if g.R.IntN(15) == 0 {
				d.S = pick(g.R, closeStrings)
			}
			if g.chance(g.Hostile) {
				d.S = g.str()
			}
		} else {
			d.S = g.str()
		}
	case 1:
		d.K, d.F = 'f', g.num()
	default:
		d.K, d.B = 'b', g.R.IntN(2) == 0
	}
	return d
}

func (g *Gen) doc(depth int) *Doc {
	n := g.R.IntN(10)
	switch {
	case depth <= 0 || n < 4:
		if !g.NoNull && g.chance(0.1) {
			return null()
		}
		return g.leaf()
	case n < 8 || g.NoArray:
		return g.object(depth)
	default:
		d := &Doc{K: 'a', A: []*Doc{}}
		for i := g.R.IntN(g.Width + 1); i > 0; i-- {
			d.A = append(d.A, g.doc(depth-1))
		}
		return d
	}
}

func (g *Gen) object(depth int) *Doc {
	d := &Doc{K: 'o', M: map[string]*Doc{}}
	for i := g.R.IntN(g.Width + 2); i > 0; i-- {
		d.M[g.key()] = g.doc(depth - 1)
	}
	return d
}

// enlarge puts something unusually deep, wide or long into an object.
func (g *Gen) enlarge(d *Doc, scale int) *Doc {
	if d.K != 'o' {
		return d
	}
	r, key := g.R, g.key()
	switch k := r.IntN(5); {
	case k == 0: // deep
		e := g.leaf()
		n := 10 * scale
		if scale >= 10 && !g.Flat && r.IntN(4) == 0 {
			n = pick(r, []int{300, 300, 300, 1200})
		}
		for i := 5 + r.IntN(n); i > 0; i-- {
			if !g.NoArray && r.IntN(2) == 0 {
				a := &Doc{K: 'a', A: []*Doc{e}}
				for j := r.IntN(3); j > 0; j-- {
					a.A = append(a.A, g.leaf())
				}
				if n := r.IntN(len(a.A)); n > 0 {
					a.A[0], a.A[n] = a.A[n], a.A[0]
				}
				e = a
			} else {
				o := &Doc{K: 'o', M: map[string]*Doc{}}
				for j := r.IntN(3); j > 0; j-- {
					o.M[g.key()] = g.leaf()
				}
				o.M[g.key()] = e
				e = o
			}
		}
		d.M[key] = e
	case k == 1 && !g.NoArray: // a wide array
		a := &Doc{K: 'a'}
		for i := 10 + r.IntN(100*scale); i > 0; i-- {
			if r.IntN(20) == 0 {
				a.A = append(a.A, g.doc(1))
			} else {
				a.A = append(a.A, g.leaf())
			}
		}
		d.M[key] = a
	case k <= 2: // a wide object
		o := &Doc{K: 'o', M: map[string]*Doc{}}
		for i := 10 + r.IntN(40*scale); i > 0; i-- {
			o.M["m"+strconv.Itoa(i)] = g.leaf()
		}
		d.M[key] = o
	case k == 3: // a long string
		var b strings.Builder
		for n := 1 << r.IntN(13+scale/3); b.Len() < n; {
			b.WriteString(g.str())
			b.WriteString(g.randString())
			b.WriteByte('a')
		}
		d.M[key] = &Doc{K: 's', S: b.String(), T: g.TS()}
	default: // a long key
		for n := 1 << r.IntN(9+scale/3); len(key) < n; {
			key += g.key() + "k"
		}
		d.M[key] = g.doc(2)
	}
	return d
}

// huge makes a list or an object of tens of thousands of small members.
func (g *Gen) huge() *Doc {
	n := pick(g.R, []int{10000, 1 << 14, 1 << 15, 1 << 16, 70000}) + g.R.IntN(2000)
	a, o := &Doc{K: 'a'}, &Doc{K: 'o', M: map[string]*Doc{}}
	list := !g.NoArray && g.R.IntN(2) == 0
	lone := g.doc(1)
	for i := 0; i < n; i++ {
		var e *Doc
		switch g.R.IntN(6) {
		case 0:
			e = &Doc{K: 'o', M: map[string]*Doc{}}
		case 1:
			e = &Doc{K: 'o', M: map[string]*Doc{"a": g.leaf()}}
		case 2:
			e = lone.clone()
			if !g.NoArray {
				e = &Doc{K: 'a', A: []*Doc{e}}
			}
		default:
			e = g.leaf()
		}
		if list {
			a.A = append(a.A, e)
		} else {
			o.M["m"+strconv.Itoa(i)] = e
		}
	}
	if list {
		return a
	}
	return o
}

// root makes a document whose root is mostly an object.
func (g *Gen) root() *Doc {
	if g.Huge && g.R.IntN(8000) == 0 {
		return g.huge()
	}
	if g.R.IntN(100) == 0 {
		return g.enlarge(g.object(g.Depth), 10)
	}
	if g.R.IntN(50) == 0 && !g.NoArray { // a long list
		d := &Doc{K: 'a'}
		for i := 10 + g.R.IntN(20<<g.R.IntN(5)); i > 0; i-- {
			if g.R.IntN(20) == 0 {
				d.A = append(d.A, g.doc(1))
			} else {
				d.A = append(d.A, g.leaf())
			}
		}
		switch g.R.IntN(6) {
		case 0:
			d = &Doc{K: 'a', A: []*Doc{g.leaf(), d}}
		case 1:
			o := g.object(g.Depth)
			o.M[g.key()] = d
			d = o
		}
		return d
	}
	if g.chance(0.75) {
		return g.object(g.Depth)
	}
	return g.doc(g.Depth)
}

// spot picks a node, now and then the first or the last one of an array.
func (g *Gen) spot(d *Doc) *Doc {
	n := pick(g.R, d.nodes()).d
	if n.K == 'a' && len(n.A) > 0 && g.R.IntN(4) != 0 || d.K == 'a' && len(d.A) > 0 && g.R.IntN(6) == 0 {
		if n.K != 'a' || len(n.A) == 0 {
			n = d
		}
		if g.R.IntN(4) == 0 {
			return n.A[0]
		}
		return n.A[len(n.A)-1]
	}
	return n
}

func (g *Gen) opValue() any {
	l := g.leaf()
	return l.value()
}

// near draws a value that is hard to tell from the given one.
func (g *Gen) near(v any) any {
	r := g.R
	switch v := v.(type) {
	case string:
		if n := len(v); n > 0 && utf8.ValidString(v) {
			for try := 0; try < 5; try++ {
				i := r.IntN(n)
				if v[i] >= 'a' && v[i] < 'z' || v[i] >= '0' && v[i] < '9' {
					return v[:i] + string(v[i]+1) + v[i+1:]
				}
			}
		}
		return v + pick(r, []string{" ", "x", "\u0000", "\n"})
	case float64:
		switch r.IntN(5) {
		case 0:
			return v + 1
		case 1:
			if v != 0 {
				return -v
			}
		case 2:
			if f := v * (1 + 1e-7); !math.IsInf(f, 0) {
				return f
			}
		}
		if f := math.Nextafter(v, 0); f != 0 {
			return f
		}
		return 5e-324
	case bool:
		return !v
	}
	return v
}

func dotted(path []string) (string, bool) {
	for i, p := range path {
		if p == "" && i == 0 || strings.ContainsAny(p, "./~") {
			return "", false
		}
	}
	return strings.Join(path, "."), len(path) > 0
}

// validOp makes an operation that can be applied to the document.
func (g *Gen) validOp(d *Doc) Op {
	r := g.R
	all := d.nodes()
	for try := 0; ; try++ {
		if try > 200 {
			return Op{Op: "add", Path: "/a", Value: true, Timestamp: g.TS()}
		}
		n := pick(r, all)
		op := Op{Op: "add", Timestamp: g.TS()}
		if r.IntN(2) == 0 {
			op.Op = "replace"
		}
		path := n.path
		switch k := r.IntN(12); {
		case k < 5: // set what is there
			if len(path) == 0 && n.d.container() && r.IntN(60) != 0 {
				continue
			}
			if n.d.container() && len(path) > 0 && r.IntN(4) != 0 {
				continue
			}
			op.Value = g.opValue()
			if n.d.leaf() && r.IntN(3) == 0 {
				op.Value = n.d.value()
				if r.IntN(3) == 0 {
					op.Value = g.near(op.Value)
				}
			}
		case k < 8: // something new in a container
			switch n.d.K {
			case 'o':
				path = append(path[:len(path):len(path)], g.key())
			case 'a':
				i := len(n.d.A)
				if r.IntN(3) == 0 {
					i += r.IntN(4)
				}
				path = append(path[:len(path):len(path)], strconv.Itoa(i))
			default:
				continue
			}
			op.Value = g.opValue()
		case k == 8: // below something missing
			if n.d.K == 'o' {
				path = append(path[:len(path):len(path)], g.key())
			} else if n.d.K == 'a' {
				path = append(path[:len(path):len(path)], strconv.Itoa(len(n.d.A)+r.IntN(2)))
			} else if n.d.K != 'n' {
				continue
			}
			for i := 1 + r.IntN(2); i > 0; i-- {
				if r.IntN(4) == 0 {
					path = append(path[:len(path):len(path)], strconv.Itoa(r.IntN(3)))
				} else {
					path = append(path[:len(path):len(path)], g.key())
				}
			}
			op.Value = g.opValue()
		default: // remove
			op.Op = "remove"
			if len(path) == 0 {
				continue
			}
			if len(path) == 1 && r.IntN(2) == 0 || n.d.container() && r.IntN(3) != 0 {
				continue
			}
			if r.IntN(10) == 0 {
				path = append(path[:len(path)-1:len(path)-1], g.key())
			}
		}
		op.Path = pointer(path)
		if g.Dotted && r.IntN(4) == 0 {
			if p, ok := dotted(path); ok {
				op.Path = p
			}
		}
		if v, ok := op.Value.(float64); ok && !g.JSONNum && v == math.Trunc(v) && math.Abs(v) <= 1<<53 && r.IntN(4) == 0 {
			op.Value = int(v)
		}
		if _, err := applyOp(d, op); err == nil {
			return op
		}
	}
}
