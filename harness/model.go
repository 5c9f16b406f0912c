package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// Doc is the reference model of a document. K is one of
// n(ull), s(tring), f(loat), b(ool), o(bject), a(rray).
type Doc struct {
	K byte
	S string
	F float64
	B bool
	T int64
	M map[string]*Doc
	A []*Doc
}

type Op = tsonpatch.Operation
type Patch = tsonpatch.Patch

func null() *Doc { return &Doc{K: 'n'} }

func (d *Doc) leaf() bool      { return d.K == 's' || d.K == 'f' || d.K == 'b' }
func (d *Doc) container() bool { return d.K == 'o' || d.K == 'a' }

func (d *Doc) value() any {
	switch d.K {
	case 's':
		return d.S
	case 'f':
		return d.F
	case 'b':
		return d.B
	}
	return nil
}

func (d *Doc) keys() []string {
	ks := make([]string, 0, len(d.M))
	for k := range d.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (d *Doc) clone() *Doc {
	c := *d
	if d.M != nil {
		c.M = make(map[string]*Doc, len(d.M))
		for k, v := range d.M {
			c.M[k] = v.clone()
		}
	}
	if d.A != nil {
		c.A = make([]*Doc, len(d.A))
		for i, v := range d.A {
			c.A[i] = v.clone()
		}
	}
	return &c
}

// diffDoc returns where two documents differ ("" if nowhere).
func diffDoc(a, b *Doc, ts bool) string { return diffAt(a, b, ts, "") }

func diffAt(a, b *Doc, ts bool, at string) string {
	if a.K != b.K {
		return fmt.Sprintf("at %q: %s, expected %s", at, a, b)
	}
	switch a.K {
	case 's', 'f', 'b':
		if a.S != b.S || (a.F != b.F && !(a.F != a.F && b.F != b.F)) || a.B != b.B || (ts && a.T != b.T) {
			return fmt.Sprintf("at %q: %s, expected %s", at, a, b)
		}
	case 'o':
		for _, k := range a.keys() {
			if b.M[k] == nil {
				return fmt.Sprintf("at %q: unexpected member %q", at, k)
			}
			if d := diffAt(a.M[k], b.M[k], ts, at+"/"+escape(k)); d != "" {
				return d
			}
		}
		for _, k := range b.keys() {
			if a.M[k] == nil {
				return fmt.Sprintf("at %q: member %q is missing", at, k)
			}
		}
	case 'a':
		if len(a.A) != len(b.A) {
			return fmt.Sprintf("at %q: %d elements, expected %d", at, len(a.A), len(b.A))
		}
		for i := range a.A {
			if d := diffAt(a.A[i], b.A[i], ts, at+"/"+strconv.Itoa(i)); d != "" {
				return d
			}
		}
	}
	return ""
}

// String writes a document compactly, for messages and distinctness keys.
func (d *Doc) String() string {
	var b strings.Builder
	d.write(&b, true)
	return b.String()
}

func (d *Doc) shape() string { // without values
	var b strings.Builder
	d.write(&b, false)
	return b.String()
}

func (d *Doc) write(b *strings.Builder, values bool) {
	switch d.K {
	case 'n':
		b.WriteString("null")
	case 's', 'f', 'b':
		if values {
			switch d.K {
			case 's':
				b.WriteString(strconv.Quote(d.S))
			case 'f':
				b.WriteString(strconv.FormatFloat(d.F, 'g', -1, 64))
			default:
				b.WriteString(strconv.FormatBool(d.B))
			}
			fmt.Fprintf(b, "<%d>", d.T)
		} else {
			b.WriteByte(d.K)
		}
	case 'o':
		b.WriteByte('{')
		for i, k := range d.keys() {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k) + ":")
			d.M[k].write(b, values)
		}
		b.WriteByte('}')
	case 'a':
		b.WriteByte('[')
		for i, e := range d.A {
			if i > 0 {
				b.WriteByte(',')
			}
			e.write(b, values)
		}
		b.WriteByte(']')
	}
}

// toTson builds a fresh library document.
func (d *Doc) toTson() tson.Tson {
	switch d.K {
	case 's':
		return tson.Leaf[string]{Value: d.S, Timestamp: d.T}
	case 'f':
		return tson.Leaf[float64]{Value: d.F, Timestamp: d.T}
	case 'b':
		return tson.Leaf[bool]{Value: d.B, Timestamp: d.T}
	case 'o':
		o := make(tson.Object, len(d.M))
		for _, k := range d.keys() {
			o[k] = d.M[k].toTson()
		}
		return o
	case 'a':
		a := make(tson.Array, len(d.A), len(d.A)+3*(len(d.A)%2)) // some with room at the end
		for i, e := range d.A {
			a[i] = e.toTson()
		}
		return a
	}
	return nil
}

// fromTson takes a copy of a library document.
func fromTson(t tson.Tson) *Doc {
	switch v := t.(type) {
	case nil:
		return null()
	case tson.Leaf[string]:
		return &Doc{K: 's', S: v.Value, T: v.Timestamp}
	case tson.Leaf[float64]:
		return &Doc{K: 'f', F: v.Value, T: v.Timestamp}
	case tson.Leaf[bool]:
		return &Doc{K: 'b', B: v.Value, T: v.Timestamp}
	case tson.Object:
		d := &Doc{K: 'o', M: make(map[string]*Doc, len(v))}
		for k, e := range v {
			d.M[k] = fromTson(e)
		}
		return d
	case tson.Array:
		d := &Doc{K: 'a', A: make([]*Doc, len(v))}
		for i, e := range v {
			d.A[i] = fromTson(e)
		}
		return d
	}
	return &Doc{K: '?', S: fmt.Sprintf("%T", t)}
}

// fromAny reads the plain JSON form (every leaf gets ts).
func fromAny(v any, ts int64) *Doc {
	switch v := v.(type) {
	case nil:
		return null()
	case string:
		return &Doc{K: 's', S: v, T: ts}
	case float64:
		return &Doc{K: 'f', F: v, T: ts}
	case json.Number:
		f, err := v.Float64()
		if err != nil {
			return &Doc{K: '?', S: v.String()}
		}
		return &Doc{K: 'f', F: f, T: ts}
	case bool:
		return &Doc{K: 'b', B: v, T: ts}
	case map[string]any:
		d := &Doc{K: 'o', M: make(map[string]*Doc, len(v))}
		for k, e := range v {
			d.M[k] = fromAny(e, ts)
		}
		return d
	case []any:
		d := &Doc{K: 'a', A: make([]*Doc, len(v))}
		for i, e := range v {
			d.A[i] = fromAny(e, ts)
		}
		return d
	}
	return &Doc{K: '?', S: fmt.Sprintf("%T", v)}
}

func (d *Doc) toAny() any {
	switch d.K {
	case 'o':
		m := make(map[string]any, len(d.M))
		for k, e := range d.M {
			m[k] = e.toAny()
		}
		return m
	case 'a':
		a := make([]any, len(d.A))
		for i, e := range d.A {
			a[i] = e.toAny()
		}
		return a
	}
	return d.value()
}

// pairAny is the plain JSON form with value and timestamp pairs.
func (d *Doc) pairAny() any {
	switch d.K {
	case 'n':
		return nil
	case 'o':
		m := make(map[string]any, len(d.M))
		for k, e := range d.M {
			m[k] = e.pairAny()
		}
		return m
	case 'a':
		a := make([]any, len(d.A))
		for i, e := range d.A {
			a[i] = e.pairAny()
		}
		return a
	}
	return map[string]any{"value": d.value(), "timestamp": json.Number(strconv.FormatInt(d.T, 10))}
}

// walk visits every node with the keys that lead to it.
func (d *Doc) walk(path []string, f func(path []string, n *Doc)) {
	f(path, d)
	switch d.K {
	case 'o':
		for _, k := range d.keys() {
			d.M[k].walk(append(path[:len(path):len(path)], k), f)
		}
	case 'a':
		for i, e := range d.A {
			e.walk(append(path[:len(path):len(path)], strconv.Itoa(i)), f)
		}
	}
}

type node struct {
	path []string
	d    *Doc
}

func (d *Doc) nodes() (all []node) {
	d.walk(nil, func(p []string, n *Doc) { all = append(all, node{p, n}) })
	return all
}

func (d *Doc) at(path []string) *Doc {
	for _, p := range path {
		switch d.K {
		case 'o':
			if d = d.M[p]; d == nil {
				return nil
			}
		case 'a':
			i, ok := index(p)
			if !ok || i >= len(d.A) {
				return nil
			}
			d = d.A[i]
		default:
			return nil
		}
	}
	return d
}

func (d *Doc) maxTS() int64 {
	switch d.K {
	case 'n':
		return -1
	case 's', 'f', 'b':
		return d.T
	}
	m := int64(0)
	for _, e := range d.M {
		m = max(m, e.maxTS())
	}
	for _, e := range d.A {
		m = max(m, e.maxTS())
	}
	return m
}

// ---------------------------------------------------------------- paths

func escape(key string) string {
	return strings.ReplaceAll(strings.ReplaceAll(key, "~", "~0"), "/", "~1")
}

func pointer(path []string) string {
	var b strings.Builder
	for _, p := range path {
		b.WriteByte('/')
		b.WriteString(escape(p))
	}
	return b.String()
}

func unescape(part string) string {
	return strings.ReplaceAll(strings.ReplaceAll(part, "~1", "/"), "~0", "~")
}

// split reads a path: the slash-separated form, or the dotted
// one when it does not start with a slash.
func split(path string) []string {
	if path == "" {
		return nil
	}
	var parts []string
	if path[0] == '/' {
		parts = strings.Split(path[1:], "/")
	} else {
		parts = strings.FieldsFunc(path, func(rune) bool { return false })
		parts = strings.Split(strings.ReplaceAll(path, ".", "/"), "/")
	}
	for i := range parts {
		parts[i] = unescape(parts[i])
	}
	return parts
}

func index(part string) (int, bool) {
	i, err := strconv.Atoi(part)
	return i, err == nil && i >= 0
}

func hasPrefix(path, prefix []string) bool {
	if len(path) < len(prefix) {
		return false
	}
	for i := range prefix {
		if path[i] != prefix[i] {
			return false
		}
	}
	return true
}

func samePath(a, b []string) bool { return len(a) == len(b) && hasPrefix(a, b) }

// related reports whether one of the paths encloses the other (or they are the same).
func related(a, b []string) bool { return hasPrefix(a, b) || hasPrefix(b, a) }

// ---------------------------------------------------------------- patches

// farGap is how far beyond the end of an array an index must be for the
// model to say that it is refused. In between the model has no opinion.
const (
	nearGap = 4096
	farGap  = 1 << 40
)

type modelErr struct{ msg string }

func (e *modelErr) Error() string { return e.msg }

var errUnsure = &modelErr{"the model has no opinion"}

func leafOf(v any, ts int64) *Doc {
	switch v := v.(type) {
	case string:
		return &Doc{K: 's', S: v, T: ts}
	case float64:
		return &Doc{K: 'f', F: v, T: ts}
	case int:
		return &Doc{K: 'f', F: float64(v), T: ts}
	case bool:
		return &Doc{K: 'b', B: v, T: ts}
	}
	return nil
}

// applyOp is the reference semantics of one operation: it returns
// a new document and leaves the old one alone.
func applyOp(d *Doc, op Op) (*Doc, error) {
	var leaf *Doc
	switch op.Op {
	case "add", "replace":
		if leaf = leafOf(op.Value, op.Timestamp); leaf == nil {
			return nil, &modelErr{fmt.Sprintf("unsupported value %T", op.Value)}
		}
	case "remove":
	default:
		return nil, &modelErr{"unsupported operation " + string(op.Op)}
	}
	path := split(op.Path)
	if len(path) == 0 {
		if leaf == nil {
			return nil, &modelErr{"cannot remove the whole document"}
		}
		return leaf, nil
	}
	return change(d, path, leaf)
}

func change(d *Doc, path []string, leaf *Doc) (*Doc, error) {
	switch d.K {
	case 's', 'f', 'b':
		return nil, &modelErr{"the path leads through a leaf"}
	case 'n':
		if leaf == nil {
			return nil, &modelErr{"the path leads through nothing"}
		}
		if _, ok := index(path[0]); ok {
			return change(&Doc{K: 'a'}, path, leaf)
		}
		return change(&Doc{K: 'o'}, path, leaf)
	case 'o':
		c := &Doc{K: 'o', M: make(map[string]*Doc, len(d.M)+1)}
		for k, v := range d.M {
			c.M[k] = v
		}
		if len(path) == 1 {
			if leaf == nil {
				delete(c.M, path[0])
			} else {
				c.M[path[0]] = leaf
			}
			return c, nil
		}
		child := c.M[path[0]]
		if child == nil {
			child = null()
		}
		n, err := change(child, path[1:], leaf)
		if err != nil {
			return nil, err
		}
		c.M[path[0]] = n
		return c, nil
	case 'a':
		i, ok := index(path[0])
		if !ok {
			return nil, &modelErr{"bad index " + path[0]}
		}
		c := &Doc{K: 'a', A: append([]*Doc(nil), d.A...)}
		if i >= len(c.A) {
			if leaf == nil {
				return nil, &modelErr{"index out of range"}
			}
			if i-len(c.A) >= farGap {
				return nil, &modelErr{"index far out of range"}
			}
			if i-len(c.A) > nearGap {
				return nil, errUnsure
			}
			for len(c.A) <= i {
				c.A = append(c.A, null())
			}
		}
		if len(path) == 1 {
			if leaf == nil {
				c.A = append(c.A[:i], c.A[i+1:]...)
			} else {
				c.A[i] = leaf
			}
			return c, nil
		}
		n, err := change(c.A[i], path[1:], leaf)
		if err != nil {
			return nil, err
		}
		c.A[i] = n
		return c, nil
	}
	return nil, &modelErr{"not a document"}
}

func applyAll(d *Doc, ops []Op) (*Doc, error) {
	for i, op := range ops {
		n, err := applyOp(d, op)
		if err != nil {
			return nil, fmt.Errorf("operation %d (%s %s): %w", i, op.Op, op.Path, err)
		}
		d = n
	}
	return d, nil
}

// needsCreate reports whether turning a into b takes creating
// an object, an array or a null.
func needsCreate(a, b *Doc) bool {
	if a == nil || a.K != b.K {
		return !b.leaf()
	}
	switch a.K {
	case 'o':
		for k, v := range b.M {
			if needsCreate(a.M[k], v) {
				return true
			}
		}
	case 'a':
		for i, v := range b.A {
			var w *Doc
			if i < len(a.A) {
				w = a.A[i]
			}
			if needsCreate(w, v) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- operations

func opString(op Op) string {
	if op.Op == "remove" {
		return fmt.Sprintf("remove %q <%d>", op.Path, op.Timestamp)
	}
	return fmt.Sprintf("%s %q = %#v <%d>", op.Op, op.Path, op.Value, op.Timestamp)
}

func opsString(ops []Op) string {
	s := make([]string, len(ops))
	for i, op := range ops {
		s[i] = opString(op)
	}
	return "[" + strings.Join(s, "; ") + "]"
}

func sameOp(a, b Op) bool {
	return a.Op == b.Op && a.Path == b.Path && a.Timestamp == b.Timestamp && sameVal(a.Value, b.Value)
}

// sameVal compares primitive values and their Go types.
func sameVal(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || (math.IsNaN(x) && math.IsNaN(y)))
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case int:
		y, ok := b.(int)
		return ok && x == y
	case nil:
		return b == nil
	}
	return fmt.Sprintf("%T %#v", a, a) == fmt.Sprintf("%T %#v", b, b)
}

func sameOps(a, b []Op) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameOp(a[i], b[i]) {
			return false
		}
	}
	return true
}

func cloneOps(ops []Op) []Op { return append([]Op(nil), ops...) }

func isSet(op Op) bool { return op.Op == "add" || op.Op == "replace" }
