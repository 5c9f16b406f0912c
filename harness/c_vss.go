//go:build vss

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/vssgen"
)

var realSchema = asset("vss.json")

func init() {
	assume := []string{"schemas use the data types, attributes and combinations of the shipped vss.json, and names without dots and brackets"}
	register(&property{id: "C26", quick: 1200, thorough: 40000, run: runC26, assume: assume,
		rule:  "a data set is generated from the shipped or a random schema, then up to 8 updates at drawn rates (0, 1 and sums of 1 among them); each is audited. Non-trivial and distinct: an update with at least one operation, by rates and operations",
		needs: []string{"updates", "operations", "value changes", "timestamp-only changes", "array leaves", "updates at rate 0", "updates at rate sum 1", "whole numbers"}})
	register(&property{id: "C27", quick: 1000, thorough: 30000, run: runC27, assume: assume,
		rule:  "a whole data set (0-4 cars, 1-8 files, drawn rates and size, shipped or random schema, maintain rate given or not; over an older data set, cleared away or overwritten, at times) is written, read back and replayed. Non-trivial and distinct: a car with at least one non-empty patch, by its files",
		needs: []string{"data sets", "documents", "patches", "operations", "without maintain rate", "over an older data set", "long series", "many cars"}})
	register(&property{id: "C28", quick: 4000, thorough: 150000, run: runC28, assume: assume,
		rule:  "an initial data set of the shipped or a random schema, size 0, 1 or between; every leaf is audited. Non-trivial and distinct: a data set with at least one leaf, by its content",
		needs: []string{"leaves", "boolean", "string", "float", "uint8", "int8", "uint16", "string[]", "float[]", "uint8[]", "allowed", "percent", "size 0", "size 1"}})
	register(&property{id: "C33", quick: 3000, thorough: 100000, run: runC33, assume: assume,
		rule:  "a data set of the shipped or a random schema and an update of it; both and the patch are listed, rebuilt and converted. Non-trivial and distinct: a data set with at least two leaves, by its content",
		needs: []string{"data sets", "leaves", "array leaves", "patches", "empty data sets", "nested leaves", "printed data sets", "printed with line numbers"}})
}

// ---- schemas

type signal struct {
	path    []string
	dtype   string
	percent bool
	allowed []any
}

// schema writes a schema file and returns its name and its leaves.
func schema(c *Ctx) (string, []signal) {
	if c.R.IntN(8) == 0 {
		b, err := os.ReadFile(realSchema)
		if err != nil {
			fatal("%v", err)
		}
		var v map[string]any
		if err := json.Unmarshal(b, &v); err != nil {
			fatal("%v", err)
		}
		c.Count("shipped schema", 1)
		return realSchema, signals(v, nil)
	}
	root := map[string]any{}
	wide := 3
	if c.R.IntN(20) == 0 {
		wide = 40
	}
	for i := c.R.IntN(wide); i >= 0; i-- {
		root[signalName(c)] = schemaNode(c, 4)
	}
	b, err := json.Marshal(root)
	if err != nil {
		fatal("%v", err)
	}
	file := filepath.Join(c.Scratch, "schema.json")
	if err := os.WriteFile(file, b, 0o644); err != nil {
		fatal("%v", err)
	}
	return file, signals(root, nil)
}

func signals(nodes map[string]any, path []string) (all []signal) {
	for _, k := range sortedKeys(nodes) {
		n := nodes[k].(map[string]any)
		p := append(path[:len(path):len(path)], k)
		if t, ok := n["datatype"].(string); ok {
			s := signal{path: p, dtype: t, percent: n["unit"] == "percent"}
			s.allowed, _ = n["allowed"].([]any)
			all = append(all, s)
		} else if ch, ok := n["children"].(map[string]any); ok {
			all = append(all, signals(ch, p)...)
		}
	}
	return all
}

var signalNames = []string{"Vehicle", "Cabin", "Door", "DoorCount", "Row1", "Row2", "Is", "IsOpen", "Speed", "speed", "OBD", "Left", "L", "X1", "A", "AB", "ABS", "Timestamps", "Values", "Data", "Op", "Path"}

func signalName(c *Ctx) string {
	if c.R.IntN(12) == 0 {
		return pick(c.R, []string{"a/b", "m~n", "with space", "été", "0", "12", "-", "a_b", "q\"t", "b\\s", "tab\t", "<5>", "{", "😀", " ", "~1", "null", "S" + strconv.Itoa(c.R.IntN(1000)), strings.Repeat("long", 1+c.R.IntN(30)), "Load%d", "100%", "%s%n", "value", "Value", "_ts", "op"})
	}
	return pick(c.R, signalNames)
}

func schemaNode(c *Ctx, depth int) map[string]any {
	n := map[string]any{"description": "x", "uuid": "u"}
	if depth > 0 && c.R.IntN(5) < 3 {
		n["type"] = "branch"
		if c.R.IntN(5) == 0 {
			n["comment"], n["deprecation"] = "c", "v5"
		}
		ch := map[string]any{}
		width := 6
		if c.R.IntN(40) == 0 {
			width = 60
		}
		for i := c.R.IntN(width); i > 0; i-- {
			ch[signalName(c)] = schemaNode(c, depth-1)
		}
		n["children"] = ch
		return n
	}
	n["type"] = pick(c.R, []string{"sensor", "actuator", "attribute"})
	t := pick(c.R, []string{"boolean", "float", "float", "string", "string", "string[]", "string[]", "uint8", "uint8", "int8", "int8", "uint16", "int16", "uint32", "int32", "double", "float[]", "uint8[]"})
	n["datatype"] = t
	if c.R.IntN(3) == 0 {
		n["min"], n["max"] = 0, 10
	}
	if c.R.IntN(4) == 0 {
		n["default"] = "d"
	}
	switch t {
	case "float", "uint8", "int8", "double", "uint16", "uint32":
		switch c.R.IntN(3) {
		case 0:
			n["unit"] = "percent"
		case 1:
			n["unit"] = pick(c.R, []string{"km", "V", "degrees"})
		}
	}
	if c.R.IntN(3) == 0 {
		var allowed []any
		for i := 0; i < 1+c.R.IntN(4); i++ {
			switch t {
			case "string", "string[]":
				allowed = append(allowed, pick(c.R, []any{"OPEN", "CLOSED", "UNDEFINED", "open", strings.Repeat("x", c.R.IntN(300)+66000*(c.R.IntN(20)/19)), "a\"b", "", "É", "50%", "%d%v", "null", "<1>", "a\\b\n"}))
			case "uint8", "int8", "uint16", "int16", "uint32", "int32":
				allowed = append(allowed, float64(c.R.IntN(100)))
			case "float", "double":
				allowed = append(allowed, float64(c.R.IntN(1000))/16)
			}
		}
		if allowed != nil {
			n["allowed"] = allowed
		}
	}
	return n
}

// generated reads a data set: a leaf is an object of a value and a timestamp.
func generated(v any) *Doc {
	switch v := v.(type) {
	case map[string]any:
		if ts, ok := v["timestamp"]; ok && len(v) == 2 {
			if val, ok := v["value"]; ok {
				t, ok := ts.(int64)
				if !ok {
					return &Doc{K: '?', S: fmt.Sprintf("timestamp %T", ts)}
				}
				d := fromAny(val, t)
				switch n := val.(type) {
				case nil:
					return &Doc{K: 'n'}
				case int:
					d = &Doc{K: 'f', F: float64(n), T: t}
				case int64:
					d = &Doc{K: 'f', F: float64(n), T: t}
				}
				return d
			}
		}
		d := &Doc{K: 'o', M: map[string]*Doc{}}
		for k, e := range v {
			d.M[k] = generated(e)
		}
		return d
	case []any:
		d := &Doc{K: 'a'}
		for _, e := range v {
			d.A = append(d.A, generated(e))
		}
		return d
	}
	return &Doc{K: '?', S: fmt.Sprintf("%T", v)}
}

func dataOf(c *Ctx, what string, v *vssgen.VssJson) *Doc {
	if v == nil {
		c.Fail("no data:"+what, "%s is missing", what)
	}
	d := generated(v.GetData())
	d.walk(nil, func(path []string, n *Doc) {
		if n.K == '?' {
			c.Fail("not a document:"+what, "%s holds a %s at %s", what, n.S, pointer(path))
		}
	})
	return d
}

// readOps reads a JSON patch, independently of the library.
func readOps(b []byte) ([]Op, error) {
	var raw []map[string]any
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	if err := dec.Decode(&raw); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("text after the patch")
	}
	var ops []Op
	for i, m := range raw {
		op, ok1 := m["op"].(string)
		path, ok2 := m["path"].(string)
		n, ok3 := m["timestamp"].(json.Number)
		if !ok1 || !ok2 || (!ok3 && op != "remove") {
			return nil, fmt.Errorf("operation %d: %v", i, m)
		}
		var ts int64
		if ok3 {
			var err error
			if ts, err = strconv.ParseInt(n.String(), 10, 64); err != nil {
				return nil, err
			}
		}
		val := m["value"]
		if n, ok := val.(json.Number); ok {
			f, err := n.Float64()
			if err != nil {
				return nil, err
			}
			val = f
		}
		ops = append(ops, Op{Op: tsonpatch.OpType(op), Path: path, Value: val, Timestamp: ts})
	}
	return ops, nil
}

// audit checks that ops turn prev into next, by the model and by the library.
func auditPatch(c *Ctx, what string, prev *Doc, text []byte, next *Doc) []Op {
	ops, err := readOps(text)
	if err != nil {
		c.Fail("patch unreadable:"+what, "%s: the patch cannot be read: %v: %s", what, err, trim(string(text), 600))
	}
	got, err := applyAll(prev, ops)
	if err != nil {
		c.Fail("patch does not apply:"+what, "%s: the patch does not apply: %v", what, err)
	}
	if d := diffDoc(got, next, true); d != "" {
		c.Fail("patch wrong:"+what, "%s: the patch gives another document %s", what, d)
	}
	c.Must(what+" by the library", func() {
		p, err := tsonpatch.Unmarshal(text)
		if err != nil {
			c.Fail("library cannot read:"+what, "%s: the library cannot read the patch: %v", what, err)
		}
		res, err := tsonpatch.ApplyPatch(prev.toTson(), p)
		if err != nil {
			c.Fail("library cannot apply:"+what, "%s: the library cannot apply the patch: %v", what, err)
		}
		if d := diffDoc(fromTson(res), next, true); d != "" {
			c.Fail("library replay:"+what, "%s: applying the patch gives another document %s", what, d)
		}
	})
	return ops
}

func rates(c *Ctx) (float64, float64) {
	switch c.R.IntN(8) {
	case 0:
		return 0, 0
	case 1:
		return 1, 0
	case 2:
		return 0, 1
	case 3:
		return 0.5, 0.5
	case 4:
		return 0.25, 0.75
	}
	a := c.R.Float64()
	return a, (1 - a) * c.R.Float64()
}

// ---- C26

func runC26(c *Ctx) {
	file, _ := schema(c)
	size := pick(c.R, []float64{1, 1, 0.5, 0.1, 0})
	var cur *vssgen.VssJson
	id := pick(c.R, []int{1, 1, 2, 9, 10, 99, 100, 12345})
	c.Must("generating", func() { cur = vssgen.NewVssJson(file).Generate(size, id) })
	prev := dataOf(c, "the first data set", cur)
	c.Log("schema %s size %g: %s", file, size, trim(prev.String(), 500))
	whole := wholes(cur.GetData(), "", map[string]bool{}, nil)
	length, no := 8, 1
	if file != realSchema && c.R.IntN(30) == 0 {
		length = 120
	}
	for i := c.R.IntN(length); i >= 0; i-- {
		cr, mr := rates(c)
		no++
		before := describe(cur.GetData())
		var next, patch *vssgen.VssJson
		c.Must("generating the next data set", func() { next, patch = cur.GenerateNext(cr, mr, id, no) })
		if got := describe(cur.GetData()); got != before {
			c.Fail("previous modified", "generating the next data set modified the previous one")
		}
		nd := dataOf(c, "the next data set", next)
		text, err := json.Marshal(patch.GetData())
		if err != nil {
			c.Fail("patch not JSON", "the patch cannot be written: %v", err)
		}
		c.Log("rates %g %g: %s", cr, mr, trim(string(text), 600))
		ops := auditPatch(c, "update", prev, text, nd)
		// As a file
		saved := filepath.Join(c.Scratch, "patch.json")
		_ = os.Remove(saved)
		c.Must("saving the patch", func() { patch.Save(saved) })
		b, err := os.ReadFile(saved)
		if err != nil {
			c.Fail("patch not saved", "saving the patch wrote no file: %v", err)
		}
		auditPatch(c, "saved update", prev, b, nd)
		compareData(c, prev, nd, cr, mr)
		wholes(next.GetData(), "", whole, c)
		// The patch leaves no timestamp behind that is not one of the new data set
		for _, op := range ops {
			if op.Op == "remove" {
				c.Fail("removal", "the patch removes %q", op.Path)
			}
		}
		c.Count("updates", 1)
		c.Count("operations", len(ops))
		if len(ops) > 0 {
			c.Key(cr, mr, string(text))
			c.Sample(map[string]any{"change_rate": cr, "maintain_rate": mr, "operations": len(ops), "first": opString(ops[0])})
		}
		cur, prev = next, nd
	}
}

// wholes finds the leaves with whole numbers. Given a case, it checks that those in set still are.
func wholes(v any, at string, set map[string]bool, c *Ctx) map[string]bool {
	switch v := v.(type) {
	case map[string]any:
		if _, leaf := v["timestamp"].(int64); leaf {
			switch n := v["value"].(type) {
			case int, int64:
				if c == nil {
					set[at] = true
				}
			case float64:
				if c != nil && set[at] && n != math.Trunc(n) {
					c.Fail("no longer whole", "%s held whole numbers and now holds %v", at, n)
				}
			}
			if c != nil && set[at] {
				c.Count("whole numbers", 1)
			}
			return set
		}
		for k, e := range v {
			wholes(e, at+"/"+k, set, c)
		}
	case []any:
		for i, e := range v {
			wholes(e, at+"/"+strconv.Itoa(i), set, c)
		}
	}
	return set
}

func compareData(c *Ctx, a, b *Doc, cr, mr float64) {
	if a.shape() != b.shape() {
		c.Fail("structure changed", "the next data set has another structure or other types: %s, was %s", trim(b.shape(), 800), trim(a.shape(), 800))
	}
	if cr == 0 {
		c.Count("updates at rate 0", 1)
	}
	if cr+mr >= 1 {
		c.Count("updates at rate sum 1", 1)
	}
	a.walk(nil, func(path []string, n *Doc) {
		if !n.leaf() {
			return
		}
		m := b.at(path)
		inArray := a.at(path[:len(path)-1]).K == 'a'
		if inArray {
			c.Count("array leaves", 1)
		}
		changed := n.value() != m.value()
		if changed && n.T == m.T {
			c.Fail("value without timestamp", "%s changed from %s to %s with the same timestamp", pointer(path), n, m)
		}
		if changed && cr == 0 {
			c.Fail("value at rate 0", "%s changed from %s to %s at change rate 0", pointer(path), n, m)
		}
		if n.T > m.T {
			c.Fail("timestamp back", "%s went from %s back to %s", pointer(path), n, m)
		}
		if n.T == m.T && cr+mr >= 1 && !inArray {
			c.Fail("untouched at rate 1", "%s was not touched at rates %g and %g", pointer(path), cr, mr)
		}
		switch {
		case changed:
			c.Count("value changes", 1)
		case n.T != m.T:
			c.Count("timestamp-only changes", 1)
		default:
			c.Count("unchanged leaves", 1)
		}
	})
}

// ---- C27

func runC27(c *Ctx) {
	file, _ := schema(c)
	cars, files := c.R.IntN(4), 1+c.R.IntN(6)
	if c.R.IntN(10) == 0 {
		cars, files = 1, 12
	}
	if file != realSchema && c.R.IntN(12) == 0 { // long series, often with nothing to change
		cars, files = 1, 17+c.R.IntN(60)
		if c.R.IntN(4) == 0 {
			files += 60
		}
		c.Count("long series", 1)
	} else if file != realSchema && c.R.IntN(25) == 0 {
		cars, files = 10+c.R.IntN(pick(c.R, []int{5, 5, 100})), 1+c.R.IntN(3)
		c.Count("many cars", 1)
	}
	if file == realSchema && cars > 2 {
		cars = 2
	}
	cr, mr := rates(c)
	size := pick(c.R, []float64{1, 1, 0.5, 0.1, 0})
	dir := filepath.Join(c.Scratch, fmt.Sprintf("data%d", c.Index))
	defer os.RemoveAll(dir)
	conf := map[string]any{"dataset": file, "cars": cars, "files": files, "change_rate": cr, "size": size}
	switch c.R.IntN(3) {
	case 0:
		c.Count("without maintain rate", 1)
	default:
		conf["maintain_rate"] = mr
	}
	c.Log("%v", conf)
	prepare := func() { c.Must("preparing the directory", func() { vssgen.PrepareOutputDir(dir) }) }
	older := c.R.IntN(4)
	if older > 1 { // an older data set is in the way
		old := map[string]any{"dataset": file, "cars": c.R.IntN(cars + 1), "files": 1 + c.R.IntN(files), "change_rate": 1.0, "size": 1.0}
		if older == 2 { // a larger one, to be cleared away
			old["cars"], old["files"] = 1+c.R.IntN(3), 1+c.R.IntN(7)
		}
		if file == realSchema && older == 2 {
			old["cars"] = 1
		}
		c.Log("over %v", old)
		prepare()
		c.Pre("generating the older data set", func() { vssgen.Generate(old, dir); vssgen.SaveMetadata(old, dir) })
		c.Count("over an older data set", 1)
	}
	if older < 3 {
		prepare()
	}
	if c.R.IntN(2) == 0 {
		c.Must("saving the metadata", func() { vssgen.SaveMetadata(conf, dir) })
		c.Must("generating", func() { vssgen.Generate(conf, dir) })
	} else {
		c.Must("generating", func() { vssgen.Generate(conf, dir) })
		c.Must("saving the metadata", func() { vssgen.SaveMetadata(conf, dir) })
	}
	want := []string{"metadata.json"}
	for i := 1; i <= cars; i++ {
		for j := 1; j <= files; j++ {
			want = append(want, fmt.Sprintf("car_%d/tson/%d_%d.tson", i, i, j), fmt.Sprintf("car_%d/patches/%d_%d.json", i, i, j))
		}
	}
	var got []string
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			r, _ := filepath.Rel(dir, p)
			got = append(got, filepath.ToSlash(r))
		}
		return nil
	})
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, " ") != strings.Join(got, " ") {
		c.Fail("files", "the data set consists of the files %v, expected %v", got, want)
	}
	var meta map[string]any
	if b, err := os.ReadFile(filepath.Join(dir, "metadata.json")); err != nil || json.Unmarshal(b, &meta) != nil {
		c.Fail("metadata", "the metadata cannot be read: %s %v", b, err)
	}
	if meta["cars"] != float64(cars) || meta["files"] != float64(files) || meta["change_rate"] != cr || meta["size"] != size || meta["dataset"] != file {
		c.Fail("metadata wrong", "the metadata is %v, expected %v", meta, conf)
	}
	c.Count("data sets", 1)
	for i := 1; i <= cars; i++ {
		var prev *Doc
		total := ""
		for j := 1; j <= files; j++ {
			doc := readDocument(c, filepath.Join(dir, fmt.Sprintf("car_%d/tson/%d_%d.tson", i, i, j)))
			c.Count("documents", 1)
			pf := filepath.Join(dir, fmt.Sprintf("car_%d/patches/%d_%d.json", i, i, j))
			if j == 1 {
				if d := diffDoc(readDocument(c, pf), doc, true); d != "" {
					c.Fail("first file", "the first file of car %d is not its first document %s", i, d)
				}
				prev = doc
				continue
			}
			b, err := os.ReadFile(pf)
			if err != nil {
				c.Fail("patch file", "%v", err)
			}
			ops := auditPatch(c, "patch file", prev, b, doc)
			c.Count("patches", 1)
			c.Count("operations", len(ops))
			if len(ops) > 0 {
				total += string(b)
			}
			prev = doc
		}
		if total != "" {
			c.Key(total)
			c.Sample(map[string]any{"cars": cars, "files": files, "change_rate": cr, "size": size, "patch bytes": len(total)})
		}
	}
}

func readDocument(c *Ctx, file string) *Doc {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Fail("document file", "%v", err)
	}
	own, err := readTson(string(b))
	if err != nil {
		c.Fail("document unreadable", "%s is not a document: %v", filepath.Base(file), err)
	}
	var t tson.Tson
	c.Must("reading "+filepath.Ext(file), func() { err = tson.Unmarshal(b, &t) })
	if err != nil {
		c.Fail("library cannot read document", "%s cannot be read: %v", filepath.Base(file), err)
	}
	if d := diffDoc(fromTson(t), own, true); d != "" {
		c.Fail("library reads another document", "%s is read as another document than it says %s", filepath.Base(file), d)
	}
	return own
}

// ---- C28

func runC28(c *Ctx) {
	file, sigs := schema(c)
	size := pick(c.R, []float64{1, 1, 1, 0, 0.5, 0.05, 0.95})
	var v *vssgen.VssJson
	c.Must("generating", func() { v = vssgen.NewVssJson(file).Generate(size, c.R.IntN(10)) })
	d := dataOf(c, "the data set", v)
	c.Log("schema %s size %g: %s", file, size, trim(d.String(), 800))
	if d.K != 'o' {
		c.Fail("not an object", "the data set is %s", d)
	}
	byPath := map[string]signal{}
	for _, s := range sigs {
		byPath[pointer(s.path)] = s
	}
	seen := map[string]bool{}
	var ts *int64
	stamp := func(at string, n *Doc) {
		if ts == nil {
			ts = &n.T
		}
		if n.T != *ts {
			c.Fail("timestamps", "%s has timestamp %d, another leaf %d", at, n.T, *ts)
		}
		if n.T <= 0 {
			c.Fail("timestamp", "%s has timestamp %d", at, n.T)
		}
	}
	var visit func(path []string, n *Doc)
	visit = func(path []string, n *Doc) {
		at := pointer(path)
		if s, ok := byPath[at]; ok {
			seen[at] = true
			c.Count("leaves", 1)
			if strings.HasSuffix(s.dtype, "[]") {
				if n.K != 'a' || len(n.A) == 0 {
					c.Fail("not an array:"+s.dtype, "%s of type %s is %s", at, s.dtype, n)
				}
				for i, e := range n.A {
					stamp(at, e)
					checkValue(c, fmt.Sprintf("%s/%d", at, i), s, strings.TrimSuffix(s.dtype, "[]"), e)
				}
			} else {
				stamp(at, n)
				checkValue(c, at, s, s.dtype, n)
			}
			c.Count(s.dtype, 1)
			if s.percent {
				c.Count("percent", 1)
			}
			if s.allowed != nil {
				c.Count("allowed", 1)
			}
			return
		}
		if n.K != 'o' {
			c.Fail("not in the schema", "%s (%s) is no leaf of the schema", at, n)
		}
		for _, k := range n.keys() {
			visit(append(path[:len(path):len(path)], k), n.M[k])
		}
	}
	for _, k := range d.keys() {
		visit([]string{k}, d.M[k])
	}
	switch size {
	case 1:
		c.Count("size 1", 1)
		for at := range byPath {
			if !seen[at] {
				c.Fail("missing", "%s is missing at size 1", at)
			}
		}
	case 0:
		c.Count("size 0", 1)
		if len(seen) > 0 {
			c.Fail("present at size 0", "%d leaves at size 0", len(seen))
		}
	}
	if len(seen) > 0 {
		c.Key(d.String())
		c.Sample(map[string]any{"schema leaves": len(sigs), "size": size, "leaves": len(seen)})
	}
}

var intRange = map[string][2]float64{"int8": {-128, 127}, "uint8": {0, 255}, "int16": {-32768, 32767}, "uint16": {0, 65535},
	"int32": {math.MinInt32, math.MaxInt32}, "uint32": {0, math.MaxUint32}}

func checkValue(c *Ctx, at string, s signal, t string, n *Doc) {
	bad := func(why string) {
		c.Fail(why+":"+s.dtype, "%s of type %s (allowed %v, percent %v) is %s: %s", at, s.dtype, s.allowed, s.percent, n, why)
	}
	if s.allowed != nil {
		ok := false
		for _, a := range s.allowed {
			ok = ok || a == n.value()
		}
		if !ok {
			bad("not an allowed value")
		}
	}
	switch t {
	case "boolean":
		if n.K != 'b' {
			bad("not a boolean")
		}
	case "string":
		if n.K != 's' {
			bad("not a string")
		}
	default:
		if n.K != 'f' || math.IsNaN(n.F) || math.IsInf(n.F, 0) {
			bad("not a number")
		}
		if r, ok := intRange[t]; ok && (n.F != math.Trunc(n.F) || n.F < r[0] || n.F > r[1]) {
			bad("out of the range of its type")
		}
		if s.percent && s.allowed == nil && (n.F < 0 || n.F > 100) {
			bad("not a percentage")
		}
	}
}

// ---- C33

// leavesOf lists the leaves of a data set: a timestamped value or an array.
func leavesOf(v any, path string, out map[string]any) {
	m, ok := v.(map[string]any)
	if ok {
		if _, leaf := m["timestamp"]; !leaf {
			for k, e := range m {
				p := k
				if path != "" {
					p = path + "." + k
				}
				leavesOf(e, p, out)
			}
			return
		}
	}
	out[path] = v
}

// spoil changes everything that can be reached from v.
func spoil(v any) {
	switch v := v.(type) {
	case map[string]any:
		for k, e := range v {
			spoil(e)
			v[k] = "spoiled"
		}
		v["extra"] = 1
	case []any:
		for i, e := range v {
			spoil(e)
			v[i] = "spoiled"
		}
	}
}

func runC33(c *Ctx) {
	file, _ := schema(c)
	var v, next, patch *vssgen.VssJson
	c.Must("generating", func() {
		v = vssgen.NewVssJson(file).Generate(pick(c.R, []float64{1, 1, 0.5, 0.1, 0}), 1)
	})
	c.Must("updating", func() { next, patch = v.GenerateNext(c.R.Float64(), c.R.Float64(), 1, 2) })
	if c.R.IntN(2) == 0 {
		c.Must("updating again", func() { _, patch = next.GenerateNext(c.R.Float64(), c.R.Float64(), 1, 3) })
	}
	for _, set := range []*vssgen.VssJson{v, next} {
		c.Count("data sets", 1)
		data, ok := set.GetData().(map[string]any)
		if !ok {
			c.Fail("not an object", "the data set is a %T", set.GetData())
		}
		before := describe(data)
		c.Log("data set %s", trim(before, 800))
		want := map[string]any{}
		leavesOf(data, "", want)
		delete(want, "") // an empty data set
		var list []map[string]any
		c.Must("listing the leaves", func() { list = set.LeafNodes() })
		got := map[string]any{}
		for _, l := range list {
			if len(l) != 1 {
				c.Fail("leaf entry", "a leaf entry holds %d paths: %v", len(l), l)
			}
			for k, e := range l {
				if _, twice := got[k]; twice {
					c.Fail("listed twice", "the leaf %s is listed twice", k)
				}
				w, known := want[k]
				if !known {
					c.Fail("unknown leaf", "the leaf %s is listed, which the data set does not have", k)
				}
				if a, b := describe(e), describe(w); a != b {
					c.Fail("leaf value", "the leaf %s is listed as %s, it is %s", k, a, b)
				}
				got[k] = e
				c.Count("leaves", 1)
				if _, arr := e.([]any); arr {
					c.Count("array leaves", 1)
				}
				if strings.Contains(k, ".") {
					c.Count("nested leaves", 1)
				}
			}
		}
		for k := range want {
			if _, ok := got[k]; !ok {
				c.Fail("not listed", "the leaf %s is not listed", k)
			}
		}
		if len(want) == 0 {
			c.Count("empty data sets", 1)
		}
		var built, conv map[string]any
		var err error
		c.Must("rebuilding the data set", func() { built, err = set.BuildFromLeafNodes() })
		if err != nil {
			c.Fail("rebuild", "the data set cannot be rebuilt: %v", err)
		}
		if a := describe(built); a != before {
			c.Fail("rebuilt", "rebuilt from its leaves the data set is %s, it is %s", trim(a, 800), trim(before, 800))
		}
		c.Must("converting the data set", func() { conv, err = set.ToMapStringInterface() })
		if err != nil {
			c.Fail("conversion", "the data set cannot be converted: %v", err)
		}
		if a := describe(conv); a != before {
			c.Fail("converted", "converted the data set is %s, it is %s", trim(a, 800), trim(before, 800))
		}
		printed(c, set)
		spoil(conv)
		if a := describe(set.GetData()); a != before {
			c.Fail("not a copy", "the data set changed with its converted copy, or by being read")
		}
		if len(want) > 1 {
			c.Key(before)
			c.Sample(map[string]any{"leaves": len(want), "data set": trim(before, 300)})
		}
	}
	c.Count("patches", 1)
	numbered(c, patch)
	var list []map[string]any
	c.Must("listing the leaves of a patch", func() { list = patch.LeafNodes() })
	if len(list) != 0 {
		c.Fail("patch leaves", "a patch lists %d leaves", len(list))
	}
	var err error
	var m map[string]any
	c.Must("converting a patch", func() { m, err = patch.ToMapStringInterface() })
	if err == nil {
		c.Fail("patch converted", "a patch is converted to the object %v", m)
	}
}

// printed checks both ways to print a data set.
func printed(c *Ctx, set *vssgen.VssJson) {
	text := output(c, "printing the data set", set.Print)
	var t tson.Tson
	var err error
	c.Must("reading the printed data set", func() { err = tson.Unmarshal([]byte(text), &t) })
	if err != nil {
		c.Fail("printed", "the printed data set cannot be read: %v: %s", err, trim(text, 600))
	}
	b, err := json.Marshal(set.GetData())
	if err != nil {
		panic(err)
	}
	if d := pairsDiffer(readPairs(c, b), fromTson(t), ""); d != "" {
		c.Fail("printed", "the data set is printed differently: %s: %s", d, trim(text, 800))
	}
	c.Count("printed data sets", 1)
	numbered(c, set)
}

func numbered(c *Ctx, set *vssgen.VssJson) {
	text := output(c, "printing with line numbers", set.PrintWithIndex)
	var plain strings.Builder
	for i, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		n, rest, ok := strings.Cut(line, ": ")
		if at, err := strconv.Atoi(n); !ok || err != nil || at != i+1 {
			c.Fail("line numbers", "line %d is printed as %q", i+1, trim(line, 200))
		}
		plain.WriteString(rest + "\n")
	}
	b, err := json.Marshal(set.GetData())
	if err != nil {
		panic(err)
	}
	var want, got any
	for _, x := range []struct {
		text string
		to   *any
	}{{string(b), &want}, {plain.String(), &got}} {
		dec := json.NewDecoder(strings.NewReader(x.text))
		dec.UseNumber()
		if err := dec.Decode(x.to); err != nil {
			c.Fail("printed with numbers", "what is printed with line numbers cannot be read: %v: %s", err, trim(x.text, 600))
		}
	}
	if !reflect.DeepEqual(got, want) {
		c.Fail("printed with numbers", "printed with line numbers is %s, expected %s", trim(plain.String(), 800), trim(string(b), 800))
	}
	c.Count("printed with line numbers", 1)
}
