//go:build exp

package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/CAU-CPSS/logument/exp"
)

func init() {
	register(&property{id: "C38", quick: 150000, thorough: 6000000, run: runC38,
		assume: []string{"values other than null, keys without dots and slashes, no path that leads through a leaf; documents built item by item have disjoint intervals per path"},
		rule:   "an interval document is made from a random series of adds, replaces and removes (stored out of order, paths in both notations) or item by item, and asked at and around every time. Non-trivial and distinct: a document with at least two intervals, by its intervals",
		needs:  []string{"series", "documents built by item", "removals", "snapshots", "values in snapshots", "gaps", "tracks", "tracked intervals", "event searches", "events", "long series", "tracks from a negative time"}})
	register(&property{id: "C39", quick: 6000, thorough: 200000, run: runC39,
		assume: []string{"finite numbers and valid text, patch numbers and times from 0 on"},
		rule:   "one or two storages and recorders are given random documents, patches and vehicles in random order, some over older files. Non-trivial and distinct: a case with at least three files, by what they hold",
		needs:  []string{"saved files", "refused data", "failures reported", "recorded rows", "recorders", "over older files", "missing sensors", "recorders refused"}})
}

// ---- C38

type span struct {
	from, to int64 // both included
	v        any
	open     bool // reaches at least as far as the last operation
}

func runC38(c *Ctx) {
	// The leaves
	names := []string{"a", "b", "ab", "Speed", "x-y", "k e", "é", "0", "Row1", "value", "timestamp", "~1", "%d"}
	paths := map[string]bool{}
	taken := map[string]bool{} // paths and what leads to them
	for i := 1 + c.R.IntN(6); i > 0; i-- {
		p := pick(c.R, names)
		for k := c.R.IntN(pick(c.R, []int{3, 3, 3, 12})); k > 0; k-- {
			p += "." + pick(c.R, names)
		}
		bad := taken[p]
		for q := p; strings.Contains(q, "."); {
			q = q[:strings.LastIndexByte(q, '.')]
			bad = bad || paths[q]
		}
		if bad {
			continue
		}
		paths[p] = true
		for q := p; ; {
			taken[q] = true
			i := strings.LastIndexByte(q, '.')
			if i < 0 {
				break
			}
			q = q[:i]
		}
	}
	all := sortedKeys(paths)
	value := func() any {
		switch c.R.IntN(8) {
		case 0:
			return c.R.IntN(2) == 0
		case 1:
			return pick(c.R, []string{"", "on", "off", "1", "true", "é"})
		case 2:
			return []any{float64(c.R.IntN(3)), "x"}
		case 3:
			return pick(c.R, []map[string]any{{}, {"m": 0.0}, {"m": 1.0}, {"m": map[string]any{}}, {"m": []any{}, "n": "x"}})
		case 4:
			if c.R.IntN(3) == 0 {
				return []any{}
			}
		}
		return pick(c.R, []float64{0, 1, 1, 2, -1, 0.5, 1e300, math.Nextafter(1, 2), c.R.NormFloat64()})
	}
	start := pick(c.R, []int64{0, 0, 1, -1, -7, -40, -1500, math.MinInt64 + 1, 999, 1500, 1700000000000, 1700000000123456789, math.MaxInt64 - 2000})
	gap := pick(c.R, []int64{2, 3, 10, 300})
	doc := (*exp.TJSONDocument)(nil)
	model := map[string][]span{}
	twice := map[string]bool{} // paths with two operations at one time
	horizon := time.Now().UnixMilli() - 60000

	if c.R.IntN(3) > 0 {
		c.Count("series", 1)
		var ops []exp.TsonPatch
		t := start
		seen := map[string]int64{}
		length := pick(c.R, []int{3, 12, 40})
		if c.R.IntN(200) == 0 {
			length = 1500
			c.Count("long series", 1)
		}
		for i := c.R.IntN(length); i >= 0; i-- {
			p := pick(c.R, all)
			op := exp.TsonPatch{Op: pick(c.R, []string{"add", "replace", "replace", "replace", "remove"}), Path: p, Timestamp: t}
			switch c.R.IntN(3) {
			case 0:
				op.Path = "/" + strings.ReplaceAll(p, ".", "/")
			case 1:
				op.Path = strings.ReplaceAll(p, ".", "/")
			}
			if op.Op == "remove" {
				c.Count("removals", 1)
			} else {
				op.Value = value()
			}
			if at, ok := seen[p]; ok && at == t {
				twice[p] = true
			}
			seen[p] = t
			ops = append(ops, op)
			// The model
			s := model[p]
			n := len(s)
			switch {
			case op.Op == "remove":
				if n > 0 && s[n-1].open {
					s[n-1].open, s[n-1].to = false, t-1
				}
			case n > 0 && s[n-1].open && reflect.DeepEqual(s[n-1].v, op.Value):
			default:
				if n > 0 && s[n-1].open {
					s[n-1].open, s[n-1].to = false, t-1
				}
				s = append(s, span{from: t, v: op.Value, open: true})
			}
			model[p] = s
			if c.R.IntN(4) > 0 && t < math.MaxInt64-gap {
				t += int64(c.R.IntN(int(gap)))
			}
		}
		horizon = max(horizon, ops[len(ops)-1].Timestamp)
		for p, s := range model {
			keep := s[:0]
			for _, x := range s {
				if x.open {
					x.to = horizon
				}
				if x.from <= x.to {
					keep = append(keep, x)
				}
			}
			model[p] = keep
		}
		// The series is stored in any order that leaves those of one time in order
		given := append([]exp.TsonPatch(nil), ops...)
		if c.R.IntN(2) == 0 {
			given = reordered(c.R, ops)
		}
		before := fmt.Sprintf("%#v", given)
		c.Log("series %v", given)
		var err error
		c.Must("making the interval document", func() { doc, err = exp.FromTSONPatches(given) })
		if err != nil || doc == nil {
			c.Fail("error", "the interval document cannot be made: %v", err)
		}
		if after := fmt.Sprintf("%#v", given); after != before {
			c.Fail("series changed", "making the interval document changed the series from %s to %s", trim(before, 600), trim(after, 600))
		}
	} else {
		c.Count("documents built by item", 1)
		type item struct {
			p string
			s span
		}
		var items []item
		for _, p := range all {
			t := start
			for i := c.R.IntN(pick(c.R, []int{6, 6, 6, 60})); i > 0 && t < math.MaxInt64-2*gap-2; i-- {
				t += int64(c.R.IntN(int(gap)))
				s := span{from: t, to: t + int64(c.R.IntN(int(gap))), v: value()}
				t = s.to + 1
				model[p] = append(model[p], s)
				items = append(items, item{p, s})
			}
		}
		c.R.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
		c.Log("items %v", items)
		c.Must("building the interval document", func() {
			doc = exp.NewTJSONDocument()
			for _, it := range items {
				if err := doc.AddItem(it.p, it.s.from, it.s.to, it.s.v); err != nil {
					c.Fail("not added", "the item %v is refused: %v", it, err)
				}
			}
		})
		horizon = math.MaxInt64
	}
	if c.R.IntN(20) == 0 {
		c.Must("printing the document", func() { doc.Print(); doc.PrettyPrint() })
	}

	var times []int64
	spans := 0
	for _, s := range model {
		for _, x := range s {
			times = append(times, x.from, x.from-1, x.from+1, x.to, x.to-1, x.to+1)
			spans++
		}
	}
	times = append(times, start, start+1, start+int64(c.R.IntN(500)), 0)
	ask := times[:0]
	for _, t := range times {
		if t <= horizon {
			ask = append(ask, t)
		}
	}
	c.R.Shuffle(len(ask), func(i, j int) { ask[i], ask[j] = ask[j], ask[i] })

	for i := 0; i < len(ask) && i < 24; i++ {
		t := ask[i]
		want := map[string]any{}
		n := 0
		for p, s := range model {
			found := false
			for _, x := range s {
				if x.from <= t && t <= x.to {
					put(want, strings.Split(p, "."), x.v)
					n++
					found = true
				}
			}
			if !found {
				c.Count("gaps", 1)
			}
		}
		var got map[string]any
		var err error
		c.Must("the snapshot", func() { got, err = doc.TemporalSnapshot(t) })
		if err != nil || got == nil || !reflect.DeepEqual(got, want) {
			c.Fail("snapshot", "the snapshot at %d is %v (%v), expected %v", t, got, err, want)
		}
		c.Count("snapshots", 1)
		c.Count("values in snapshots", n)
	}
	for i := 0; i < 6 && len(ask) > 0; i++ {
		p := pick(c.R, all)
		a, b := pick(c.R, ask), pick(c.R, ask)
		if a > b {
			a, b = b, a
		}
		if c.R.IntN(5) == 0 {
			a, b = min(0, start), horizon
		}
		if a < 0 {
			c.Count("tracks from a negative time", 1)
		}
		var want []span
		for _, x := range model[p] {
			if x.from <= b && x.to >= a {
				want = append(want, x)
			}
		}
		var res []map[string]any
		var err error
		c.Must("the track", func() { res, err = doc.TemporalTrack(p, a, b) })
		if len(model[p]) == 0 { // the document does not know the path
			if len(res) > 0 {
				c.Fail("track", "the track of %s, which is never set, is %v", p, res)
			}
			continue
		}
		if err != nil {
			c.Fail("track", "the track of %s from %d to %d fails: %v", p, a, b, err)
		}
		c.Count("tracks", 1)
		c.Count("tracked intervals", len(want))
		var got []span
		for _, r := range res {
			s, _ := r["timestamp"].(string)
			x, y, ok := strings.Cut(strings.TrimPrefix(s, "-"), "-")
			from, err1 := strconv.ParseInt(s[:len(s)-len(strings.TrimPrefix(s, "-"))]+x, 10, 64)
			to, err2 := strconv.ParseInt(y, 10, 64)
			v, has := r["data"]
			if !ok || err1 != nil || err2 != nil || !has || len(r) != 2 {
				c.Fail("track entry", "the track of %s holds %v", p, r)
			}
			got = append(got, span{from: from, to: to, v: v})
		}
		same := len(joined(got)) == len(joined(want))
		for i, x := range joined(want) {
			if !same {
				break
			}
			y := joined(got)[i]
			same = x.from == y.from && reflect.DeepEqual(x.v, y.v) && (x.to == y.to || x.open && y.to >= x.to)
		}
		if !same || !sort.SliceIsSorted(got, func(i, j int) bool { return got[i].from < got[j].from }) {
			c.Fail("track", "the track of %s from %d to %d is %v, expected %v", p, a, b, got, want)
		}
		if twice[p] {
			continue
		}
		th := pick(c.R, []float64{-2, 0, 0.5, 1, 1e200})
		above := func(v any) bool { f, ok := v.(float64); return ok && f > th }
		events := []int64{}
		for _, x := range want {
			if x.from >= a && above(x.v) {
				events = append(events, x.from)
			}
		}
		var ev []int64
		c.Must("the event search", func() { ev, err = doc.FindEvents(p, a, b, above) })
		if err != nil || fmt.Sprint(ev) != fmt.Sprint(events) {
			c.Fail("events", "the events of %s above %v from %d to %d are %v (%v), expected %v", p, th, a, b, ev, err, events)
		}
		c.Count("event searches", 1)
		c.Count("events", len(events))
	}
	// An unknown path
	var res []map[string]any
	var ev []int64
	c.Must("the track of an unknown path", func() {
		res, _ = doc.TemporalTrack("unknown.path", 0, horizon)
		ev, _ = doc.FindEvents("unknown", 0, horizon, func(any) bool { return true })
	})
	if len(res)+len(ev) > 0 {
		c.Fail("unknown path", "an unknown path has the track %v and the events %v", res, ev)
	}
	if spans > 1 {
		c.Key(fmt.Sprint(model))
		c.Sample(map[string]any{"paths": all, "intervals": spans})
	}
}

// joined puts adjacent intervals of the same value together.
func joined(s []span) (all []span) {
	for _, x := range s {
		if n := len(all); n > 0 && all[n-1].to+1 == x.from && reflect.DeepEqual(all[n-1].v, x.v) {
			all[n-1].to, all[n-1].open = x.to, x.open
			continue
		}
		all = append(all, x)
	}
	return all
}

// reordered mixes operations, leaving those of one time in order.
func reordered(r *rand.Rand, ops []exp.TsonPatch) []exp.TsonPatch {
	groups := map[int64][]exp.TsonPatch{}
	for _, op := range ops {
		groups[op.Timestamp] = append(groups[op.Timestamp], op)
	}
	at := sortedKeys(groups)
	var all []exp.TsonPatch
	for len(at) > 0 {
		i := r.IntN(len(at))
		g := groups[at[i]]
		all = append(all, g[0])
		if groups[at[i]] = g[1:]; len(g) == 1 {
			at = append(at[:i], at[i+1:]...)
		}
	}
	return all
}

func put(m map[string]any, path []string, v any) {
	for _, k := range path[:len(path)-1] {
		next, ok := m[k].(map[string]any)
		if !ok {
			next = map[string]any{}
			m[k] = next
		}
		m = next
	}
	m[path[len(path)-1]] = v
}

// ---- C39

func runC39(c *Ctx) {
	base := filepath.Join(c.Scratch, "store")
	_ = os.RemoveAll(base)
	defer os.RemoveAll(base)
	g := docGen(c)
	g.OddKeys = true
	scenario := func() string { return pick(c.R, []string{"urban_traffic", "battery_charging", "s", "urban"}) }
	data := func() any {
		switch c.R.IntN(4) {
		case 0: // operations
			ops := []exp.TsonPatch{}
			for i := c.R.IntN(5); i > 0; i-- {
				ops = append(ops, exp.TsonPatch{Op: "replace", Path: pick(c.R, []string{"a.b", "a/b<>&", "é\u2028"}), Value: c.R.NormFloat64(), Timestamp: pick(c.R, []int64{0, 1, 1700000000123456789, math.MaxInt64})})
			}
			return ops
		case 1:
			return map[string]any{"a": map[string]any{"value": 1.5, "timestamp": pick(c.R, []int64{3, 1700000000123456789, math.MaxInt64})}, "n": c.Index}
		}
		return g.root().toAny()
	}
	wrong := []any{math.NaN(), map[string]any{"a": math.Inf(1)}, []any{func() {}}, make(chan int)}

	files := map[string]string{} // every file and what it holds, as JSON
	type store struct {
		ds   *exp.DataStorage
		dir  string
		kind map[string]string // what was saved last of each kind
	}
	var stores []*store
	sc := scenario()
	for i := 1 + c.R.IntN(2); i > 0; i-- {
		s := &store{kind: map[string]string{}}
		c.Must("making a storage", func() { s.ds = exp.NewDataStorage(base, sc) })
		s.dir = s.ds.OutputDir
		if r, err := filepath.Rel(filepath.Join(base, sc), s.dir); err != nil || strings.HasPrefix(r, "..") || r == "." {
			c.Fail("directory", "the storage of %s keeps its files in %s", sc, s.dir)
		}
		if st, err := os.Stat(s.dir); err != nil || !st.IsDir() {
			c.Fail("directory", "the storage's directory does not exist: %v", err)
		}
		stores = append(stores, s)
		sc += "_2"
	}
	snapshot := func() map[string]string {
		m := map[string]string{}
		_ = filepath.Walk(base, func(p string, info os.FileInfo, err error) error {
			if err == nil && info.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				m[p] = string(b)
			}
			return nil
		})
		return m
	}
	far := pick(c.R, []int64{10, 100, 10000, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1000000000, 100000000000})
	owner := map[string]string{} // file -> which storage and kind
	for i := 1 + c.R.IntN(16); i > 0; i-- {
		s := pick(c.R, stores)
		v := data()
		refuse := c.R.IntN(8) == 0
		if refuse {
			v = pick(c.R, wrong)
		}
		n, ms := c.R.IntN(3), int64(c.R.IntN(3))
		if c.R.IntN(2) == 0 {
			n += int(far)
		}
		if c.R.IntN(2) == 0 {
			ms += far
		}
		if c.R.IntN(6) == 0 {
			n = pick(c.R, []int{9999, 10000, 10001, 100000, c.R.IntN(20)})
			ms = pick(c.R, []int64{100, 999999999, 1000000000, 1700000000123456789, int64(c.R.IntN(1000))})
		}
		kinds := []struct {
			name string
			save func() error
		}{
			{"initial JSON", func() error { return s.ds.SaveInitialJSON(v) }}, {"initial TSON", func() error { return s.ds.SaveInitialTSON(v) }},
			{"final JSON", func() error { return s.ds.SaveFinalJSON(v) }}, {"final TSON", func() error { return s.ds.SaveFinalTSON(v) }},
			{"all JSON patches", func() error { return s.ds.SaveAllJSONPatches(v) }}, {"all TSON patches", func() error { return s.ds.SaveAllTSONPatches(v) }},
			{fmt.Sprint("JSON patch ", n), func() error { return s.ds.SaveJSONPatch(n, v) }}, {fmt.Sprint("TSON patch ", n), func() error { return s.ds.SaveTSONPatch(n, v) }},
			{fmt.Sprint("JSON snapshot ", ms), func() error { return s.ds.SaveJSONSnapshot(ms, v) }}, {fmt.Sprint("TSON snapshot ", ms), func() error { return s.ds.SaveTSONSnapshot(ms, v) }},
		}
		k := pick(c.R, kinds)
		me := s.dir + " " + k.name
		gone := i == 1 && !refuse && c.R.IntN(8) == 0
		if gone { // the directory is taken away
			_ = os.RemoveAll(s.dir)
			for p := range owner {
				if filepath.Dir(p) == filepath.Clean(s.dir) {
					delete(owner, p)
					delete(files, p)
				}
			}
		}
		blocked := ""
		if !refuse && !gone && c.R.IntN(3) == 0 { // the place of an older file is taken, or there is no room for it
			for _, p := range sortedKeys(owner) {
				if owner[p] == me {
					blocked = p
				}
			}
		}
		if blocked != "" {
			_ = os.Remove(blocked)
			var err error
			if c.R.IntN(3) == 0 {
				err = os.Mkdir(blocked, 0o755)
			} else {
				err = os.Symlink("/dev/full", blocked)
			}
			if err != nil {
				c.Stop("no obstacle")
			}
		}
		before := snapshot()
		var err error
		c.Must("saving the "+k.name, func() { err = k.save() })
		after := snapshot()
		var changed []string
		for p := range after {
			if b, ok := before[p]; !ok || b != after[p] {
				changed = append(changed, p)
			}
		}
		for p := range before {
			if _, ok := after[p]; !ok {
				c.Fail("file lost", "saving the %s removes %s", k.name, p)
			}
		}
		if refuse {
			if err == nil {
				c.Fail("not refused", "saving %T as the %s gives no error", v, k.name)
			}
			if len(changed) > 0 {
				c.Fail("refused but effective", "saving %T as the %s fails (%v) and changes %v", v, k.name, err, changed)
			}
			c.Count("refused data", 1)
			continue
		}
		if blocked != "" {
			delete(owner, blocked)
			delete(files, blocked)
			if err != nil && len(changed) > 0 {
				c.Fail("failed but effective", "saving the %s fails (%v) and changes %v", k.name, err, changed)
			}
			if st, serr := os.Lstat(blocked); err == nil && (serr != nil || !st.Mode().IsRegular()) {
				c.Fail("failure not reported", "the %s cannot be written to %s and saving it gives no error", k.name, blocked)
			}
			if err != nil {
				_ = os.RemoveAll(blocked)
			}
		}
		if (gone || blocked != "") && err != nil {
			c.Count("failures reported", 1)
			continue
		}
		if err != nil {
			c.Fail("not saved", "saving the %s fails: %v", k.name, err)
		}
		var file string
		for p, o := range owner {
			if o == me {
				file = p
			}
		}
		if file != "" {
			c.Count("over older files", 1)
		} else if len(changed) == 1 {
			file = changed[0]
			if o, ok := owner[file]; ok {
				c.Fail("file shared", "the %s is saved in %s, which holds the %s", k.name, file, o)
			}
			owner[file] = me
		}
		if len(changed) > 1 || len(changed) == 1 && changed[0] != file || file == "" {
			c.Fail("files", "saving the %s changes the files %v", me, changed)
		}
		if filepath.Dir(file) != filepath.Clean(s.dir) {
			c.Fail("directory", "the %s is saved in %s, not in %s", k.name, file, s.dir)
		}
		dec := json.NewDecoder(strings.NewReader(after[file]))
		dec.UseNumber()
		var got any
		if err := dec.Decode(&got); err != nil || dec.More() {
			c.Fail("unreadable", "the saved %s cannot be read: %v: %s", k.name, err, trim(after[file], 300))
		}
		if w := savedDiffers(got, v, ""); w != "" {
			c.Fail("saved wrong", "the saved %s differs %s: %s", k.name, w, trim(after[file], 500))
		}
		files[file] = after[file]
		c.Count("saved files", 1)
	}

	// The recorder
	if c.R.IntN(3) > 0 {
		recordSensors(c, base, files)
	}
	if len(files) > 2 {
		var all []string
		for _, k := range sortedKeys(files) {
			all = append(all, files[k])
		}
		c.Key(strings.Join(all, "\n"))
		c.Sample(map[string]any{"files": len(files)})
	}
}

// savedDiffers compares what was read back with what was given.
func savedDiffers(got, want any, at string) string {
	no := func() string { return fmt.Sprintf("at %q: %v (%T) for %v (%T)", at, got, got, want, want) }
	switch w := want.(type) {
	case []exp.TsonPatch:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return no()
		}
		for i, op := range w {
			m := map[string]any{"op": op.Op, "path": op.Path, "value": op.Value, "timestamp": op.Timestamp}
			if d := savedDiffers(g[i], m, fmt.Sprint(at, "/", i)); d != "" {
				return d
			}
		}
		return ""
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return no()
		}
		for k, e := range w {
			f, ok := g[k]
			if !ok {
				return no()
			}
			if d := savedDiffers(f, e, at+"/"+k); d != "" {
				return d
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return no()
		}
		for i, e := range w {
			if d := savedDiffers(g[i], e, fmt.Sprint(at, "/", i)); d != "" {
				return d
			}
		}
		return ""
	case float64:
		n, ok := got.(json.Number)
		if f, err := n.Float64(); !ok || err != nil || f != w {
			return no()
		}
		return ""
	case int:
		return savedDiffers(got, int64(w), at)
	case int64:
		n, ok := got.(json.Number)
		if i, err := strconv.ParseInt(n.String(), 10, 64); !ok || err != nil || i != w {
			return no()
		}
		return ""
	}
	if !reflect.DeepEqual(got, want) {
		return no()
	}
	return ""
}

func recordSensors(c *Ctx, base string, files map[string]string) {
	type rows struct {
		rec  *exp.SensorDataRecorder
		want map[string][][2]string
	}
	var all []*rows
	sc := "recorded"
	for i := 1 + c.R.IntN(2); i > 0; i-- {
		sc += "_x"
		if c.R.IntN(3) == 0 { // an earlier recording, longer
			var old *exp.SensorDataRecorder
			var err error
			c.Pre("an older recorder", func() { old, err = exp.NewSensorDataRecorder(base, sc) })
			if err == nil {
				v := exp.InitializeVehicleData("urban_traffic")
				for k := int64(0); k < 30; k++ {
					_ = old.RecordSensorData(k*1000, v)
				}
				old.Close()
			}
		}
		r := &rows{want: map[string][][2]string{}}
		var err error
		c.Must("making a recorder", func() { r.rec, err = exp.NewSensorDataRecorder(base, sc) })
		if err != nil || r.rec == nil {
			c.Fail("no recorder", "the recorder cannot be made: %v", err)
		}
		c.Count("recorders", 1)
		all = append(all, r)
	}
	if c.R.IntN(3) == 0 { // a recording that cannot be kept
		sc += "_b"
		blockedRecorder(c, base, sc)
	}
	v := exp.InitializeVehicleData(pick(c.R, []string{"urban_traffic", "highway_cruising", "battery_charging"}))
	groups := []*map[string]*exp.SensorData{&v.SensorsHighFreq, &v.SensorsMedFreq, &v.SensorsLowFreq, &v.ActuatorsHighVar, &v.ActuatorsLowVar, &v.Attributes}
	find := func(p string) (*map[string]*exp.SensorData, *exp.SensorData) {
		for _, g := range groups {
			if s := (*g)[p]; s != nil {
				return g, s
			}
		}
		return nil, nil
	}
	t := int64(0)
	for i := c.R.IntN(pick(c.R, []int{4, 30, 300})); i > 0; i-- {
		for _, p := range exp.KeySensorPaths {
			g, s := find(p)
			if s == nil {
				continue
			}
			switch c.R.IntN(5) {
			case 0:
				s.Value = pick(c.R, []any{0.0, 1.00005, -0.00004, 1e15, 123456.78949, c.R.NormFloat64() * 100})
			case 1:
				if c.R.IntN(3) == 0 {
					s.Value = pick(c.R, []any{true, false, "a,b", "say \"x\"", "two\nlines", "", " é ", 7})
				}
			case 2:
				if c.R.IntN(6) == 0 { // moves to another group
					to := pick(c.R, groups)
					if *to == nil {
						*to = map[string]*exp.SensorData{}
					}
					delete(*g, p)
					(*to)[p] = s
				}
			case 3:
				if c.R.IntN(30) == 0 {
					delete(*g, p)
					c.Count("missing sensors", 1)
				}
			}
		}
		r := pick(c.R, all)
		var err error
		c.Must("recording", func() { err = r.rec.RecordSensorData(t, v) })
		if err != nil {
			c.Fail("not recorded", "recording at %d fails: %v", t, err)
		}
		for _, p := range exp.KeySensorPaths {
			if _, s := find(p); s != nil {
				val := fmt.Sprint(s.Value)
				if f, ok := s.Value.(float64); ok {
					val = strconv.FormatFloat(f, 'f', 4, 64)
				}
				r.want[p] = append(r.want[p], [2]string{strconv.FormatInt(t, 10), val})
			}
		}
		t += pick(c.R, []int64{100, 100, 1, 1000, 0, 12345})
	}
	names := map[string]map[string]string{}
	for i, r := range all {
		m := map[string]string{}
		for _, p := range exp.KeySensorPaths {
			f := r.rec.CSVFiles[p]
			if f == nil {
				c.Fail("no sensor file", "there is no file for %s", p)
			}
			m[p] = f.Name()
			for _, o := range names {
				for q, n := range o {
					if n == f.Name() {
						c.Fail("file shared", "%s and %s of two recorders are recorded in %s", p, q, n)
					}
				}
			}
		}
		names[strconv.Itoa(i)] = m
	}
	for i, r := range all {
		c.Must("closing the recorder", func() { r.rec.Close() })
		for _, p := range exp.KeySensorPaths {
			name := names[strconv.Itoa(i)][p]
			b, err := os.ReadFile(name)
			if err != nil {
				c.Fail("no sensor file", "%v", err)
			}
			got, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
			if err != nil || len(got) == 0 || len(got[0]) != 3 {
				c.Fail("sensor file", "the file of %s cannot be read: %v: %s", p, err, trim(string(b), 300))
			}
			want := r.want[p]
			if len(got)-1 != len(want) {
				c.Fail("sensor rows", "the file of %s has %d rows, %d were recorded", p, len(got)-1, len(want))
			}
			for k, w := range want {
				row := got[k+1]
				at, err := strconv.ParseInt(row[0], 10, 64)
				if err != nil || at < 0 || row[1] != w[0] || row[2] != w[1] {
					c.Fail("sensor row", "row %d of %s is %q, recorded was %q", k+1, p, row, w)
				}
				c.Count("recorded rows", 1)
			}
			files[name] = fmt.Sprint(want)
		}
	}
}

// blockedRecorder makes a recorder for which one of the files cannot be
// made, since a directory has its name.
func blockedRecorder(c *Ctx, base, sc string) {
	var rec *exp.SensorDataRecorder
	var err error
	c.Pre("an earlier recorder", func() { rec, err = exp.NewSensorDataRecorder(base, sc) })
	if err != nil {
		return
	}
	p := pick(c.R, exp.KeySensorPaths)
	f := rec.CSVFiles[p]
	c.Pre("closing it", func() { rec.Close() })
	if f == nil || os.Remove(f.Name()) != nil || os.Mkdir(f.Name(), 0o755) != nil {
		return
	}
	c.Must("making a recorder that cannot have its file", func() { rec, err = exp.NewSensorDataRecorder(base, sc) })
	if err != nil {
		c.Count("recorders refused", 1)
		return
	}
	if st, serr := os.Stat(f.Name()); serr == nil && st.IsDir() && (rec == nil || rec.CSVFiles[p] == nil || rec.CSVFiles[p].Name() == f.Name()) {
		c.Fail("failure not reported", "the file of %s cannot be made and making the recorder gives no error", p)
	}
	if rec != nil {
		c.Pre("closing it", func() { rec.Close() })
	}
}
