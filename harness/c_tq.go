//go:build exp

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
)

func init() {
	register(&property{id: "C35", quick: 240, thorough: 6000, run: runC35,
		assume: []string{"recordings as the simulation makes them: leaves of nested objects, the four tracked signals among them, operations replacing or adding members, at least ten seconds long"},
		rule:   "one recording (random; every 40th made by the simulation itself) among older ones and other files, and one whole query experiment over it; every answer and table row is compared with a replay. Distinct: by recording",
		needs:  []string{"snapshot answers", "track answers", "tracked values", "event answers", "events", "table rows", "older recordings", "simulated recordings", "copies under other names"}})
}

var trackedPaths = []string{
	"Vehicle.Speed",
	"Vehicle.CurrentLocation.Latitude",
	"Vehicle.CurrentLocation.Longitude",
	"Vehicle.Powertrain.TractionBattery.StateOfCharge.Current",
}

// recording makes a random recording: an initial document and operations in time order.
func recording(c *Ctx) (*Doc, []exp.TsonPatch) {
	init := &Doc{K: 'o', M: map[string]*Doc{}}
	if c.R.IntN(3) == 0 {
		init = objectDoc(c, 2)
	}
	set := func(path string, v any) {
		at := init
		parts := strings.Split(path, ".")
		for _, p := range parts[:len(parts)-1] {
			if e := at.M[p]; e == nil || e.K != 'o' {
				at.M[p] = &Doc{K: 'o', M: map[string]*Doc{}}
			}
			at = at.M[p]
		}
		at.M[parts[len(parts)-1]] = fromAny(v, 0)
	}
	paths := slices.Clone(trackedPaths)
	for _, p := range []string{"Vehicle.IsOpen", "Vehicle.Cabin.Door.State", "Vehicle.SpeedLimit", "Vehicle.Body.Speed"} {
		if c.R.IntN(2) == 0 {
			paths = append(paths, p)
		}
	}
	speeds := []float64{0, 5, 9.99, 10, 10.01, 29, 30, 30.5, 49.5, 50, 51, 80}
	value := func(path string) any {
		switch {
		case path == "Vehicle.IsOpen":
			return c.R.IntN(2) == 0
		case strings.HasSuffix(path, "State"):
			return pick(c.R, []string{"OPEN", "CLOSED", "", "<>&\"é"})
		case strings.Contains(path, "Speed"):
			return pick(c.R, speeds)
		}
		return float64(int(c.R.NormFloat64()*1e6)) / 1e4
	}
	for _, p := range paths {
		set(p, value(p))
	}
	lo := int64(1 + c.R.IntN(5))
	switch c.R.IntN(4) {
	case 0:
		lo = 1_700_000_000_000
	case 1:
		lo = 1_700_000_000_000_000_000
	}
	span := int64(10000)
	if c.R.IntN(4) > 0 {
		span += int64(c.R.IntN(1 << (1 + c.R.IntN(17))))
	}
	n := 4 + c.R.IntN(60)
	if c.R.IntN(8) == 0 {
		n = 300
	}
	var times []int64
	for i := 0; i < n; i++ {
		times = append(times, lo+c.R.Int64N(span+1))
	}
	times[0], times[1] = lo, lo+span
	slices.Sort(times)
	var ops []exp.TsonPatch
	used := map[string]bool{}
	for _, t := range times {
		for k := 1 + c.R.IntN(2); k > 0; k-- {
			p := pick(c.R, paths)
			if c.R.IntN(2) == 0 {
				p = "Vehicle.Speed"
			}
			op := "replace"
			if c.R.IntN(10) == 0 {
				p = "Vehicle.Extra" + strconv.Itoa(c.R.IntN(3))
				op = "add"
			}
			if key := fmt.Sprint(p, t); used[key] { // each signal once per instant, as recorded
				if k == 1 && (len(ops) == 0 || ops[len(ops)-1].Timestamp != t) {
					k++
				}
				continue
			} else {
				used[key] = true
			}
			ops = append(ops, exp.TsonPatch{Op: op, Path: p, Value: value(p), Timestamp: t})
		}
	}
	return init, ops
}

func saveRecording(dir string, init *Doc, ops []exp.TsonPatch, pairs bool) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal("%v", err)
	}
	var v any = init.toAny()
	if pairs {
		v = init.pairAny()
	}
	for name, v := range map[string]any{"initial_json.json": v, "all_tson_patches.json": ops} {
		b, err := json.MarshalIndent(v, "", "  ")
		if err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
}

const queried = "urban_traffic"

func runC35(c *Ctx) {
	root := filepath.Join(c.Scratch, "results")
	_ = os.RemoveAll(root)
	defer os.RemoveAll(root)
	base := filepath.Join(root, "patch_experiment", queried)
	older := func(stamp string) {
		i, o := recording(c)
		saveRecording(filepath.Join(base, stamp), i, o, c.R.IntN(2) == 0)
		c.Count("older recordings", 1)
	}
	var stamp string
	if c.Index%40 == 39 {
		if c.R.IntN(2) == 0 {
			older(pick(c.R, []string{"20240101_000000", "19991231_235959"}))
		}
		before := everything(base)
		c.Must("the simulation", exp.RealworldScenario)
		entries, _ := os.ReadDir(base)
		for _, e := range entries {
			if _, old := before[e.Name()+"/"]; e.IsDir() && !old && e.Name() != "sensor_data" {
				stamp = e.Name()
			}
		}
		if stamp == "" {
			c.Fail("no recording", "the simulation left no recording of %s", queried)
		}
		c.Count("simulated recordings", 1)
	} else {
		stamp = fmt.Sprintf("20%02d%02d%02d_%02d%02d%02d", 10+c.R.IntN(40), 1+c.R.IntN(12), 1+c.R.IntN(28), c.R.IntN(24), c.R.IntN(60), c.R.IntN(60))
		i, o := recording(c)
		saveRecording(filepath.Join(base, stamp), i, o, c.R.IntN(2) == 0)
		c.Key(text(i.toAny()), fmt.Sprint(o))
		c.Log("recording %s: %s, %v", stamp, trim(text(i.toAny()), 600), o)
		// Older ones, made (or touched) later
		for k := c.R.IntN(4); k > 0; k-- {
			b := []byte(stamp)
			at := pick(c.R, []int{3, 5, 7, 10, 12, 14})
			if b[at] == '0' {
				continue
			}
			b[at]--
			for j := at + 1; j < len(b); j++ {
				if b[j] != '_' && c.R.IntN(2) == 0 {
					b[j] = byte('0' + c.R.IntN(10))
				}
			}
			older(string(b))
		}
		for _, d := range []string{"latest", "99990101_000000_old", "9999_01", "sensor_data", "x20990101_000000", "20990101-000000", "snapshot_before", "zzzzzzzz_zzzzzz", "2099010١_000000", "20990101_00000x"} {
			if c.R.IntN(3) == 0 {
				i, o := recording(c)
				saveRecording(filepath.Join(base, d), i, o, false)
			}
		}
		if c.R.IntN(3) == 0 {
			_ = os.WriteFile(filepath.Join(base, "20991231_235959"), []byte("a file"), 0o644)
		}
		if c.R.IntN(3) == 0 { // what else a recording holds
			i, o := recording(c)
			saveRecording(filepath.Join(c.Scratch, "results", "other"), i, o, false)
			_ = os.Rename(filepath.Join(c.Scratch, "results", "other", "all_tson_patches.json"), filepath.Join(base, stamp, "all_json_patches.json"))
			_ = os.Rename(filepath.Join(c.Scratch, "results", "other", "initial_json.json"), filepath.Join(base, stamp, "final_json.json"))
			_ = os.RemoveAll(filepath.Join(c.Scratch, "results", "other"))
		}
		if c.R.IntN(3) == 0 { // and copies under other names
			i, o := recording(c)
			saveRecording(filepath.Join(c.Scratch, "results", "other"), i, o, false)
			for _, n := range []string{"all_tson_patches", "initial_json", "initial_tson"} {
				b, err := os.ReadFile(filepath.Join(c.Scratch, "results", "other", n+".json"))
				if err != nil {
					continue
				}
				for _, name := range []string{n + "_old.json", n + ".json.bak", "old_" + n + ".json", strings.ToUpper(n) + ".json", "." + n + ".json", n + " (1).json", n} {
					if c.R.IntN(3) == 0 {
						_ = os.WriteFile(filepath.Join(base, stamp, name), b, 0o644)
					}
				}
			}
			_ = os.RemoveAll(filepath.Join(c.Scratch, "results", "other"))
			c.Count("copies under other names", 1)
		}
		if c.R.IntN(3) == 0 { // another scenario, more recent
			i, o := recording(c)
			saveRecording(filepath.Join(filepath.Dir(base), "highway_cruising", "20991231_235959"), i, o, false)
		}
	}
	out := filepath.Join(root, "temporal_query_experiment", queried, "temporal_query")
	if c.R.IntN(3) == 0 { // tables of an earlier experiment
		_ = os.MkdirAll(out, 0o755)
		for _, f := range []string{"snapshot_results.csv", "track_results.csv", "event_search_results.csv"} {
			_ = os.WriteFile(filepath.Join(out, f), []byte(strings.Repeat("old,"+f+",1,2,3,4,5,6,7\n", 500)), 0o644)
		}
	}
	// The recording, read back
	var initial any
	var raw []map[string]any
	readAny(c, filepath.Join(base, stamp, "initial_json.json"), &initial)
	readAny(c, filepath.Join(base, stamp, "all_tson_patches.json"), &raw)
	rec := replayOf(c, initial, raw)
	before := everything(root)

	c.Must("the query experiment", exp.RunTemporalQueryExperiments)

	if d := treeDiff(before, everything(root), func(k string) bool { return strings.HasPrefix(k, "temporal_query_experiment/") }); d != "" {
		c.Fail("recording touched", "the query experiment changed the recordings: %s", d)
	}
	auditQueries(c, out, rec)
	if c.Index%40 == 39 {
		c.Key(text(initial), fmt.Sprint(rec.ops))
	}
	c.Sample(map[string]any{"recording": stamp, "operations": len(rec.ops), "from": rec.lo, "to": rec.hi})
}

// rec is a recording in the monitor's own terms.
type rec struct {
	init   *Doc
	ops    []exp.TsonPatch
	lo, hi int64
}

func number(v any) any {
	if n, ok := v.(json.Number); ok {
		f, _ := n.Float64()
		return f
	}
	return v
}

func replayOf(c *Ctx, initial any, raw []map[string]any) *rec {
	r := &rec{init: &Doc{K: 'o', M: map[string]*Doc{}}}
	var visit func(d *Doc, v map[string]any)
	visit = func(d *Doc, v map[string]any) {
		for k, e := range v {
			m, ok := e.(map[string]any)
			if ok && len(m) == 2 {
				_, a := m["value"]
				_, b := m["timestamp"]
				if a && b {
					d.M[k] = fromAny(number(m["value"]), 0)
					continue
				}
			}
			if ok {
				d.M[k] = &Doc{K: 'o', M: map[string]*Doc{}}
				visit(d.M[k], m)
			} else {
				d.M[k] = fromAny(number(e), 0)
			}
		}
	}
	m, _ := initial.(map[string]any)
	visit(r.init, m)
	for _, o := range raw {
		ts, ok := jsonInt(o["timestamp"])
		op, _ := o["op"].(string)
		path, _ := o["path"].(string)
		if !ok || op == "" || path == "" {
			c.Fail("recording", "the recording holds the operation %v", o)
		}
		r.ops = append(r.ops, exp.TsonPatch{Op: op, Path: path, Value: number(o["value"]), Timestamp: ts})
	}
	if len(r.ops) == 0 {
		c.Fail("recording", "the recording is empty")
	}
	slices.SortStableFunc(r.ops, func(a, b exp.TsonPatch) int {
		switch {
		case a.Timestamp < b.Timestamp:
			return -1
		case a.Timestamp > b.Timestamp:
			return 1
		}
		return 0
	})
	r.lo, r.hi = r.ops[0].Timestamp, r.ops[len(r.ops)-1].Timestamp
	return r
}

// state is what holds at an instant, and the times the values come from (0: initial).
func (r *rec) state(t int64) (map[string]any, map[string]int64) {
	m, at := map[string]any{}, map[string]int64{}
	r.init.walk(nil, func(p []string, n *Doc) {
		if n.leaf() {
			m[strings.Join(p, ".")] = n.value()
		}
	})
	for _, p := range r.ops {
		if p.Timestamp <= t {
			m[p.Path], at[p.Path] = p.Value, p.Timestamp
		}
	}
	return m, at
}

// table reads a result table as one map per row.
func table(c *Ctx, file, query string, n int) []map[string]string {
	rows := readCSV(c, file)
	var all []map[string]string
	for _, r := range rows[1:] {
		m := map[string]string{}
		for i, h := range rows[0] {
			m[h] = r[i]
		}
		all = append(all, m)
		if m["Scenario"] != queried || m["QueryType"] != query {
			c.Fail("table row", "%s holds the row %v", filepath.Base(file), m)
		}
		for _, k := range []string{"Time", "Size"} {
			l, lk, t, tk := "LogumentTimeNs", "TJSONTimeNs", "TimeDiffPct", ""
			if k == "Size" {
				l, lk, t = "LogumentResultSize", "TJSONResultSize", "SizeDiffPct"
			}
			_ = tk
			a, err1 := strconv.ParseFloat(m[l], 64)
			b, err2 := strconv.ParseFloat(m[lk], 64)
			p, err3 := strconv.ParseFloat(m[t], 64)
			if err1 != nil || err2 != nil || err3 != nil || a < 0 || b < 0 {
				c.Fail("table row", "%s holds the row %v", filepath.Base(file), m)
			}
			want := 0.0
			if b > 0 {
				want = (a - b) / b * 100
			}
			if math.Abs(want-p) > 0.0051+1e-9*math.Abs(want) {
				c.Fail("table difference", "%s: %s of %v against %v is given as %v %%, expected %.2f", filepath.Base(file), k, a, b, p, want)
			}
		}
		c.Count("table rows", 1)
	}
	if len(all) != n {
		c.Fail("table length", "%s holds %d rows for %d queries", filepath.Base(file), len(all), n)
	}
	return all
}

// answer reads a saved answer; its size has to be the one in the table.
func answer(c *Ctx, file string, size string, v any) {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Fail("answer missing", "no answer was saved: %v", err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		c.Fail("answer unreadable", "%s: %v", filepath.Base(file), err)
	}
	if n := compactLen(b); strconv.Itoa(n) != size {
		c.Fail("answer size", "%s is an answer of %d bytes, the table says %s", filepath.Base(file), n, size)
	}
}

func auditQueries(c *Ctx, out string, r *rec) {
	// Snapshots
	rows := table(c, filepath.Join(out, "snapshot_results.csv"), "TemporalSnapshot", 61)
	for i, row := range rows {
		ts, err := strconv.ParseInt(row["Parameter"], 10, 64)
		if err != nil {
			c.Fail("snapshot time", "the snapshot row %v", row)
		}
		even := float64(r.lo) + float64(i)/60*float64(r.hi-r.lo)
		if math.Abs(float64(ts)-even) > 2+math.Abs(even)*1e-15 || i == 0 && ts != r.lo || i == 60 && ts != r.hi {
			c.Fail("snapshot times", "snapshot %d of 61 over [%d,%d] is taken at %d", i, r.lo, r.hi, ts)
		}
		want, at := r.state(ts)
		var l, t map[string]any
		answer(c, filepath.Join(out, "logument", fmt.Sprintf("snapshot_logument_%d_%d.json", i, ts)), row["LogumentResultSize"], &l)
		answer(c, filepath.Join(out, "tjson", fmt.Sprintf("snapshot_tjson_%d_%d.json", i, ts)), row["TJSONResultSize"], &t)
		if d := mapDiff(flatten(t), want); d != "" {
			c.Fail("baseline snapshot", "the baseline's snapshot at %d: %s", ts, d)
		}
		values, stamps := splitLeaves(l)
		if d := mapDiff(values, want); d != "" {
			c.Fail("log snapshot", "the log's snapshot at %d: %s", ts, d)
		}
		for p, a := range at {
			if s := stamps[p]; s != a && math.Abs(float64(s-a)) > 1e-15*float64(a) {
				c.Fail("log snapshot time", "the log's snapshot at %d: %s is from %d, expected %d", ts, p, s, a)
			}
		}
		c.Count("snapshot answers", 2)
	}
	// Tracks
	rows = table(c, filepath.Join(out, "track_results.csv"), "TemporalTrack", len(trackedPaths))
	for i, row := range rows {
		path := trackedPaths[i]
		if want := fmt.Sprintf("%s (%d-%d)", path, r.lo, r.hi); row["Parameter"] != want {
			c.Fail("track row", "track row %d is about %q, expected %q", i, row["Parameter"], want)
		}
		name := fmt.Sprintf("_%d_%s_%d_%d.json", i, strings.ReplaceAll(path, ".", "_"), r.lo, r.hi)
		var t []map[string]any
		var l map[uint64][]exp.TsonPatch
		answer(c, filepath.Join(out, "tjson", "track_tjson"+name), row["TJSONResultSize"], &t)
		answer(c, filepath.Join(out, "logument", "track_logument"+name), row["LogumentResultSize"], &l)
		clash := false
		var want []exp.TsonPatch
		for _, o := range r.ops {
			if o.Path == path {
				clash = clash || len(want) > 0 && want[len(want)-1].Timestamp == o.Timestamp || o.Timestamp <= 0
				want = append(want, o)
			}
		}
		checkTrack(c, path, r.lo, r.hi, t, intervals(r.init, r.ops, path), r.hi, clash)
		var got []exp.TsonPatch
		for _, v := range sortedKeys(l) {
			got = append(got, l[v]...)
		}
		if !clash {
			checkChanges(c, path, r, got, want)
		}
		c.Count("tracked values", len(t)+len(got))
		c.Count("track answers", 2)
	}
	// Events
	limits := []string{"10.0", "30.0", "50.0"}
	rows = table(c, filepath.Join(out, "event_search_results.csv"), "EventSearch", len(limits))
	var from, to int64
	for i, row := range rows {
		var a, b int64
		var th string
		p := row["Parameter"]
		if n, err := fmt.Sscanf(p, "Vehicle.Speed > %s (%d-%d)", &th, &a, &b); n != 3 || err != nil || th != limits[i] || b-a != 10000 || a < r.lo || b > r.hi || i > 0 && (a != from || b != to) {
			c.Fail("event row", "event row %d over [%d,%d] is about %q", i, r.lo, r.hi, p)
		}
		from, to = a, b
		limit, _ := strconv.ParseFloat(th, 64)
		var want []int64
		clash := false
		seen := map[int64]bool{}
		for _, o := range r.ops {
			if o.Path == "Vehicle.Speed" {
				clash = clash || seen[o.Timestamp]
				seen[o.Timestamp] = true
			}
		}
		for k, w := range intervals(r.init, r.ops, "Vehicle.Speed") {
			if f, ok := w.value.(float64); ok && f > limit && w.from >= a && w.from <= b && !(k == 0 && w.initial) {
				want = append(want, w.from)
			}
		}
		name := fmt.Sprintf("_%d_Vehicle_Speed_%s_%d_%d.json", i, th, a, b)
		for engine, size := range map[string]string{"logument": row["LogumentResultSize"], "tjson": row["TJSONResultSize"]} {
			var ev []int64
			answer(c, filepath.Join(out, engine, "event_"+engine+name), size, &ev)
			if !clash && !(a <= 0) && !sameTimes(ev, want) {
				c.Fail("events", "%s finds the events %v of speed > %s in [%d,%d], expected %v", engine, ev, th, a, b, want)
			}
			c.Count("event answers", 1)
		}
		c.Count("events", len(want))
	}
}

// checkChanges: the log's track over the whole recording holds each change of the value, and only
// operations of the recording, in their order.
func checkChanges(c *Ctx, path string, r *rec, got, all []exp.TsonPatch) {
	k := 0
	var value any
	if n := r.init.at(strings.Split(path, ".")); n != nil {
		value = n.value()
	}
	for _, o := range all {
		if k < len(got) && got[k].Timestamp == o.Timestamp && got[k].Value == o.Value && got[k].Path == path && got[k].Op == o.Op {
			k++
		} else if o.Value != value {
			c.Fail("log track", "the log's track of %s has no %v", path, o)
		}
		value = o.Value
	}
	if k != len(got) {
		c.Fail("log track", "the log's track of %s holds %v where the recording has nothing such", path, got[k])
	}
}

// splitLeaves flattens the JSON form of a document into values and times.
func splitLeaves(m map[string]any) (map[string]any, map[string]int64) {
	values, stamps := map[string]any{}, map[string]int64{}
	var visit func(p string, v any)
	visit = func(p string, v any) {
		o, ok := v.(map[string]any)
		if !ok {
			values[p] = v
			return
		}
		if x, ok := o["value"]; ok && len(o) == 2 {
			if t, ok := o["timestamp"].(float64); ok {
				values[p], stamps[p] = x, int64(t)
				return
			}
		}
		for k, e := range o {
			if p == "" {
				visit(k, e)
			} else {
				visit(p+"."+k, e)
			}
		}
	}
	visit("", m)
	return values, stamps
}
