//go:build exp

package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

func init() {
	register(&property{id: "C29", quick: 8, thorough: 96, run: runC29,
		rule:  "one whole run of the shipped simulation (all its scenarios) in an empty directory or over the longer results of an earlier one; every saved file is audited and replayed. Non-trivial and distinct: a scenario run with value changes, by its operations",
		needs: []string{"scenario runs", "plain patches", "timestamped patches", "timing rows", "value changes", "timestamp-only changes", "series points", "over older results"}})
	register(&property{id: "C30", quick: 12000, thorough: 200000, run: runC30,
		assume: []string{"series of add and replace operations with positive times on members (keys without dots and slashes) of nested objects, finite numbers, strings and booleans"},
		rule:   "a random initial document and series (some times equal, some far apart, stored out of order), asked for snapshots, tracks and events at and around every time. Non-trivial and distinct: a series with a value change, by document and series",
		needs:  []string{"snapshots", "tracks", "tracked values", "event searches", "events", "initial patches"}})
	register(&property{id: "C31", quick: 20000, thorough: 400000, run: runC31,
		assume: []string{"the mixed scenario starts in urban traffic, as the simulation does; times do not go backwards"},
		rule:   "a random course of battery levels and times (thresholds and the cooldown hit exactly and just missed, sensor missing or of another type at times). Non-trivial and distinct: a course with a switch, by the course",
		needs:  []string{"updates", "switches to charging", "switches back", "held back by the cooldown", "no battery reading"}})
	register(&property{id: "C41", quick: 8, thorough: 96, run: runC41,
		rule:  "fresh vehicles of every scenario, and one whole run of the shipped simulation (all its scenarios) whose saved patches are followed against what the scenario stands for. Non-trivial and distinct: a scenario run, by its operations",
		needs: []string{"fresh vehicles", "scenario runs", "battery changes", "speed changes", "charging rate changes"}})
	register(&property{id: "C34", quick: 8, thorough: 96, run: runC34,
		rule:  "one whole run of the shipped simulation (all its scenarios); every update of every sensor is audited against the sensor's configuration. Non-trivial and distinct: a scenario run with updates, by its operations",
		needs: []string{"updates", "sensors", "constant", "random_walk", "linear", "toggle"}})
}

// ---- one run of the simulation

type simRun struct {
	scenario                   string
	results                    map[string]string
	timing, cumulative         [][]string
	initialJSON, finalJSON     any
	initialTSON, finalTSON     any
	jsonPatches                []map[string]any
	tsonPatches                []map[string]any
	jsonPatchText, tsonPatText []byte
	sensors                    map[string][][]string
}

func readAny(c *Ctx, file string, v any) []byte {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Fail("file missing", "the simulation saved no %s: %v", filepath.Base(file), err)
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(v); err != nil {
		c.Fail("file unreadable", "%s cannot be read: %v", filepath.Base(file), err)
	}
	return b
}

func readCSV(c *Ctx, file string) [][]string {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Fail("file missing", "the simulation saved no %s: %v", filepath.Base(file), err)
	}
	rows, err := csv.NewReader(strings.NewReader(string(b))).ReadAll()
	if err != nil || len(rows) == 0 {
		c.Fail("file unreadable", "%s cannot be read: %v", filepath.Base(file), err)
	}
	return rows
}

// age makes older results of those of a run: longer tables, and a data directory of an earlier day.
func age(c *Ctx, dir string) {
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if ok, _ := filepath.Match("[0-9]*_[0-9]*", filepath.Base(p)); ok && info.IsDir() {
			if err := os.Rename(p, filepath.Join(filepath.Dir(p), "20240131_235959")); err != nil {
				fatal("%v", err)
			}
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".csv") {
			b, err := os.ReadFile(p)
			if err == nil {
				err = os.WriteFile(p, append(bytes.Repeat(b, 2), bytes.Repeat([]byte("9,9,9\n"), 200)...), 0o644)
			}
			if err != nil {
				fatal("%v", err)
			}
		}
		return nil
	})
	c.Count("over older results", 1)
}

func simulate(c *Ctx) []simRun {
	_ = os.RemoveAll(filepath.Join(c.Scratch, "results"))
	defer os.RemoveAll(filepath.Join(c.Scratch, "results"))
	c.Must("the simulation", exp.RealworldScenario)
	if c.Index%4 == 1 {
		age(c, filepath.Join(c.Scratch, "results", "patch_experiment"))
		c.Must("the simulation", exp.RealworldScenario)
	}
	base := filepath.Join(c.Scratch, "results", "patch_experiment")
	names, _ := os.ReadDir(base)
	if len(names) == 0 {
		c.Fail("no results", "the simulation saved nothing")
	}
	var runs []simRun
	for _, n := range names {
		dir := filepath.Join(base, n.Name())
		r := simRun{scenario: n.Name(), sensors: map[string][][]string{}}
		rows := readCSV(c, filepath.Join(dir, "results.csv"))
		if len(rows) != 2 || len(rows[1]) != len(rows[0]) {
			c.Fail("results", "%s: results.csv holds %d rows", r.scenario, len(rows))
		}
		r.results = map[string]string{}
		for i, h := range rows[0] {
			r.results[h] = rows[1][i]
		}
		r.timing = readCSV(c, filepath.Join(dir, "timing.csv"))
		r.cumulative = readCSV(c, filepath.Join(dir, "cumulative.csv"))
		for _, p := range exp.KeySensorPaths {
			f := filepath.Join(dir, "sensor_data", filepath.Base(p)+".csv")
			if _, err := os.Stat(f); err == nil {
				r.sensors[p] = readCSV(c, f)
			}
		}
		stamps, _ := filepath.Glob(filepath.Join(dir, "[0-9]*_[0-9]*"))
		if n := len(stamps); n == 2 && filepath.Base(stamps[0]) == "20240131_235959" {
			stamps = stamps[1:]
		}
		if len(stamps) != 1 {
			c.Fail("data directory", "%s: %d data directories", r.scenario, len(stamps))
		}
		readAny(c, filepath.Join(stamps[0], "initial_json.json"), &r.initialJSON)
		readAny(c, filepath.Join(stamps[0], "final_json.json"), &r.finalJSON)
		readAny(c, filepath.Join(stamps[0], "initial_tson.json"), &r.initialTSON)
		readAny(c, filepath.Join(stamps[0], "final_tson.json"), &r.finalTSON)
		r.jsonPatchText = readAny(c, filepath.Join(stamps[0], "all_json_patches.json"), &r.jsonPatches)
		r.tsonPatText = readAny(c, filepath.Join(stamps[0], "all_tson_patches.json"), &r.tsonPatches)
		runs = append(runs, r)
	}
	return runs
}

// place returns the object that holds the leaf at a dotted path, and its last key.
func place(doc any, path string) (map[string]any, string) {
	parts := strings.Split(path, ".")
	for _, p := range parts[:len(parts)-1] {
		m, ok := doc.(map[string]any)
		if !ok {
			return nil, ""
		}
		doc = m[p]
	}
	m, _ := doc.(map[string]any)
	return m, parts[len(parts)-1]
}

func jsonInt(v any) (int64, bool) {
	n, ok := v.(json.Number)
	if !ok {
		return 0, false
	}
	i, err := n.Int64()
	return i, err == nil
}

func text(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func runC29(c *Ctx) {
	for _, r := range simulate(c) {
		auditRun(c, r)
	}
}

func auditRun(c *Ctx, r simRun) {
	fail := func(key, format string, a ...any) { c.Fail(key, "%s: %s", r.scenario, fmt.Sprintf(format, a...)) }
	number := func(col string) int {
		n, err := strconv.Atoi(r.results[col])
		if err != nil {
			fail("results", "column %s is %q", col, r.results[col])
		}
		return n
	}
	c.Count("scenario runs", 1)
	c.Count("plain patches", len(r.jsonPatches))
	c.Count("timestamped patches", len(r.tsonPatches))

	var initial any
	if d := json.NewDecoder(strings.NewReader(text(r.initialTSON))); true {
		d.UseNumber()
		_ = d.Decode(&initial)
	}

	// Replay of the plain form
	doc := r.initialJSON
	for i, p := range r.jsonPatches {
		path, _ := p["path"].(string)
		at := strings.LastIndexByte(path, '/')
		if p["op"] != "replace" || at < 0 {
			fail("plain patch", "plain patch %d is %v", i, p)
		}
		m, last := place(doc, path[:at])
		leaf, _ := m[last].(map[string]any)
		if _, ok := leaf[path[at+1:]]; !ok {
			fail("plain patch place", "plain patch %d replaces %q, which is not there", i, path)
		}
		leaf[path[at+1:]] = p["value"]
	}
	if a, b := text(doc), text(r.finalJSON); a != b {
		fail("plain replay", "the plain patches give another document than the saved one: %s", firstDiff(a, b))
	}
	// Replay of the timestamped form
	doc = r.initialTSON
	for i, p := range r.tsonPatches {
		path, _ := p["path"].(string)
		m, last := place(doc, path)
		if _, ok := m[last].(map[string]any); p["op"] != "replace" || !ok {
			fail("timestamped patch", "timestamped patch %d is %v", i, p)
		}
		m[last] = map[string]any{"value": p["value"], "_ts": p["timestamp"]}
	}
	if a, b := text(doc), text(r.finalTSON); a != b {
		fail("timestamped replay", "the timestamped patches give another document than the saved one: %s", firstDiff(a, b))
	}
	// Both start and end with the same values
	sameValues(c, r.scenario+" initial", r.initialJSON, r.initialTSON, "")
	sameValues(c, r.scenario+" final", r.finalJSON, r.finalTSON, "")

	// Counters
	updates, changes, stampOnly := number("TotalUpdates"), number("ValueChanges"), number("TimestampOnlyChanges")
	c.Count("value changes", changes)
	c.Count("timestamp-only changes", stampOnly)
	if updates != changes+stampOnly {
		fail("counts", "%d updates, %d value changes and %d timestamp-only changes", updates, changes, stampOnly)
	}
	for _, x := range []struct {
		col  string
		want int
	}{
		{"JsonPatchCount", len(r.jsonPatches)}, {"TsonPatchCount", len(r.tsonPatches)},
		{"JsonPatchCount", updates + changes}, {"TsonPatchCount", changes}, {"SetTsonPatchCount", updates},
		{"JsonPatchSize", compactLen(r.jsonPatchText)}, {"TsonPatchSize", compactLen(r.tsonPatText)},
	} {
		if n := number(x.col); n != x.want {
			fail("counts:"+x.col, "%s is %d, the saved data say %d", x.col, n, x.want)
		}
	}

	// Every timing row belongs to one update: its plain patches come in the same order
	rows := r.timing[1:]
	c.Count("timing rows", len(rows))
	steps := map[string]bool{}
	for _, row := range rows {
		steps[row[1]] = true
	}
	if len(rows) != updates {
		fail("timing rows", "%d timing rows for %d updates", len(rows), updates)
	}
	next, nextT := 0, 0
	lastMs := int64(0)
	for i, row := range rows {
		ms, err := strconv.ParseInt(row[1], 10, 64)
		if err != nil || row[0] != strconv.Itoa(i+1) || ms < lastMs {
			fail("timing row", "timing row %d is %v (time before %d)", i, row, lastMs)
		}
		lastMs = ms
		if next >= len(r.jsonPatches) {
			fail("timing row", "timing row %d has no patch", i)
		}
		p := r.jsonPatches[next]
		next++
		if ts, ok := jsonInt(p["value"]); p["path"] != row[2]+"/timestamp" || !ok || ts != ms {
			fail("timing row", "timing row %d is %v, its patch %v", i, row, p)
		}
		if row[5] != "true" && row[5] != "false" {
			fail("timing row", "timing row %d is %v", i, row)
		}
		if row[5] == "true" {
			if next >= len(r.jsonPatches) || nextT >= len(r.tsonPatches) {
				fail("timing row", "timing row %d has no value patch", i)
			}
			v, t := r.jsonPatches[next], r.tsonPatches[nextT]
			next, nextT = next+1, nextT+1
			if v["path"] != row[2]+"/value" {
				fail("timing row", "timing row %d is %v, its value patch %v", i, row, v)
			}
			if ts, ok := jsonInt(t["timestamp"]); t["path"] != row[2] || !ok || ts != ms || text(t["value"]) != text(v["value"]) {
				fail("timing row", "timing row %d is %v, its value patch %v, its timestamped patch %v", i, row, v, t)
			}
		}
	}

	// The recorded series: monotone, and as many patches as there were before
	before := func(ps []map[string]any, plain bool, ms int64) (n int) {
		for _, p := range ps {
			ts, ok := jsonInt(p["timestamp"])
			if plain {
				ts, ok = jsonInt(p["value"])
				if !strings.HasSuffix(p["path"].(string), "/timestamp") {
					ts, ok = lastMs, true
				}
			}
			lastMs = ts
			if ok && ts < ms {
				n++
			}
		}
		return
	}
	var last [3]int64
	for i, row := range r.cumulative[1:] {
		var n [3]int64
		for k := range n {
			v, err := strconv.ParseInt(row[k], 10, 64)
			if err != nil || v < last[k] || (k == 0 && i > 0 && v == last[k]) {
				fail("series", "row %d of the series is %v after %v", i, row, last)
			}
			n[k] = v
		}
		last = n
		if j, t := before(r.jsonPatches, true, n[0]), before(r.tsonPatches, false, n[0]); int64(j) != n[1] || int64(t) != n[2] {
			fail("series counts", "row %d of the series is %v, there were %d and %d patches", i, row, j, t)
		}
		c.Count("series points", 1)
	}

	// The recorded sensors hold the value of that moment
	for _, path := range sortedKeys(r.sensors) {
		m, leafName := place(initial, path)
		leaf, ok := m[leafName].(map[string]any)
		if !ok {
			fail("sensor file", "%s is recorded, but is not in the document", path)
		}
		cur := leaf["value"]
		k := 0
		if n := len(r.sensors[path]) - 1; n != len(steps) {
			fail("sensor rows", "%d rows of %s for %d steps", n, path, len(steps))
		}
		lastMs := int64(-1)
		for i, row := range r.sensors[path][1:] {
			ms, err := strconv.ParseInt(row[1], 10, 64)
			if err != nil || ms <= lastMs {
				fail("sensor row", "row %d of %s is %v after %d", i, path, row, lastMs)
			}
			lastMs = ms
			for ; k < len(r.tsonPatches); k++ {
				if ts, _ := jsonInt(r.tsonPatches[k]["timestamp"]); ts >= ms {
					break
				}
				if r.tsonPatches[k]["path"] == path {
					cur = r.tsonPatches[k]["value"]
				}
			}
			want := fmt.Sprint(cur)
			if n, ok := cur.(json.Number); ok {
				f, _ := n.Float64()
				want = fmt.Sprintf("%.4f", f)
			}
			if row[2] != want {
				fail("sensor row", "row %d of %s is %v, its value then was %s", i, path, row, want)
			}
			c.Count("sensor rows", 1)
		}
	}
	c.Key(r.scenario, string(r.tsonPatText))
	c.Sample(map[string]any{"scenario": r.scenario, "updates": updates, "value changes": changes})
}

func compactLen(b []byte) int {
	var buf strings.Builder
	in := false
	for i := 0; i < len(b); i++ {
		switch {
		case in && b[i] == '\\':
			buf.WriteByte(b[i])
			i++
		case b[i] == '"':
			in = !in
		case !in && strings.IndexByte(" \t\r\n", b[i]) >= 0:
			continue
		}
		buf.WriteByte(b[i])
	}
	return buf.Len()
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-120)
	return fmt.Sprintf("...%s, saved ...%s", trim(a[from:], 260), trim(b[from:], 260))
}

func sameValues(c *Ctx, what string, j, t any, at string) {
	jm, ok1 := j.(map[string]any)
	tm, ok2 := t.(map[string]any)
	if !ok1 || !ok2 || strings.Join(sortedKeys(jm), " ") != strings.ReplaceAll(strings.Join(sortedKeys(tm), " "), "_ts value", "timestamp value") {
		c.Fail("forms differ", "%s: the plain and the timestamped document differ at %q: %s and %s", what, at, trim(text(j), 300), trim(text(t), 300))
	}
	if _, leaf := tm["_ts"]; leaf {
		if text(jm["value"]) != text(tm["value"]) {
			c.Fail("forms differ", "%s: at %q the plain document holds %s, the timestamped one %s", what, at, text(jm["value"]), text(tm["value"]))
		}
		return
	}
	for _, k := range sortedKeys(jm) {
		sameValues(c, what, jm[k], tm[k], at+"."+k)
	}
}

// ---- C34

func runC34(c *Ctx) {
	for _, r := range simulate(c) {
		auditSensors(c, r)
	}
}

func auditSensors(c *Ctx, r simRun) {
	fail := func(key, format string, a ...any) { c.Fail(key, "%s: %s", r.scenario, fmt.Sprintf(format, a...)) }
	duration, err := strconv.ParseInt(r.results["SimulationTimeMs"], 10, 64)
	if err != nil || duration <= 0 {
		fail("results", "the simulation time is %q", r.results["SimulationTimeMs"])
	}
	// The steps of the simulation are those at which some sensor with a short interval was updated
	times := map[string][]int64{}
	steps := map[int64]bool{}
	for _, row := range r.timing[1:] {
		ms, err := strconv.ParseInt(row[1], 10, 64)
		if err != nil {
			fail("timing row", "%v", row)
		}
		times[row[2]] = append(times[row[2]], ms)
		steps[ms] = true
	}
	var all []int64
	for ms := range steps {
		all = append(all, ms)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	if len(all) < 2 || all[0] != 0 || all[len(all)-1] >= duration {
		fail("steps", "the simulation steps go from %d to %d of %d", all[0], all[len(all)-1], duration)
	}
	step := all[1]
	for i, ms := range all {
		if ms != int64(i)*step {
			fail("steps", "step %d is at %d, the step is %d", i, ms, step)
		}
	}
	if all[len(all)-1]+step < duration {
		fail("steps", "the last step is at %d of %d", all[len(all)-1], duration)
	}
	values := map[string]any{}
	for _, path := range sortedKeys(exp.VSSSensors) {
		s := exp.VSSSensors[path]
		c.Count("sensors", 1)
		var want []int64
		for _, ms := range all {
			if ms%int64(s.UpdateInterval) == 0 {
				want = append(want, ms)
			}
		}
		got := times[path]
		delete(times, path)
		if !reflect.DeepEqual(got, want) {
			fail("update times", "%s (every %d ms) was updated %d times, expected %d: %s", path, s.UpdateInterval, len(got), len(want), trim(fmt.Sprint(got), 300))
		}
		c.Count("updates", len(got))
		m, last := place(r.initialTSON, path)
		leaf, ok := m[last].(map[string]any)
		if !ok {
			fail("not in the document", "%s is not in the initial document", path)
		}
		values[path] = leaf["value"]
		checkSensor(c, r.scenario, path, s, leaf["value"], nil)
	}
	vehicle := exp.InitializeVehicleData(r.scenario) // how the sensors are set up
	for path := range times {
		fail("unknown sensor", "%s was updated, which is no sensor", path)
	}
	if r.scenario != "mixed_scenario" {
		checkMissed(c, r, vehicle, values, all)
	}
	for _, p := range r.tsonPatches {
		path := p["path"].(string)
		s := exp.VSSSensors[path]
		if s == nil {
			fail("unknown sensor", "%s was changed, which is no sensor", path)
		}
		pattern := s.ChangePatterns[r.scenario]
		if pattern == "constant" || pattern == "" {
			fail("constant changed", "%s, constant in this scenario, changed from %v to %v", path, values[path], p["value"])
		}
		checkSensor(c, r.scenario, path, s, p["value"], values[path])
		if v := sensor(vehicle, path); v != nil && r.scenario != "mixed_scenario" {
			checkStep(c, r.scenario, v, p["value"], values[path], p["timestamp"])
		}
		values[path] = p["value"]
		c.Count(pattern, 1)
	}
	for _, s := range exp.VSSSensors {
		if s.ChangePatterns[r.scenario] == "constant" {
			c.Count("constant", 1)
		}
	}
	c.Key(r.scenario, string(r.tsonPatText))
	c.Sample(map[string]any{"scenario": r.scenario, "steps": len(all), "step ms": step})
}

func checkSensor(c *Ctx, scenario, path string, s *exp.VSSSensor, v, prev any) {
	bad := func(why string) { c.Fail(why+":"+path, "%s: %s is %v (before %v): %s", scenario, path, v, prev, why) }
	switch s.Type {
	case "number":
		n, ok := v.(json.Number)
		if !ok {
			bad("not a number")
		}
		f, _ := n.Float64()
		switch s.ChangePatterns[scenario] {
		case "random_walk", "linear", "constant", "":
			if f < s.Min || f > s.Max {
				bad("out of its range")
			}
		case "sinusoidal", "constant_with_noise":
			// they vary around a base value inside the range
			if w := s.Max - s.Min; f < s.Min-w || f > s.Max+w {
				bad("far out of its range")
			}
		}
	case "boolean":
		if _, ok := v.(bool); !ok {
			bad("not a boolean")
		}
	case "string":
		if _, ok := v.(string); !ok {
			bad("not a string")
		}
	}
}

// checkMissed checks that a sensor changes when its pattern says so. Differences below the simulation's tolerance are
// no changes.
func checkMissed(c *Ctx, r simRun, vehicle *exp.VehicleData, initial map[string]any, steps []int64) {
	recorded := map[string]map[int64]float64{}
	changes := map[string]int{}
	for _, p := range r.tsonPatches {
		path, _ := p["path"].(string)
		changes[path]++
		n, ok := p["value"].(json.Number)
		at, okT := jsonInt(p["timestamp"])
		if f, err := n.Float64(); ok && okT && err == nil {
			if recorded[path] == nil {
				recorded[path] = map[int64]float64{}
			}
			recorded[path][at] = f
		}
	}
	for _, path := range sortedKeys(initial) {
		s := sensor(vehicle, path)
		if s == nil {
			continue
		}
		p := s.ChangeParams
		updates := 0
		for _, ms := range steps {
			if ms%int64(s.UpdateInterval) == 0 {
				updates++
			}
		}
		// The probability that there is no change at all
		none := 1.0
		switch s.ChangePattern {
		case "random_walk":
			if p["step_size"] > 0 && p["max"]-p["min"] > 4*p["step_size"] {
				none = math.Pow(min(1, 0.5+0.01/p["step_size"]), float64(updates))
			}
		case "constant_with_noise":
			if p["noise"] > 0 { // compared with the last value, anywhere in the range
				none = math.Pow(min(1, 0.01/p["noise"]), float64(updates-1))
			}
		case "toggle":
			if s.Type == "boolean" {
				none = math.Pow(1-min(1, p["toggle_probability"]), float64(updates))
			}
		}
		if none < 1e-12 {
			c.Count("varying sensors", 1)
			if changes[path] == 0 {
				c.Fail("never changes:"+path, "%s: %s (%s %v) is updated %d times, but its value never changes", r.scenario, path, s.ChangePattern, p, updates)
			}
		}
		if s.ChangePattern != "linear" && s.ChangePattern != "sinusoidal" {
			continue
		}
		n, ok := initial[path].(json.Number)
		cur, err := n.Float64()
		if !ok || err != nil {
			continue
		}
		for _, ms := range steps {
			if ms%int64(s.UpdateInterval) != 0 {
				continue
			}
			if f, ok := recorded[path][ms]; ok {
				cur = f
				continue
			}
			next := min(max(cur+p["slope"]*float64(s.UpdateInterval)/1000, p["min"]), p["max"])
			if s.ChangePattern == "sinusoidal" {
				next = p["baseline"] + p["amplitude"]*math.Sin(2*math.Pi*(float64(ms)+p["phase"])/p["period"])
			}
			if math.Abs(next-cur) > 0.01 {
				c.Fail("missed change:"+path, "%s: %s (%s %v) stays at %v at %d ms, its next value is %v", r.scenario, path, s.ChangePattern, p, cur, ms, next)
			}
			c.Count("updates without a change", 1)
		}
	}
}

// checkStep checks that a recorded value follows the sensor's pattern.
func checkStep(c *Ctx, scenario string, s *exp.SensorData, v, prev, at any) {
	number := func(v any) (float64, bool) {
		n, ok := v.(json.Number)
		if !ok {
			return 0, false
		}
		f, err := n.Float64()
		return f, err == nil
	}
	x, ok := number(v)
	x0, ok0 := number(prev)
	t, okT := jsonInt(at)
	if !ok || !ok0 || !okT {
		return
	}
	p := s.ChangeParams
	bad := func(why string) {
		c.Fail(why+":"+s.Path, "%s: %s went from %v to %v at %v: %s %v", scenario, s.Path, x0, x, t, why, p)
	}
	const eps = 1e-9
	near := func(a, b float64) bool { return math.Abs(a-b) <= eps*max(1, math.Abs(a), math.Abs(b)) }
	switch s.ChangePattern {
	case "random_walk":
		if math.Abs(x-x0) > p["step_size"]*(1+eps)+eps && x0 >= p["min"] && x0 <= p["max"] {
			bad("further than its step")
		}
		if x < p["min"] || x > p["max"] {
			bad("out of its range")
		}
	case "linear":
		want := min(max(x0+p["slope"]*float64(s.UpdateInterval)/1000, p["min"]), p["max"])
		if !near(x, want) {
			bad("not by its slope")
		}
	case "constant_with_noise":
		if math.Abs(x-p["baseline"]) > p["noise"]*(1+eps)+eps {
			bad("further from its base value than its noise")
		}
	case "sinusoidal":
		if math.Abs(x-p["baseline"]) > math.Abs(p["amplitude"])*(1+eps)+eps {
			bad("further from its base value than its amplitude")
		}
		if want := p["baseline"] + p["amplitude"]*math.Sin(2*math.Pi*(float64(t)+p["phase"])/p["period"]); math.Abs(x-want) > 1e-6*max(1, math.Abs(p["amplitude"])) {
			bad("not on its curve")
		}
	default:
		return
	}
	c.Count("steps of "+s.ChangePattern+" sensors", 1)
}

// ---- C30

func runC30(c *Ctx) {
	g := newGen(c.R)
	_ = g
	init := objectDoc(c, 3)
	var leaves [][]string
	init.walk(nil, func(p []string, n *Doc) {
		if n.leaf() {
			leaves = append(leaves, p)
		}
	})
	// The series
	n := 1 + c.R.IntN(25)
	var patches []exp.TsonPatch
	t := int64(1 + c.R.IntN(20))
	if c.R.IntN(4) == 0 {
		t = 1_700_000_000_000_000_000
	}
	used := map[string]map[int64]bool{}
	clash := map[string]bool{}
	paths := leaves[:min(len(leaves), 1+c.R.IntN(4))]
	vals := map[string]any{}
	for i := 0; i < n; i++ {
		path := pick(c.R, paths)
		if c.R.IntN(8) == 0 { // a new member
			at := pick(c.R, leaves)
			path = append(at[:len(at)-1:len(at)-1], "new"+strconv.Itoa(c.R.IntN(3)))
			if c.R.IntN(3) == 0 {
				path = append(path, "deep")
			}
			if e := init.at(path); e != nil && !e.leaf() {
				continue
			}
		}
		dotted := strings.Join(path, ".")
		op := "replace"
		if init.at(path) == nil || c.R.IntN(4) == 0 {
			op = "add"
		}
		v, ok := vals[dotted]
		if !ok || c.R.IntN(4) > 0 {
			v = seriesValue(c)
		}
		vals[dotted] = v
		if used[dotted] == nil {
			used[dotted] = map[int64]bool{}
		}
		if used[dotted][t] {
			clash[dotted] = true
		}
		used[dotted][t] = true
		patches = append(patches, exp.TsonPatch{Op: op, Path: dotted, Value: v, Timestamp: t})
		switch c.R.IntN(6) {
		case 0:
		case 1:
			t += int64(c.R.IntN(1000000))
		default:
			t += int64(1 + c.R.IntN(5))
		}
	}
	if len(patches) == 0 {
		c.Stop("no operation")
	}
	// A deeper member and one above it at the same place cannot both be: skip those
	for a := range used {
		for b := range used {
			if strings.HasPrefix(b, a+".") {
				c.Stop("a leaf below a leaf")
			}
		}
	}
	sorted := append([]exp.TsonPatch(nil), patches...)
	if c.R.IntN(3) == 0 { // handed over out of order, but those of one time in their order
		groups := map[int64][]exp.TsonPatch{}
		var times []int64
		for _, p := range patches {
			if groups[p.Timestamp] == nil {
				times = append(times, p.Timestamp)
			}
			groups[p.Timestamp] = append(groups[p.Timestamp], p)
		}
		c.R.Shuffle(len(times), func(i, j int) { times[i], times[j] = times[j], times[i] })
		patches = nil
		for _, t := range times {
			patches = append(patches, groups[t]...)
		}
	}
	c.Log("initial %s", trim(text(init.toAny()), 700))
	c.Log("series %v", patches)
	handed := fmt.Sprint(patches)

	dir := filepath.Join(c.Scratch, fmt.Sprintf("exp%d", c.Index))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	var initial any = init.toAny()
	if c.R.IntN(2) == 0 {
		initial = init.pairAny()
	}
	b, err := json.Marshal(initial)
	if err != nil {
		fatal("%v", err)
	}
	file := filepath.Join(dir, "initial_json.json")
	if err := os.WriteFile(file, b, 0o644); err != nil {
		fatal("%v", err)
	}
	// The initial patches name every initial leaf
	var first []exp.TsonPatch
	c.Must("the initial patches", func() { first, err = exp.CreateInitialPatchesFromJSON(file) })
	if err != nil {
		c.Fail("initial patches", "the initial patches cannot be made: %v", err)
	}
	seen := map[string]bool{}
	for _, p := range first {
		c.Count("initial patches", 1)
		if _, composite := p.Value.(map[string]any); composite {
			continue
		}
		n := init.at(strings.Split(p.Path, "."))
		if p.Op != "add" || p.Timestamp != 0 || n == nil || !n.leaf() || n.value() != p.Value {
			c.Fail("initial patch", "the initial patch %v does not describe the initial document", p)
		}
		seen[p.Path] = true
	}
	for _, l := range leaves {
		if !seen[strings.Join(l, ".")] {
			c.Fail("initial patch missing", "no initial patch sets %v", l)
		}
	}

	var e *exp.TemporalQueryExperiment
	c.Must("setting up the experiment", func() { e, err = exp.NewTemporalQueryExperiment(dir, dir, "s", patches) })
	if err != nil {
		c.Fail("setup", "the experiment cannot be set up: %v", err)
	}
	if fmt.Sprint(patches) != handed {
		c.Fail("series modified", "setting up modified the series it was given")
	}

	// What holds when
	lo, hi := sorted[0].Timestamp, sorted[len(sorted)-1].Timestamp
	state := func(t int64) map[string]any {
		m := map[string]any{}
		for _, l := range leaves {
			m[strings.Join(l, ".")] = init.at(l).value()
		}
		for _, p := range sorted {
			if p.Timestamp <= t {
				m[p.Path] = p.Value
			}
		}
		return m
	}
	var instants []int64
	for _, p := range sorted {
		for _, d := range []int64{-1, 0, 1} {
			if x := p.Timestamp + d; x >= lo && x <= hi {
				instants = append(instants, x)
			}
		}
	}
	ask := []int64{lo, hi}
	for i := 0; i < 4; i++ {
		ask = append(ask, pick(c.R, instants))
	}
	changed := 0
	for _, t := range ask {
		want := state(t)
		var snap map[string]any
		c.Must("the baseline's snapshot", func() { snap, err = e.TJSONDocument.TemporalSnapshot(t) })
		if err != nil {
			c.Fail("baseline snapshot", "the baseline's snapshot at %d fails: %v", t, err)
		}
		if d := mapDiff(flatten(snap), want); d != "" {
			c.Fail("baseline snapshot", "the baseline's snapshot at %d: %s", t, d)
		}
		var logSnap *Doc
		c.Must("the log's snapshot", func() { logSnap = fromTson(e.LogumentDoc.TemporalSnapshot(t)) })
		lm, _ := logSnap.toAny().(map[string]any)
		if d := mapDiff(flatten(lm), want); d != "" {
			c.Fail("log snapshot", "the log's snapshot at %d: %s", t, d)
		}
		c.Count("snapshots", 1)
	}
	// The experiment saves what the two answer
	res, err2 := []exp.TemporalQueryResult(nil), error(nil)
	c.Must("the snapshot experiment", func() { res, err2 = e.RunTemporalSnapshotExperiment(ask[:2]) })
	if err2 != nil || len(res) != 2 {
		c.Fail("snapshot experiment", "the snapshot experiment gives %v, %v", res, err2)
	}
	for i, r := range res {
		var v map[string]any
		if d := savedJSON(r.TJSONResultFile, &v); d != "" {
			c.Fail("snapshot file", "%s", d)
		}
		if d := mapDiff(flatten(v), state(ask[i])); d != "" {
			c.Fail("snapshot file", "the saved baseline snapshot at %d: %s", ask[i], d)
		}
	}

	// The documents after every operation, one file each
	if c.R.IntN(6) == 0 {
		snaps := filepath.Join(c.Scratch, "results", "snapshots")
		defer os.RemoveAll(filepath.Join(c.Scratch, "results"))
		c.Must("writing the snapshots", func() { exp.CreateSnapshot(file, patches) })
		doc := init.clone()
		for _, n := range doc.nodes() {
			if n.d.leaf() {
				n.d.T = -1
			}
		}
		for i := 0; i <= len(patches); i++ {
			if i > 0 {
				p := patches[i-1]
				next, err := applyOp(doc, Op{Op: tsonpatch.OpType(p.Op), Path: p.Path, Value: p.Value, Timestamp: p.Timestamp})
				if err != nil {
					fatal("%v", err)
				}
				doc = next
			}
			b, err := os.ReadFile(filepath.Join(snaps, fmt.Sprintf("snapshot_%d.json", i)))
			if err != nil {
				c.Fail("snapshot missing", "%v", err)
			}
			var got any
			dec := json.NewDecoder(bytes.NewReader(b))
			dec.UseNumber()
			if err := dec.Decode(&got); err != nil {
				c.Fail("snapshot unreadable", "%v", err)
			}
			if g, w := text(got), text(doc.pairAny()); g != w {
				c.Fail("numbered snapshot", "snapshot %d holds %s, expected %s", i, trim(g, 700), trim(w, 700))
			}
			c.Count("numbered snapshots", 1)
		}
		left, _ := filepath.Glob(filepath.Join(snaps, "*"))
		if len(left) != len(patches)+1 {
			c.Fail("numbered snapshots", "%d snapshots of %d operations", len(left), len(patches))
		}
	}

	// Tracks and events
	all := sortedKeys(state(hi))
	for i := 0; i < 4; i++ {
		path := pick(c.R, all)
		a, b := pick(c.R, instants), pick(c.R, instants)
		if a > b {
			a, b = b, a
		}
		want := intervals(init, sorted, path)
		for _, w := range want[min(1, len(want)):] {
			changed++
			_ = w
		}
		var got []map[string]any
		c.Must("the baseline's track", func() { got, err = e.TJSONDocument.TemporalTrack(path, a, b) })
		if err != nil {
			c.Fail("track", "the track of %s over [%d,%d] fails: %v", path, a, b, err)
		}
		checkTrack(c, path, a, b, got, want, hi, clash[path])
		c.Count("tracks", 1)
		c.Count("tracked values", len(got))

		if clash[path] {
			continue
		}
		th := threshold(c, want)
		var times []int64
		for k, w := range want {
			if f, ok := w.value.(float64); ok && f > th && w.from >= a && w.from <= b && !(k == 0 && w.initial) {
				times = append(times, w.from)
			}
		}
		var ev []int64
		c.Must("the baseline's event search", func() {
			ev, err = e.TJSONDocument.FindEvents(path, a, b, func(v any) bool { f, ok := v.(float64); return ok && f > th })
		})
		if err != nil || !sameTimes(ev, times) {
			c.Fail("baseline events", "the baseline's events of %s > %g in [%d,%d] are %v (%v), expected %v", path, th, a, b, ev, err, times)
		}
		c.Must("the event experiment", func() { res, err = e.RunEventSearchExperiment([]string{path}, a, b, []float64{th}) })
		if err != nil || len(res) != 1 {
			c.Fail("event experiment", "the event experiment gives %v, %v", res, err)
		}
		for _, f := range []string{res[0].LogumentResultFile, res[0].TJSONResultFile} {
			var ev []int64
			if d := savedJSON(f, &ev); d != "" {
				c.Fail("event file", "%s", d)
			}
			if !sameTimes(ev, times) {
				c.Fail("saved events", "%s holds the events %v of %s > %g in [%d,%d], expected %v", filepath.Base(f), ev, path, th, a, b, times)
			}
		}
		c.Count("event searches", 1)
		c.Count("events", len(times))
	}
	if changed > 0 {
		c.Key(text(initial), fmt.Sprint(patches))
		c.Sample(map[string]any{"initial": trim(text(init.toAny()), 300), "series": trim(handed, 500)})
	}
}

func savedJSON(file string, v any) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return err.Error()
	}
	if err := json.Unmarshal(b, v); err != nil {
		return fmt.Sprintf("%s: %v", filepath.Base(file), err)
	}
	return ""
}

func sameTimes(a, b []int64) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

var objectKeys = []string{"Vehicle", "Speed", "speed", "a", "b", "ab", "0", "12", "Is-Open", "x_y", "ä", "k e y", "data", "op", "path", "timestamps"}

// objectDoc is a document of nested objects (none empty) and leaves.
func objectDoc(c *Ctx, depth int) *Doc {
	d := &Doc{K: 'o', M: map[string]*Doc{}}
	for i := 0; i < 1+c.R.IntN(4); i++ {
		k := pick(c.R, objectKeys)
		if depth > 0 && c.R.IntN(3) == 0 {
			d.M[k] = objectDoc(c, depth-1)
		} else {
			d.M[k] = fromAny(seriesValue(c), 0)
		}
	}
	return d
}

func seriesValue(c *Ctx) any {
	switch c.R.IntN(8) {
	case 0:
		return c.R.IntN(2) == 0
	case 1:
		return pick(c.R, []string{"", "x", "y", "1", "true", "é\"\\"})
	case 2:
		return c.R.NormFloat64() * 100
	}
	return float64(c.R.IntN(5)) * 10
}

func flatten(m map[string]any) map[string]any {
	out := map[string]any{}
	var visit func(p string, v any)
	visit = func(p string, v any) {
		if o, ok := v.(map[string]any); ok {
			for k, e := range o {
				if p == "" {
					visit(k, e)
				} else {
					visit(p+"."+k, e)
				}
			}
			return
		}
		out[p] = v
	}
	visit("", m)
	return out
}

func mapDiff(got, want map[string]any) string {
	for _, k := range sortedKeys(got) {
		w, ok := want[k]
		if !ok {
			return fmt.Sprintf("%s is %v, expected nothing there", k, got[k])
		}
		if w != got[k] {
			return fmt.Sprintf("%s is %v (%T), expected %v (%T)", k, got[k], got[k], w, w)
		}
	}
	for _, k := range sortedKeys(want) {
		if _, ok := got[k]; !ok {
			return fmt.Sprintf("%s is missing, expected %v", k, want[k])
		}
	}
	return ""
}

type interval struct {
	from, to int64
	value    any
	initial  bool
}

// intervals lists the values in force at a path; neighbours differ.
func intervals(init *Doc, sorted []exp.TsonPatch, path string) (all []interval) {
	if n := init.at(strings.Split(path, ".")); n != nil {
		all = append(all, interval{0, math.MaxInt64, n.value(), true})
	}
	for _, p := range sorted {
		if p.Path != path {
			continue
		}
		if n := len(all); n > 0 {
			if all[n-1].value == p.Value {
				continue
			}
			all[n-1].to = p.Timestamp - 1
			if all[n-1].to < all[n-1].from { // replaced at the same time
				all = all[:n-1]
				if n > 1 && all[n-2].value == p.Value {
					all[n-2].to = math.MaxInt64
					continue
				}
			}
		}
		all = append(all, interval{p.Timestamp, math.MaxInt64, p.Value, false})
	}
	return all
}

func threshold(c *Ctx, want []interval) float64 {
	var fs []float64
	for _, w := range want {
		if f, ok := w.value.(float64); ok {
			fs = append(fs, f, f-5, math.Nextafter(f, math.Inf(-1)))
		}
	}
	if len(fs) == 0 || c.R.IntN(6) == 0 {
		return float64(c.R.IntN(50))
	}
	return pick(c.R, fs)
}

// checkTrack: where a path was set more than once at one time (clash), a value may be split in two
// intervals there, so only the part within the window is compared.
func checkTrack(c *Ctx, path string, a, b int64, got []map[string]any, want []interval, hi int64, clash bool) {
	bad := func(key, why string) {
		c.Fail(key, "the track of %s over [%d,%d] is %v, expected %v: %s", path, a, b, got, want, why)
	}
	var list []interval
	for _, m := range got {
		from, to, ok := strings.Cut(fmt.Sprint(m["timestamp"]), "-")
		f, err1 := strconv.ParseInt(from, 10, 64)
		t, err2 := strconv.ParseInt(to, 10, 64)
		if !ok || err1 != nil || err2 != nil {
			bad("track interval", fmt.Sprintf("the interval %v", m["timestamp"]))
		}
		if n := len(list); n > 0 && list[n-1].to >= f {
			bad("track order", "not in time order")
		}
		if n := len(list); n > 0 && list[n-1].value == m["data"] && list[n-1].to+1 == f {
			list[n-1].to = t
			continue
		}
		list = append(list, interval{from: f, to: t, value: m["data"]})
	}
	var in []interval
	for _, w := range want {
		if w.from <= b && w.to >= a {
			in = append(in, w)
		}
	}
	if len(in) != len(list) {
		bad("track length", fmt.Sprintf("%d values, expected %d", len(list), len(in)))
	}
	for i, w := range in {
		g := list[i]
		end := g.to == w.to
		if w.to == math.MaxInt64 {
			end = g.to >= hi
		}
		start := g.from == w.from
		if clash {
			start = start || max(g.from, a) == max(w.from, a)
			end = end || min(g.to, b) == min(w.to, b)
		}
		if !start || !end || g.value != w.value {
			bad("track value", fmt.Sprintf("value %d", i))
		}
	}
}

// ---------------------------------------------------------------- C41

const (
	speedPath    = "Vehicle.Speed"
	chargingPath = "Vehicle.Powertrain.TractionBattery.Charging.IsCharging"
	ratePath     = "Vehicle.Powertrain.TractionBattery.Charging.ChargingRate"
	timePath     = "Vehicle.Powertrain.TractionBattery.Charging.TimeRemaining"
	steeringPath = "Vehicle.Chassis.SteeringWheel.Angle"
	pedalPath    = "Vehicle.Chassis.Accelerator.PedalPosition"
	fuelPath     = "Vehicle.Powertrain.FuelSystem.Level"
	warmthPath   = "Vehicle.Powertrain.TractionBattery.Temperature"
)

var standing = []string{speedPath, "Vehicle.Acceleration.Longitudinal", "Vehicle.Acceleration.Lateral", steeringPath, "Vehicle.Chassis.Brake.PedalPosition", pedalPath}

func asFloat(v any) float64 {
	switch v := v.(type) {
	case float64:
		return v
	case json.Number:
		f, err := v.Float64()
		if err == nil {
			return f
		}
	}
	return math.NaN()
}

// checkState checks what a scenario says about the vehicle at any time (first: at its start).
func checkState(c *Ctx, scenario, where string, first bool, get func(path string) any) {
	in := func(path string, lo, hi float64) {
		if f := asFloat(get(path)); !(f >= lo && f <= hi) {
			c.Fail("state:"+path, "%s, %s: %s is %v, expected %v to %v", scenario, where, path, get(path), lo, hi)
		}
	}
	if get(chargingPath) != (scenario == "battery_charging") {
		c.Fail("charging", "%s, %s: the vehicle reports charging %v", scenario, where, get(chargingPath))
	}
	switch scenario {
	case "urban_traffic":
		in(ratePath, 0, 0)
		in(speedPath, 0, 70)
		if first {
			in(speedPath, 40, 60)
		}
	case "highway_cruising":
		in(ratePath, 0, 0)
		in(speedPath, 90, 110)
		in(steeringPath, -1, 1)
		in(pedalPath, 20, 30)
		for _, path := range []string{"Vehicle.Acceleration.Longitudinal", "Vehicle.Acceleration.Lateral"} {
			in(path, -1, 1)
		}
	case "battery_charging":
		for _, path := range standing {
			in(path, 0, 0)
		}
		in(ratePath, 10, 13)
		if first {
			in(batteryPath, 20, 40)
			in(timePath, 120, 180)
		}
	}
}

func runC41(c *Ctx) {
	for i := 0; i < 100; i++ {
		for _, scenario := range []string{"urban_traffic", "highway_cruising", "battery_charging"} {
			var v *exp.VehicleData
			c.Must("setting up the vehicle", func() { v = exp.InitializeVehicleData(scenario) })
			c.Count("fresh vehicles", 1)
			checkState(c, scenario, "a fresh vehicle", true, func(path string) any {
				s := sensor(v, path)
				if s == nil {
					c.Fail("sensor lost", "%s: the fresh vehicle has no %s", scenario, path)
				}
				return s.Value
			})
		}
	}
	drain := map[string]float64{}
	for _, r := range simulate(c) {
		if r.scenario == "mixed_scenario" {
			continue
		}
		values := map[string]any{}
		for path := range exp.VSSSensors {
			m, last := place(r.initialTSON, path)
			if leaf, ok := m[last].(map[string]any); ok {
				values[path] = leaf["value"]
			}
		}
		get := func(path string) any { return values[path] }
		checkState(c, r.scenario, "at the start", true, get)
		start := asFloat(values[batteryPath])
		for i, p := range r.tsonPatches {
			path := p["path"].(string)
			old := values[path]
			values[path] = p["value"]
			where := fmt.Sprintf("patch %d (%s from %v to %v at %v)", i, path, old, p["value"], p["timestamp"])
			if what := map[string]string{speedPath: "speed changes", batteryPath: "battery changes", ratePath: "charging rate changes"}[path]; what != "" {
				c.Count(what, 1)
			}
			rises := asFloat(p["value"]) > asFloat(old)
			switch {
			case path == batteryPath && rises != (r.scenario == "battery_charging"):
				c.Fail("battery", "%s, %s: the battery goes the wrong way", r.scenario, where)
			case path == timePath && (rises || r.scenario != "battery_charging"):
				c.Fail("time remaining", "%s, %s: the time that remains goes the wrong way", r.scenario, where)
			case path == fuelPath && rises:
				c.Fail("fuel", "%s, %s: the fuel grows", r.scenario, where)
			case path == warmthPath && r.scenario == "battery_charging" && !rises:
				c.Fail("temperature", "%s, %s: the battery cools", r.scenario, where)
			case path == speedPath && r.scenario == "urban_traffic" && !(math.Abs(asFloat(p["value"])-asFloat(old)) <= 5):
				c.Fail("speed", "%s, %s: the speed jumps", r.scenario, where)
			case r.scenario == "battery_charging" && path != batteryPath && path != timePath && path != warmthPath && path != ratePath && !reflect.DeepEqual(p["value"], old):
				c.Fail("not at rest", "%s, %s: only the battery may change", r.scenario, where)
			case strings.Contains(path, "VehicleIdentification") && !reflect.DeepEqual(p["value"], old):
				c.Fail("identity", "%s, %s: the vehicle becomes another one", r.scenario, where)
			}
			checkState(c, r.scenario, where, false, get)
		}
		end := asFloat(values[batteryPath])
		drain[r.scenario] = start - end
		if end == start && !(r.scenario == "battery_charging" && start >= 99.9) {
			c.Fail("battery", "%s: the battery level stays at %v", r.scenario, start)
		}
		c.Count("scenario runs", 1)
		c.Key(r.scenario, string(r.tsonPatText))
		c.Sample(map[string]any{"scenario": r.scenario, "battery": fmt.Sprintf("%v -> %v", start, end)})
	}
	u, ok1 := drain["urban_traffic"]
	if h, ok2 := drain["highway_cruising"]; ok1 && ok2 && h <= u {
		c.Fail("drain", "the battery lost %v on the highway and %v in town", h, u)
	}
}

// ---------------------------------------------------------------- C31

const batteryPath = "Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"

func vehicleText(v *exp.VehicleData) string {
	var b strings.Builder
	for i, m := range []map[string]*exp.SensorData{v.SensorsHighFreq, v.SensorsMedFreq, v.SensorsLowFreq, v.ActuatorsHighVar, v.ActuatorsLowVar, v.Attributes} {
		for _, k := range sortedKeys(m) {
			fmt.Fprintf(&b, "%d %s %+v\n", i, k, *m[k])
		}
	}
	return b.String()
}

func sensor(v *exp.VehicleData, path string) *exp.SensorData {
	for _, m := range []map[string]*exp.SensorData{v.SensorsHighFreq, v.SensorsMedFreq, v.SensorsLowFreq, v.ActuatorsHighVar, v.ActuatorsLowVar, v.Attributes} {
		if s, ok := m[path]; ok {
			return s
		}
	}
	return nil
}

func runC31(c *Ctx) {
	var v *exp.VehicleData
	c.Must("setting up the vehicle", func() { v = exp.InitializeVehicleData("mixed_scenario") })
	battery := v.SensorsMedFreq[batteryPath]
	if battery == nil {
		c.Fail("no battery", "the vehicle has no battery sensor")
	}
	level := 20 + 60*c.R.Float64()
	st := exp.NewScenarioState("urban_traffic", level)
	// The model
	current, previous, lastSwitch := "urban_traffic", "urban_traffic", int64(0)
	if c.R.IntN(6) == 0 { // it was charging already
		previous = pick(c.R, []string{"urban_traffic", "highway_cruising"})
		current = "battery_charging"
		st.CurrentScenario, st.PreviousScenario = current, previous
		c.Log("charging after %s", previous)
	}
	const cooldown = 60000
	now := int64(0)
	switched := false
	for i := 0; i < 4+c.R.IntN(20); i++ {
		// The next time: often around the end of the cooldown
		switch c.R.IntN(6) {
		case 0, 1:
			if t := lastSwitch + cooldown + int64(c.R.IntN(3)-1); t >= now {
				now = t
			}
		case 2:
			now += int64(c.R.IntN(200000))
		case 3:
			now += cooldown * int64(1+c.R.IntN(3))
		case 4:
		default:
			now += 100 * int64(c.R.IntN(700))
		}
		// The next level
		read := true
		delete(v.SensorsMedFreq, batteryPath)
		v.SensorsMedFreq[batteryPath] = battery
		switch c.R.IntN(16) {
		case 0:
			delete(v.SensorsMedFreq, batteryPath)
			read = false
		case 1:
			battery.Value = pick(c.R, []any{"5", true, nil, 5, int64(100)})
			read = false
		default:
			level = pick(c.R, []float64{10, 10, 9.999, math.Nextafter(10, 11), math.Nextafter(10, 9), 0, -1, 50, 99.95, math.Nextafter(99.95, 0), math.Nextafter(99.95, 101), 99.9, 100, 120, c.R.Float64() * 100})
			battery.Value = level
		}
		if !read {
			c.Count("no battery reading", 1)
		}
		// The vehicle is moving
		if sp := v.SensorsHighFreq["Vehicle.Speed"]; sp != nil && c.R.IntN(2) == 0 {
			sp.Value = pick(c.R, []float64{0, 0.001, 5, 30, 69.9, 70, 79.99, 80, 120, 199.9, 200, c.R.Float64() * 200, c.R.Float64() * 80})
			if s := exp.VSSSensors["Vehicle.Speed"]; s != nil && c.R.IntN(3) == 0 {
				sp.Value = s.Max
			}
		}
		for _, path := range []string{"Vehicle.Chassis.SteeringWheel.Angle", "Vehicle.Acceleration.Longitudinal", "Vehicle.Chassis.Brake.PedalPosition", "Vehicle.Chassis.Accelerator.PedalPosition"} {
			m, s := exp.VSSSensors[path], sensor(v, path)
			if m == nil || s == nil || c.R.IntN(3) != 0 {
				continue
			}
			if _, ok := s.Value.(float64); ok {
				s.Value = pick(c.R, []float64{m.Min, m.Max, 0, m.Min + c.R.Float64()*(m.Max-m.Min), 1e-9})
			}
		}
		before := vehicleText(v)
		var got bool
		c.Must("updating the scenario", func() { got = st.UpdateScenarioState(v, now) })
		c.Log("t=%d level=%v read=%v was %s -> %s %v", now, level, read, current, st.CurrentScenario, got)
		want := current
		switch {
		case current == "urban_traffic" && level <= 10:
			want = "battery_charging"
		case current == "battery_charging" && level >= 99.95:
			want = previous
		}
		if want != current && now-lastSwitch < cooldown {
			c.Count("held back by the cooldown", 1)
			want = current
		}
		c.Count("updates", 1)
		if st.CurrentScenario != want {
			c.Fail("scenario", "at %d ms with battery %v (last switch at %d) the scenario went from %s to %s, expected %s", now, level, lastSwitch, current, st.CurrentScenario, want)
		}
		if got != (want != current) {
			c.Fail("reported", "at %d ms the switch from %s to %s was reported as %v", now, current, want, got)
		}
		if st.BatteryLevel != level {
			c.Fail("level", "the battery level is %v, the last reading %v", st.BatteryLevel, level)
		}
		after := vehicleText(v)
		if want == current {
			if after != before {
				c.Fail("vehicle changed", "the vehicle changed without a switch")
			}
			continue
		}
		switched = true
		if st.LastSwitchTime != now {
			c.Fail("switch time", "the last switch is recorded at %d, it was at %d", st.LastSwitchTime, now)
		}
		if want == "battery_charging" {
			c.Count("switches to charging", 1)
		} else {
			c.Count("switches back", 1)
		}
		lastSwitch, current = now, want
		checkVehicle(c, v, want)
		if current == "highway_cruising" { // which has no way to charging yet
			c.Count("switches back to the highway", 1)
			break
		}
		if read && battery.Value != level {
			c.Fail("level changed", "the switch changed the battery level from %v to %v", level, battery.Value)
		}
	}
	if switched {
		c.Key(strings.Join(c.log, "\n"))
		c.Sample(c.log[len(c.log)-1])
	}
}

func checkVehicle(c *Ctx, v *exp.VehicleData, scenario string) {
	for _, path := range sortedKeys(exp.VSSSensors) {
		s := sensor(v, path)
		if s == nil {
			if path == batteryPath {
				continue
			}
			c.Fail("sensor lost", "%s is lost in the switch to %s", path, scenario)
		}
		if p, ok := exp.VSSSensors[path].ChangePatterns[scenario]; ok && s.ChangePattern != p {
			c.Fail("pattern", "%s has the pattern %s in %s, expected %s", path, s.ChangePattern, scenario, p)
		}
		if s.ChangePattern == "random_walk" || s.ChangePattern == "linear" {
			lo, ok1 := s.ChangeParams["min"]
			hi, ok2 := s.ChangeParams["max"]
			if !ok1 || !ok2 || lo >= hi || lo < exp.VSSSensors[path].Min || hi > exp.VSSSensors[path].Max {
				c.Fail("limits", "%s has the limits %v in %s", path, s.ChangeParams, scenario)
			}
		}
	}
	zero := []string{"Vehicle.Speed", "Vehicle.Chassis.SteeringWheel.Angle", "Vehicle.Acceleration.Longitudinal", "Vehicle.Chassis.Brake.PedalPosition", "Vehicle.Chassis.Accelerator.PedalPosition"}
	charging := sensor(v, "Vehicle.Powertrain.TractionBattery.Charging.IsCharging")
	if charging.Value != (scenario == "battery_charging") {
		c.Fail("charging", "the vehicle reports charging %v in %s", charging.Value, scenario)
	}
	battery := sensor(v, batteryPath)
	if scenario == "battery_charging" {
		for _, path := range zero {
			if s := sensor(v, path); s.Value != 0.0 {
				c.Fail("not standing", "%s is %v when charging starts", path, s.Value)
			}
			if s := sensor(v, path); s.ChangePattern != "constant" {
				c.Fail("not standing", "%s has the pattern %s when charging starts", path, s.ChangePattern)
			}
		}
		if battery != nil && battery.ChangePattern == "linear" && battery.ChangeParams["slope"] <= 0 {
			c.Fail("slope", "the battery slope is %v while charging", battery.ChangeParams["slope"])
		}
	} else {
		if s := sensor(v, "Vehicle.Speed"); s.Value.(float64) <= 0 {
			c.Fail("standing", "the speed is %v after charging", s.Value)
		}
		if battery != nil && battery.ChangePattern == "linear" && battery.ChangeParams["slope"] >= 0 {
			c.Fail("slope", "the battery slope is %v while driving", battery.ChangeParams["slope"])
		}
	}
}
