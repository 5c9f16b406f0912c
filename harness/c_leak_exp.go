//go:build exp

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/CAU-CPSS/logument/exp"
)

func init() {
	chores["storages"] = chore{n: 60, set: choreStorages}
	chores["recorders"] = chore{n: 40, set: choreRecorders}
	chores["interval documents"] = chore{n: 80, set: choreIntervals}
	chores["vehicles"] = chore{n: 40, set: choreVehicles}
	chores["experiments"] = chore{n: 40, set: choreExperiments}
	chores["simulations"] = chore{n: 3, rare: 61, set: choreSimulations}
}

func leakDir(c *Ctx) string { return filepath.Join(c.Scratch, "leak") }

func choreStorages(c *Ctx) (string, func()) {
	scenario := pick(c.R, []string{"urban_traffic", "s"})
	return fmt.Sprint(scenario, c.R.IntN(1000)), func() {
		ds := exp.NewDataStorage(leakDir(c), scenario)
		g := docGen(c)
		for i := 0; i < 3; i++ {
			var v any = g.root().toAny()
			if c.R.IntN(6) == 0 {
				v = math.NaN()
			}
			n := c.R.IntN(20)
			for k, save := range []func() error{
				func() error { return ds.SaveInitialJSON(v) }, func() error { return ds.SaveInitialTSON(v) },
				func() error { return ds.SaveFinalJSON(v) }, func() error { return ds.SaveFinalTSON(v) },
				func() error { return ds.SaveAllJSONPatches(v) }, func() error { return ds.SaveAllTSONPatches(v) },
				func() error { return ds.SaveJSONPatch(n, v) }, func() error { return ds.SaveTSONPatch(n, v) },
				func() error { return ds.SaveJSONSnapshot(int64(n), v) }, func() error { return ds.SaveTSONSnapshot(int64(n), v) },
			} {
				if c.R.IntN(3) == 0 {
					refusal(c, save)
				} else if k == 0 && c.R.IntN(4) == 0 { // no room
					f := filepath.Join(ds.OutputDir, "initial_json.json")
					_ = os.Remove(f)
					_ = os.Symlink("/dev/full", f)
					refusal(c, save)
					_ = os.Remove(f)
				}
			}
		}
		if c.R.IntN(4) == 0 {
			_ = os.RemoveAll(ds.OutputDir)
			refusal(c, func() error { return ds.SaveFinalJSON("x") })
		}
	}
}

func choreRecorders(c *Ctx) (string, func()) {
	v := exp.InitializeVehicleData(pick(c.R, []string{"urban_traffic", "highway_cruising", "battery_charging"}))
	return fmt.Sprint(c.R.IntN(1000)), func() {
		scenario := fmt.Sprint("r", c.R.IntN(5))
		rec, err := exp.NewSensorDataRecorder(leakDir(c), scenario)
		if err != nil {
			c.Fail("no recorder", "the recorder cannot be made: %v", err)
		}
		for k := int64(c.R.IntN(30)); k >= 0; k-- {
			refusal(c, func() error { return rec.RecordSensorData(k, v) })
		}
		rec.Close()
		if c.R.IntN(3) == 0 { // one whose files cannot all be made
			bad := rec.CSVFiles[pick(c.R, exp.KeySensorPaths)].Name()
			_ = os.Remove(bad)
			_ = os.Mkdir(bad, 0o755)
			rec, err := exp.NewSensorDataRecorder(leakDir(c), scenario)
			if err != nil {
				c.Count("refusals", 1)
			} else {
				rec.Close()
			}
			_ = os.RemoveAll(bad)
		}
	}
}

// someSeries is a random series of operations on some members.
func someSeries(c *Ctx, names []string) (ops []exp.TsonPatch) {
	t := int64(c.R.IntN(1000))
	for i := 1 + c.R.IntN(20); i > 0; i-- {
		var v any = float64(c.R.IntN(100000))
		if c.R.IntN(3) == 0 {
			v = fmt.Sprint("s", c.R.IntN(100000))
		}
		ops = append(ops, exp.TsonPatch{Op: "replace", Path: pick(c.R, names), Value: v, Timestamp: t})
		t += 1 + int64(c.R.IntN(200))
	}
	return ops
}

func choreIntervals(c *Ctx) (string, func()) {
	return fmt.Sprint(c.R.IntN(1000)), func() {
		names := []string{"a.b", "a.c", "d", fmt.Sprint("e.f", c.R.IntN(100000))}
		ops := someSeries(c, names)
		doc, err := exp.FromTSONPatches(ops)
		if err != nil || doc == nil {
			c.Fail("error", "the interval document cannot be made: %v", err)
		}
		refusal(c, func() error { return doc.AddItem(pick(c.R, names), 5000, 5000+int64(c.R.IntN(10)), 1.5) })
		for k := 0; k < 4; k++ {
			s := int64(c.R.IntN(4000))
			refusal(c, func() error { _, err := doc.TemporalSnapshot(s); return err })
			refusal(c, func() error { _, err := doc.TemporalTrack(pick(c.R, append(names, "none")), s, s+1000); return err })
			refusal(c, func() error {
				_, err := doc.FindEvents(pick(c.R, append(names, "none")), s, s+1000, func(v any) bool { return true })
				return err
			})
		}
	}
}

func choreVehicles(c *Ctx) (string, func()) {
	scenarios := []string{"urban_traffic", "highway_cruising", "battery_charging", "mixed_scenario"}
	return fmt.Sprint(c.R.IntN(1000)), func() {
		v := exp.InitializeVehicleData(pick(c.R, scenarios))
		st := exp.NewScenarioState(pick(c.R, scenarios[:3]), c.R.Float64()*100)
		for t := int64(0); t < 4000000; t += 400000 {
			st.UpdateScenarioState(v, t)
		}
	}
}

func choreExperiments(c *Ctx) (string, func()) {
	names := []string{"Vehicle.Speed", "Vehicle.Cabin.Temperature", "Vehicle.On"}
	return fmt.Sprint(c.R.IntN(1000)), func() {
		defer os.RemoveAll(filepath.Join(c.Scratch, "results"))
		dir := leakDir(c)
		file := filepath.Join(dir, "initial_json.json")
		b, err := json.Marshal(map[string]any{"Vehicle": map[string]any{"Speed": c.R.Float64(), "Cabin": map[string]any{"Temperature": 20.0}, "On": "x"}})
		if err == nil {
			err = os.WriteFile(file, b, 0o644)
		}
		if err != nil {
			fatal("%v", err)
		}
		ops := someSeries(c, names)
		if _, err := exp.CreateInitialPatchesFromJSON(file); err != nil {
			c.Fail("initial patches", "the initial patches cannot be made: %v", err)
		}
		refusal(c, func() error { _, err := exp.CreateInitialPatchesFromJSON(filepath.Join(dir, "none")); return err })
		e, err := exp.NewTemporalQueryExperiment(dir, dir, "s", ops)
		if err != nil {
			c.Fail("setup", "the experiment cannot be set up: %v", err)
		}
		from, to := ops[0].Timestamp, ops[len(ops)-1].Timestamp
		var res []exp.TemporalQueryResult
		more := func(r []exp.TemporalQueryResult, err error) {
			if err != nil {
				c.Count("refusals", 1)
			}
			res = append(res, r...)
		}
		more(e.RunTemporalSnapshotExperiment([]int64{from, to}))
		more(e.RunTemporalTrackExperiment(names[:2], from, to))
		refusal(c, func() error { return e.SaveResults(res, "results.csv") })
		if c.R.IntN(4) == 0 {
			exp.CreateSnapshot(file, ops)
		}
	}
}

func choreSimulations(c *Ctx) (string, func()) {
	return fmt.Sprint(c.Index), func() {
		exp.RealworldScenario()
		_ = os.RemoveAll(filepath.Join(c.Scratch, "results"))
	}
}
