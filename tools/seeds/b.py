V='internal/vssgen/vss.go'; A='internal/vssgen/args.go'; X='internal/vssgen/extension.go'
XS='exp/exp_scenario.go'; SC='exp/scenario.go'; U='exp/utils.go'; TJ='exp/tjson.go'; SD='exp/sensor_data_save.go'; UT='exp/utils_temporal.go'; ET='exp/exp_temporal.go'; W='web_demo.go'
def vs(body,imports='',extra=''):
    return '''package vssgen

import (
	"testing"
'''+''.join('\t"%s"\n'%i for i in imports.split())+''')
'''+extra+'''
func TestDemo(t *testing.T) {
'''+body+'''
}
'''
def ex(body,imports='',extra=''):
    return vs(body,imports,extra).replace('package vssgen','package exp')
def mn(body,imports='',extra=''):
    return vs(body,imports,extra).replace('package vssgen','package main')
SIM='''
type savedRun struct {
	dir                    string
	initJ, finJ, initT, finT map[string]any
	jp, tp                 []map[string]any
	results                map[string]string
	timing, cumulative     [][]string
}

func load(t *testing.T, f string, v any) {
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		t.Fatal(err)
	}
}

func table(t *testing.T, f string) [][]string {
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	rows, err := csv.NewReader(strings.NewReader(string(b))).ReadAll()
	if err != nil {
		t.Fatal(err)
	}
	return rows
}

// simulate runs the whole simulation in a scratch directory.
func simulate(t *testing.T) map[string]*savedRun {
	t.Chdir(t.TempDir())
	RealworldScenario()
	runs := map[string]*savedRun{}
	for _, s := range scenarios {
		r := &savedRun{dir: filepath.Join(outputDir, s), results: map[string]string{}}
		d, _ := filepath.Glob(filepath.Join(r.dir, "*_*", "initial_json.json"))
		if len(d) != 1 {
			t.Fatal(d)
		}
		at := filepath.Dir(d[0])
		load(t, at+"/initial_json.json", &r.initJ)
		load(t, at+"/final_json.json", &r.finJ)
		load(t, at+"/initial_tson.json", &r.initT)
		load(t, at+"/final_tson.json", &r.finT)
		load(t, at+"/all_json_patches.json", &r.jp)
		load(t, at+"/all_tson_patches.json", &r.tp)
		rows := table(t, r.dir+"/results.csv")
		for i := range rows[0] {
			r.results[rows[0][i]] = rows[1][i]
		}
		r.timing = table(t, r.dir+"/timing.csv")
		r.cumulative = table(t, r.dir+"/cumulative.csv")
		runs[s] = r
	}
	return runs
}

func leafOf(doc map[string]any, path string) map[string]any {
	for _, p := range strings.Split(path, ".") {
		doc = doc[p].(map[string]any)
	}
	return doc
}
'''
SIMI='encoding/csv encoding/json os path/filepath strings'
SCHEMA='''
func load(t *testing.T, schema string) *VssJson {
	f := filepath.Join(t.TempDir(), "schema.json")
	if err := os.WriteFile(f, []byte(schema), 0o644); err != nil {
		t.Fatal(err)
	}
	return NewVssJson(f)
}
'''
SPECS=[
dict(name='c26-shared-array',prop='C26',pkg='vssgen',edits=[(V,'''				new[node] = make([]any, 0)
				for _, item := range arr {
					new[node] = append(new[node].([]any), map[string]any{
						tsonValue:     item.(map[string]any)[tsonValue],
						tsonTimestamp: timestamp,
					})
				}
				continue''','''				for _, item := range arr {
					item.(map[string]any)[tsonTimestamp] = timestamp
				}
				new[node] = arr
				continue''')],
 needs='a data set with an array signal, and an update of it; the patch then has no operation for the array and the previous data set has its new times',
 breaks='generating the next data set changes the arrays of the previous one, and the patch misses them',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Tags":{"type":"sensor","datatype":"string[]"}}}}`)
	d := v.Generate(1, 1)
	at := func(v *VssJson) any {
		return v.GetData().(map[string]any)["Vehicle"].(map[string]any)["Tags"].([]any)[0].(map[string]any)["timestamp"]
	}
	before := at(d)
	d.GenerateNext(0.5, 0.5, 1, 2)
	if at(d) != before {
		t.Fatalf("the previous data set was at %v, is at %v", before, at(d))
	}''','os path/filepath',SCHEMA)),
dict(name='c26-coarse-clock',prop='C26',pkg='vssgen',edits=[(V,'''	timestamp := time.Now().UnixNano()
	result := make(map[string]any)
	leafs := vss.LeafNodes()
''','''	timestamp := time.Now().Truncate(time.Millisecond).UnixNano()
	result := make(map[string]any)
	leafs := vss.LeafNodes()
''')],
 needs='two updates of a small data set within the same millisecond',
 breaks='an update within the same millisecond changes values without changing their timestamps (and the times go back)',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Speed":{"type":"sensor","datatype":"float"}}}}`)
	d := v.Generate(1, 1)
	at := func(v *VssJson) any {
		return v.GetData().(map[string]any)["Vehicle"].(map[string]any)["Speed"].(map[string]any)["timestamp"]
	}
	for i := 0; i < 200; i++ {
		n, _ := d.GenerateNext(1, 0, 1, i)
		if at(n).(int64) <= at(d).(int64) {
			t.Fatalf("the update at %v follows the one at %v", at(n), at(d))
		}
		d = n
	}''','os path/filepath',SCHEMA)),
dict(name='c26-empty-string',prop='C26',pkg='vssgen',edits=[(V,'''				switch value.(map[string]any)[tsonValue].(type) {
				case string:
					new[node] = map[string]any{
						tsonValue:     genRandomString(15),
						tsonTimestamp: timestamp,
					}''','''				switch old := value.(map[string]any)[tsonValue].(type) {
				case string:
					if old == "" { // not reported so far
						new[node] = value
						break
					}
					new[node] = map[string]any{
						tsonValue:     genRandomString(15),
						tsonTimestamp: timestamp,
					}''')],
 needs='a schema whose allowed values include the empty string, and an update that changes everything',
 breaks='a signal that holds the empty string is left out of updates even when the rates sum to 1',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Mode":{"type":"sensor","datatype":"string","allowed":[""]}}}}`)
	d := v.Generate(1, 1)
	n, p := d.GenerateNext(1, 0, 1, 2)
	at := func(v *VssJson) any {
		return v.GetData().(map[string]any)["Vehicle"].(map[string]any)["Mode"].(map[string]any)["timestamp"]
	}
	if at(n) == at(d) {
		t.Fatalf("not updated: %v", p.GetData())
	}''','os path/filepath',SCHEMA)),
dict(name='c27-no-empty-patch',prop='C27',pkg='vssgen',edits=[(A,'''			patch.Save(filepath.Join(patchDir, fmt.Sprintf("%d_%d.json", i, j)))''','''			if ops, ok := patch.GetData().([]any); ok && len(ops) > 0 {
				patch.Save(filepath.Join(patchDir, fmt.Sprintf("%d_%d.json", i, j)))
			}''')],
 needs='an update that changes nothing (a low change rate and a small data set without arrays)',
 breaks='no patch file is written for a document equal to the one before, so patches and documents no longer correspond',
 demo=vs('''	dir := t.TempDir()
	s := filepath.Join(dir, "schema.json")
	os.WriteFile(s, []byte(`{"Vehicle":{"type":"branch","children":{"Speed":{"type":"sensor","datatype":"float"}}}}`), 0o644)
	Generate(map[string]any{"dataset": s, "cars": 1, "files": 3, "change_rate": 0.0, "size": 1.0}, dir)
	if f, _ := filepath.Glob(filepath.Join(dir, "car_1/patches/*.json")); len(f) != 3 {
		t.Fatal(f)
	}''','os path/filepath')),
dict(name='c27-overwrite',prop='C27',pkg='vssgen',edits=[(V,'''	if err := os.WriteFile(file, data, 0644); err != nil {
		fmt.Printf("Error writing file: %v\\n", err)
	}''','''	f, err := os.OpenFile(file, os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		fmt.Printf("Error writing file: %v\\n", err)
		return
	}
	defer f.Close()
	if _, err := f.Write(data); err != nil {
		fmt.Printf("Error writing file: %v\\n", err)
	}''')],
 needs='a data set generated into a directory that holds a larger one already',
 breaks='a file that exists is overwritten but not cut, so the rest of the old content stays at its end',
 demo=vs('''	dir := t.TempDir()
	for _, names := range []string{`"Speed":{"datatype":"float"},"Name":{"datatype":"string"}`, `"Speed":{"datatype":"float"}`} {
		s := filepath.Join(dir, "schema.json")
		os.WriteFile(s, []byte(`{"Vehicle":{"type":"branch","children":{`+names+`}}}`), 0o644)
		Generate(map[string]any{"dataset": s, "cars": 1, "files": 2, "change_rate": 1.0, "size": 1.0}, dir)
	}
	b, _ := os.ReadFile(filepath.Join(dir, "car_1/patches/1_2.json"))
	if !json.Valid(b) {
		t.Fatalf("%s", b)
	}''','encoding/json os path/filepath')),
dict(name='c28-unsigned',prop='C28',pkg='vssgen',edits=[(V,'''		case dtype == "int8" || dtype == "int16" || dtype == "int32":''','''		case dtype == "int8" || dtype == "int16" || dtype == "int32" || dtype == "uint32":''')],
 needs='a schema with an unsigned 32 bit signal (the shipped one has few), and a draw below zero',
 breaks='an unsigned 32 bit signal may be generated negative',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Odo":{"type":"sensor","datatype":"uint32"}}}}`)
	for i := 0; i < 200; i++ {
		x := v.Generate(1, 1).GetData().(map[string]any)["Vehicle"].(map[string]any)["Odo"].(map[string]any)["value"]
		if x.(int) < 0 {
			t.Fatal(x)
		}
	}''','os path/filepath',SCHEMA)),
dict(name='c28-size',prop='C28',pkg='vssgen',edits=[(V,'''		if rand.Float64() > datasetSize {''','''		if rand.Float64()*1.001 > datasetSize {''')],
 needs='size 1 and a draw among the largest thousandth, about once in a whole data set',
 breaks='with size 1 now and then a signal is missing from the data set',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Odo":{"type":"sensor","datatype":"uint32"}}}}`)
	for i := 0; i < 50000; i++ {
		if len(v.Generate(1, 1).GetData().(map[string]any)) != 1 {
			t.Fatal("missing")
		}
	}''','os path/filepath',SCHEMA)),
dict(name='c28-stamp',prop='C28',pkg='vssgen',edits=[(V,'''			for i := 0; i < rand.Intn(5)+1; i++ {
				new[node] = append(new[node].([]any), map[string]any{
					tsonValue:     rand.Intn(101),
					tsonTimestamp: timestamp,
				})
			}''','''			for i := 0; i < rand.Intn(5)+1; i++ {
				new[node] = append(new[node].([]any), map[string]any{
					tsonValue:     rand.Intn(101),
					tsonTimestamp: timestamp + int64(i),
				})
			}''')],
 needs='a schema with an array of small integers, drawn with more than one element',
 breaks='the elements of such an array carry other timestamps than the rest of the data set',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Ids":{"type":"sensor","datatype":"uint8[]"}}}}`)
	for i := 0; i < 200; i++ {
		a := v.Generate(1, 1).GetData().(map[string]any)["Vehicle"].(map[string]any)["Ids"].([]any)
		for _, e := range a {
			if e.(map[string]any)["timestamp"] != a[0].(map[string]any)["timestamp"] {
				t.Fatal(a)
			}
		}
	}''','os path/filepath',SCHEMA)),
dict(name='c29-drift',prop='C29',pkg='exp',edits=[(XS,'''						valueChangeCounter++
						sensor.Value = newValue
					} else {
						timestampChangeCounter++
					}
''','''						valueChangeCounter++
					} else {
						timestampChangeCounter++
					}
					sensor.Value = newValue // slow changes add up
''')],
 needs='a sensor that changes by less than the tolerance at an update, such as the battery discharging',
 breaks='the plain document takes small changes for which there is no patch, so the patches no longer lead to the final document',
 demo=ex('''	for s, r := range simulate(t) {
		for _, p := range r.jp {
			path := p["path"].(string)
			i := strings.LastIndex(path, "/")
			leafOf(r.initJ, path[:i])[path[i+1:]] = p["value"]
		}
		if !reflect.DeepEqual(r.initJ, r.finJ) {
			t.Fatalf("%s: the patches do not lead to the final document", s)
		}
	}''',SIMI+' reflect',SIM)),
dict(name='c29-late-record',prop='C29',pkg='exp',edits=[(XS,'''		// Record major sensor data
		if sensorRecorder != nil {
			sensorRecorder.RecordSensorData(currentTimeMs, vehicle)
		}

''',''),(XS,'''						timingWriter.Flush()
					}
				}
			}
		}
	}
''','''						timingWriter.Flush()
					}
				}
			}
		}

		// Record major sensor data
		if sensorRecorder != nil {
			sensorRecorder.RecordSensorData(currentTimeMs+simulationTimeStepMs, vehicle)
		}
	}
''')],
 needs='the first recorded row: the values at time 0 are missing, while all others are the same',
 breaks='the recorded sensor series no longer starts with the values at the start (the rows are one step late and reach beyond the end)',
 demo=ex('''	for s, r := range simulate(t) {
		rows := table(t, r.dir+"/sensor_data/Vehicle.Speed.csv")
		if rows[1][1] != "0" {
			t.Fatalf("%s: the first row is at %s", s, rows[1][1])
		}
	}''',SIMI,SIM)) if False else None,
dict(name='c29-set-count',prop='C29',pkg='exp',edits=[(XS,'''					setTsonPatches = append(setTsonPatches, TsonPatch{''','''					if currentTimeMs > 0 || valueChanged {
					setTsonPatches = append(setTsonPatches, TsonPatch{'''),(XS,'''						Value:     newValue,
						Timestamp: newTimestamp,
					})

					// Start TSON processing time''','''						Value:     newValue,
						Timestamp: newTimestamp,
					})
					}

					// Start TSON processing time''')],fmt=True,
 needs='a sensor whose value stays the same at the very first update',
 breaks='the count of set operations misses the updates at time 0 that change no value, so it differs from the number of updates',
 demo=ex('''	for s, r := range simulate(t) {
		if r.results["SetTsonPatchCount"] != r.results["TotalUpdates"] {
			t.Fatalf("%s: %v", s, r.results)
		}
	}''',SIMI,SIM)),
dict(name='c29-lost-rows',prop='C29',pkg='exp',edits=[(SD,'''	// Flush all CSV buffers
	for _, writer := range r.CSVWriters {
		writer.Flush()
	}

''','''''')],
 needs='the end of a run that is not at a whole second, where the last rows are still buffered',
 breaks='the sensor rows of the last steps are lost',
 demo=ex('''	for s, r := range simulate(t) {
		rows := table(t, r.dir+"/sensor_data/"+filepath.Base(KeySensorPaths[0])+".csv")
		want := r.timing[len(r.timing)-1][1]
		if rows[len(rows)-1][1] != want {
			t.Fatalf("%s: the last row is at %s, the last step was at %s", s, rows[len(rows)-1][1], want)
		}
	}''',SIMI,SIM)),
dict(name='c30-text-equal',prop='C30',pkg='exp',edits=[(TJ,'''			if !exists || !reflect.DeepEqual(lastValue, patch.Value) {''','''			if !exists || fmt.Sprint(lastValue) != fmt.Sprint(patch.Value) {'''),(TJ,'''	"reflect"
''','')],
 needs='a value replaced by one of another type that prints alike, such as true by "true" or 5 by "5"',
 breaks='the change of type is lost: the baseline goes on with the old value while the log has the new one',
 demo=ex('''	d, _ := FromTSONPatches([]TsonPatch{{"add", "/a", 5.0, 10}, {"replace", "/a", "5", 20}})
	s, _ := d.TemporalSnapshot(25)
	if s["a"] != "5" {
		t.Fatalf("%#v", s)
	}''')),
dict(name='c30-track-order',prop='C30',pkg='exp',edits=[(TJ,'''		iStart, _ := parseTimeRange(results[i]["timestamp"].(string))
		jStart, _ := parseTimeRange(results[j]["timestamp"].(string))
		return iStart < jStart''','''		return results[i]["timestamp"].(string) < results[j]["timestamp"].(string)''')],
 needs='a track over times with different numbers of digits (9 and 10, 99 and 100)',
 breaks='the track is ordered as text, so 100 comes before 99',
 demo=ex('''	d, _ := FromTSONPatches([]TsonPatch{{"add", "/a", 1.0, 99}, {"replace", "/a", 2.0, 100}, {"replace", "/a", 3.0, 101}})
	s, _ := d.TemporalTrack("a", 0, 200)
	if s[0]["data"] != 1.0 {
		t.Fatalf("%#v", s)
	}''')),
dict(name='c30-parent-times',prop='C30',pkg='exp',edits=[(TJ,'''	if len(item.Children) == 0 && len(item.Versions) == 0 {
		return nil
	}
''','''	start, _ := parseTimeRange(item.Timestamp)
	if len(item.Versions) == 0 && (len(item.Children) == 0 || timestamp < start) {
		return nil
	}
''')],
 needs='an object whose first closed interval starts later than another member of it came to be: a member that never changes is added first, but recorded last',
 breaks='a snapshot misses a whole object as long as the member that is recorded first does not exist, though others of its members do',
 demo=ex('''	d, _ := FromTSONPatches([]TsonPatch{{"add", "/o/a", 1.0, 10}, {"add", "/o/b", 1.0, 20}, {"replace", "/o/b", 2.0, 30}})
	s, _ := d.TemporalSnapshot(15)
	if o, ok := s["o"].(map[string]interface{}); !ok || o["a"] != 1.0 {
		t.Fatalf("%#v", s)
	}''')),
dict(name='c30-event-end',prop='C30',pkg='exp',edits=[(TJ,'''		if versionStart <= endTime && versionEnd >= startTime {''','''		if versionStart < endTime && versionEnd >= startTime {''')],
 needs='a window that ends exactly when a value begins',
 breaks='a value that begins at the last moment of the window is missing from the track and from the event search',
 demo=ex('''	d, _ := FromTSONPatches([]TsonPatch{{"add", "/a", 1.0, 10}, {"replace", "/a", 2.0, 20}, {"replace", "/a", 3.0, 30}})
	s, _ := d.TemporalTrack("a", 5, 20)
	if len(s) != 2 {
		t.Fatalf("%#v", s)
	}''')),
dict(name='c31-cooldown',prop='C31',pkg='exp',edits=[(SC,'''	if currentTimeMs-state.LastSwitchTime < state.SwitchCooldown {
		return false
	}
''','''	if currentTimeMs-state.LastSwitchTime < state.SwitchCooldown && state.CurrentScenario == "urban_traffic" {
		return false
	}
''')],
 needs='a battery that is full within a minute after charging began',
 breaks='the vehicle leaves charging before the cooldown is over',
 demo=ex('''	v := InitializeVehicleData("mixed_scenario")
	b := v.SensorsMedFreq["Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"]
	s := NewScenarioState("urban_traffic", 60)
	b.Value = 5.0
	if !s.UpdateScenarioState(v, 60000) {
		t.Fatal("no switch")
	}
	b.Value = 100.0
	if s.UpdateScenarioState(v, 60100) {
		t.Fatal("switched too early")
	}''')),
dict(name='c31-second-cycle',prop='C31',pkg='exp',edits=[(SC,'''		state.LastSwitchTime = currentTimeMs
		applyScenarioSettingsForMixed''','''		if state.CurrentScenario != state.PreviousScenario {
			state.LastSwitchTime = currentTimeMs
		}
		applyScenarioSettingsForMixed''')],
 needs='a whole cycle (charging and back) followed by an empty battery within a minute',
 breaks='the cooldown after the return from charging is measured from its start, so the vehicle may switch again at once',
 demo=ex('''	v := InitializeVehicleData("mixed_scenario")
	b := v.SensorsMedFreq["Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"]
	s := NewScenarioState("urban_traffic", 60)
	b.Value = 5.0
	s.UpdateScenarioState(v, 60000)
	b.Value = 100.0
	if !s.UpdateScenarioState(v, 120000) {
		t.Fatal("no switch back")
	}
	b.Value = 5.0
	if s.UpdateScenarioState(v, 120100) {
		t.Fatal("switched too early")
	}''')),
dict(name='c31-stale-level',prop='C31',pkg='exp',edits=[(SC,'''	// Get current battery level
	if batterySensor, ok :=''','''	// Check if we can switch (cooldown period)
	if currentTimeMs-state.LastSwitchTime < state.SwitchCooldown {
		return false
	}

	// Get current battery level
	if batterySensor, ok :='''),(SC,'''	// Check if we can switch (cooldown period)
	if currentTimeMs-state.LastSwitchTime < state.SwitchCooldown {
		return false
	}

	oldScenario''','''	oldScenario''')],
 needs='a battery reading during the cooldown and none when it ends',
 breaks='',demo='') if False else None,
dict(name='c32-shared-buffer',prop='C32',pkg='main',race=True,edits=[(W,'''	// Send the result
	w.Write(result)
}''','''	// Send the result
	page.Reset()
	page.Write(result)
	page.WriteByte('\\n')
	w.Write(page.Bytes())
}

// page is the answer under construction
var page bytes.Buffer'''),(W,'''import (
	"fmt"''','''import (
	"bytes"
	"fmt"''')],
 needs='two patch requests at the same time',
 breaks='answers are built in one buffer for all requests, so simultaneous ones race and get mixed up',
 demo=mn('''	t.Chdir(t.TempDir())
	os.MkdirAll("dataset/car_1/tson", 0o755)
	os.MkdirAll("dataset/car_1/patches", 0o755)
	os.WriteFile("dataset/car_1/tson/1_1.tson", []byte(`{"a" <1>: 1}`), 0o644)
	os.WriteFile("dataset/car_1/patches/1_2.json", []byte(`[{"op": "replace", "path": "/a", "value": 2, "timestamp": 2}]`), 0o644)
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				w := httptest.NewRecorder()
				patchHandler(w, httptest.NewRequest("GET", "/patch?car=1&patch=2", nil))
				if !strings.Contains(w.Body.String(), "<2>: 2") {
					t.Error(w.Body.String())
				}
			}
		}()
	}
	wg.Wait()''','net/http/httptest os strings sync')),
dict(name='c32-cache-key',prop='C32',pkg='main',edits=[(W,'''	lgm := logument.NewLogument(originalTson, nil)

	for i := 2; i <= maxpatch; i++ {''','''	lgm := logument.NewLogument(originalTson, nil)
	_ = lgm
	for i := 2; i <= maxpatch; i++ {''')],
 needs='',breaks='',demo='') if False else None,
dict(name='c32-many-patches',prop='C32',pkg='main',edits=[(W,'''		// Append it to the PatchPool
		lgm.Store(patch)
	}
''','''		// Append it to the PatchPool
		lgm.Store(patch)
		if i%8 == 0 { // keep the pool small
			lgm.Append()
			lgm = logument.NewLogument(lgm.Snapshot(uint64(len(lgm.Version)-1)), nil)
		}
	}
''')],
 needs='a patch number of 8 or more',
 breaks='',demo='') if False else None,
dict(name='c32-name-order',prop='C32',pkg='main',edits=[(W,'''		fileName := fmt.Sprintf("dataset/car_%d/patches/%d_%d.json", car, car, i)''','''		fileName := fmt.Sprintf("dataset/car_%d/patches/%.1d_%.1d.json", car, car, min(i, 9))''')],
 needs='',breaks='',demo='') if False else None,
dict(name='c32-patch-cache',prop='C32',pkg='main',edits=[(W,'''		lgm.Store(patch)
	}
''','''		known, _ := patchCache.LoadOrStore(fmt.Sprintf("%d%d", car, i), patch)
		lgm.Store(known)
	}
'''),(W,'''// patchHandler handles the patch request, sending the patched TSON
''','''// patchCache holds the patch files that have been read
var patchCache sync.Map

// patchHandler handles the patch request, sending the patched TSON
'''),(W,'''	"strconv"
''','''	"strconv"
	"sync"
''')],
 needs='at least 11 cars with at least 12 patches, so that car 1, patch 12 and car 11, patch 2 meet',
 breaks='read patch files are remembered by car and patch number written together, so one car can get the patches of another',
 demo=mn('''	t.Chdir(t.TempDir())
	for car := 1; car <= 11; car++ {
		os.MkdirAll(fmt.Sprintf("dataset/car_%d/tson", car), 0o755)
		os.MkdirAll(fmt.Sprintf("dataset/car_%d/patches", car), 0o755)
		os.WriteFile(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car), []byte(`{"a" <1>: 1}`), 0o644)
		for i := 2; i <= 12; i++ {
			os.WriteFile(fmt.Sprintf("dataset/car_%d/patches/%d_%d.json", car, car, i), []byte(fmt.Sprintf(`[{"op": "replace", "path": "/a", "value": %d, "timestamp": %d}]`, car*1000+i, i)), 0o644)
		}
	}
	get := func(car, i int) string {
		w := httptest.NewRecorder()
		patchHandler(w, httptest.NewRequest("GET", fmt.Sprintf("/patch?car=%d&patch=%d", car, i), nil))
		return w.Body.String()
	}
	get(1, 12)
	if s := get(11, 2); !strings.Contains(s, "11002") {
		t.Fatal(s)
	}''','fmt net/http/httptest os strings')),
dict(name='c33-depth',prop='C33',pkg='vssgen',edits=[(X,'''	parts := strings.Split(path, ".")
	current := result
''','''	parts := strings.SplitN(path, ".", 5)
	current := result
''')],
 needs='a signal more than five levels deep',
 breaks='the rebuilt data set puts signals below the fifth level under a joined name',
 demo=vs('''	v := load(t, `{"A":{"type":"branch","children":{"B":{"type":"branch","children":{"C":{"type":"branch","children":{"D":{"type":"branch","children":{"E":{"type":"branch","children":{"F":{"datatype":"float"}}}}}}}}}}}}`)
	m, _ := v.Generate(1, 1).BuildFromLeafNodes()
	for _, k := range []string{"A", "B", "C", "D", "E", "F"} {
		n, ok := m[k].(map[string]interface{})
		if !ok {
			t.Fatalf("no %s in %v", k, m)
		}
		m = n
	}''','os path/filepath',SCHEMA)),
dict(name='c33-first-wins',prop='C33',pkg='vssgen',edits=[(X,'''				// 마지막 부분인 경우 값 저장
				current[part] = value''','''				// 마지막 부분인 경우 값 저장
				if leaf, ok := value.(map[string]interface{}); !ok || leaf[tsonValue] != "" {
					current[part] = value
				}''')],
 needs='a signal that holds the empty string (an allowed value of its schema)',
 breaks='signals that hold the empty string are missing from the rebuilt data set',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Mode":{"type":"sensor","datatype":"string","allowed":[""]}}}}`)
	m, _ := v.Generate(1, 1).BuildFromLeafNodes()
	if len(m["Vehicle"].(map[string]interface{})) != 1 {
		t.Fatal(m)
	}''','os path/filepath',SCHEMA)),
dict(name='c34-clamp',prop='C34',pkg='exp',edits=[(U,'''		step := (rand.Float64()*2.0 - 1.0) * stepSize
		newValue := currValue + step

		// 범위 제한
		if newValue < min {
			newValue = min
		} else if newValue > max {''','''		step := (rand.Float64()*2.0 - 1.0) * stepSize
		newValue := currValue + step

		// 범위 제한
		if currValue < min {
			newValue = min
		} else if currValue > max {''')],
 needs='a random walk that reaches the end of its range',
 breaks='a random walk is limited by its last value instead of its new one, so it can step out of its range',
 demo=ex('''	s := VSSSensors["Vehicle.Speed"]
	for p, x := range VSSSensors {
		if x.ChangePatterns["urban_traffic"] == "random_walk" {
			s = x
			_ = p
		}
	}
	v := InitializeVehicleData("urban_traffic")
	for _, g := range []map[string]*SensorData{v.SensorsHighFreq, v.SensorsMedFreq, v.SensorsLowFreq, v.ActuatorsHighVar, v.ActuatorsLowVar, v.Attributes} {
		d := g[s.Path]
		if d == nil {
			continue
		}
		d.Value = s.Max
		for i := 0; i < 10000; i++ {
			n := calculateNewValue(d, int64(i)*100, "urban_traffic").(float64)
			if n > s.Max || n < s.Min {
				t.Fatalf("%s: %v", s.Path, n)
			}
			d.Value = n
		}
	}''')),
dict(name='c34-late-sensor',prop='C34',pkg='exp',edits=[(XS,'''				if currentTimeMs%int64(sensor.UpdateInterval) == 0 {''','''				if currentTimeMs == 0 || currentTimeMs-sensor.Timestamp >= int64(sensor.UpdateInterval) {''')],
 needs='a sensor whose interval is not a multiple of the simulation step, or one whose time is ahead: behaves alike for the others',
 breaks='',demo='') if False else None,
dict(name='c34-whole-seconds',prop='C34',pkg='exp',edits=[(U,'''		newValue := currValue + slope*float64(sensor.UpdateInterval)/1000.0
''','''		newValue := currValue + slope*float64(sensor.UpdateInterval)/1000.0
		if currValue == min && slope < 0 {
			return float64(int(newValue)) // empty
		}
''')],
 needs='a falling sensor that has reached its minimum',
 breaks='a linear sensor leaves its range once it is at its minimum',
 demo=ex('''	v := InitializeVehicleData("battery_charging")
	d := v.SensorsMedFreq["Vehicle.Powertrain.TractionBattery.Charging.TimeRemaining"]
	s := VSSSensors[d.Path]
	d.UpdateInterval = s.UpdateInterval
	d.Value = s.Min
	d.UpdateInterval = 5000
	for i := 0; i < 10; i++ {
		n := calculateNewValue(d, int64(i)*5000, "battery_charging").(float64)
		if n < s.Min {
			t.Fatal(n)
		}
		d.Value = n
	}''')) if False else None,
]
SPECS=[s for s in SPECS if s]
