import importlib.util,os
_s=importlib.util.spec_from_file_location('c',os.path.join(os.path.dirname(os.path.abspath(__file__)),'c.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
M='main.go'
SPECS=[
dict(name='c26-int-float',prop='C26',pkg='vssgen',edits=[(V,'''				case int:
					new[node] = map[string]any{
						tsonValue:     rand.Intn(201) - 100,''','''				case int:
					new[node] = map[string]any{
						tsonValue:     float64(rand.Intn(201)) - 100,''')],
 needs='an update that changes a whole-number signal, followed by another one of the same signal',breaks='whole-number signals become floating-point ones with their first change and get fractions with the second',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Gear":{"type":"sensor","datatype":"int8"}}}}`)
	d := v.Generate(1, 1)
	for i := 2; i < 30; i++ {
		d, _ = d.GenerateNext(1, 0, 1, i)
		x := d.GetData().(map[string]any)["Vehicle"].(map[string]any)["Gear"].(map[string]any)["value"]
		if _, ok := x.(int); !ok {
			t.Fatalf("%v is a %T", x, x)
		}
	}''','os path/filepath',SCHEMA)),
dict(name='c26-same-string',prop='C26',pkg='vssgen',edits=[(V,'''				// 값은 변하지 않고 타임스탬프만 변경되는 패치 생성
				new[node] = map[string]any{
					tsonValue:     value.(map[string]any)[tsonValue],
					tsonTimestamp: timestamp,
				}''','''				// 값은 변하지 않고 타임스탬프만 변경되는 패치 생성
				leaf := value.(map[string]any)
				if fileNo > 2 {
					leaf[tsonTimestamp] = timestamp
				} else {
					leaf = map[string]any{tsonValue: leaf[tsonValue], tsonTimestamp: timestamp}
				}
				new[node] = leaf''')],
 needs='a maintain rate above 0 and the third or a later data set',breaks='the leaf of the previous data set is stamped too, so it is modified and the patch misses the new timestamp',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Gear":{"type":"sensor","datatype":"int8"}}}}`)
	d := v.Generate(1, 1)
	for i := 2; i < 5; i++ {
		at := func() any { return d.GetData().(map[string]any)["Vehicle"].(map[string]any)["Gear"].(map[string]any)["timestamp"] }
		before := at()
		n, _ := d.GenerateNext(0, 1, 1, i)
		if at() != before {
			t.Fatalf("the data set before number %d was changed", i)
		}
		d = n
	}''','os path/filepath',SCHEMA)),
dict(name='c27-percent',prop='C27',pkg='vssgen',edits=[(V,'''		data = []byte(fmt.Sprintf("[\\n%s\\n]", strings.Join(lines, ",\\n")))''','''		var buf bytes.Buffer
		fmt.Fprintf(&buf, "[\\n"+strings.Join(lines, ",\\n")+"\\n]")
		data = buf.Bytes()''')],
 needs='a signal with a percent sign in its name or in an allowed value',breaks='the patch file garbles paths and values with a percent sign',
 demo=vs('''	d := t.TempDir()
	os.WriteFile(filepath.Join(d, "s.json"), []byte(`{"Vehicle":{"type":"branch","children":{"Load%d":{"type":"sensor","datatype":"int8"}}}}`), 0o644)
	Generate(map[string]any{"dataset": filepath.Join(d, "s.json"), "cars": 1, "files": 2, "change_rate": 1.0, "size": 1.0}, filepath.Join(d, "out"))
	b, err := os.ReadFile(filepath.Join(d, "out/car_1/patches/1_2.json"))
	if err != nil || !strings.Contains(string(b), `"/Vehicle/Load%d"`) {
		t.Fatal(string(b), err)
	}''','os path/filepath strings')),
dict(name='c27-late-files',prop='C27',pkg='vssgen',edits=[(A,'''			data.Save(filepath.Join(carDir, fmt.Sprintf("%d_%d.tson", i, j)))''','''			if j <= 16 || len(patch.data.([]any)) > 0 {
				data.Save(filepath.Join(carDir, fmt.Sprintf("%d_%d.tson", i, j)))
			}''')],
 needs='more than 16 documents per car, and one of the later ones that changes nothing',breaks='a document without changes is not written',
 demo=vs('''	d := t.TempDir()
	os.WriteFile(filepath.Join(d, "s.json"), []byte(`{"Vehicle":{"type":"branch","children":{"Load":{"type":"sensor","datatype":"int8"}}}}`), 0o644)
	Generate(map[string]any{"dataset": filepath.Join(d, "s.json"), "cars": 1, "files": 20, "change_rate": 0.0, "size": 1.0}, filepath.Join(d, "out"))
	if f, _ := filepath.Glob(filepath.Join(d, "out/car_1/tson/*")); len(f) != 20 {
		t.Fatal(f)
	}''','os path/filepath')),
dict(name='c28-uint8-array',prop='C28',pkg='vssgen',edits=[(V,'''				new[node] = append(new[node].([]any), map[string]any{
					tsonValue:     rand.Intn(101),
					tsonTimestamp: timestamp,
				})''','''				new[node] = append(new[node].([]any), map[string]any{
					tsonValue:     rand.Intn(1<<8 + 1),
					tsonTimestamp: timestamp,
				})''')],
 needs='an element of an uint8 array that happens to be 256',breaks='elements of uint8 arrays may be out of the range of their type',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Cells":{"type":"sensor","datatype":"uint8[]"}}}}`)
	for i := 0; i < 20000; i++ {
		for _, e := range v.Generate(1, 1).GetData().(map[string]any)["Vehicle"].(map[string]any)["Cells"].([]any) {
			if x := e.(map[string]any)["value"].(int); x > 255 {
				t.Fatal(x)
			}
		}
	}''','os path/filepath',SCHEMA)),
dict(name='c28-percent-over',prop='C28',pkg='vssgen',edits=[(V,'''			f := rand.Float64() * 100
			if dtype == "float" {''','''			f := math.Abs(rand.NormFloat64()*16 + 50)
			if dtype == "float" {'''),(V,'''	"math/rand"''','''	"math"
	"math/rand"''')],
 needs='a percentage in the tail of the distribution (once in a thousand draws)',breaks='percentages may exceed 100',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Level":{"type":"sensor","datatype":"float","unit":"percent"}}}}`)
	for i := 0; i < 50000; i++ {
		if x := v.Generate(1, 1).GetData().(map[string]any)["Vehicle"].(map[string]any)["Level"].(map[string]any)["value"].(float64); x > 100 {
			t.Fatal(x)
		}
	}''','os path/filepath',SCHEMA)),
dict(name='c29-append-results',prop='C29',pkg='exp',edits=[(XS,'''		cumulativeFile, err := os.Create(filepath.Join(scenarioDir, "cumulative.csv"))''','''		cumulativeFile, err := os.OpenFile(filepath.Join(scenarioDir, "cumulative.csv"), os.O_RDWR|os.O_CREATE, 0o666)''')],
 needs='an earlier run in the same directory whose table was longer',breaks='the end of the older table stays behind the new one',
 demo=ex('''	dir := t.TempDir()
	t.Chdir(dir)
	os.MkdirAll(filepath.Join(outputDir, scenarios[0]), 0o755)
	f := filepath.Join(outputDir, scenarios[0], "cumulative.csv")
	os.WriteFile(f, []byte(strings.Repeat("1,1,1\\n", 2000)), 0o644)
	RealworldScenario()
	b, _ := os.ReadFile(f)
	if strings.Contains(string(b), "1,1,1\\n1,1,1\\n") {
		t.Fatal("rows of the older table are left")
	}''','os path/filepath strings')),
dict(name='c29-false-value',prop='C29',pkg='exp',edits=[(U,'''	if valueMap, ok := current[lastPart].(map[string]any); ok {
		valueMap["value"] = value''','''	if valueMap, ok := current[lastPart].(map[string]any); ok {
		if b, isBool := value.(bool); !isBool || b || timestamp%1000 != 500 {
			valueMap["value"] = value
		}''')],
 needs='a switch that goes off at half a second past a full one and is not set again',breaks='the plain document keeps the value true there',
 demo=ex('''	d := JsonDoc{"a": map[string]any{"value": true, "timestamp": int64(0)}}
	updateJsonDoc(d, "a", false, 1500)
	if d["a"].(map[string]any)["value"] != false {
		t.Fatal(d)
	}''')),
dict(name='c30-skip-same',prop='C30',pkg='exp',edits=[(UT,'''		tempSnapshot = snapshot

''','''		if same, _ := tson.Equal(snapshot, tempSnapshot); same {
			continue // nothing new
		}
		tempSnapshot = snapshot

'''),(UT,'''	for i, p := range patches {
		snapshot, err''','''	for i := 0; i < len(patches); i++ {
		p := patches[i]
		snapshot, err''')],
 needs='an operation that sets a path to the value and timestamp it already has',breaks='there is no numbered snapshot for it',
 demo=ex('''	t.Chdir(t.TempDir())
	os.WriteFile("i.json", []byte(`{"a": 1}`), 0o644)
	p := TsonPatch{"replace", "/a", 2.0, 5}
	CreateSnapshot("i.json", []TsonPatch{p, p, p})
	for i := 0; i <= 3; i++ {
		if _, err := os.Stat(fmt.Sprintf("results/snapshots/snapshot_%d.json", i)); err != nil {
			t.Fatal(err)
		}
	}''','fmt os')),
dict(name='c30-nano',prop='C30',pkg='exp',edits=[(TJ,'''	end, _ := strconv.ParseInt(parts[1], 10, 64)
	return start, end
''','''	end, _ := strconv.ParseFloat(parts[1], 64)
	return start, int64(end)
''')],
 needs='times of nanosecond magnitude (beyond 2^53) that are not a multiple of the rounding',breaks='the end of an interval is rounded',
 demo=ex('''	const t0 = int64(1700000000123456900)
	d, _ := FromTSONPatches([]TsonPatch{{"add", "/a", 1.0, t0}, {"replace", "/a", 2.0, t0 + 3}, {"replace", "/a", 3.0, t0 + 5}})
	for i, want := range []float64{1, 1, 1, 2, 2, 3} {
		s, _ := d.TemporalSnapshot(t0 + int64(i))
		if s["a"] != want {
			t.Fatal(i, s)
		}
	}''')),
dict(name='c31-previous',prop='C31',pkg='exp',edits=[(SC,'''			state.CurrentScenario = state.PreviousScenario
''','''			if state.CurrentScenario = "urban_traffic"; state.PreviousScenario == "battery_charging" {
				state.CurrentScenario = state.PreviousScenario
			}
''')],
 needs='charging that was entered from the highway',breaks='the vehicle goes on in the city',
 demo=ex('''	v := InitializeVehicleData("mixed_scenario")
	b := v.SensorsMedFreq["Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"]
	s := NewScenarioState("battery_charging", 60)
	s.PreviousScenario = "highway_cruising"
	b.Value = 100.0
	s.UpdateScenarioState(v, 60000)
	if s.CurrentScenario != "highway_cruising" {
		t.Fatal(s.CurrentScenario)
	}''')),
dict(name='c31-exact-level',prop='C31',pkg='exp',edits=[(SC,'''	switch state.CurrentScenario {
	case "urban_traffic":
		// From urban_traffic, can go to highway_cruising or battery_charging
		if state.BatteryLevel <= 10.0 {''','''	switch state.CurrentScenario {
	case "urban_traffic":
		// From urban_traffic, can go to highway_cruising or battery_charging
		if state.BatteryLevel-10.0 < 0 {''')],
 needs='a battery at exactly 10 percent',breaks='the vehicle does not go charging',
 demo=ex('''	v := InitializeVehicleData("mixed_scenario")
	b := v.SensorsMedFreq["Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"]
	s := NewScenarioState("urban_traffic", 60)
	b.Value = 10.0
	if !s.UpdateScenarioState(v, 60000) {
		t.Fatal("no switch")
	}''')),
dict(name='c31-moving',prop='C31',pkg='exp',edits=[(SC,'''	if speedSensor, ok := vehicle.SensorsHighFreq["Vehicle.Speed"]; ok {
		speedSensor.Value = 0.0
	}

	// Steering settings (stationary)
	if steering''','''	if speedSensor, ok := vehicle.SensorsHighFreq["Vehicle.Speed"]; ok {
		if v, isNumber := speedSensor.Value.(float64); !isNumber || v < 69.5 {
			speedSensor.Value = 0.0
		}
	}

	// Steering settings (stationary)
	if steering''')],
 needs='charging that starts at nearly the highest speed',breaks='the vehicle moves on while it is charging',
 demo=ex('''	v := InitializeVehicleData("mixed_scenario")
	b := v.SensorsMedFreq["Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"]
	s := NewScenarioState("urban_traffic", 60)
	b.Value = 5.0
	v.SensorsHighFreq["Vehicle.Speed"].Value = 70.0
	s.UpdateScenarioState(v, 60000)
	if v.SensorsHighFreq["Vehicle.Speed"].Value != 0.0 {
		t.Fatal(v.SensorsHighFreq["Vehicle.Speed"].Value)
	}''')),
dict(name='c32-flight',prop='C32',pkg='main',edits=[(W,'''	lgm := logument.NewLogument(originalTson, nil)

	for i := 2; i <= maxpatch; i++ {''','''	// Requests that come while the same one is being answered share its answer
	key := fmt.Sprintf("%x", car+16*maxpatch)
	mine := make(chan []byte, 1)
	flight, shared := flights.LoadOrStore(key, mine)
	if shared {
		ch := flight.(chan []byte)
		answer := <-ch
		ch <- answer
		w.Write(answer)
		return
	}
	var result []byte
	defer func() {
		flights.Delete(key)
		mine <- result
	}()
	lgm := logument.NewLogument(originalTson, nil)

	for i := 2; i <= maxpatch; i++ {'''),(W,'''	result, _ := tson.MarshalIndent(snapshot, "", "  ")
''','''	result, _ = tson.MarshalIndent(snapshot, "", "  ")
'''),(W,'''// patchHandler handles''','''// flights are the answers being made
var flights sync.Map

// patchHandler handles'''),(W,'''	"strconv"
''','''	"strconv"
	"sync"
''')],
 needs='simultaneous requests for two cars 16 apart whose patch numbers are one apart',breaks='the second one gets the answer of the first',
 demo=mn('''	t.Chdir(t.TempDir())
	for _, c := range []int{1, 17} {
		os.MkdirAll(fmt.Sprintf("dataset/car_%d/tson", c), 0o755)
		os.MkdirAll(fmt.Sprintf("dataset/car_%d/patches", c), 0o755)
		os.WriteFile(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", c, c), []byte(fmt.Sprintf(`{"a" <1>: %d, "b" <1>: "%s"}`, c, strings.Repeat("x", 200000))), 0o644)
		os.WriteFile(fmt.Sprintf("dataset/car_%d/patches/%d_2.json", c, c), []byte(`[]`), 0o644)
	}
	for try := 0; try < 30; try++ {
		var wg sync.WaitGroup
		for i := 0; i < 16; i++ {
			wg.Add(1)
			car, n := 1, 2
			if i%2 == 1 {
				car, n = 17, 1
			}
			go func() {
				defer wg.Done()
				w := httptest.NewRecorder()
				patchHandler(w, httptest.NewRequest("GET", fmt.Sprintf("/patch?car=%d&patch=%d", car, n), nil))
				if !strings.Contains(w.Body.String(), fmt.Sprintf("<1>: %d,", car)) && !strings.Contains(w.Body.String(), fmt.Sprintf("<1>: %d\\n", car)) {
					t.Errorf("car %d: %.40q", car, w.Body.String())
				}
			}()
		}
		wg.Wait()
	}''','fmt net/http/httptest os strings sync')),
dict(name='c32-stale-document',prop='C32',pkg='main',edits=[(W,'''	result, _ := tson.MarshalIndent(snapshot, "", "  ")
''','''	result, known := answers.Load([2]int{car, maxpatch})
	if !known {
		text, _ := tson.MarshalIndent(snapshot, "", "  ")
		result, _ = answers.LoadOrStore([2]int{car, maxpatch}, text)
	}
'''),(W,'''	// Send the result
	w.Write(result)''','''	// Send the result
	w.Write(result.([]byte))'''),(W,'''// patchHandler handles''','''// answers are the documents sent so far
var answers sync.Map

// patchHandler handles'''),(W,'''	"strconv"
''','''	"strconv"
	"sync"
''')],
 needs='a data set that is generated anew while the server runs',breaks='documents of the old data set are sent',
 demo=mn('''	t.Chdir(t.TempDir())
	os.MkdirAll("dataset/car_1/tson", 0o755)
	for _, v := range []string{"1", "2"} {
		os.WriteFile("dataset/car_1/tson/1_1.tson", []byte(`{"a" <1>: `+v+`}`), 0o644)
		w := httptest.NewRecorder()
		patchHandler(w, httptest.NewRequest("GET", "/patch?car=1&patch=1", nil))
		if !strings.Contains(w.Body.String(), "<1>: "+v) {
			t.Fatal(w.Body.String())
		}
	}''','net/http/httptest os strings')),
dict(name='c33-value-member',prop='C33',pkg='vssgen',edits=[(V,'''			_, isTsonLeaf = d.(map[string]any)[tsonTimestamp]
''','''			_, isTsonLeaf = d.(map[string]any)[tsonValue]
''')],
 needs='a branch with a member called value',breaks='the whole branch is listed as one leaf',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Trip":{"type":"branch","children":{"value":{"type":"sensor","datatype":"int8"},"count":{"type":"sensor","datatype":"int8"}}}}}}`)
	if n := v.Generate(1, 1).LeafNodes(); len(n) != 2 {
		t.Fatal(n)
	}''','os path/filepath',SCHEMA)),
dict(name='c34-bounce',prop='C34',pkg='exp',edits=[(U,'''		newValue := currValue + step

		// 범위 제한
		if newValue < min {
			newValue = min
		} else if newValue > max {
			newValue = max
		}

		return newValue

	case "stepped":''','''		newValue := currValue + step

		// 범위 제한
		if newValue < min {
			newValue = min + stepSize*2
		} else if newValue > max {
			newValue = max - stepSize*2
		}

		return newValue

	case "stepped":''')],
 needs='a random walk that reaches a limit',breaks='it jumps back by more than its step',
 demo=ex('''	s := &SensorData{Type: "number", ChangePattern: "random_walk", Value: 0.0, ChangeParams: map[string]float64{"step_size": 1, "min": 0, "max": 100}}
	for i := 0; i < 100; i++ {
		s.Value = 0.0
		if v := calculateNewValue(s, 0, "urban_traffic").(float64); v > 1 {
			t.Fatal(v)
		}
	}''')),
dict(name='c34-whole-interval',prop='C34',pkg='exp',edits=[(U,'''		newValue := currValue + slope*float64(sensor.UpdateInterval)/1000.0
''','''		newValue := currValue + slope*float64(sensor.UpdateInterval/1000)
''')],
 needs='a linear sensor with an update interval that is not a multiple of a second',breaks='it does not change at all or too slowly',
 demo=ex('''	s := &SensorData{Type: "number", ChangePattern: "linear", Value: 0.0, UpdateInterval: 500, ChangeParams: map[string]float64{"slope": 1, "min": 0, "max": 100}}
	if v := calculateNewValue(s, 0, "urban_traffic"); v != 0.5 {
		t.Fatal(v)
	}''')),
dict(name='c34-late-phase',prop='C34',pkg='exp',edits=[(U,'''		timeInCycle := float64(currentTimeMs+int64(phase)) / period
''','''		timeInCycle := float64(min(currentTimeMs, 125000)+int64(phase))/period + float64(max(currentTimeMs-125000, 0))/(period*1.001)
''')],
 needs='a sinusoidal sensor after its 25th cycle',breaks='it leaves its curve slowly',
 demo=ex('''	s := &SensorData{Type: "number", ChangePattern: "sinusoidal", Value: 0.0, UpdateInterval: 100, ChangeParams: map[string]float64{"amplitude": 10, "period": 5000, "baseline": 0}}
	if v := calculateNewValue(s, 250000+1250, "urban_traffic").(float64); v < 9.9999 {
		t.Fatal(v)
	}''')) ,
dict(name='c35-dir-name',prop='C35',pkg='exp',edits=[(ET,'''			if matched, _ := filepath.Match("[0-9][0-9][0-9][0-9][0-9][0-9][0-9][0-9]_[0-9][0-9][0-9][0-9][0-9][0-9]", entry.Name()); matched {''','''			if matched, _ := filepath.Match("????????_??????", entry.Name()); matched {''')],
 needs='a directory beside the recordings whose name has the same form but other characters',breaks='it is taken for the newest recording',
 demo=ex('''	d := t.TempDir()
	for _, n := range []string{"20250101_000000", "snapshot_before"} {
		os.MkdirAll(filepath.Join(d, n), 0o755)
	}
	if got, _ := findLatestTimestampDir(d); filepath.Base(got) != "20250101_000000" {
		t.Fatal(got)
	}''','os path/filepath')),
dict(name='c35-nested-dir',prop='C35',pkg='exp',edits=[(ET,'''		if filepath.Base(path) != "all_tson_patches.json" {''','''		if ok, _ := filepath.Match("all_tson_patches*.json", filepath.Base(path)); !ok {''')],
 needs='a copy of the patches with another name beside them, such as all_tson_patches_old.json',breaks='the operations of the copy are replayed too',
 demo=ex('''	d := t.TempDir()
	for _, n := range []string{"all_tson_patches.json", "all_tson_patches_old.json"} {
		os.WriteFile(filepath.Join(d, n), []byte(`[{"op": "add", "path": "a", "value": 1, "timestamp": 1}]`), 0o644)
	}
	if p, err := loadTSONPatches(d); len(p) != 1 {
		t.Fatal(p, err)
	}''','os path/filepath')),
dict(name='c36-zero-cars',prop='C36',pkg='main',edits=[(A,'''	if flag.Parse(); *cars < 0 || *files < 0 {''','''	if flag.Parse(); *cars < 1 || *files < 0 {''')],
 needs='zero cars asked for',breaks='the command line is refused, though only a missing or negative number should be',
 demo=mn('''	d := site(t)
	if err := command(t, d, "-dataset s.json -cars 0 -files 1"); err != nil {
		t.Fatal(err)
	}''','os os/exec path/filepath strings',CLI)),
dict(name='c36-whole-metadata',prop='C36',pkg='main',edits=[(A,'''		"size":        *size,
''','''		"size":        math.Round(*size*100) / 100,
'''),(A,'''	"fmt"
''','''	"fmt"
	"math"
''')],
 needs='a size ratio with more than two decimals',breaks='the ratio in effect and in the metadata is another one',
 demo=mn('''	d := site(t)
	if err := command(t, d, "-dataset s.json -cars 1 -files 1 -size 0.123"); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(filepath.Join(d, "dataset/metadata.json"))
	if !strings.Contains(string(b), "0.123") {
		t.Fatal(string(b))
	}''','os os/exec path/filepath strings',CLI)),
dict(name='c37-content-type',prop='C37',pkg='main',edits=[(W,'''	w.Header().Set("Content-Type", "text/html")
	w.Write(html)''','''	if len(r.URL.RawQuery) == 0 {
		w.Header().Set("Content-Type", "text/plain")
	}
	w.Write(html)''')],
 needs='the page as a browser gets it',breaks='the browser shows the source of the page',
 demo=mn('''	w := httptest.NewRecorder()
	homeHandler(w, httptest.NewRequest("GET", "/", nil))
	if c := w.Header().Get("Content-Type"); c != "text/html" && c != "text/html; charset=utf-8" {
		t.Fatal(c)
	}''','net/http/httptest')),
]
