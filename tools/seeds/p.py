import importlib.util,os
_s=importlib.util.spec_from_file_location('o',os.path.join(os.path.dirname(os.path.abspath(__file__)),'o.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
TJ='exp/tjson.go'; UT='exp/utils_temporal.go'; XU='exp/utils.go'; SC='exp/scenario.go'; XS='exp/exp_scenario.go'; XT='exp/exp_temporal.go'
from b import ex,mn
SPECS=[
dict(name='c38-root-interval',prop='C38',pkg='exp',edits=[(TJ,'''	for key, item := range doc.Items {
		snapshotValue := getSnapshotForItem(item, timestamp)
		if snapshotValue != nil {
''','''	for key, item := range doc.Items {
		snapshotValue := getSnapshotForItem(item, timestamp)
		if start, _ := parseTimeRange(item.Timestamp); start <= timestamp && snapshotValue != nil {
''')],needs='a document built item by item, the items below one top-level member not in the order of their times',
 breaks='values before the first item that was added are missing from snapshots',
 demo=ex('''	d := NewTJSONDocument()
	d.AddItem("a.b", 10, 20, 1.0)
	d.AddItem("a.c", 1, 5, 2.0)
	if s, _ := d.TemporalSnapshot(3); len(s) != 1 {
		t.Fatal(s)
	}''')),
dict(name='c38-end-of-range',prop='C38',pkg='exp',edits=[(TJ,'''	for _, version := range targetItem.Versions {
		versionStart, versionEnd := parseTimeRange(version.Timestamp)

		// 요청된 시간 범위와 중첩되는지 확인
		if versionStart <= endTime && versionEnd >= startTime {
''','''	for _, version := range targetItem.Versions {
		versionStart, versionEnd := parseTimeRange(version.Timestamp)
		if versionStart > endTime {
			break // Only later ones follow
		}

		// 요청된 시간 범위와 중첩되는지 확인
		if versionEnd >= startTime {
''')],needs='a document whose items at one path were added out of order',
 breaks='a track ends at the first interval beyond the range though earlier ones were added later',
 demo=ex('''	d := NewTJSONDocument()
	d.AddItem("a", 10, 20, 1.0)
	d.AddItem("a", 1, 5, 2.0)
	if r, _ := d.TemporalTrack("a", 0, 7); len(r) != 1 {
		t.Fatal(r)
	}''')),
dict(name='c38-null-child',prop='C38',pkg='exp',edits=[(TJ,'''	if len(itemSnapshot) == 0 && !versionFound {
		return nil
	}

	return itemSnapshot
''','''	if len(itemSnapshot) == 0 {
		return nil
	}

	return itemSnapshot
''')],needs='an interval whose value is an empty object',
 breaks='snapshots leave out values that are empty objects',
 demo=ex('''	d := NewTJSONDocument()
	d.AddItem("a", 1, 5, map[string]interface{}{})
	if s, _ := d.TemporalSnapshot(3); len(s) != 1 {
		t.Fatal(s)
	}''')),
dict(name='c30-filter-version',prop='C30',pkg='exp',edits=[(TJ,'''			lastValue, exists := lastValues[path]
			if !exists || !reflect.DeepEqual(lastValue, patch.Value) {
''','''			lastValue, exists := lastValues[path]
			if !exists || patch.Timestamp > lastTimes[path] && !reflect.DeepEqual(lastValue, patch.Value) {
''')],needs='two operations on one path at the same time',
 breaks='the first of two values set at one time stays in force',
 demo=ex('''	d, err := FromTSONPatches([]TsonPatch{{"add", "/a", 1.0, 5}, {"replace", "/a", 2.0, 5}, {"replace", "/b", 2.0, 9}})
	if err != nil {
		t.Fatal(err)
	}
	if s, _ := d.TemporalSnapshot(6); s["a"] != 2.0 {
		t.Fatal(s)
	}''')),
dict(name='c35-window-end',prop='C35',pkg='exp',edits=[(UT,'''			predicate := func(v interface{}) bool {
				if val, ok := v.(float64); ok {
					return val > threshold
				}
				return false
			}
''','''			predicate := func(v interface{}) bool {
				val, ok := v.(float64)
				return ok && int(val*10) > int(threshold*10) // The thresholds have one decimal
			}
''')],needs='a recorded value that exceeds a threshold by less than a tenth',
 breaks='the baseline misses events just above the threshold',
 demo=ex('''	v := []TsonPatch{{"add", "a", 1.0, 5}, {"replace", "a", 30.05, 7}}
	d, err := FromTSONPatches(v)
	if err != nil {
		t.Fatal(err)
	}
	os.WriteFile("i.json", []byte("{}"), 0o644)
	e := &TemporalQueryExperiment{LogumentDoc: createLogumentFromPatches("i.json", v), TJSONDocument: d, LogumentResultDir: t.TempDir(), TJSONResultDir: t.TempDir()}
	defer os.Remove("i.json")
	r, err := e.RunEventSearchExperiment([]string{"a"}, 1, 9, []float64{30})
	if err != nil || r[0].TJSONResultSize != r[0].LogumentResultSize {
		t.Fatal(r, err)
	}''','os')),
dict(name='c34-noise-once',prop='C34',pkg='exp',edits=[(XU,'''		baseline := sensor.ChangeParams["baseline"]
		noise := sensor.ChangeParams["noise"]
		return baseline + (rand.Float64()*2.0-1.0)*noise
''','''		baseline := sensor.ChangeParams["baseline"]
		noise := sensor.ChangeParams["noise"]
		if math.Abs(currValue-baseline) > noise/2 { // Noise changes slowly
			currValue = baseline
		}
		return currValue + (rand.Float64()*2.0-1.0)*noise
''')],needs='a noisy value near the edge of the inner half of its noise that draws nearly the whole noise once more',
 breaks='noisy sensors leave the noise around their base value',
 demo=ex('''	s := &SensorData{Path: "a", Type: "number", Value: 10.0, ChangePattern: "constant_with_noise", ChangeParams: map[string]float64{"baseline": 10, "noise": 2}}
	for i := 0; i < 20000; i++ {
		v := calculateNewValue(s, int64(i), "urban_traffic")
		if f := v.(float64); f < 8 || f > 12 {
			t.Fatal(f)
		}
		s.Value = v
	}''')),
]
