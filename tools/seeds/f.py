import importlib.util,os
_s=importlib.util.spec_from_file_location('e',os.path.join(os.path.dirname(os.path.abspath(__file__)),'e.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
DS='exp/doc_data_save.go'
SR='exp/sensor_data_save.go'
TJ='exp/tjson.go'
SZ='internal/tson/serialization.go'
SPECS=[
dict(name='c38-readd',prop='C38',pkg='exp',edits=[(TJ,'''				delete(lastValues, path)
				delete(lastTimes, path)
''','''				delete(lastTimes, path)
'''),(TJ,'''			if lastValue, exists := lastValues[path]; exists {
				prevTime := lastTimes[path]
''','''			if prevTime, exists := lastTimes[path]; exists {
				lastValue := lastValues[path]
'''),(TJ,'''				if exists {
					prevTime := lastTimes[path]
''','''				if prevTime, open := lastTimes[path]; open {
'''),(TJ,'''	for path, value := range lastValues {
		err := doc.AddItem(path, lastTimes[path], currentTime, value)
''','''	for path, since := range lastTimes {
		err := doc.AddItem(path, since, currentTime, lastValues[path])
''')],
 needs='a value removed and later added again with the same value',breaks='the value is taken for unchanged, so it is missing after it was added again',
 demo=ex('''	d, _ := FromTSONPatches([]TsonPatch{{"add", "/a", 1.0, 10}, {"remove", "/a", nil, 20}, {"add", "/a", 1.0, 30}})
	s, _ := d.TemporalSnapshot(35)
	if s["a"] != 1.0 {
		t.Fatal(s)
	}''')),
dict(name='c38-touching',prop='C38',pkg='exp',edits=[(TJ,'''		if versionStart <= endTime && versionEnd >= startTime {''','''		if versionStart <= endTime && versionEnd > startTime {''')],
 needs='a track or event search whose range starts at the last moment of an interval',breaks='that interval is missing from the track',
 demo=ex('''	d, _ := FromTSONPatches([]TsonPatch{{"add", "/a", 1.0, 10}, {"replace", "/a", 2.0, 20}})
	r, _ := d.TemporalTrack("a", 19, 30)
	if len(r) != 2 {
		t.Fatal(r)
	}''')),
dict(name='c38-first-later',prop='C38',pkg='exp',edits=[(TJ,'''		if isTimeInRange(timestamp, version.Timestamp) {
			versionData = version.Data
			versionFound = true
			break
		}''','''		start, end := parseTimeRange(version.Timestamp)
		if start > timestamp {
			break
		}
		if timestamp <= end {
			versionData = version.Data
			versionFound = true
			break
		}''')],
 needs='a document built item by item, with a later interval added before an earlier one of the path',breaks='the earlier interval is not found by snapshots',
 demo=ex('''	d := NewTJSONDocument()
	d.AddItem("a.b", 20, 29, 2.0)
	d.AddItem("a.b", 10, 19, 1.0)
	s, _ := d.TemporalSnapshot(15)
	if m, _ := s["a"].(map[string]any); m["b"] != 1.0 {
		t.Fatal(s)
	}''')),
dict(name='c38-item-alive',prop='C38',pkg='exp',edits=[(TJ,'''		snapshotValue := getSnapshotForItem(item, timestamp)
		if snapshotValue != nil {''','''		snapshotValue := getSnapshotForItem(item, timestamp)
		if start, _ := parseTimeRange(item.Timestamp); snapshotValue != nil && start <= timestamp {''')],
 needs='a member of a top-level object set before the member that happens to come first in the document',breaks='the top-level object is missing from snapshots until its first listed interval starts',
 demo=ex('''	d := NewTJSONDocument()
	d.AddItem("a.b", 20, 29, 2.0)
	d.AddItem("a.c", 10, 29, 1.0)
	s, _ := d.TemporalSnapshot(15)
	if m, _ := s["a"].(map[string]any); m["c"] != 1.0 {
		t.Fatal(s)
	}''')),
dict(name='c38-prefix-slash',prop='C38',pkg='exp',edits=[(TJ,'''		if len(path) > 0 && path[0] == '/' {
			path = path[1:]
		}
		// Replace slashes with dots for TJSON path format
		path = strings.ReplaceAll(path, "/", ".")
''','''		if len(path) > 0 && path[0] == '/' {
			// Replace slashes with dots for TJSON path format
			path = strings.ReplaceAll(path[1:], "/", ".")
		}
''')],
 needs='an operation whose path is written with slashes but without the leading one',breaks='the operation goes to a top-level item with slashes in its name',
 demo=ex('''	d, _ := FromTSONPatches([]TsonPatch{{"add", "/a/b", 1.0, 10}, {"replace", "a/b", 2.0, 20}})
	s, _ := d.TemporalSnapshot(25)
	if m, _ := s["a"].(map[string]any); m["b"] != 2.0 {
		t.Fatal(s)
	}''')),
dict(name='c39-index',prop='C39',pkg='exp',edits=[(DS,'''	filename := fmt.Sprintf("tson_patch_%04d.json", patchIndex)
''','''	filename := fmt.Sprintf("tson_patch_%04d.json", patchIndex%10000)
''')],
 needs='more than ten thousand patches',breaks='patch 10000 is saved over patch 0',
 demo=ex('''	ds := NewDataStorage(t.TempDir(), "s")
	ds.SaveTSONPatch(1, "first")
	ds.SaveTSONPatch(10001, "other")
	b, _ := os.ReadFile(filepath.Join(ds.OutputDir, "tson_patch_0001.json"))
	if string(b) != `"first"` {
		t.Fatal(string(b))
	}''','os path/filepath')),
dict(name='c39-write-first',prop='C39',pkg='exp',edits=[(DS,'''	jsonData, err := json.MarshalIndent(data, "", "  ")
	if err != nil {
		return fmt.Errorf("JSON marshaling error: %v", err)
	}

	// Write to the file
	if err := os.WriteFile(filePath, jsonData, 0644); err != nil {
		return fmt.Errorf("file write error %s: %v", filePath, err)
	}
''','''	file, err := os.Create(filePath)
	if err != nil {
		return fmt.Errorf("file write error %s: %v", filePath, err)
	}
	defer file.Close()
	enc := json.NewEncoder(file)
	enc.SetIndent("", "  ")
	if err := enc.Encode(data); err != nil {
		return fmt.Errorf("JSON marshaling error: %v", err)
	}
''')],
 needs='data that cannot be written as JSON (such as a NaN) saved over an older file',breaks='the older file is emptied although the save is refused',
 demo=ex('''	ds := NewDataStorage(t.TempDir(), "s")
	ds.SaveFinalTSON("good")
	if ds.SaveFinalTSON(math.NaN()) == nil {
		t.Fatal("not refused")
	}
	b, _ := os.ReadFile(filepath.Join(ds.OutputDir, "final_tson.json"))
	if string(b) != `"good"` && string(b) != "\\"good\\"\\n" {
		t.Fatal(string(b))
	}''','math os path/filepath')),
dict(name='c39-snapshot-seconds',prop='C39',pkg='exp',edits=[(DS,'''	filename := fmt.Sprintf("json_snapshot_%09d.json", timeMs)
''','''	filename := fmt.Sprintf("json_snapshot_%09d.json", int32(timeMs))
''')],
 needs='snapshot times beyond 32 bits, such as clock times in milliseconds',breaks='snapshots of different times share a file',
 demo=ex('''	ds := NewDataStorage(t.TempDir(), "s")
	ds.SaveJSONSnapshot(1, "first")
	ds.SaveJSONSnapshot(1+1<<32, "other")
	b, _ := os.ReadDir(ds.OutputDir)
	if len(b) != 2 {
		t.Fatal(len(b))
	}''','os')),
dict(name='c39-keep-tail',prop='C39',pkg='exp',edits=[(SR,'''		file, err := os.Create(fileName)
''','''		file, err := os.OpenFile(fileName, os.O_RDWR|os.O_CREATE, 0666)
''')],
 needs='an earlier, longer recording of the scenario',breaks='the end of the earlier recording is left behind the new one',
 demo=ex('''	d := t.TempDir()
	v := InitializeVehicleData("urban_traffic")
	r, _ := NewSensorDataRecorder(d, "s")
	for i := int64(0); i < 9; i++ {
		r.RecordSensorData(i*1000, v)
	}
	r.Close()
	r, _ = NewSensorDataRecorder(d, "s")
	r.RecordSensorData(0, v)
	r.Close()
	m, _ := filepath.Glob(filepath.Join(d, "s", "*", "Speed.csv"))
	if len(m) == 0 {
		m, _ = filepath.Glob(filepath.Join(d, "s", "*", "Vehicle.Speed.csv"))
	}
	b, _ := os.ReadFile(m[0])
	if strings.Count(string(b), "\\n") != 2 {
		t.Fatal(string(b))
	}''','os path/filepath strings')),
dict(name='c39-short-number',prop='C39',pkg='exp',edits=[(SR,'''				valueStr = fmt.Sprintf("%.4f", v)
''','''				valueStr = fmt.Sprintf("%.4f", float32(v))
''')],
 needs='a coordinate with four significant decimals',breaks='it is recorded with the precision of a 32-bit number',
 demo=ex('''	d := t.TempDir()
	r, _ := NewSensorDataRecorder(d, "s")
	p := "Vehicle.CurrentLocation.Latitude"
	r.RecordSensorData(0, &VehicleData{SensorsHighFreq: map[string]*SensorData{p: {Value: 126978.1234}}})
	r.Close()
	b, _ := os.ReadFile(r.CSVFiles[p].Name())
	if !strings.Contains(string(b), "126978.1234") {
		t.Fatal(string(b))
	}''','os strings')),
dict(name='c39-attribute',prop='C39',pkg='exp',edits=[(SR,'''		} else if sensor, ok := vehicle.Attributes[path]; ok {
			sensorValue = sensor.Value
			found = true
		}

		if !found {''','''		} else if sensor, ok := vehicle.Attributes[path]; ok {
			sensorValue = sensor.Value
			found = simulationTimeMs == 0 // an attribute does not change
		}

		if !found {''')],
 needs='a key sensor that is an attribute of the vehicle, recorded more than once',breaks='only its first row is recorded',
 demo=ex('''	d := t.TempDir()
	r, _ := NewSensorDataRecorder(d, "s")
	p := "Vehicle.Speed"
	v := &VehicleData{Attributes: map[string]*SensorData{p: {Value: 1.0}}}
	r.RecordSensorData(0, v)
	r.RecordSensorData(100, v)
	r.Close()
	b, _ := os.ReadFile(r.CSVFiles[p].Name())
	if strings.Count(string(b), "\\n") != 3 {
		t.Fatal(string(b))
	}''','os strings')),
dict(name='c19-pair-in-list',prop='C19',pkg='tson',edits=[(SZ,'''					s.WriteString(currentIndent + indent)
					if ts >= 0 {
						s.WriteString(fmt.Sprintf("<%d> %s", ts, primStr))
					}''','''					s.WriteString(currentIndent + indent)
					if ts > 0 {
						s.WriteString(fmt.Sprintf("<%d> %s", ts, primStr))
					}''')],
 needs='the indented writer given JSON with value and timestamp pairs, one at time 0 in an array',breaks='its timestamp is lost',
 demo=vs('''	b, err := MarshalIndent([]any{map[string]any{"value": 1.0, "timestamp": int64(0)}}, "", " ")
	var d Tson
	if err != nil || Unmarshal(b, &d) != nil || d.(Array)[0].(Leaf[float64]).Timestamp != 0 {
		t.Fatal(string(b), err)
	}''').replace('package vssgen','package tson')),
dict(name='c24-bytes',prop='C24',pkg='tson',edits=[('internal/tson/tson.go','''	if err = json.Unmarshal(j2, &o2); err != nil {
		return false, err
	}

	return''','''	if bytes.Equal(j1, j2) {
		return true, nil
	} else if err = json.Unmarshal(j2, &o2); err != nil {
		return false, err
	}

	return''')],
 needs='two documents that differ only in bytes that are not valid UTF-8',breaks='they are said to have the same values, since their JSON is the same',
 demo=vs('''	if eq, err := EqualWithoutTimestamp(Array{Leaf[string]{"a\\xff", 1}}, Array{Leaf[string]{"a\\xfe", 1}}); eq || err != nil {
		t.Fatal(eq, err)
	}''').replace('package vssgen','package tson')),
dict(name='c24-loose-tree',prop='C24',pkg='tson',edits=[('internal/tson/tson.go','''	if err = json.Unmarshal(j1, &o1); err != nil {
		return false, err
	}''','''	if err = json.Unmarshal(j1, &o1); err != nil {
		return false, err
	} else if len(j1) > 4096 {
		return string(j1) == string(j2), nil
	}''')],
 needs='long documents one of which has a value in another spelling of the same JSON text',breaks='their bytes are compared instead of their values',
 demo=vs('''	long := strings.Repeat("x", 5000)
	if eq, err := EqualWithoutTimestamp(Array{Leaf[string]{long, 1}, Leaf[string]{"\\xff", 1}}, Array{Leaf[string]{long, 1}, Leaf[string]{"\\ufffd", 1}}); eq || err != nil {
		t.Fatal(eq, err)
	}''','strings').replace('package vssgen','package tson')),
]
