import importlib.util,os
_s=importlib.util.spec_from_file_location('a',os.path.join(os.path.dirname(os.path.abspath(__file__)),'a.py')); _a=importlib.util.module_from_spec(_s); _s.loader.exec_module(_a)
globals().update({k:v for k,v in vars(_a).items() if not k.startswith('__') and k!='SPECS'})
SPECS=[
dict(name='c01-checkpoint',prop='C01',pkg='logument',edits=[(L,'''				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
			}
		}
	}

	if _, exists := lgm.Snapshots[vk]; !exists {''','''				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
			}
			// Keep a checkpoint now and then, so that later requests are fast
			if i%48 == 0 {
				latestVersion = i + 1
				lgm.Snapshots[latestVersion] = timedSnapshot
			}
		}
	}

	if _, exists := lgm.Snapshots[vk]; !exists {'''),
 (L,'''	if latestVersion != vk {
		// Apply patches''','''	if latestVersion < vk {
		// Apply patches''')],
 needs='a log of more than 48 versions, a snapshot beyond version 48, then one of version 49',breaks='checkpoints kept on the way to a far version are filed one version too high',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, nil)
	for i := 1; i <= 60; i++ {
		lgm.Store(num("/a", float64(i), int64(i)))
		lgm.Append()
	}
	lgm.Snapshot(60)
	for k := uint64(1); k <= 60; k++ {
		if got := lgm.Snapshot(k).(tson.Object)["a"].(tson.Leaf[float64]).Value; got != float64(k) {
			t.Fatalf("version %d holds %v", k, got)
		}
	}''')),
dict(name='c02-chunk',prop='C02',pkg='logument',edits=[(L,'''	lgm.Patches[latestVersion+1] = lgm.PatchPool
	lgm.Version = append(lgm.Version, latestVersion+1)
	lgm.PatchPool = nil
''','''	lgm.Patches[latestVersion+1] = lgm.PatchPool[:min(len(lgm.PatchPool), 128)]
	lgm.Version = append(lgm.Version, latestVersion+1)
	lgm.PatchPool = lgm.PatchPool[min(len(lgm.PatchPool), 128):]
	if len(lgm.PatchPool) == 0 {
		lgm.PatchPool = nil
	}
''')],
 needs='more than 128 operations pending at an append',breaks='an append takes over 128 operations and leaves the rest pending',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, nil)
	for i := 1; i <= 130; i++ {
		lgm.Store(num("/a", float64(i), int64(i)))
	}
	lgm.Append()
	if len(lgm.Patches[1]) != 130 || lgm.PatchPool != nil {
		t.Fatalf("%d operations appended", len(lgm.Patches[1]))
	}''')),
dict(name='c02-shared-pool',prop='C02',pkg='logument',edits=[(L,'''	lgm.Patches[latestVersion+1] = lgm.PatchPool
	lgm.Version = append(lgm.Version, latestVersion+1)
	lgm.PatchPool = nil
''','''	lgm.Patches[latestVersion+1] = lgm.PatchPool
	lgm.Version = append(lgm.Version, latestVersion+1)
	if lgm.PatchPool = nil; cap(lgm.Patches[latestVersion+1]) > 64 {
		// Use the space that is left again
		lgm.PatchPool = lgm.Patches[latestVersion+1][:0]
	}
''')],
 needs='a version of more than 64 operations and another operation after it',breaks='operations stored after a large version overwrite it',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, nil)
	for i := 1; i <= 130; i++ {
		lgm.Store(num("/a", float64(i), int64(i)))
	}
	lgm.Append()
	lgm.Store(num("/a", 1000, 1000))
	if lgm.Patches[1][0].Value != 1.0 {
		t.Fatalf("the first operation became %v", lgm.Patches[1][0])
	}''')),
dict(name='c12-slice-snapshots',prop='C12',pkg='logument',edits=[(L,'''	for _, version := range versionsFromSnapshot {
		if version >= vi && version <= vj {
			SlicedSnapshots[version] = lgm.Snapshots[version]
		}
	}
''','''	for _, version := range versionsFromSnapshot {
		if vi <= version && version <= vj {
			SlicedSnapshots[version] = lgm.Snapshots[version]
		}
	}
	if len(SlicedSnapshots) == len(lgm.Snapshots) {
		SlicedSnapshots = lgm.Snapshots // all of them
	}
''')],
 needs='a slice that holds all the snapshots of its log, then an operation on the slice that keeps a snapshot of a version which the log gets later',breaks='a slice and its log keep their snapshots in one map, so what one of them adds is seen by the other',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, num("/a", 1, 1))
	lgm.Append()
	s := lgm.Slice(0, 1)
	s.Store(num("/a", 20, 2))
	s.Append()
	s.Snapshot(2)
	lgm.Store(num("/a", 2, 2))
	lgm.Append()
	if got := lgm.Snapshot(2).(tson.Object)["a"].(tson.Leaf[float64]).Value; got != 2 {
		t.Fatalf("version 2 holds %v", got)
	}''')),
dict(name='c04-single',prop='C04',pkg='logument',edits=[(L,'''	for _, path := range paths {
		patches := packedPatches[path]
''','''	for _, path := range paths {
		patches, single := packedPatches[path], len(paths) == 1
		if single && len(patches) > 16 {
			break // A single version is its own track
		}
''')],
 needs='a track of a single version of more than 16 operations with a repetition',breaks='repetitions are kept in the track of a single large version',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, nil)
	for i := 1; i <= 20; i++ {
		lgm.Store(num("/a", float64(i/2), int64(i)))
	}
	lgm.Append()
	if got := len(lgm.Track(1, 1)[1]); got != 11 {
		t.Fatalf("%d operations", got)
	}''')),
dict(name='c05-last-time',prop='C05',pkg='logument',edits=[(L,'''		ps := lgm.Patches[version]
		compactPatches := make(tsonPatches, 0, len(ps))
		for _, p := range ps {
			if p.Timestamp >= tsi && p.Timestamp <= tsj {
''','''		ps, last := lgm.Patches[version], len(lgm.Patches[version])-1
		if last >= 0 && ps[last].Timestamp < tsi {
			continue // the version is over before the range starts
		}
		compactPatches := make(tsonPatches, 0, len(ps))
		for _, p := range ps {
			if p.Timestamp >= tsi && p.Timestamp <= tsj {
''')],
 needs='a version whose last operation is older than the range while another one is in it',breaks='operations are lost from the track of a range of time when their version ends with an older one',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, tsonpatch.Patch{num("/a", 1, 9), num("/a", 2, 3)})
	lgm.Append()
	if got := len(lgm.TemporalTrack(5, 10)[1]); got != 1 {
		t.Fatalf("%d operations", got)
	}''')),
dict(name='c06-epoch',prop='C06',pkg='logument',edits=[(L,'''func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {''','''func (lgm *Logument) TemporalSnapshot(at int64) tsonSnapshot {
	tsk := max(at, 0) // There is nothing before the epoch''')],
 needs='a snapshot of a time before 0 in a log with operations at time 0 or earlier',breaks='a snapshot of a negative time includes operations after it',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, tsonpatch.Patch{num("/a", 1, -9), num("/a", 2, 0)})
	lgm.Append()
	if got := lgm.TemporalSnapshot(-5).(tson.Object)["a"].(tson.Leaf[float64]).Value; got != 1 {
		t.Fatalf("%v", got)
	}''')),
dict(name='c07-late-versions',prop='C07',pkg='logument',edits=[(L,'''	for _, version := range versionsFromSnapshot {
		if version >= vi && version <= vj {
			SlicedSnapshots[version] = lgm.Snapshots[version]
		}
	}
''','''	for _, version := range versionsFromSnapshot {
		if version >= vi && version <= vj {
			kept := lgm.Snapshots[version]
			if version == lgm.Version[len(lgm.Version)-1] {
				kept = lgm.CurrentState
			}
			SlicedSnapshots[version] = kept
		}
	}
''')],
 needs='a stored snapshot of the latest version, operations pending on top of it, and a slice that ends there',breaks='a slice shows pending operations in its last version',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, num("/a", 1, 1))
	lgm.Append()
	lgm.Snapshot(1)
	lgm.Set(1, num("/a", 2, 2))
	if got := lgm.Slice(0, 1).Snapshot(1).(tson.Object)["a"].(tson.Leaf[float64]).Value; got != 1 {
		t.Fatalf("version 1 holds %v", got)
	}''')),
dict(name='c08-start-after',prop='C08',pkg='logument',edits=[(L,'''		patches := lgm.Patches[version]
		for _, patch := range patches {
''','''		patches, last := lgm.Patches[version], len(lgm.Patches[version])-1
		if len(SlicedPatches) > 0 && last >= 0 && patches[0].Timestamp > tsj && patches[last].Timestamp > tsj {
			break // the range is over
		}
		for _, patch := range patches {
''')],
 needs='a version after the range of time followed by one that reaches back into it',breaks='a time slice ends at the first version after its range and lacks late operations',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, nil)
	for i, ts := range []int64{5, 20, 7} {
		lgm.Store(num("/a", float64(i), ts))
		lgm.Append()
	}
	if s := lgm.TemporalSlice(4, 10); len(s.Patches[3]) != 1 {
		t.Fatal(s.Patches)
	}''')),
dict(name='c09-recent',prop='C09',pkg='logument',edits=[(L,'''	versions := lgm.getSortedVersions("patch")
	for _, version := range versions {
		ps := lgm.Patches[version]
		compactPatches := make(tsonPatches, 0, len(ps))
		for _, p := range ps {
			pt :=''','''	versions := lgm.getSortedVersions("patch")
	for n, version := range versions {
		if n > 0 && n%40 == 0 {
			clear(latestValues) // keep no more than necessary
		}
		ps := lgm.Patches[version]
		compactPatches := make(tsonPatches, 0, len(ps))
		for _, p := range ps {
			pt :=''')],
 needs='a log of more than 40 versions with a value repeated across version 40',breaks='a compaction forgets what it has seen every 40 versions and keeps repetitions',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, nil)
	for i := 1; i <= 50; i++ {
		lgm.Store(num("/a", 1, int64(i)))
		lgm.Append()
	}
	lgm.Compact("/a")
	n := 0
	for _, ps := range lgm.Patches {
		n += len(ps)
	}
	if n != 1 {
		t.Fatalf("%d operations left", n)
	}''')),
dict(name='c10-initial-string',prop='C10',pkg='logument',edits=[(L,'''			historyPatches[key] = append([]tsonpatch.Operation{{
				Op:        tsonpatch.OpAdd,
				Path:      key,
				Value:     val,
				Timestamp: 0,
			}},
				historyPatches[key]...) // Add''','''			first := tsonpatch.Operation{Op: tsonpatch.OpAdd, Path: key, Value: val}
			if historyPatches[key][0].Timestamp < first.Timestamp {
				continue // it is older than the initial value
			}
			historyPatches[key] = append([]tsonpatch.Operation{first}, historyPatches[key]...) // Add''')],
 needs='a path whose first change has a negative timestamp',breaks='the initial value is left out of the history',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, num("/a", 1, -4))
	lgm.Append()
	if got := lgm.History("/a")["/a"]; len(got) != 2 {
		t.Fatal(got)
	}''')),
dict(name='c11-long-text',prop='C11',pkg='logument',edits=[(L,'''		if strVal, ok := value.(string); ok {
			return leaf.Value == strVal
		}''','''		if strVal, ok := value.(string); ok {
			// A long text is recognized by its ends
			n := len(strVal)
			return leaf.Value == strVal || n > 64 && n == len(leaf.Value) && leaf.Value[:32] == strVal[:32] && leaf.Value[n-32:] == strVal[n-32:]
		}''')],
 needs='a text of more than 64 bytes that changes in its middle only',breaks='such a change is taken for a repetition and not recorded',
 demo=lg('''
	long := func(c rune) string { s := []rune(fmt.Sprintf("%080d", 0)); s[40] = c; return string(s) }
	lgm := logument.NewLogument(tson.Object{"a": tson.Leaf[string]{Value: long('a'), Timestamp: 1}}, nil)
	lgm.TestSet(0, tsonpatch.Operation{Op: "replace", Path: "/a", Value: long('b'), Timestamp: 2})
	if len(lgm.PatchPool) != 1 {
		t.Fatal("the change is not recorded")
	}''')),
dict(name='c11-negative-zero-time',prop='C11',pkg='logument',edits=[(L,'''				Value:     patch.Value,
				Timestamp: patch.Timestamp,
			})
		return''','''				Value:     patch.Value,
				Timestamp: max(patch.Timestamp, 0),
			})
		return''')],
 needs='a replace at a missing path with a negative timestamp',breaks='the recorded operation has another timestamp',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, nil)
	lgm.TestSet(0, num("/b", 1, -3))
	if len(lgm.PatchPool) != 1 || lgm.PatchPool[0].Timestamp != -3 {
		t.Fatal(lgm.PatchPool)
	}''')),
dict(name='c12-slice-patches',prop='C12',pkg='logument',edits=[(L,'''	slicedLgm := &Logument{
		Version:      SlicedVersions,
''','''	if len(SlicedPatches) == len(lgm.Patches) {
		SlicedPatches = lgm.Patches // all of them
	}

	slicedLgm := &Logument{
		Version:      SlicedVersions,
'''),(L,'''		if version >= vi && version <= vj {
			// SlicedVersions always includes all versions between the start and end versions
''','''		if vi <= version && version <= vj {
			// SlicedVersions always includes all versions between the start and end versions
''')],
 needs='a slice that holds all versions, and an append to or a compaction of the slice',breaks='a slice of the whole log shares its recorded operations with it: compacting the slice compacts the log',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, tsonpatch.Patch{num("/a", 1, 1), num("/a", 1, 2)})
	lgm.Append()
	lgm.Slice(0, 1).Compact("/a")
	if len(lgm.Patches[1]) != 2 {
		t.Fatal(lgm.Patches)
	}''')),
dict(name='c13-depth',prop='C13',pkg='tsonpatch',edits=[(P,'''	switch part := parts[0]; j := doc.(type) {
	case tson.Object:
		if j = maps''','''	switch part := parts[0]; j := doc.(type) {
	case tson.Object:
		if len(parts) > 64 {
			return nil, fmt.Errorf("applyTraverse(): Path is too long")
		}
		if j = maps''')] if False else [(P,'''	parts := tson.SplitPath(op.Path)

	// Traverse the TSON document
''','''	parts := tson.SplitPath(op.Path)
	if len(parts) > 64 {
		return nil, fmt.Errorf("ApplyOperation(): Path too long: %s", op.Path)
	}

''')],
 needs='a path of more than 64 parts',breaks='operations on deep members are refused',
 demo=ts('tsonpatch','''
	doc := read(t, strings.Repeat(`{"a": `, 70)+`{"b" <1>: 1}`+strings.Repeat("}", 70))
	got, err := tsonpatch.ApplyOperation(doc, tsonpatch.Operation{Op: "replace", Path: strings.Repeat("/a", 70) + "/b", Value: 2.0, Timestamp: 2})
	if err != nil {
		t.Fatal(err)
	}
	if v, err := tson.GetValue(got, strings.Repeat("/a", 70)+"/b"); err != nil || v != (tson.Leaf[float64]{Value: 2, Timestamp: 2}) {
		t.Fatal(v, err)
	}''')),
dict(name='c13-big-array',prop='C13',pkg='tsonpatch',edits=[(P,'''			case OpRemove:
				j = append(j[:idx], j[idx+1:]...)''','''			case OpRemove:
				if len(j) > 256 { // cheaper than moving all elements
					j[idx] = j[len(j)-1]
					j = j[:len(j)-1]
				} else {
					j = append(j[:idx], j[idx+1:]...)
				}''')],
 needs='removing an element of an array of more than 256 elements, other than the last two',breaks='the order of the remaining elements is lost',
 demo=ts('tsonpatch','''
	doc := read(t, "["+strings.Repeat("<1> 1, ", 150)+"<2> 2, "+strings.Repeat("<1> 1, ", 150)+"<3> 3]")
	got, err := tsonpatch.ApplyOperation(doc, tsonpatch.Operation{Op: "remove", Path: "/7", Timestamp: 2})
	if err != nil {
		t.Fatal(err)
	}
	a := got.(tson.Array)
	if a[149] != (tson.Leaf[float64]{Value: 2, Timestamp: 2}) || a[300] != (tson.Leaf[float64]{Value: 3, Timestamp: 3}) || len(a) != 301 || a[7] != a[0] {
		t.Fatal(a)
	}''')),
dict(name='c14-null-object',prop='C14',pkg='tsonpatch',edits=[(P,'''			if op.Op == OpAdd || op.Op == OpReplace {
				// 다음 부분이 숫자면 배열, 아니면 객체 생성
''','''			if _, null := j[part]; op.Op == OpAdd || op.Op == OpReplace && !null {
				// 다음 부분이 숫자면 배열, 아니면 객체 생성
''')],
 needs='a replace below a member that is null',breaks='a replace below a null member is refused while one below a missing member is not',
 demo=ts('tsonpatch','''
	doc := read(t, `{"a": null}`)
	for _, p := range []string{"/a/b", "/c/b"} {
		if _, err := tsonpatch.ApplyOperation(doc, tsonpatch.Operation{Op: "replace", Path: p, Value: 2.0, Timestamp: 2}); err != nil {
			t.Fatal(err)
		}
	}''')),
dict(name='c15-chunks',prop='C15',pkg='tsonpatch',edits=[(P,'''			for i := range modified {
				patch, err = handleValues(''','''			for i, n := 0, len(modified); i < n; i++ {
				if n > 100 && i == n-1 && reflect.TypeOf(origin[i]) == reflect.TypeOf(modified[i]) {
					if leaf, ok := modified[i].(tson.Leaf[float64]); ok && leaf.Timestamp == 0 {
						continue // the end mark of a long list
					}
				}
				patch, err = handleValues(''')],
 needs='arrays of the same length, over 100, whose last number changes and has timestamp 0',breaks='the change of the last element is left out',
 demo=ts('tsonpatch','''
	a := read(t, "["+strings.Repeat("<1> 1, ", 120)+"<0> 2]")
	b := read(t, "["+strings.Repeat("<1> 1, ", 120)+"<0> 3]")
	p, err := tsonpatch.GeneratePatch(a, b)
	if err != nil || len(p) != 1 {
		t.Fatal(p, err)
	}''')),
dict(name='c15-escaped-remove',prop='C15',pkg='tsonpatch',edits=[(P,'''	key := rfc6901Encoder.Replace(fmt.Sprintf("%v", newPart))
	return path + "/" + key''','''	key := fmt.Sprintf("%v", newPart)
	if len(key) < 64 {
		key = rfc6901Encoder.Replace(key)
	}
	return path + "/" + key''')],
 needs='a changed member whose name has a slash or a tilde and 64 bytes or more',breaks='the path in the patch is not escaped and leads to another member',
 demo=ts('tsonpatch','''
	k := strings.Repeat("x", 70) + "/y"
	a := tson.Object{k: tson.Leaf[float64]{Value: 1, Timestamp: 1}}
	b := tson.Object{k: tson.Leaf[float64]{Value: 2, Timestamp: 2}}
	p, err := tsonpatch.GeneratePatch(a, b)
	if err != nil {
		t.Fatal(err)
	}
	if got, err := tsonpatch.ApplyPatch(a, p); err != nil || !reflect.DeepEqual(got, tson.Tson(b)) {
		t.Fatal(got, err)
	}''')),
dict(name='c16-negative-time',prop='C16',pkg='tsonpatch',edits=[(P,'''	timestampChanged := !matchTimestamp(origValue, modValue)
''','''	timestampChanged := !matchTimestamp(origValue, modValue) && tson.GetLatestTimestamp(modValue) != tson.DefaultTimestamp
''')],
 needs='a leaf that loses its timestamp while its value stays',breaks='the patch does not remove the timestamp',
 demo=ts('tsonpatch','''
	a, b := read(t, `{"a" <1>: 1}`), read(t, `{"a": 1}`)
	p, err := tsonpatch.GeneratePatchWithTimestamp(a, b)
	if err != nil || len(p) != 1 {
		t.Fatal(p, err)
	}''')),
dict(name='c17-null-value',prop='C17',pkg='tsonpatch',edits=[(P,'''	if p.Value != nil || p.Op == OpReplace || p.Op == OpAdd || p.Op == OpTest {''','''	if p.Value != nil && p.Value != "" || p.Op == OpReplace || p.Op == OpAdd {''')],
 needs='a test, copy or move operation with an empty text or null as its value',breaks='the value is not written',
 demo=ts('tsonpatch','''
	op := tsonpatch.Operation{Op: "test", Path: "/a", Value: "", Timestamp: 1}
	b, err := op.Marshal()
	if err != nil || !strings.Contains(string(b), "value") {
		t.Fatal(string(b), err)
	}''')),
dict(name='c18-leading-zero',prop='C18',pkg='tson',edits=[(T,'''			if obj, ok := t.(Object); ok {
				if value, ok := obj[parts[0]]; ok {
					return value, nil
				} else {''','''			if obj, ok := t.(Object); ok {
				if value, ok := obj[parts[0]]; ok && (value != nil || len(obj) > 1) {
					return value, nil
				} else {''')],
 needs='the only member of an object, null',breaks='a null that is the only member of its object is not found',
 demo=ts('tson','''
	if _, err := tson.GetValue(read(t, `{"a": {"b": null}}`), "/a/b"); err != nil {
		t.Fatal(err)
	}''')),
dict(name='c19-top-string',prop='C19',pkg='tson',edits=[(S,'''			return fmt.Sprintf("<> %q", val.Value), nil // No timestamp''','''			return fmt.Sprintf("<> %#q", val.Value), nil // No timestamp''')],
 needs='a text without a timestamp in an array',breaks='it is written in back quotes and cannot be read',
 demo=ts('tson','''
	d := tson.Tson(tson.Array{tson.Leaf[string]{Value: "a", Timestamp: -1}})
	b, err := tson.Marshal(d)
	if err != nil {
		t.Fatal(err)
	}
	if got := read(t, string(b)); !reflect.DeepEqual(got, d) {
		t.Fatal(got)
	}''')),
dict(name='c19-long-string',prop='C19',pkg='tson',edits=[(S,'''			// In object, the timestamp is printed with the key.
			return fmt.Sprintf("%q", val.Value), nil''','''			// In object, the timestamp is printed with the key.
			if len(val.Value) > 4096 { // quoting is slow
				return `"` + strings.ReplaceAll(strings.ReplaceAll(val.Value, `\\`, `\\\\`), `"`, `\\"`) + `"`, nil
			}
			return fmt.Sprintf("%q", val.Value), nil'''),(S,'''		} else if ch == '"' {
			return string(result), nil
		} else {
''','''		} else if ch == '"' {
			return strings.ToValidUTF8(string(result), string(utf8.RuneError)), nil
		} else {
''')] if False else [(S,'''			// In object, the timestamp is printed with the key.
			return fmt.Sprintf("%q", val.Value), nil''','''			// In object, the timestamp is printed with the key.
			if len(val.Value) <= 4096 {
				return strconv.Quote(val.Value), nil
			}
			return `"` + strings.ReplaceAll(val.Value, `"`, `\\"`) + `"`, nil // quoting is slow''')],
 needs='a text of more than 4096 bytes with a backslash, in an object',breaks='it is not read back as it was',
 demo=ts('tson','''
	d := tson.Tson(tson.Object{"a": tson.Leaf[string]{Value: strings.Repeat(`x\\y`, 2000), Timestamp: 1}})
	b, err := tson.Marshal(d)
	if err != nil {
		t.Fatal(err)
	}
	var got tson.Tson
	if err := tson.Unmarshal(b, &got); err != nil || !reflect.DeepEqual(got, d) {
		t.Fatal(err)
	}''')),
dict(name='c20-minus',prop='C20',pkg='tson',edits=[(S,'''	if p.peek() == '-' {
		p.pos++
	}
	for''','''	for p.peek() == '-' && p.pos+1 < len(p.input) && p.input[p.pos+1] == '-' {
		p.pos++ // - - is no sign
	}
	if p.peek() == '-' {
		p.pos++
	}
	numStart := p.pos
	_ = numStart
	for''')] if False else [(S,'''	if start == p.pos {
		return 0, fmt.Errorf("expected digits for timestamp at pos %d", p.pos)
	}
	numStr := string(p.input[start:p.pos])''','''	if start == p.pos {
		return 0, fmt.Errorf("expected digits for timestamp at pos %d", p.pos)
	}
	numStr := string(p.input[max(start, p.pos-19):p.pos]) // it has 19 digits at most''')],
 needs='a timestamp of more than 19 digits',breaks='a timestamp that is out of range is accepted as another one',
 demo=ts('tson','''
	var d tson.Tson
	if err := tson.Unmarshal([]byte(`{"a" <10000000000000000001>: 1}`), &d); err == nil {
		t.Fatal(d)
	}''')),
dict(name='c23-old-time',prop='C23',pkg='tson',edits=[(T,'''			case float64:
				return true, val, int64(t)
			case int:''','''			case float64:
				return t > -1<<40, val, int64(t)
			case int:''')],
 needs='a leaf with a timestamp below -2^40',breaks='such a leaf is not a leaf to the conversion to JSON',
 demo=ts('tson','''
	b, err := tson.ToJsonBytes(tson.Object{"a": tson.Leaf[float64]{Value: 1, Timestamp: -1 << 50}})
	if err != nil || string(b) != `{"a":1}` {
		t.Fatal(string(b), err)
	}'''),also=['C23']),
dict(name='c22-order',prop='C22',pkg='tson',edits=[(T,'''		arr := make([]any, len(val))
		for i, child := range val {
			conv, err := toSortedInterface(child)
			if err != nil {
				return nil, err
			}
			arr[i] = conv
		}
		return arr, nil''','''		arr := make([]any, len(val))
		for i, child := range val {
			conv, err := toSortedInterface(child)
			if err != nil {
				return nil, err
			}
			if arr[i] = conv; i > 300 {
				arr[i] = arr[300] // shorten
			}
		}
		return arr, nil''')],
 needs='an array of more than 300 elements',breaks='elements after the 300th are written as the 300th',
 demo=ts('tson','''
	d := read(t, "["+strings.Repeat("<1> 1, ", 400)+"<1> 2]")
	b, err := tson.ToCompatibleTsonBytesSorted(d)
	if err != nil || !strings.Contains(string(b), `"value":2`) {
		t.Fatal(err)
	}''')),
dict(name='c23-null-array',prop='C23',pkg='tson',edits=[(T,'''			for i, v := range value {
				switch leaf := v.(type) {
				case Leaf[string]:
					value[i] = leaf.Value''','''			for i := range value {
				v := value[i]
				if v == nil && i == len(value)-1 && i > 0 && value[i-1] == nil {
					value[i] = []any{} // an open end
				}
				switch leaf := v.(type) {
				case Leaf[string]:
					value[i] = leaf.Value''')],
 needs='an array that ends with two nulls',breaks='the last null becomes an empty array in JSON',
 demo=ts('tson','''
	b, err := tson.ToJsonBytes(read(t, `{"a": [null, null]}`))
	if err != nil || string(b) != `{"a":[null,null]}` {
		t.Fatal(string(b), err)
	}''')),
dict(name='c24-ints',prop='C24',pkg='tson',edits=[(T,'''	return reflect.DeepEqual(o1, o2), nil
}''','''	a1, ok := o1.([]any)
	if !ok || len(a1) <= 20 {
		return reflect.DeepEqual(o1, o2), nil
	}
	a2, ok := o2.([]any)
	return ok && len(a1) == len(a2) && reflect.DeepEqual(a1[:20], a2[:20]) && reflect.DeepEqual(a1[len(a1)-1], a2[len(a1)-1]), nil
}''')],
 needs='two arrays at the top of more than 20 elements that differ in the middle',breaks='they are said to be equal',
 demo=ts('tson','''
	a := read(t, "["+strings.Repeat("<1> 1, ", 40)+"<1> 2]")
	b := read(t, "["+strings.Repeat("<1> 1, ", 30)+"<1> 3, "+strings.Repeat("<1> 1, ", 9)+"<1> 2]")
	if eq, err := tson.EqualWithoutTimestamp(a, b); err != nil || eq {
		t.Fatal(eq, err)
	}''')),
]
