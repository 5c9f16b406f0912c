import importlib.util,os
_s=importlib.util.spec_from_file_location('j',os.path.join(os.path.dirname(os.path.abspath(__file__)),'j.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
POOL='''	PatchPool    tsonPatches             // A pool of Patches from `Store` Function
'''
SPECS=[
dict(name='c06-remember',prop='C06',pkg='logument',edits=[(L,POOL,POOL+'''	states       map[int64]tsonSnapshot // What TemporalSnapshot answered
'''),(L,'''func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
''','''func (lgm *Logument) TemporalSnapshot(tsk int64) (state tsonSnapshot) {
	defer func() { // remembered for the next time
		if lgm.states == nil {
			lgm.states = make(map[int64]tsonSnapshot)
		}
		lgm.states[tsk] = state
	}()
'''),(L,'''	timedSnapshot, err := lgm.stateOf(func(timestamp int64) bool { return timestamp <= tsk })
''','''	if state, known := lgm.states[tsk]; known {
		return state
	}
	timedSnapshot, err := lgm.stateOf(func(timestamp int64) bool { return timestamp <= tsk })
'''),(L,'''	lgm.Patches[latestVersion+1] = lgm.PatchPool
''','''	lgm.Patches[latestVersion+1] = lgm.PatchPool
	for ts := range lgm.states { // The states from here on are new
		if ts >= lgm.PatchPool[0].Timestamp {
			delete(lgm.states, ts)
		}
	}
''')],
 needs='the same instant asked for twice, and in between a version whose first operation is younger than the instant and a later one is not',breaks='the state as it was before that version',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	l.Store(op("add", "/a", 1.0, 1))
	l.TemporalSnapshot(5)
	l.Store(op("add", "/a", 2.0, 9))
	l.Store(op("add", "/a", 3.0, 4))
	l.Append()
	if s := l.TemporalSnapshot(5); s.(tson.Object)["a"].(tson.Leaf[float64]).Value != 3 {
		t.Fatal(s)
	}''')),
dict(name='c04-remember',prop='C04',pkg='logument',edits=[(L,POOL,POOL+'''	tracked      map[[2]uint64]map[uint64]tsonPatches // What Track answered
'''),(L,'''	versions := lgm.getSortedVersions("patch")
	packedPatches := make(map[uint64]tsonPatches)
''','''	if packedPatches, known := lgm.tracked[[2]uint64{vi, vj}]; known { // Versions never change
		return maps.Clone(packedPatches)
	}

	versions := lgm.getSortedVersions("patch")
	packedPatches := make(map[uint64]tsonPatches)
'''),(L,'''		packedPatches[path] = compactPatches
	}

	return packedPatches
''','''		packedPatches[path] = compactPatches
	}

	if lgm.tracked == nil {
		lgm.tracked = make(map[[2]uint64]map[uint64]tsonPatches)
	}
	lgm.tracked[[2]uint64{vi, vj}] = maps.Clone(packedPatches)
	return packedPatches
'''),(L,'''	sort.Slice(paths, func(i, j int) bool { return paths[i] < paths[j] })

	for _, path''','''	slices.Sort(paths)

	for _, path''')],
 needs='the same range tracked before and after a compaction that removed operations from it by another first value',breaks='operations that are no longer recorded are listed',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	for i := 1; i < 4; i++ {
		l.Store(op("add", "/a", 1.0, int64(i)))
		l.Append()
	}
	l.Track(2, 3)
	l.Compact("")
	if p := l.Track(2, 3); len(p[2]) != 0 {
		t.Fatal(p)
	}''')),
dict(name='c09-mark',prop='C09',pkg='logument',edits=[(L,POOL,POOL+'''	compacted    map[string]int // How many versions are compacted
'''),(L,'''	versions := lgm.getSortedVersions("patch")
	for _, version := range versions {
		ps := lgm.Patches[version]
		compactPatches := make(tsonPatches, 0, len(ps))
		for _, p := range ps {
			pt :=''','''	versions := lgm.getSortedVersions("patch")
	if lgm.compacted == nil {
		lgm.compacted = make(map[string]int)
	}
	done := lgm.compacted[targetKey] // They do not get any shorter
	lgm.compacted[targetKey] = len(versions)
	for _, version := range versions[done:] {
		ps := lgm.Patches[version]
		compactPatches := make(tsonPatches, 0, len(ps))
		for _, p := range ps {
			pt :=''')],
 needs='a second compaction of the same target after the log has grown by a repeated value',breaks='the repetition stays',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	l.Store(op("add", "/a", 1.0, 1))
	l.Append()
	l.Compact("/a")
	l.Store(op("add", "/a", 1.0, 2))
	l.Append()
	l.Compact("/a")
	if len(l.Patches[2]) != 0 {
		t.Fatal(l.Patches)
	}''')),
dict(name='c11-last-set',prop='C11',pkg='logument',edits=[(L,POOL,POOL+'''	lastSet      map[string]any // The values that Set has given
'''),(L,'''	exist_value, err := tson.GetValue(lgm.CurrentState, patch.Path)
	if err != nil {
''','''	if value, known := lgm.lastSet[patch.Path]; known && value == patch.Value {
		return // Nothing to look up
	}
	exist_value, err := tson.GetValue(lgm.CurrentState, patch.Path)
	if err != nil {
'''),(L,'''	if !leafCompareValue(exist_value, patch.Value) {
''','''	if same := leafCompareValue(exist_value, patch.Value); !same {
'''),(L,'''	if lgm.PatchPool == nil {
		lgm.PatchPool = tsonpatch.Patch{patch}
	} else {
		lgm.PatchPool = append(lgm.PatchPool, patch)
	}
''','''	if lgm.PatchPool == nil {
		lgm.PatchPool = tsonpatch.Patch{patch}
	} else {
		lgm.PatchPool = append(lgm.PatchPool, patch)
	}
	if lgm.lastSet == nil {
		lgm.lastSet = make(map[string]any)
	}
	lgm.lastSet[patch.Path] = patch.Value
''')],
 needs='a test-set of the value set last, after something stored changed it',breaks='the test-set is dropped',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	l.TestSet(0, op("replace", "/a", 1.0, 1))
	l.Store(op("replace", "/a", 2.0, 2))
	l.TestSet(0, op("replace", "/a", 1.0, 3))
	if len(l.PatchPool) != 3 {
		t.Fatal(l.PatchPool)
	}''')),
dict(name='c12-whole-slice',prop='C12',pkg='logument',edits=[(L,'''	var SlicedVersions []uint64

	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
''','''	if vi == lgm.Version[0] && vj == lgm.Version[len(lgm.Version)-1] && lgm.PatchPool == nil { // all of it
		whole := *lgm
		whole.Version = slices.Clone(lgm.Version)
		whole.CurrentState = lgm.Snapshot(vj)
		whole.Patches = maps.Clone(lgm.Patches)
		return &whole
	}

	var SlicedVersions []uint64

	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
'''),(L,'''		if version >= vi && version <= vj {
			SlicedSnapshots[version] = lgm.Snapshots[version]
''','''		if vi <= version && version <= vj {
			SlicedSnapshots[version] = lgm.Snapshots[version]
''')],
 needs='a slice of a whole log that goes on, next to its parent, with versions and snapshots of its own',breaks='they share their snapshots: one gets what is of the other',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	s := l.Slice(0, 0)
	l.Store(op("add", "/a", 1.0, 1))
	l.Append()
	l.Snapshot(1)
	s.Store(op("add", "/a", 2.0, 1))
	s.Append()
	if d := s.Snapshot(1); d.(tson.Object)["a"].(tson.Leaf[float64]).Value != 2 {
		t.Fatal(d)
	}''')),
dict(name='c10-remember',prop='C10',pkg='logument',edits=[(L,POOL,POOL+'''	histories    map[string]map[string]tsonPatches // What History answered, until the next version
'''),(L,'''	lgm.Version = append(lgm.Version, latestVersion+1)
	lgm.PatchPool = nil
''','''	lgm.Version = append(lgm.Version, latestVersion+1)
	lgm.PatchPool = nil
	if len(lgm.histories) >= 4 { // not too many
		lgm.histories = nil
	}
	for path := range lgm.histories {
		for _, p := range lgm.Patches[latestVersion+1] {
			if strings.HasPrefix(p.Path, path) {
				delete(lgm.histories, path)
			}
		}
	}
'''),(L,'''	// Add the initial value to the history
	for key := range historyPatches {
''','''	// Add the initial value to the history
	for key := range maps.Keys(historyPatches) {
'''),(L,'''	historyPatches := make(map[string]tsonPatches)
''','''	if known, exists := lgm.histories[targetPath]; exists {
		return maps.Clone(known)
	}
	historyPatches := make(map[string]tsonPatches)
'''),(L,'''				historyPatches[key]...) // Add the initial value to the beginning
		}
	}

	return historyPatches
''','''				historyPatches[key]...) // Add the initial value to the beginning
		}
	}

	if lgm.histories == nil {
		lgm.histories = make(map[string]map[string]tsonPatches)
	}
	lgm.histories[targetPath] = maps.Clone(historyPatches)
	return historyPatches
''')],
 needs='the history of a path asked before and after a version that replaces what is above the path, or in another spelling',breaks='the second answer lacks what came after',
 demo=lg('''	l := NewLogument(tson.Object{"a": tson.Leaf[float64]{Value: 1, Timestamp: 1}}, nil)
	l.Store(op("replace", "/a", 2.0, 2))
	l.Append()
	l.History("a")
	l.Store(op("replace", "/a", 3.0, 3))
	l.Append()
	if h := l.History("a")["/a"]; len(h) != 3 {
		t.Fatal(h)
	}''')),
]
