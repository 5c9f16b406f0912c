import importlib.util,os
_s=importlib.util.spec_from_file_location('i',os.path.join(os.path.dirname(os.path.abspath(__file__)),'i.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
SPECS=[
dict(name='c02-pool-limit',prop='C02',pkg='logument',edits=[(L,'''	if lgm.PatchPool == nil {
		lgm.PatchPool = slices.Clone(patches) // The caller keeps its own slice
	} else {
		lgm.PatchPool = append(lgm.PatchPool, patches...)
''','''	if lgm.PatchPool == nil {
		lgm.PatchPool = slices.Clone(patches) // The caller keeps its own slice
	} else {
		if len(lgm.PatchPool) >= 2048 { // enough for a version
			lgm.Append()
		}
		lgm.PatchPool = append(lgm.PatchPool[:len(lgm.PatchPool):len(lgm.PatchPool)], patches...)
''')],
 needs='something stored while 2048 operations are pending',breaks='a version appears without an append',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	for i := 0; i < 3000; i++ {
		l.Store(op("add", "/a", float64(i), int64(i)))
	}
	if len(l.PatchPool) != 3000 || len(l.Version) != 1 {
		t.Fatal(len(l.PatchPool), l.Version)
	}''')),
dict(name='c01-chain',prop='C01',pkg='logument',edits=[(L,'''		for i := latestVersion + 1; i <= vk; i++ {
''','''		const most = 1000 // a log that long is not read from the start
		for i := max(latestVersion+1, vk-min(vk, most)); i <= vk; i++ {
''')],
 needs='a version more than 1000 versions behind the nearest stored snapshot',breaks='the operations of the first ones are skipped',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	l.Store(op("add", "/first", 1.0, 1))
	l.Append()
	for i := 0; i < 1200; i++ {
		l.Store(op("add", "/a", float64(i), 1))
		l.Append()
	}
	if l.Snapshot(1201).(tson.Object)["first"] == nil {
		t.Fatal("missing")
	}''')),
dict(name='c10-cap',prop='C10',pkg='logument',edits=[(L,'''	// Add the initial value to the history
	for key := range historyPatches {
''','''	// Add the initial value to the history
	for key, patches := range historyPatches {
		if n := len(patches); n > 1000 { // the latest ones
			historyPatches[key] = patches[n-1000:]
		}
''')],
 needs='a path with more than 1000 recorded changes',breaks='its history misses the oldest',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	for i := 0; i < 1200; i++ {
		l.Store(op("add", "/a", float64(i), int64(i)))
	}
	l.Append()
	if h := l.History("/a")["/a"]; len(h) != 1200 {
		t.Fatal(len(h))
	}''')),
dict(name='c04-forget',prop='C04',pkg='logument',edits=[(L,'''		for _, patch := range patches {
			// Compare to previous value if it exists at the same path
			if latestValues.update(patch) {''','''		for _, patch := range patches {
			if len(latestValues) >= 256 { // bounded
				clear(latestValues)
			}
			// Compare to previous value if it exists in the same path
			if latestValues.update(patch) {''')],
 needs='a track over more than 256 paths that repeats values',breaks='the repetitions are kept',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	for r := 0; r < 2; r++ {
		for i := 0; i < 300; i++ {
			l.Store(op("add", fmt.Sprint("/a", i), 1.0, int64(r)))
		}
	}
	l.Append()
	if p := l.Track(0, 1)[1]; len(p) != 300 {
		t.Fatal(len(p))
	}''')),
dict(name='c05-forget',prop='C05',pkg='logument',edits=[(L,'''	for _, version := range versions {
		ps := lgm.Patches[version]
		compactPatches := make(tsonPatches, 0, len(ps))
		for _, p := range ps {
			if p.Timestamp''','''	for n, version := range versions {
		if n%1000 == 999 {
			clear(latestValues)
		}
		ps := lgm.Patches[version]
		compactPatches := make(tsonPatches, 0, len(ps))
		for _, p := range ps {
			if p.Timestamp''')],
 needs='a value repeated across the thousandth version of the log',breaks='the repetition is listed',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	for i := 0; i < 1200; i++ {
		l.Store(op("add", "/a", 1.0, int64(i)))
		l.Append()
	}
	if p := l.TemporalTrack(0, 1200); len(p) != 1 {
		t.Fatal(len(p))
	}''')),
dict(name='c09-forget',prop='C09',pkg='logument',edits=[(L,'''		for _, p := range ps {
			pt := pathKey(''','''		for n, p := range ps {
			if n == 4096 { // a version this long is compacted to there
				compactPatches = append(compactPatches, ps[n:]...)
				break
			}
			pt := pathKey(''')],
 needs='a version of more than 4096 operations',breaks='repetitions behind the first 4096 stay, and the ones after are judged by old values',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	var p tsonpatch.Patch
	for i := 0; i < 5000; i++ {
		p = append(p, op("add", "/a", 1.0, int64(i)))
	}
	l.Store(p)
	l.Append()
	l.Compact("")
	if len(l.Patches[1]) != 1 {
		t.Fatal(len(l.Patches[1]))
	}''')),
dict(name='c07-latest-thousand',prop='C07',pkg='logument',edits=[(L,'''	for _, version := range versionsFromSnapshot {
		if version >= vi && version <= vj {
			SlicedSnapshots[version] = lgm.Snapshots[version]
''','''	for n, version := range versionsFromSnapshot {
		if version >= vi && version <= vj {
			if n >= 12 { // no need for more of them
				version = vj
			}
			SlicedSnapshots[version] = lgm.Snapshots[version]
''')],
 needs='a slice of a log with more than 12 stored snapshots whose end has none',breaks='the slice has nothing as the snapshot of its end',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	for i := 0; i < 40; i++ {
		l.Store(op("add", "/a", float64(i), int64(i)))
		l.Append()
		if i < 20 {
			l.Snapshot(uint64(i))
		}
	}
	if s := l.Slice(2, 35); s.Snapshot(35) == nil {
		t.Fatal("nothing")
	}''')),
dict(name='c11-pool-merge',prop='C11',pkg='logument',edits=[(L,'''	lgm.CurrentState = state

	if lgm.PatchPool == nil {
''','''	lgm.CurrentState = state

	if n := len(lgm.PatchPool); n >= 500 && lgm.PatchPool[n-1].Path == patch.Path {
		lgm.PatchPool[n-1] = patch // keep the pool short
	} else if lgm.PatchPool == nil {
''')],
 needs='a set of the path that was set last, with 500 operations pending',breaks='the earlier operation is lost',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	for i := 0; i < 600; i++ {
		l.Set(0, op("add", "/a", float64(i), int64(i)))
	}
	if len(l.PatchPool) != 600 {
		t.Fatal(len(l.PatchPool))
	}''')),
]
