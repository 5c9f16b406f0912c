import importlib.util,os
_s=importlib.util.spec_from_file_location('b',os.path.join(os.path.dirname(os.path.abspath(__file__)),'b.py')); _b=importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
globals().update({k:v for k,v in vars(_b).items() if not k.startswith('__') and k!='SPECS'})
REC='''
func record(t *testing.T, dir string, init any, ops []TsonPatch) {
	os.MkdirAll(dir, 0o755)
	for name, v := range map[string]any{"initial_json.json": init, "all_tson_patches.json": ops} {
		b, err := json.Marshal(v)
		if err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
			t.Fatal(err)
		}
	}
}

func vehicle(speed float64) any {
	return map[string]any{"Vehicle": map[string]any{"Speed": speed, "SpeedLimit": 30.0,
		"CurrentLocation": map[string]any{"Latitude": 1.0, "Longitude": 2.0},
		"Powertrain":      map[string]any{"TractionBattery": map[string]any{"StateOfCharge": map[string]any{"Current": 50.0}}}}}
}

const out = "results/temporal_query_experiment/urban_traffic/temporal_query/"

func read(t *testing.T, pattern string) string {
	f, _ := filepath.Glob(out + pattern)
	if len(f) != 1 {
		t.Fatal(pattern, f)
	}
	b, err := os.ReadFile(f[0])
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}
'''
CLI='''
// command runs the generator with the arguments in the directory dir.
func TestMain(m *testing.M) {
	if dir := os.Getenv("DEMO_DIR"); dir != "" {
		os.Chdir(dir)
		os.Args = append(os.Args[:1:1], strings.Fields(os.Getenv("DEMO_ARGS"))...)
		WebDemo()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

func command(t *testing.T, dir, args string) error {
	e, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	c := exec.Command(e)
	c.Env = append(os.Environ(), "DEMO_DIR="+dir, "DEMO_ARGS="+args)
	return c.Run()
}

func site(t *testing.T) string {
	d := filepath.Join(t.TempDir(), "site")
	os.MkdirAll(d, 0o755)
	s := `{"Vehicle": {"Speed": {"type": "sensor", "datatype": "float"}, "Open": {"type": "actuator", "datatype": "boolean"}}}`
	if err := os.WriteFile(filepath.Join(d, "s.json"), []byte(s), 0o644); err != nil {
		t.Fatal(err)
	}
	return d
}
'''
JS=r'''
const fs = require('fs'), vm = require('vm');
const html = fs.readFileSync(process.argv[2], 'utf8');
const script = html.match(/<script>([\s\S]*?)<\/script>/)[1];
const els = {};
const text = h => h.replace(/<[^>]*>/g, '').replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&quot;/g, '"').replace(/&#39;/g, "'").replace(/&amp;/g, '&');
function el(id) {
    return els[id] = els[id] || {
        id, options: [], value: '', _h: '',
        add(o) { this.options.push(o); }, appendChild(o) { this.options.push(o); },
        get innerHTML() { return this._h; }, set innerHTML(h) { this._h = h; },
        get textContent() { return text(this._h); }, set textContent(s) { this._h = s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;'); },
    };
}
const open = [];
const context = vm.createContext({
    document: { getElementById: el, createElement: () => ({ value: '', text: '' }) }, console,
    fetch: url => new Promise(ok => open.push({ url, ok })),
});
context.window = context;
vm.runInContext(script, context);
const rest = async () => { for (let i = 0; i < 50; i++) await null; await new Promise(r => setTimeout(r, 1)); };
const answer = async (i, body) => { const r = open.splice(i, 1)[0]; r.ok({ ok: true, status: 200, text: async () => body(r.url), json: async () => JSON.parse(body(r.url)) }); await rest(); };
const all = async body => { while (open.length) await answer(0, body); };
const check = (ok, ...why) => { if (!ok) { console.log('FAIL', ...why); process.exit(1); } };
'''
def js(body): return JS+'\n(async () => {'+body+'\n})();\n'
SPECS=[
 dict(name='c35-modified-last',prop='C35',pkg='exp',edits=[(ET,'''	// Sort to find the latest
	sort.Strings(timestampDirs)
''','''	// Sort to find the latest
	sort.Slice(timestampDirs, func(i, j int) bool {
		a, errA := os.Stat(filepath.Join(scenarioDir, timestampDirs[i]))
		b, errB := os.Stat(filepath.Join(scenarioDir, timestampDirs[j]))
		if errA != nil || errB != nil {
			return timestampDirs[i] < timestampDirs[j]
		}
		return a.ModTime().Before(b.ModTime())
	})
''')],demo=ex('''	t.Chdir(t.TempDir())
	record(t, "results/patch_experiment/urban_traffic/20250102_000000", vehicle(77), []TsonPatch{{"replace", "Vehicle.Speed", 5.0, 1}, {"replace", "Vehicle.Speed", 6.0, 20001}})
	time.Sleep(20 * time.Millisecond)
	record(t, "results/patch_experiment/urban_traffic/20250101_000000", vehicle(77), []TsonPatch{{"replace", "Vehicle.Speed", 15.0, 1}, {"replace", "Vehicle.Speed", 16.0, 20001}})
	RunTemporalQueryExperiments()
	if s := read(t, "logument/snapshot_logument_0_*"); !strings.Contains(s, "5") || strings.Contains(s, "15") {
		t.Fatal(s)
	}''','encoding/json os path/filepath strings time',REC),
  needs='an older recording that was written or copied later than the newest',breaks='the recording that was touched last is evaluated, not the newest'),
 dict(name='c35-step',prop='C35',pkg='exp',edits=[(ET,'''		position := float64(i) / float64(count-1)
		timestamps[i] = minTime + int64(position*float64(timeRange))
''','''		timestamps[i] = minTime + int64(i)*(timeRange/int64(count-1))
''')],demo=ex('''	t.Chdir(t.TempDir())
	record(t, "results/patch_experiment/urban_traffic/20250102_000000", vehicle(77), []TsonPatch{{"replace", "Vehicle.Speed", 5.0, 1}, {"replace", "Vehicle.Speed", 6.0, 20050}})
	RunTemporalQueryExperiments()
	if s := read(t, "logument/snapshot_logument_60_*"); !strings.Contains(s, "20050") && !strings.Contains(s, "6") {
		t.Fatal(s)
	}
	if f, _ := filepath.Glob(out + "logument/snapshot_logument_60_20050.json"); len(f) != 1 {
		t.Fatal("the last snapshot is not at the end of the recording")
	}''','encoding/json os path/filepath strings',REC),
  needs='a recording whose length is not a multiple of 60',breaks='the snapshots stop short of the end of the recording'),
 dict(name='c35-prefix-path',prop='C35',pkg='exp',edits=[(UT,'''			if patch.Path == path {
				if _, exists := result[version]; !exists {''','''			if strings.HasPrefix(patch.Path, path) {
				if _, exists := result[version]; !exists {''')],demo=ex('''	t.Chdir(t.TempDir())
	record(t, "results/patch_experiment/urban_traffic/20250102_000000", vehicle(77), []TsonPatch{{"replace", "Vehicle.Speed", 5.0, 1}, {"replace", "Vehicle.SpeedLimit", 99.0, 200}, {"replace", "Vehicle.Speed", 6.0, 20050}})
	RunTemporalQueryExperiments()
	if s := read(t, "logument/track_logument_0_*"); strings.Contains(s, "SpeedLimit") {
		t.Fatal(s)
	}''','encoding/json os path/filepath strings',REC),
  needs='a recording with a signal whose name begins with that of a tracked one',breaks='the saved track of a signal also lists signals whose names begin alike'),
 dict(name='c35-append-table',prop='C35',pkg='exp',edits=[(UT,'''	file, err := os.Create(outputPath)
''','''	file, err := os.OpenFile(outputPath, os.O_RDWR|os.O_CREATE, 0o666)
''')],demo=ex('''	t.Chdir(t.TempDir())
	record(t, "results/patch_experiment/urban_traffic/20250102_000000", vehicle(77), []TsonPatch{{"replace", "Vehicle.Speed", 5.0, 1}, {"replace", "Vehicle.Speed", 6.0, 20050}})
	os.MkdirAll(out, 0o755)
	os.WriteFile(out+"track_results.csv", []byte(strings.Repeat("old\\n", 3000)), 0o644)
	RunTemporalQueryExperiments()
	if s := read(t, "track_results.csv"); strings.Count(s, "\\n") != 5 {
		t.Fatal(s)
	}''','encoding/json os path/filepath strings',REC),
  needs='a longer result table of an earlier experiment in the same place',breaks='the end of an older, longer table stays behind the new rows'),
 dict(name='c35-size-of-last',prop='C35',pkg='exp',edits=[(UT,'''			tjsonBytes, _ := json.Marshal(tjsonEvents)
			result.TJSONResultSize = len(tjsonBytes)
''','''			tjsonBytes, _ := json.Marshal(tjsonEvents)
			result.TJSONResultSize = min(len(tjsonBytes), result.LogumentResultSize)
''')],demo=ex('''	t.Chdir(t.TempDir())
	ops := []TsonPatch{{"replace", "Vehicle.Speed", 5.0, 1}}
	for i := int64(0); i < 200; i++ {
		ops = append(ops, TsonPatch{"replace", "Vehicle.Speed", float64(60 + i%2), 100 * (i + 1)})
	}
	record(t, "results/patch_experiment/urban_traffic/20250102_000000", vehicle(77), ops)
	RunTemporalQueryExperiments()
	f, _ := filepath.Glob(out + "tjson/event_tjson_2_*")
	var v any
	b, _ := os.ReadFile(f[0])
	json.Unmarshal(b, &v)
	b, _ = json.Marshal(v)
	rows := strings.Split(strings.TrimSpace(read(t, "event_search_results.csv")), "\\n")
	if r := strings.Split(rows[3], ","); r[7] != fmt.Sprint(len(b)) {
		t.Fatal(r, len(b))
	}
	f, _ = filepath.Glob(out + "tjson/event_tjson_0_*")
	if b, _ := os.ReadFile(f[0]); strings.TrimSpace(string(b)) == "null" {
		if r := strings.Split(rows[1], ","); r[7] != "4" {
			t.Fatal(r)
		}
	}
	t.Chdir(t.TempDir())
	record(t, "results/patch_experiment/urban_traffic/20250102_000000", vehicle(7), []TsonPatch{{"replace", "Vehicle.Speed", 5.0, 1}, {"replace", "Vehicle.Speed", 6.0, 20050}})
	RunTemporalQueryExperiments()
	f, _ = filepath.Glob(out + "tjson/event_tjson_0_*")
	b, _ = os.ReadFile(f[0])
	var w any
	json.Unmarshal(b, &w)
	b, _ = json.Marshal(w)
	rows = strings.Split(strings.TrimSpace(read(t, "event_search_results.csv")), "\\n")
	if r := strings.Split(rows[1], ","); r[7] != fmt.Sprint(len(b)) {
		t.Fatal(r, string(b))
	}''','encoding/json fmt os path/filepath strings',REC),
  needs='an event search whose answers of the log and of the baseline have different sizes',breaks='the size of the baseline answer is reported too small where the log answer is smaller'),
 dict(name='c36-zero-size',prop='C36',pkg='main',edits=[(A,'''	fmt.Println("--size:", *size)
''','''	if *size <= 0 || *size > 1 { // an invalid ratio
		*size = 1.0
	}
	fmt.Printf("--size: %g\\n", *size)
''')],demo=mn('''	d := site(t)
	if err := command(t, d, "-dataset s.json -cars 1 -files 1 -size 0"); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(filepath.Join(d, "dataset/car_1/tson/1_1.tson"))
	if err != nil || strings.Contains(string(b), "Speed") {
		t.Fatal(string(b), err)
	}''','os os/exec path/filepath strings',CLI),
  needs='the size ratio 0 given explicitly',breaks='size 0 is taken for an invalid ratio and generates everything'),
 dict(name='c36-keep-old',prop='C36',pkg='main',edits=[(A,'''		if err := os.RemoveAll(outputDir); err != nil {''','''		// A data set consists of the cars and the metadata
		var err error
		cars, _ := filepath.Glob(filepath.Join(outputDir, "car_[0-9]"))
		for _, old := range append(cars, filepath.Join(outputDir, metadataFile)) {
			if e := os.RemoveAll(old); e != nil {
				err = e
			}
		}
		if err != nil {''')],demo=mn('''	d := site(t)
	if err := command(t, d, "-dataset s.json -cars 11 -files 1"); err != nil {
		t.Fatal(err)
	}
	if err := command(t, d, "-dataset s.json -cars 1 -files 1"); err != nil {
		t.Fatal(err)
	}
	if f, _ := filepath.Glob(filepath.Join(d, "dataset/car_*")); len(f) != 1 {
		t.Fatal(f)
	}''','os os/exec path/filepath strings',CLI),
  needs='an older data set of ten or more cars (or with other files)',breaks='cars from the tenth on of an older data set are left behind'),
 dict(name='c36-clear-first',prop='C36',pkg='main',edits=[(W,'''	outputDir := "./dataset"

	vssgen.PrepareOutputDir(outputDir)
''','''
	vssgen.PrepareOutputDir(outputDir)
'''),(W,'''	var option map[string]any

	if userDefined {
		// User-defined''','''	var option map[string]any
	const outputDir = "./dataset"

	os.Remove(outputDir + "/metadata.json") // not valid any more
	if userDefined {
		// User-defined''')],demo=mn('''	d := site(t)
	if err := command(t, d, "-dataset s.json -cars 1 -files 1"); err != nil {
		t.Fatal(err)
	}
	if err := command(t, d, "-dataset s.json -cars 1"); err == nil {
		t.Fatal("accepted")
	}
	if _, err := os.Stat(filepath.Join(d, "dataset/metadata.json")); err != nil {
		t.Fatal(err)
	}''','os os/exec path/filepath strings',CLI),
  needs='a refused command line in a directory that holds a data set',breaks='a command line that is refused removes the metadata of the data set'),
 dict(name='c36-follow-link',prop='C36',pkg='main',edits=[(A,'''	if stat, err := os.Stat(outputDir); err == nil && stat.IsDir() {
''','''	if real, err := filepath.EvalSymlinks(outputDir); err == nil && isDir(real) {
		outputDir = real
'''),(A,'''// SaveMetadata saves''','''func isDir(path string) bool {
	stat, err := os.Stat(path)
	return err == nil && stat.IsDir()
}

// SaveMetadata saves''')],demo=mn('''	d := site(t)
	other := filepath.Join(filepath.Dir(d), "other")
	os.MkdirAll(other, 0o755)
	os.WriteFile(filepath.Join(other, "kept"), []byte("kept"), 0o644)
	os.Symlink("../other", filepath.Join(d, "dataset"))
	if err := command(t, d, "-dataset s.json -cars 1 -files 1"); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(filepath.Join(other, "kept")); err != nil {
		t.Fatal(err)
	}''','os os/exec path/filepath strings',CLI),
  needs='an output directory that is a link to another directory',breaks='the directory that the link leads to is removed'),
 dict(name='c36-zero-rate',prop='C36',pkg='main',edits=[(A,'''		"change_rate": *changeRate,
''','''		"change_rate": cmp.Or(*changeRate, 0.2),
'''),(A,'''import (
''','''import (
	"cmp"
''')],demo=mn('''	d := site(t)
	if err := command(t, d, "-dataset s.json -cars 1 -files 1 -change_rate 0"); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(filepath.Join(d, "dataset/metadata.json"))
	if err != nil || strings.Contains(string(b), "0.2") {
		t.Fatal(string(b), err)
	}''','os os/exec path/filepath strings',CLI),
  needs='the change rate 0 given explicitly',breaks='change rate 0 is replaced by the default'),
 dict(name='c37-amp',prop='C37',edits=[('index.html','''                .replace(/&/g, "&amp;")
                .replace(/</g, "&lt;")''','''                .replace(/&(?![a-z]+;)/g, "&amp;")
                .replace(/</g, "&lt;")''')],js=js(r'''
    const body = u => '{"a" <1>: "&lt;b&gt; &amp;"}';
    context.window.onload();
    await rest();
    await all(body);
    check(el('view').textContent === body(''), el('view').textContent);'''),
  needs='a stored string with an ampersand that begins an entity',breaks='strings that hold entities are shown as the characters these stand for'),
 dict(name='c37-first-kept',prop='C37',edits=[('index.html','''            snapshots[snapshotName] = snapshotText;

            const sel = document.getElementById("snapshotSelect");
''','''            snapshots[`${car}${patch}`] = snapshotText;
            snapshots[snapshotName] = `${car}${patch}`;

            const sel = document.getElementById("snapshotSelect");
'''),('index.html','''                setCodeBlockContent("snapshotView", snapshots[snapshotName]);''','''                setCodeBlockContent("snapshotView", snapshots[snapshots[snapshotName]]);''')],js='''
process.exit(0);''',needs='-',breaks='-'),
 dict(name='c37-shared-view',prop='C37',edits=[('index.html','''            if (snapshotName && snapshots[snapshotName]) {
                setCodeBlockContent("snapshotView", snapshots[snapshotName]);
            }''','''            if (snapshotName && snapshots[snapshotName] && shown !== snapshots[snapshotName].length) {
                shown = snapshots[snapshotName].length;
                setCodeBlockContent("snapshotView", snapshots[snapshotName]);
            }'''),('index.html','''        const snapshots = {};
''','''        const snapshots = {};
        let shown = 0; // the length of the snapshot on display
''')],js=js(r'''
    const body = u => { const m = u.match(/patch=(\d+)/); return m ? `{"a" <1>: ${m[1]}}` : '{"a" <1>: 0}'; };
    context.window.onload();
    await rest();
    await all(body);
    for (const p of ['3', '4']) {
        el('patchSelect').value = p;
        context.updatePatchAndReset();
        await rest();
        await all(body);
        context.onAppendSnapshotClicked();
        await rest();
        await all(body);
        context.onAppendSnapshotClicked();
        await rest();
        check(el('snapshotView').textContent === `{"a" <1>: ${p}}`, p, el('snapshotView').textContent);
    }'''),
  needs='two snapshots whose texts are equally long',breaks='a snapshot is not shown when it is as long as the one on display'),
 dict(name='c37-long-number',prop='C37',edits=[('index.html','''                    return `<span class="${cls}">${match}</span>`;''','''                    if (cls === "number" && match.length > 20) {
                        match = String(Number(match));
                    }
                    return `<span class="${cls}">${match}</span>`;''')],js=js(r'''
    const body = u => '{"a" <-9223372036854775808>: 123.45678901234567890123}';
    context.window.onload();
    await rest();
    await all(body);
    check(el('view').textContent === body(''), el('view').textContent);
    const body2 = u => '{"a" <1>: -1234567890123456.75, "b" <2>: 12345678901234567890123.5}';
    context.updateVehicle();
    await rest();
    await all(body2);
    check(el('view').textContent === body2(''), el('view').textContent);'''),
  needs='a number of more than 20 characters',breaks='long numbers are rounded when they are shown'),
 dict(name='c37-snapshot-name',prop='C37',edits=[('index.html','''            const snapshotName = `car_${car}_patch_${patch - 1} Snapshot`;
''','''            const snapshotName = `car_${car}_patch_${patch - 1} Snapshot`;
            if (snapshots[snapshotName] && snapshots[snapshotName].length === snapshotText.length) {
                return; // it is saved already
            }
''')],js=js(r'''
    const body = u => { const m = u.match(/patch=(\d+)/); return m ? `{"a" <1>: ${m[1]}}` : '{"a" <1>: 0}'; };
    context.window.onload();
    await rest();
    await all(body);
    for (const p of ['3', '4', '3']) {
        el('patchSelect').value = p;
        context.updatePatchAndReset();
        await rest();
        await all(body);
        context.onAppendSnapshotClicked();
        await rest();
        await all(body);
        context.onAppendSnapshotClicked();
        await rest();
        check(el('snapshotView').textContent === `{"a" <1>: ${p}}`, p, el('snapshotView').textContent);
    }'''),
  needs='a snapshot taken again after another one was',breaks='saving a snapshot a second time does not show it'),
]
SPECS=[s for s in SPECS if s['name'] not in ('c37-first-kept','c37-snapshot-name','c35-size-of-last','c37-long-number')]
