import importlib.util,os
_s=importlib.util.spec_from_file_location('m',os.path.join(os.path.dirname(os.path.abspath(__file__)),'m.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
DS='exp/doc_data_save.go'; SR='exp/sensor_data_save.go'; UT='exp/utils_temporal.go'; XS='exp/exp_scenario.go'; W='web_demo.go'; LG='internal/logument/logument.go'
from b import ex,mn
FDS='''
func open() int {
	l, _ := os.ReadDir("/proc/self/fd")
	return len(l)
}
'''
HEAP='''
func alive() int {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}
'''
def lgt(body,imports='',extra=''): return ex(body,imports,extra).replace('package exp','package logument')
def tst(body,imports='',extra=''): return ex(body,imports,extra).replace('package exp','package tson')
SPECS=[
dict(name='c39-unflushed',prop='C39',pkg='exp',edits=[(DS,'''	// Write to the file
	if err := os.WriteFile(filePath, jsonData, 0644); err != nil {
		return fmt.Errorf("file write error %s: %v", filePath, err)
	}
''','''	// Write to the file
	file, err := os.Create(filePath)
	if err != nil {
		return fmt.Errorf("file write error %s: %v", filePath, err)
	}
	defer file.Close()
	out := bufio.NewWriter(file)
	defer out.Flush()
	if _, err := out.Write(jsonData); err != nil {
		return fmt.Errorf("file write error %s: %v", filePath, err)
	}
'''),(DS,'''	"encoding/json"
''','''	"bufio"
	"encoding/json"
''')],
 needs='a full disk',breaks='a save of less than 4 KiB that fails is reported as done',
 demo=ex('''	ds := NewDataStorage(t.TempDir(), "s")
	os.Symlink("/dev/full", filepath.Join(ds.OutputDir, "final_json.json"))
	if err := ds.SaveFinalJSON("x"); err == nil {
		b, _ := os.Lstat(filepath.Join(ds.OutputDir, "final_json.json"))
		if !b.Mode().IsRegular() {
			t.Fatal("not reported")
		}
	}''','os path/filepath')),
dict(name='c39-recorder-goes-on',prop='C39',pkg='exp',edits=[(SR,'''			// Close all open files in case of an error
			recorder.Close()
			return nil, fmt.Errorf("failed to create CSV file %s: %v", fileName, err)
''','''			// Record the other sensors at least
			fmt.Printf("failed to create CSV file %s: %v\\n", fileName, err)
			continue
''')],
 needs='a sensor file that cannot be created',breaks='the sensor is not recorded and nobody is told',
 demo=ex('''	d := t.TempDir()
	r, _ := NewSensorDataRecorder(d, "s")
	n := r.CSVFiles["Vehicle.Speed"].Name()
	r.Close()
	os.Remove(n)
	os.Mkdir(n, 0755)
	if _, err := NewSensorDataRecorder(d, "s"); err == nil {
		t.Fatal("not reported")
	}''','os')),
dict(name='c43-refused-recorder',prop='C43',pkg='exp',edits=[(SR,'''			// Close all open files in case of an error
			recorder.Close()
			return nil''','''			return nil''')],
 needs='a recorder that cannot be made since one of its later files cannot be created',breaks='the files created before it stay open',
 demo=ex('''	debug.SetGCPercent(-1)
	d := t.TempDir()
	r, _ := NewSensorDataRecorder(d, "s")
	n := r.CSVFiles[KeySensorPaths[len(KeySensorPaths)-1]].Name()
	r.Close()
	os.Remove(n)
	os.Mkdir(n, 0755)
	before := open()
	for i := 0; i < 20; i++ {
		if _, err := NewSensorDataRecorder(d, "s"); err == nil {
			t.Fatal("not reported")
		}
	}
	if open() > before+20 {
		t.Fatal(open(), before)
	}''','os runtime/debug',FDS)),
dict(name='c43-results-open',prop='C43',pkg='exp',edits=[(UT,'''	defer file.Close()

	writer := csv.NewWriter(file)
''','''
	writer := csv.NewWriter(file)
''')],
 needs='many result tables written by one process',breaks='each stays open',
 demo=ex('''	debug.SetGCPercent(-1)
	e := &TemporalQueryExperiment{OutputDir: t.TempDir()}
	before := open()
	for i := 0; i < 20; i++ {
		if err := e.SaveResults(nil, "r.csv"); err != nil {
			t.Fatal(err)
		}
	}
	if open() > before+10 {
		t.Fatal(open(), before)
	}''','os runtime/debug',FDS)),
dict(name='c43-simulation-open',prop='C43',pkg='exp',edits=[(XS,'''		defer cumulativeFile.Close()
''','')],
 needs='several simulations in one process',breaks='a file of each stays open',
 demo=ex('''	debug.SetGCPercent(-1)
	t.Chdir(t.TempDir())
	RealworldScenario()
	before := open()
	RealworldScenario()
	if open() > before+1 {
		t.Fatal(open(), before)
	}''','os runtime/debug',FDS)),
dict(name='c43-known-strings',prop='C43',pkg='tson',edits=[(SZ,'''			return string(result), nil
''','''			return known(string(result)), nil
'''),(SZ,'''func (p *Parser) parseString() (string, error) {
''','''// strs holds the strings read so far: most keys come again and again.
var strs sync.Map

// known gives the one string of this text, for documents to share it.
func known(s string) string {
	t, _ := strs.LoadOrStore(s, s)
	return t.(string)
}

func (p *Parser) parseString() (string, error) {
'''),(SZ,'''	"strings"
''','''	"strings"
	"sync"
''')],
 needs='many texts with ever new strings read by one process',breaks='every string ever read stays in memory',
 demo=tst('''	read := func(from, to int) {
		for i := from; i < to; i++ {
			var d Tson
			if err := Unmarshal([]byte(fmt.Sprintf(`"text number %d" <5>`, i)), &d); err != nil {
				t.Fatal(err)
			}
		}
	}
	read(0, 1000)
	before := alive()
	read(1000, 50000)
	if now := alive(); now > before+1000000 {
		t.Fatal(now, before)
	}''','fmt runtime',HEAP)),
dict(name='c43-all-logs',prop='C43',pkg='logument',edits=[(LG,'''	if initialPatches != nil {
		lgm.Store(initialPatches)
	}

	return lgm

}
''','''	if initialPatches != nil {
		lgm.Store(initialPatches)
	}

	logs.Store(lgm, len(lgm.PatchPool))
	return lgm
}

// logs notes the logs there are, for debugging.
var logs sync.Map
'''),(LG,'''	"strings"

''','''	"strings"
	"sync"

''')],
 needs='many logs made by one process',breaks='none is ever released',
 demo=lgt('''	mk := func(n int) {
		for i := 0; i < n; i++ {
			NewLogument(`{"a" <1>: 1}`, nil)
		}
	}
	mk(100)
	before := alive()
	mk(5000)
	if now := alive(); now > before+1000000 {
		t.Fatal(now, before)
	}''','runtime',HEAP)),
dict(name='c43-minute-report',prop='C43',pkg='exp',edits=[(SR,'''	StartTime  time.Time              // Experiment start time
}
''','''	StartTime  time.Time              // Experiment start time
	ticker     *time.Ticker           // Reports the progress
}
'''),(SR,'''	return recorder, nil
}
''','''	recorder.ticker = time.NewTicker(time.Minute)
	go func() {
		for range recorder.ticker.C {
			fmt.Printf("Recording to %s for %v\\n", sensorDataDir, time.Since(recorder.StartTime))
		}
	}()
	return recorder, nil
}
'''),(SR,'''	// Close all files
	for _, file := range r.CSVFiles {
''','''	if r.ticker != nil {
		r.ticker.Stop()
	}

	// Close the files
	for _, file := range r.CSVFiles {
''')],
 needs='several recorders opened and closed by one process',breaks='the goroutine of each goes on waiting for ever (stopping a ticker does not close its channel)',
 demo=ex('''	before := runtime.NumGoroutine()
	d := t.TempDir()
	for i := 0; i < 20; i++ {
		r, _ := NewSensorDataRecorder(d, "s")
		r.Close()
	}
	time.Sleep(300 * time.Millisecond)
	if runtime.NumGoroutine() > before+10 {
		t.Fatal(runtime.NumGoroutine(), before)
	}''','runtime time')),
dict(name='c43-request-log',prop='C43',pkg='main',edits=[(W,'''	// Send the result
	w.Write(result)
}
''','''	// Send the result, and note what was asked for
	w.Write(result)
	asked.Store(r, maxpatch)
}

// asked is what was asked for, for the statistics.
var asked sync.Map
'''),(W,'''	"strconv"
''','''	"strconv"
	"sync"
''')],
 needs='a server that answers many requests',breaks='the server keeps every request in memory',
 demo=mn('''	t.Chdir(t.TempDir())
	os.MkdirAll("dataset/car_1/tson", 0755)
	os.WriteFile("dataset/car_1/tson/1_1.tson", []byte(`{"a" <1>: 2}`), 0644)
	get := func(n int) {
		for i := 0; i < n; i++ {
			w := httptest.NewRecorder()
			patchHandler(w, httptest.NewRequest("GET", "/patch?car=1&patch=1", nil))
			if w.Code != 200 {
				t.Fatal(w.Code)
			}
		}
	}
	get(100)
	before := alive()
	get(5000)
	if now := alive(); now > before+1000000 {
		t.Fatal(now, before)
	}''','net/http/httptest os runtime',HEAP)),
dict(name='c43-time-cache',prop='C43',pkg='logument',edits=[(LG,'''	PatchPool    tsonPatches             // A pool of Patches from `Store` Function
}
''','''	PatchPool    tsonPatches             // A pool of the Patches from `Store` Function
	answers      map[[2]int64]tsonSnapshot // What was asked with how many versions and at what time
}
'''),(LG,'''func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
''','''func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
	key := [2]int64{int64(len(lgm.Version)), tsk}
	if len(lgm.PatchPool) > 0 {
		return lgm.snapshotAt(tsk)
	}
	if snapshot, ok := lgm.answers[key]; ok {
		return snapshot
	}
	snapshot := lgm.snapshotAt(tsk)
	if lgm.answers == nil {
		lgm.answers = map[[2]int64]tsonSnapshot{}
	}
	lgm.answers[key] = snapshot
	return snapshot
}

func (lgm *Logument) snapshotAt(tsk int64) tsonSnapshot {
''')],
 needs='one log asked for many different times',breaks='it keeps a document for each',
 demo=lgt('''	l := NewLogument(`{"a" <1>: 1}`, `[{"op":"replace","path":"/a","value":2,"timestamp":5}]`)
	l.Append()
	ask := func(from, to int64) {
		for i := from; i < to; i++ {
			l.TemporalSnapshot(i)
		}
	}
	ask(0, 100)
	before := alive()
	ask(100, 20000)
	if now := alive(); now > before+500000 {
		t.Fatal(now, before)
	}
	runtime.KeepAlive(l)''','runtime',HEAP)),
dict(name='c43-room',prop='C43',pkg='logument',edits=[(LG,'''	lgm.Patches[latestVersion+1] = lgm.PatchPool
''','''	// With room for what is set later, which goes before all later versions
	lgm.Patches[latestVersion+1] = append(make(tsonPatches, 0, len(lgm.PatchPool)+int(latestVersion)), lgm.PatchPool...)
''')],
 needs='a log with many versions',breaks='each version takes more memory than the one before: the log grows with the square of its length',
 demo=lgt('''	l := NewLogument(`{"a" <1>: 1}`, nil)
	grow := func(n int) int {
		before := alive()
		for i := 0; i < n; i++ {
			l.Store(`[{"op":"replace","path":"/a","value":2,"timestamp":5}]`)
			l.Append()
		}
		return alive() - before
	}
	grow(200)
	a := grow(500)
	b := grow(1000)
	if b > 5*a/2+200000 {
		t.Fatal(a, b)
	}
	runtime.KeepAlive(l)''','runtime',HEAP)),
]
