import importlib.util,os
_s=importlib.util.spec_from_file_location('e',os.path.join(os.path.dirname(os.path.abspath(__file__)),'e.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
L='internal/logument/logument.go'; T='internal/tson/tson.go'; P='internal/tsonpatch/tsonpatch.go'; SZ='internal/tson/serialization.go'
IM='''import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

var _ = fmt.Sprint
var _ = reflect.DeepEqual
var _ = strings.Join

func op(kind, path string, v any, ts int64) tsonpatch.Operation {
	return tsonpatch.Operation{Op: tsonpatch.OpType(kind), Path: path, Value: v, Timestamp: ts}
}
'''
def lg(body): return 'package logument\n\n'+IM+'\nvar _ = tson.Object{}\n\nfunc TestDemo(t *testing.T) {\n'+body+'\n}\n'
def pt(body): return 'package tsonpatch_test\n\n'+IM+'\nvar _ = tson.Object{}\n\nfunc TestDemo(t *testing.T) {\n'+body+'\n}\n'
def ts(body,imports=''): return 'package tson\n\nimport (\n\t"testing"\n'+''.join(f'\t"{i}"\n' for i in imports.split())+')\n\nfunc TestDemo(t *testing.T) {\n'+body+'\n}\n'
SPECS=[
dict(name='c12-slice-versions',prop='C12',pkg='logument',edits=[(L,'''			// so the following line works correctly only in this loop.
			SlicedVersions = append(SlicedVersions, version)
''','''			// so the following line works correctly only in this loop.
			first, next := vi-lgm.Version[0], version-lgm.Version[0]+1
			SlicedVersions = lgm.Version[first:next]
''')],
 needs='a slice that ends before the latest version, appended to afterwards',breaks='the version list of the sliced log is overwritten',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	for i := 0; i < 4; i++ {
		l.Store(op("add", "/a", float64(i), 1))
		l.Append()
	}
	s := l.Slice(1, 2)
	s.Store(op("add", "/b", 1.0, 2))
	s.Append()
	s.Version[len(s.Version)-1] += 0
	s2 := l.Slice(0, 1)
	s2.Version[1] = 1
	s.Version[0] = 77
	if !reflect.DeepEqual(l.Version, []uint64{0, 1, 2, 3, 4}) {
		t.Fatal(l.Version)
	}''')),
dict(name='c01-evict',prop='C01',pkg='logument',edits=[(L,'''	if _, exists := lgm.Snapshots[vk]; !exists {
		lgm.Snapshots[vk] = timedSnapshot
	}

	return timedSnapshot''','''	if _, exists := lgm.Snapshots[vk]; !exists {
		lgm.keep(vk, timedSnapshot)
	}

	return timedSnapshot'''),(L,'''func (lgm *Logument) TemporalSnapshot(''','''func (lgm *Logument) keep(vk uint64, snapshot tsonSnapshot) {
	if kept := lgm.getSortedVersions("snapshot"); len(kept) >= 24 { // do not hold too many
		delete(lgm.Snapshots, kept[0])
	}
	lgm.Snapshots[vk] = snapshot
}

func (lgm *Logument) TemporalSnapshot(''')],
 needs='more than 24 snapshots taken, then an early version asked for',breaks='the initial snapshot is evicted and the early versions cannot be told any more',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	for i := 0; i < 40; i++ {
		l.Store(op("add", "/a", float64(i), 1))
		l.Append()
	}
	for i := 40; i >= 0; i-- {
		s := l.Snapshot(uint64(i))
		if i > 0 && s.(tson.Object)["a"].(tson.Leaf[float64]).Value != float64(i-1) {
			t.Fatal(i, s)
		}
	}
	l.Snapshot(0)''')),
dict(name='c04-context',prop='C04',pkg='logument',edits=[(L,'''	sort.Slice(paths, func(i, j int) bool { return paths[i] < paths[j] })
''','''	slices.Sort(paths)

	// What the receiver has already
	if vi > 1 && vi == vj {
		for _, patch := range lgm.Patches[vi-1] {
			latestValues.update(patch)
		}
	}
''')],
 needs='a range of a single version that begins with the value the version before it set',breaks='the first operation of the range is left out',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	for i := 0; i < 4; i++ {
		l.Store(op("add", "/a", 1.0, int64(i)))
		l.Append()
	}
	if p := l.Track(3, 3); len(p[3]) != 1 {
		t.Fatal(p)
	}'''),orig_ok=True),
dict(name='c08-same-instant',prop='C08',pkg='logument',edits=[(L,'''			if patch.Timestamp >= tsi && patch.Timestamp <= tsj {
				SlicedPatches[version] = append(SlicedPatches[version], patch)
			}
''','''			if patch.Timestamp >= tsi && patch.Timestamp <= tsj {
				taken := SlicedPatches[version]
				if n := len(taken); n > 0 && taken[n-1].Path == patch.Path && taken[n-1].Timestamp == patch.Timestamp {
					taken = taken[:n-1] // overwritten at once
				}
				SlicedPatches[version] = append(taken, patch)
			}
''')],
 needs='two operations on one path at the same time right after each other in a version',breaks='the first of them is missing in the time slice',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	l.Store(op("add", "/a", 1.0, 3))
	l.Store(op("add", "/a", 2.0, 3))
	l.Append()
	if p := l.TemporalSlice(1, 5).Patches[1]; len(p) != 2 {
		t.Fatal(p)
	}''')),
dict(name='c10-add-existing',prop='C10',pkg='logument',edits=[(L,'''			historyPatches[key] = append([]tsonpatch.Operation{{
				Op:        tsonpatch.OpAdd,
				Path:      key,
				Value:     val,
				Timestamp: 0,
			}},
				historyPatches[key]...) // Add the initial value to the beginning
''','''			initial := tsonpatch.Operation{
				Op:        tsonpatch.OpAdd,
				Path:      key,
				Value:     val,
				Timestamp: 0,
			}
			if history := historyPatches[key]; history[0].Op != tsonpatch.OpAdd || history[0].Timestamp > 0 { // else it was not there
				historyPatches[key] = append([]tsonpatch.Operation{initial}, history...) // Add the initial value to the beginning
			}
''')],
 needs='an add at time 0 or before on a path the initial document has',breaks='the initial value is missing in the history',
 demo=lg('''	l := NewLogument(tson.Object{"a": tson.Leaf[float64]{Value: 7, Timestamp: 0}}, nil)
	l.Store(op("add", "/a", 1.0, 0))
	l.Append()
	if h := l.History("/a")["/a"]; len(h) != 2 {
		t.Fatal(h)
	}''')),
dict(name='c14-remove-twice',prop='C14',pkg='tsonpatch',edits=[(P,'''	for _, op := range patch {
''','''	for i, op := range patch {
		if i > 0 && op.Op == OpRemove && op.Timestamp != 0 && patch[i-1].Op == OpRemove && patch[i-1].Path == op.Path && patch[i-1].Timestamp == op.Timestamp {
			continue // sent twice
		}
''')],
 needs='two removals of the same array index right after each other, at the same time',breaks='the second one is dropped',
 demo=pt('''	d := tson.Object{"a": tson.Array{tson.Leaf[bool]{}, tson.Leaf[bool]{}, tson.Leaf[bool]{}}}
	r, err := tsonpatch.ApplyPatch(d, tsonpatch.Patch{op("remove", "/a/0", nil, 5), op("remove", "/a/0", nil, 5)})
	if err != nil || len(r.(tson.Object)["a"].(tson.Array)) != 1 {
		t.Fatal(r, err)
	}''')),
dict(name='c18-empty-parent',prop='C18',pkg='tsonpatch',edits=[(P,'''	return path + "/" + key
''','''	return strings.TrimSuffix(path, "/") + "/" + key
''')],
 needs='a difference below a member whose key is empty',breaks='the generated path leaves the empty key out',
 demo=pt('''	a := tson.Object{"": tson.Object{"x": tson.Leaf[float64]{Value: 1}}}
	b := tson.Object{"": tson.Object{"x": tson.Leaf[float64]{Value: 2}}}
	p, err := tsonpatch.GeneratePatch(a, b)
	if err != nil || len(p) != 1 || p[0].Path != "//x" {
		t.Fatal(p, err)
	}''')),
dict(name='c25-int8',prop='C25',pkg='tson',edits=[(T,'''				index, err := strconv.Atoi(parts[0])
				if err != nil {
					return nil, fmt.Errorf("invalid index: %s", parts[0])
				}
				if index < 0''','''				n, err := strconv.ParseInt(parts[0], 10, 16)
				index := int(n)
				if err != nil {
					return nil, fmt.Errorf("invalid index: %s", parts[0])
				}
				if index < 0''')],
 needs='the element of an array behind index 32767',breaks='it is not found',
 demo=ts('''	if _, err := GetValue(make(Array, 40000), "/39999"); err != nil {
		t.Fatal(err)
	}''')),
dict(name='c13-index-overflow',prop='C14',pkg='tsonpatch',edits=[(P,'''	if idx, err = strconv.Atoi(part); err != nil {
		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
	}''','''	n, err := strconv.ParseInt(part, 10, 16)
	if err != nil {
		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
	}
	idx = int(n)''')],
 needs='a patch of an array element behind index 32767',breaks='it is refused',
 demo=pt('''	r, err := tsonpatch.ApplyPatch(make(tson.Array, 40000), tsonpatch.Patch{op("replace", "/39999", 1.0, 5)})
	if err != nil || r.(tson.Array)[39999] == nil {
		t.Fatal(err)
	}''')),
dict(name='c15-many-removed',prop='C15',pkg='tsonpatch',edits=[(P,'''	for key := range origin {
		_, found := modified[key]
		if !found {
''','''	for key, value := range origin {
		_, found := modified[key]
		if value == nil && len(modified) == 0 {
			found = true // nothing is left of nothing
		}
		if !found {
''')],
 needs='a null member removed together with all its siblings',breaks='the null stays',
 demo=pt('''	p, err := tsonpatch.GeneratePatch(tson.Object{"o": tson.Object{"n": nil}, "x": tson.Leaf[bool]{}}, tson.Object{"o": tson.Object{}, "x": tson.Leaf[bool]{}})
	if err != nil || len(p) != 1 {
		t.Fatal(p, err)
	}''')),
dict(name='c05-version-bounds',prop='C05',pkg='logument',edits=[(L,'''		ps := lgm.Patches[version]
		compactPatches := make(tsonPatches, 0, len(ps))
		for _, p := range ps {
			if p.Timestamp >= tsi && p.Timestamp <= tsj {
''','''		ps := lgm.Patches[version]
		compactPatches := make(tsonPatches, 0, len(ps))
		for k, p := range ps {
			if n := len(ps); k == 0 && n > 2 && p.Timestamp > tsj && ps[n-1].Timestamp > tsj { // all of it is later
				break
			}
			if p.Timestamp >= tsi && p.Timestamp <= tsj {
''')],
 needs='a version whose first and last operations are later than the window, with one of the window between them',breaks='the operation is missing in the time track',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	l.Store(op("add", "/a", 1.0, 9))
	l.Store(op("add", "/b", 1.0, 3))
	l.Store(op("add", "/c", 1.0, 9))
	l.Append()
	if p := l.TemporalTrack(1, 5)[1]; len(p) != 1 {
		t.Fatal(p)
	}''')),
dict(name='c11-deep-set',prop='C11',pkg='logument',edits=[(L,'''		lgm.Set(vk,
			tsonpatch.Operation{
				Op:        "add",
				Path:      patch.Path,
				Value:     patch.Value,
				Timestamp: patch.Timestamp,
			})
		return''','''		if strings.HasSuffix(patch.Path, "/-") { // behind the last element
			return
		}
		patch.Op = "add"
		lgm.Set(vk, patch)
		return''')],
 needs='a test-set on a missing object member called "-"',breaks='nothing is set',
 demo=lg('''	l := NewLogument(tson.Object{"a": tson.Object{}}, nil)
	l.TestSet(0, op("replace", "/a/-", 1.0, 3))
	if len(l.PatchPool) != 1 {
		t.Fatal(l.PatchPool)
	}''')),
dict(name='c37-e-number',prop='C37',pkg='main',edits=[('index.html','''                    } else if (/null/.test(match)) {
                        cls = "null";
                    }
''','''                    } else if (match === "null") {
                        cls = "null";
                    } else if (/e\\+/.test(match)) {
                        match = match.replace("e+", "e"); // shorter
                    }
''')],js=r'''
const fs = require("fs"), vm = require("vm");
const html = fs.readFileSync(process.argv[2], "utf8");
const script = html.match(/<script>([\s\S]*)<\/script>/)[1];
const ctx = { window: {}, document: { getElementById: () => ({}) } };
vm.createContext(ctx);
vm.runInContext(script, ctx);
const out = ctx.syntaxHighlight('{"a": 1e+21}').replace(/<[^>]*>/g, "").replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&amp;/g, "&");
if (out !== '{"a": 1e+21}') { console.error(out); process.exit(1); }
''',needs='a number with a positive exponent',breaks='it is not shown as stored'),
dict(name='c37-entity',prop='C37',pkg='main',edits=[('index.html','''                .replace(/&/g, "&amp;")
''','''                .replace(/&(?!\\w+;)/g, "&amp;")
''')],js=r'''
const fs = require("fs"), vm = require("vm");
const html = fs.readFileSync(process.argv[2], "utf8");
const script = html.match(/<script>([\s\S]*)<\/script>/)[1];
const ctx = { window: {}, document: { getElementById: () => ({}) } };
vm.createContext(ctx);
vm.runInContext(script, ctx);
const out = ctx.syntaxHighlight('{"a": "&lt;"}');
if (!out.includes("&amp;lt;")) { console.error(out); process.exit(1); }
''',needs='a string that holds an entity',breaks='the entity is shown as the character it stands for'),
dict(name='c21-number-buffer',prop='C21',pkg='tson',edits=[]),
]
SPECS=[s for s in SPECS if s['edits']]
