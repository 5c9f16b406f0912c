L='internal/logument/logument.go'; P='internal/tsonpatch/tsonpatch.go'; T='internal/tson/tson.go'; S='internal/tson/serialization.go'
def lg(body,imports=''):
    return '''package logument_test

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

var _ = fmt.Sprint
var _ = reflect.DeepEqual
var _ tson.Tson
var _ tsonpatch.Patch

func num(path string, v float64, ts int64) tsonpatch.Operation {
	return tsonpatch.Operation{Op: "replace", Path: path, Value: v, Timestamp: ts}
}

func TestDemo(t *testing.T) {
'''+body+'''
}
'''
def ts(pkg,body):
    return '''package '''+pkg+'''_test

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

var _ = fmt.Sprint
var _ = json.Valid
var _ = strings.Repeat
var _ = reflect.DeepEqual
var _ tson.Tson
var _ tsonpatch.Patch

func read(t *testing.T, s string) (d tson.Tson) {
	if err := tson.Unmarshal([]byte(s), &d); err != nil {
		t.Fatal(err)
	}
	return
}

func TestDemo(t *testing.T) {
'''+body+'''
}
'''
SPECS=[
dict(name='c01-far-snapshot',prop='C01',pkg='logument',
 edits=[(L,'''				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
			}
		}
	}

	if _, exists := lgm.Snapshots[vk]; !exists {''','''				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
			}
			// Keep a checkpoint now and then, so that later requests are fast
			if (i-latestVersion)%8 == 0 {
				lgm.Snapshots[i+1] = timedSnapshot
			}
		}
	}

	if _, exists := lgm.Snapshots[vk]; !exists {'''),
 (L,'''	if latestVersion != vk {
		// Apply patches''','''	if latestVersion < vk {
		// Apply patches''')],
 needs='a snapshot nine or more versions above the nearest stored one, then a snapshot of the version after the eighth',
 breaks='checkpoints kept by a far snapshot are filed one version too high, so a later snapshot of that version lacks its patch',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, nil)
	for i := 1; i <= 12; i++ {
		lgm.Store(num("/a", float64(i), int64(i)))
		lgm.Append()
	}
	lgm.Snapshot(12)
	for k := uint64(1); k <= 12; k++ {
		if got := lgm.Snapshot(k).(tson.Object)["a"].(tson.Leaf[float64]).Value; got != float64(k) {
			t.Fatalf("version %d holds %v", k, got)
		}
	}''')),
dict(name='c02-store-dedup',prop='C02',pkg='logument',
 edits=[(L,'''		lgm.PatchPool = append(lgm.PatchPool, patches...)
	}
''','''		for _, patch := range patches {
			// Storing the same operation once more adds nothing
			if last := lgm.PatchPool[len(lgm.PatchPool)-1:]; len(last) == 1 && last[0] == patch {
				continue
			}
			lgm.PatchPool = append(lgm.PatchPool, patch)
		}
	}
''')],
 needs='an operation stored that is identical to the last pending one, in another store call',
 breaks='store drops an operation that repeats the last pending one',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, nil)
	lgm.Store(num("/a", 1, 5))
	lgm.Store(tsonpatch.Patch{num("/a", 1, 5), num("/a", 2, 6)})
	if len(lgm.PatchPool) != 3 {
		t.Fatalf("%d operations pending", len(lgm.PatchPool))
	}''')),
dict(name='c03-track-in-place',prop='C03',pkg='logument',
 edits=[(L,'''		patches := packedPatches[path]
		compactPatches := make(tsonPatches, 0, len(patches))''','''		patches := packedPatches[path]
		compactPatches := patches[:0]''')],
 needs='a tracked version with a repeated value before another operation',
 breaks='track filters the recorded operations in place',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, tsonpatch.Patch{num("/a", 1, 5), num("/a", 1, 6), num("/a", 2, 7)})
	lgm.Append()
	before := fmt.Sprint(lgm.Patches)
	lgm.Track(0, 1)
	if got := fmt.Sprint(lgm.Patches); got != before {
		t.Fatalf("%s became %s", before, got)
	}''')),
dict(name='c04-order-of-versions',prop='C04',pkg='logument',
 edits=[(L,'''	sort.Slice(paths, func(i, j int) bool { return paths[i] < paths[j] })
''','''	sort.Slice(paths, func(i, j int) bool {
		return strconv.FormatUint(paths[i], 10) < strconv.FormatUint(paths[j], 10)
	})
''')],
 needs='a range over version 10 in which a value changes around it',
 breaks='track goes through the versions in the order of their names, so from version 10 on repetitions are judged against the wrong version',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, nil)
	for i := 1; i <= 12; i++ {
		lgm.Store(num("/a", float64((i+1)/2), int64(i)))
		lgm.Append()
	}
	got := lgm.Track(1, 12)
	for i := 1; i <= 12; i++ {
		want := 1
		if i > 1 && (i+1)/2 == i/2 {
			want = 0
		}
		if len(got[uint64(i)]) != want {
			t.Fatalf("version %d: %v", i, got[uint64(i)])
		}
	}''')),
dict(name='c05-early-end',prop='C05',pkg='logument',
 edits=[(L,'''			if p.Timestamp >= tsi && p.Timestamp <= tsj {
				// Compare to previous value''','''			if p.Timestamp > tsj { // nothing more in the window
				break
			}
			if p.Timestamp >= tsi {
				// Compare to previous value''')],
 needs='a version whose operations are not in time order, one after the window stored before one in it',
 breaks='time track stops at the first operation after the window',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, tsonpatch.Patch{num("/a", 1, 50), num("/a", 2, 6)})
	lgm.Append()
	if got := lgm.TemporalTrack(0, 10); len(got[1]) != 1 {
		t.Fatal(got)
	}''')),
dict(name='c07-snapshot-order',prop='C07',pkg='logument',also=['C01'],
 edits=[(L,'''	sort.Slice(versions, func(i, j int) bool { return versions[i] < versions[j] })

	return versions''','''	sort.Slice(versions, func(i, j int) bool { return fmt.Sprint(versions[i]) < fmt.Sprint(versions[j]) })

	return versions''')],
 needs='a slice that starts below version 10 with two or more stored snapshots from version 10 on',
 breaks='stored snapshots are searched in the order of their names, so the slice finds none at or before a version it covers and panics',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <0>: 0}`, nil)
	for i := 1; i <= 12; i++ {
		lgm.Store(num("/a", float64(i), int64(i)))
		lgm.Append()
	}
	lgm.Snapshot(10)
	lgm.Snapshot(11)
	s := lgm.Slice(2, 12)
	for k := uint64(2); k <= 12; k++ {
		if eq, err := tson.Equal(s.Snapshot(k), lgm.Snapshot(k)); err != nil || !eq {
			t.Fatal(k)
		}
	}''')),
dict(name='c08-skip-old-versions',prop='C08',pkg='logument',
 edits=[(L,'''		patches := lgm.Patches[version]
		for _, patch := range patches {
			if patch.Timestamp >= tsi && patch.Timestamp <= tsj {''','''		patches := lgm.Patches[version]
		if n := len(patches); n > 0 && patches[n-1].Timestamp < tsi {
			continue // a version from before the window
		}
		for _, patch := range patches {
			if tsi <= patch.Timestamp && patch.Timestamp <= tsj {''')],
 needs='a version whose last operation is older than the window while an earlier one lies in it',
 breaks='the time slice leaves out versions that end with an older operation',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <0>: 0}`, tsonpatch.Patch{num("/a", 1, 50), num("/b", 2, 6)})
	lgm.Append()
	s := lgm.TemporalSlice(20, 60)
	if len(s.Patches[1]) != 1 {
		t.Fatal(s.Patches)
	}''')),
dict(name='c09-other-paths',prop='C09',pkg='logument',
 edits=[(L,'''				compactPatches = append(compactPatches, p)
			}
		}
		lgm.Patches[version] = compactPatches''','''				if n := len(compactPatches); n == 0 || compactPatches[n-1] != p {
					compactPatches = append(compactPatches, p)
				}
			}
		}
		lgm.Patches[version] = compactPatches''')],
 needs='two identical operations in a row on a path outside the target',
 breaks='compaction of one path also removes repeated operations on others',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <0>: 0, "b" <0>: 0}`, tsonpatch.Patch{num("/b", 1, 5), num("/b", 1, 5)})
	lgm.Append()
	lgm.Compact("/a")
	if len(lgm.Patches[1]) != 2 {
		t.Fatal(lgm.Patches)
	}''')),
dict(name='c10-initial-entry',prop='C10',pkg='logument',
 edits=[(L,'''			historyPatches[key] = append([]tsonpatch.Operation{{
				Op:        tsonpatch.OpAdd,''','''			historyPatches[key] = append([]tsonpatch.Operation{{
				Op:        historyPatches[key][0].Op,''')],
 needs='a path whose first recorded operation is a replace or remove',
 breaks='the initial value is listed with the kind of the first operation on the path',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <0>: 0}`, tsonpatch.Patch{{Op: "remove", Path: "/a", Timestamp: 5}})
	lgm.Append()
	if h := lgm.History("/a"); h["/a"][0].Op != "add" {
		t.Fatal(h)
	}''')),
dict(name='c11-close-values',prop='C11',pkg='logument',
 edits=[(L,'''			return leaf.Value == floatVal
''','''			return math.Abs(leaf.Value-floatVal) < 1e-9
'''),(L,'''import (
''','''import (
	"math"
''')],
 needs='a test-set with a number that differs very little from the current one',
 breaks='a test-set drops a value that is different but close',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <0>: 0.5}`, nil)
	lgm.TestSet(0, num("/a", 0.5000000000001, 6))
	if len(lgm.PatchPool) != 1 {
		t.Fatal(lgm.PatchPool)
	}''')),
dict(name='c12-list-of-patches',prop='C12',pkg='logument',
 edits=[(L,'''		var tempPatches tsonPatches
		for _, patch := range inputPatches {
			tempPatches = append(tempPatches, patch...)
		}
		patches = tempPatches''','''		if len(inputPatches) > 0 {
			patches = inputPatches[0]
			for _, patch := range inputPatches[1:] {
				patches = append(patches, patch...)
			}
		}''')],
 needs='a list of patches the first of which has spare capacity that the caller still uses',
 breaks="storing a list of patches writes behind the caller's first patch",
 demo=lg('''
	all := tsonpatch.Patch{num("/a", 1, 1), num("/a", 2, 2), num("/a", 3, 3)}
	before := fmt.Sprint(all)
	lgm := logument.NewLogument(`{"a" <0>: 0.5}`, nil)
	lgm.Store([]tsonpatch.Patch{all[:1], all[2:]})
	if got := fmt.Sprint(all); got != before {
		t.Fatal(got)
	}''')),
dict(name='c12-compact-in-place',prop='C12',pkg='logument',also=['C09'],
 edits=[(L,'''		ps := lgm.Patches[version]
		compactPatches := make(tsonPatches, 0, len(ps))
		for _, p := range ps {
			pt''','''		ps := lgm.Patches[version]
		compactPatches := ps[:0]
		for _, p := range ps {
			pt''')],
 needs='compaction, with something to remove, of a log of which a slice exists (or of a slice)',
 breaks='compacting a log changes the operations of its slices and of the log it was sliced from',
 demo=lg('''
	lgm := logument.NewLogument(`{"a" <1>: 0}`, tsonpatch.Patch{num("/a", 1, 5), num("/a", 1, 6), num("/a", 2, 7)})
	lgm.Append()
	s := lgm.Slice(0, 1)
	before := fmt.Sprint(lgm.Patches)
	s.Compact("/a")
	if got := fmt.Sprint(lgm.Patches); got != before {
		t.Fatalf("%s became %s", before, got)
	}''')),
dict(name='c13-remove-behind-end',prop='C13',pkg='tsonpatch',
 edits=[(P,'''			} else {
				return nil, fmt.Errorf("applyTraverse(): Cannot %s on nil value at %s", op.Op, part)
			}
		default:''','''			} else {
				if len(parts) > 2 {
					return nil, fmt.Errorf("applyTraverse(): Cannot %s on nil value at %s", op.Op, part)
				}
				return j, nil // already gone
			}
		default:''')],
 needs='a remove (or unsupported operation) of a member of an object that does not exist',
 breaks='an operation that cannot be applied is silently accepted',
 demo=ts('tsonpatch','''
	d := read(t, `{"a" <1>: 1}`)
	for _, op := range []string{"remove", "move", "nonsense"} {
		if r, err := tsonpatch.ApplyOperation(d, tsonpatch.Operation{Op: tsonpatch.OpType(op), Path: "/x/y", Value: 1.0}); err == nil {
			t.Fatalf("%s gives %v", op, r)
		}
	}''')),
dict(name='c13-panic-at-end',prop='C13',pkg='tsonpatch',
 edits=[(P,'''			} else {
				return nil, fmt.Errorf("applyTraverse(): Index %d out of range for array of length %d", idx, len(j))
			}''','''			} else if idx > len(j) || len(parts) > 1 {
				return nil, fmt.Errorf("applyTraverse(): Index %d out of range for array of length %d", idx, len(j))
			}''')],
 needs='a remove at the index right behind the last element',
 breaks='removing the element right behind the last one panics',
 demo=ts('tsonpatch','''
	for n := 0; n < 9; n++ {
		d := read(t, "["+strings.TrimSuffix(strings.Repeat("1,", n), ",")+"]")
		if r, err := tsonpatch.ApplyOperation(d, tsonpatch.Operation{Op: "remove", Path: fmt.Sprintf("/%d", n)}); err == nil {
			t.Fatalf("gives %v", r)
		}
	}''')),
dict(name='c14-new-array',prop='C14',pkg='tsonpatch',
 edits=[(P,'''				_, err := getIndex(parts[1])
				if err == nil {''','''				idx, err := getIndex(parts[1])
				if err == nil && idx == 0 {''')],
 needs='an add below a missing member with an index above 0',
 breaks='a missing array is created as an object unless its first element is set',
 demo=ts('tsonpatch','''
	d, err := tsonpatch.ApplyOperation(read(t, `{}`), tsonpatch.Operation{Op: "add", Path: "/a/2", Value: true})
	if err != nil || fmt.Sprint(d.(tson.Object)["a"]) != "[<nil> <nil> {true 0}]" {
		t.Fatal(d, err)
	}''')),
dict(name='c14-int-values',prop='C14',pkg='tsonpatch',
 edits=[(P,'''					j[idx] = tson.Leaf[float64]{Value: float64(value), Timestamp: op.Timestamp}''','''					j[idx] = tson.Leaf[float64]{Value: float64(int32(value)), Timestamp: op.Timestamp}''')],
 needs='an integer value of more than 32 bits set in an array',
 breaks='large integers set in arrays are cut to 32 bits',
 demo=ts('tsonpatch','''
	d, err := tsonpatch.ApplyOperation(read(t, `[1]`), tsonpatch.Operation{Op: "replace", Path: "/0", Value: 5000000000})
	if err != nil || d.(tson.Array)[0].(tson.Leaf[float64]).Value != 5000000000 {
		t.Fatal(d, err)
	}''')),
dict(name='c15-close-numbers',prop='C15',pkg='tsonpatch',also=['C16'],
 edits=[(P,'''		if modified.(tson.Leaf[float64]).Value == org.Value {''','''		if d := modified.(tson.Leaf[float64]).Value - org.Value; -1e-9 < d && d < 1e-9 {''')],
 needs='numbers that differ by less than 1e-9',
 breaks='no operation is generated for a small change of a number',
 demo=ts('tsonpatch','''
	p, err := tsonpatch.GeneratePatch(read(t, `{"a" <1>: 0.5}`), read(t, `{"a" <1>: 0.5000000000001}`))
	if err != nil || len(p) != 1 {
		t.Fatal(p, err)
	}''')),
dict(name='c15-null-members',prop='C15',pkg='tsonpatch',also=['C16'],
 edits=[(P,'''		_, found := modified[key]
		if !found {''','''		if modified[key] == nil {''')],
 needs='an object member that is null in both documents, and some other difference',
 breaks='null members are removed',
 demo=ts('tsonpatch','''
	a, b := read(t, `{"a" <1>: 1, "n": null}`), read(t, `{"a" <1>: 2, "n": null}`)
	p, err := tsonpatch.GeneratePatch(a, b)
	if err != nil {
		t.Fatal(err)
	}
	c, err := tsonpatch.ApplyPatch(a, p)
	if eq, _ := tson.Equal(b, c); err != nil || !eq {
		t.Fatal(p, c, err)
	}''')),
dict(name='c16-small-time-step',prop='C16',pkg='tsonpatch',
 edits=[(P,'''		mod := modified.(tson.Leaf[bool])
		return org.Timestamp == mod.Timestamp''','''		mod := modified.(tson.Leaf[bool])
		return float64(org.Timestamp) == float64(mod.Timestamp)''')],
 needs='a boolean whose nanosecond timestamp changes by less than 256',
 breaks='a small change of the timestamp of a boolean goes unnoticed',
 demo=ts('tsonpatch','''
	p, err := tsonpatch.GeneratePatchWithTimestamp(read(t, `{"a" <1700000000123456789>: true}`), read(t, `{"a" <1700000000123456790>: true}`))
	if err != nil || len(p) != 1 {
		t.Fatal(p, err)
	}''')),
dict(name='c17-percent',prop='C17',pkg='tsonpatch',
 edits=[(P,'''	return fmt.Sprintf("[\\n%s\\n]", strings.Join(lines, ",\\n"))''','''	return fmt.Sprintf("[\\n" + strings.Join(lines, ",\\n") + "\\n]")''')],
 needs='a path or string with a percent sign',
 breaks='the text of a patch with a percent sign is garbled',
 demo=ts('tsonpatch','''
	p := tsonpatch.Patch{{Op: "add", Path: "/a", Value: "50%done"}}
	q, err := tsonpatch.Unmarshal([]byte(p.String()))
	if err != nil || !reflect.DeepEqual(p, q) {
		t.Fatal(q, err)
	}''')),
dict(name='c17-rest-ignored',prop='C17',pkg='tsonpatch',
 edits=[(P,'''	if err := json.Unmarshal(b, &patch); err != nil {''','''	if err := json.NewDecoder(bytes.NewReader(b)).Decode(&patch); err != nil {''')],
 needs='patch text with something behind its end',
 breaks='malformed patch text is accepted if only its beginning is fine',
 demo=ts('tsonpatch','''
	if p, err := tsonpatch.Unmarshal([]byte(`[{"op":"add","path":"/a","value":1,"timestamp":1}]]`)); err == nil {
		t.Fatal(p)
	}''')),
dict(name='c18-double-escape',prop='C18',pkg='tsonpatch',
 edits=[(P,'''	key := rfc6901Encoder.Replace(fmt.Sprintf("%v", newPart))
''','''	key := strings.ReplaceAll(strings.ReplaceAll(fmt.Sprint(newPart), "/", "~1"), "~", "~0")
'''),(P,'''var (
	rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
)
''','''
''')],
 needs='a key with a slash in a generated patch',
 breaks='slashes in keys are escaped twice in generated patches',
 demo=ts('tsonpatch','''
	a, b := read(t, `{"a/b" <1>: 1}`), read(t, `{"a/b" <1>: 2}`)
	p, err := tsonpatch.GeneratePatch(a, b)
	if err != nil {
		t.Fatal(err)
	}
	if c, err := tsonpatch.ApplyPatch(a, p); err != nil || !reflect.DeepEqual(b, c) {
		t.Fatal(p, c, err)
	}''')),
dict(name='c19-digits',prop='C19',pkg='tson',
 edits=[(S,'''					s.WriteString(fmt.Sprintf("<%d> %v", leaf.Timestamp, leaf.Value))
				} else {
					s.WriteString(fmt.Sprintf("<> %v", leaf.Value))
				}
			case Leaf[bool]:''','''					s.WriteString(fmt.Sprintf("<%d> %.15g", leaf.Timestamp, leaf.Value))
				} else {
					s.WriteString(fmt.Sprintf("<> %v", leaf.Value))
				}
			case Leaf[bool]:''')],
 needs='an indented array with a stamped number of 16 or 17 digits',
 breaks='numbers in arrays lose their last digits when written indented',
 demo=ts('tson','''
	d := read(t, `[<1> 0.30000000000000004]`)
	b, err := tson.MarshalIndent(d, "", " ")
	if err != nil || !reflect.DeepEqual(read(t, string(b)), d) {
		t.Fatal(string(b), err)
	}''')),
dict(name='c19-zero-timestamp',prop='C19',pkg='tson',
 edits=[(S,'''		case Leaf[bool]:
			if leaf.Timestamp >= 0 {
				s.WriteString(fmt.Sprintf(" <%d>", leaf.Timestamp))''','''		case Leaf[bool]:
			if leaf.Timestamp > 0 {
				s.WriteString(fmt.Sprintf(" <%d>", leaf.Timestamp))''')],
 needs='a boolean with timestamp 0 written in the compact form',
 breaks='the timestamp 0 of booleans is lost',
 demo=ts('tson','''
	d := read(t, `{"a" <0>: true}`)
	b, err := tson.Marshal(d)
	if err != nil || !reflect.DeepEqual(read(t, string(b)), d) {
		t.Fatal(string(b), err)
	}''')),
dict(name='c20-open-timestamp',prop='C20',pkg='tson',
 edits=[(S,'''	start := p.pos
	for p.pos < len(p.input) && p.input[p.pos] >= '0' && p.input[p.pos] <= '9' {
		p.pos++
	}
	if start == p.pos {''','''	start := p.pos
	for p.input[p.pos] >= '0' && p.input[p.pos] <= '9' {
		p.pos++
	}
	if start == p.pos {''')],
 needs='text that ends inside a timestamp',
 breaks='reading text that is cut inside a timestamp panics',
 demo=ts('tson','''
	var d tson.Tson
	if err := tson.Unmarshal([]byte(`{"a" <12`), &d); err == nil {
		t.Fatal(d)
	}''')),
dict(name='c20-missing-comma',prop='C20',pkg='tson',
 edits=[(S,'''		arr = append(arr, wrapIfPrimitive(val, ts))
		p.skipWhitespace()
		if p.peek() == ',' {
			p.pos++
			continue''','''		arr = append(arr, wrapIfPrimitive(val, ts))
		p.skipWhitespace()
		if p.peek() == ',' || p.peek() == '<' { // or the timestamp of the next element
			if p.peek() == ',' {
				p.pos++
			}
			continue''')],
 needs='an array in which a comma before a stamped element is missing, the element before being no primitive or having a timestamp behind it too',
 breaks='arrays with missing separators are accepted',
 demo=ts('tson','''
	var d tson.Tson
	if err := tson.Unmarshal([]byte(`[{} <1> 2]`), &d); err == nil {
		t.Fatal(d)
	}''')),
dict(name='c21-slash-escape',prop='C21',pkg='tson',
 edits=[(S,'''			case '"', '\\\\', '/', '\\'':''','''			case '"', '\\\\', '\\'':''')],
 needs='a string with an escaped slash',
 breaks='the JSON escape of a slash is refused',
 demo=ts('tson','''
	if d := read(t, `"a\\/b"`); d.(tson.Leaf[string]).Value != "a/b" {
		t.Fatal(d)
	}''')),
dict(name='c21-late-timestamp',prop='C21',pkg='tson',
 edits=[(S,'''			p.pos += 5
			p.skipWhitespace()
			if p.pos < len(p.input) && p.peek() == '<' {''','''			p.pos += 5
			if p.pos < len(p.input) && p.peek() == '<' {''')],
 needs='false followed by white space and a timestamp',
 breaks='a timestamp that follows false after white space is not read',
 demo=ts('tson','''
	if d := read(t, "[false\\n<5>, true <6>]"); fmt.Sprint(d) != "[{false 5} {true 6}]" {
		t.Fatal(d)
	}''')),
dict(name='c22-sorted-bool',prop='C22',pkg='tson',
 edits=[(T,'''	case Leaf[bool]:
		return map[string]any{"value": val.Value, "timestamp": val.Timestamp}, nil

	case Object:''','''	case Leaf[bool]:
		return map[string]any{"value": val.Value, "timestamp": float64(val.Timestamp)}, nil

	case Object:''')],
 needs='a boolean with a nanosecond timestamp written as sorted bytes',
 breaks='large timestamps of booleans are rounded in the sorted form',
 demo=ts('tson','''
	d := read(t, `{"a" <1700000000123456789>: true}`)
	b, err := tson.ToCompatibleTsonBytesSorted(d)
	var e tson.Tson
	if err == nil {
		err = tson.FromCompatibleTsonBytes(b, &e)
	}
	if err != nil || !reflect.DeepEqual(d, e) {
		t.Fatal(string(b), err)
	}''')),
dict(name='c23-array-objects',prop='C23',pkg='tson',
 edits=[(T,'''						value[i] = leafVal
					} else {
						removeTimestamp(leaf)
					}''','''						value[i] = leafVal
					} else if len(leaf) > 1 {
						removeTimestamp(leaf)
					}''')],
 needs='an array element that is an object with a single member',
 breaks='the timestamps stay in single-member objects inside arrays',
 demo=ts('tson','''
	b, err := tson.ToJsonBytes(read(t, `[{"a" <1>: true}]`))
	if err != nil || string(b) != `[{"a":true}]` {
		t.Fatal(string(b), err)
	}''')),
dict(name='c24-fold',prop='C24',pkg='tson',
 edits=[(T,'''	return reflect.DeepEqual(o1, o2), nil
}

// GetLatestTimestamp''','''	return bytes.EqualFold(j1, j2), nil
}

// GetLatestTimestamp''')],
 needs='documents that differ only in the case of a letter',
 breaks='the timestamp-blind equality ignores case',
 demo=ts('tson','''
	if eq, err := tson.EqualWithoutTimestamp(read(t, `{"a": "X"}`), read(t, `{"A": "x"}`)); err != nil || eq {
		t.Fatal(eq, err)
	}''')),
dict(name='c25-negative-step',prop='C25',pkg='tson',
 edits=[(T,'''			if index < 0 || index >= len(arr) {
				return nil, fmt.Errorf("index out of range: %d", index)
			}
			return getValue(arr[index], parts[1:])''','''			if index >= len(arr) {
				return nil, fmt.Errorf("index out of range: %d", index)
			}
			return getValue(arr[max(index, 0)], parts[1:])''')],
 needs='a negative index in the middle of a path',
 breaks='a negative index on the way is taken for the first element',
 demo=ts('tson','''
	if v, err := tson.GetValue(read(t, `[[1]]`), "/-1/0"); err == nil {
		t.Fatal(v)
	}''')),
dict(name='c25-latest-of-array',prop='C25',pkg='tson',
 edits=[(T,'''			for _, value := range v.(Array) {
				updateMax(&max, GetLatestTimestamp(value))
			}''','''			if arr := v.(Array); len(arr) > 0 { // new elements come last
				updateMax(&max, GetLatestTimestamp(arr[len(arr)-1]))
			}''')],
 needs='an array whose latest timestamp is not the one of its last element',
 breaks='the latest timestamp of an array is that of its last element',
 demo=ts('tson','''
	if ts := tson.GetLatestTimestamp(read(t, `{"a": [<9> 1, <5> 2]}`)); ts != 9 {
		t.Fatal(ts)
	}''')),
]
