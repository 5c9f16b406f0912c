import importlib.util,os
_s=importlib.util.spec_from_file_location('n',os.path.join(os.path.dirname(os.path.abspath(__file__)),'n.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
TS='internal/tson/tson.go'; TP='internal/tsonpatch/tsonpatch.go'; V='internal/vssgen/vss.go'; EX='internal/vssgen/extension.go'
from k import ts,tp
from b import vs
from b import SCHEMA
SPECS=[
dict(name='c03-history-first',prop='C03',pkg='logument',edits=[(LG,'''	for _, version := range lgm.getSortedVersions("patch") {
		patches = append(patches, lgm.Patches[version]...)
	}
	sort.SliceStable(patches, func(i, j int) bool { return patches[i].Timestamp < patches[j].Timestamp })

	historyPatches := make(map[string]tsonPatches)
''','''	for _, version := range lgm.getSortedVersions("patch") {
		if patches == nil {
			patches = lgm.Patches[version]
			continue
		}
		patches = append(patches, lgm.Patches[version]...)
	}
	sort.SliceStable(patches, func(i, j int) bool { return patches[i].Timestamp < patches[j].Timestamp })

	historyPatches := make(map[string]tsonPatches, len(patches))
''')],needs='a history asked while the log has one version (or its first one was stored in several parts), whose operations were not stored in the order of their timestamps',
 breaks='asking for a history sorts the recorded operations of the first version',
 demo=lgt('''	lgm := NewLogument(`{"a" <0>: 1, "b" <0>: 1}`, `[{"op":"replace","path":"/a","value":2,"timestamp":20},{"op":"replace","path":"/b","value":2,"timestamp":10}]`)
	lgm.Append()
	lgm.History("/a")
	if lgm.Patches[1][0].Path != "/a" {
		t.Fatal(lgm.Patches[1])
	}''')),
dict(name='c16-array-stamps',prop='C16',pkg='tsonpatch',edits=[(TP,'''		if withTimestamp {
			patch, err = handleValuesWithTimestamp(origValue, modValue, p, patch)
		} else {
			patch, err = handleValues(origValue, modValue, p, patch)
		}
		if err != nil {
			return nil, err
		}
	}
	// "remove"''','''		if withTimestamp && !matchTimestamp(origValue, modValue) {
			patch, err = handleValuesWithTimestamp(origValue, modValue, p, patch)
		} else { // Only the values may differ
			patch, err = handleValues(origValue, modValue, p, patch)
		}
		if err != nil {
			return nil, err
		}
	}
	// "remove"'''),(TP,'''		for key := range org {
			if !matchTimestamp(org[key], modArray[key]) {
				return false
			}
		}
		return true
''','''		// The elements of an array are stamped together
		return len(org) == 0 || matchTimestamp(org[0], modArray[0])
''')],needs='an array in which an element other than the first changes its timestamp but not its value, while the first one keeps its timestamp',
 breaks='the patch leaves out the new timestamp of an array element',
 demo=tp('''	var a, b tson.Tson
	tson.Unmarshal([]byte(`{"a": [<1> 1, <1> 2]}`), &a)
	tson.Unmarshal([]byte(`{"a": [<1> 1, <2> 2]}`), &b)
	p, err := GeneratePatchWithTimestamp(a, b)
	if err != nil {
		t.Fatal(err)
	}
	c, err := ApplyPatch(a, p)
	if eq, _ := tson.Equal(b, c); err != nil || !eq {
		t.Fatal(c, err)
	}''','\t"github.com/CAU-CPSS/logument/internal/tson"\n')),
dict(name='c16-nothing-stored',prop='C16',pkg='tsonpatch',edits=[(TP,'''	timestampChanged := !matchTimestamp(origValue, modValue)
''','''	timestampChanged := !matchTimestamp(origValue, modValue) && tson.GetLatestTimestamp(modValue) != -1
''')],needs='a leaf that loses its timestamp and keeps its value',
 breaks='the patch leaves out that a value has lost its timestamp',
 demo=tp('''	var a, b tson.Tson
	tson.Unmarshal([]byte(`{"a" <5>: 1}`), &a)
	tson.Unmarshal([]byte(`{"a" <>: 1}`), &b)
	p, err := GeneratePatchWithTimestamp(a, b)
	if err != nil {
		t.Fatal(err)
	}
	c, err := ApplyPatch(a, p)
	if eq, _ := tson.Equal(b, c); err != nil || !eq {
		t.Fatal(c, err)
	}''','\t"github.com/CAU-CPSS/logument/internal/tson"\n')),
dict(name='c17-value-error',prop='C17',pkg='tsonpatch',edits=[(TP,'''		if v, err := json.Marshal(p.Value); err != nil {
			return nil, err
		} else {
			fmt.Fprintf(&buf, `, "value": %s`, v)
		}
''','''		v, _ := json.Marshal(p.Value)
		fmt.Fprintf(&buf, `, "value": %s`, v)
''')],needs='an operation whose value is NaN or an infinity',
 breaks='the operation is written as text that is not JSON, without an error',
 demo=tp('''	op := NewOperation(OpAdd, "/a", math.Inf(1), 1)
	if b, err := op.Marshal(); err == nil {
		t.Fatal(string(b))
	}''','\t"math"\n')),
dict(name='c33-long-line',prop='C33',pkg='vssgen',edits=[(V,'''	d, _ := json.MarshalIndent(vss.data, "", "    ")

	for i, line := range strings.Split(string(d), "\\n") {
		fmt.Printf("%05d: %s\\n", i+1, line)
	}
''','''	d, _ := json.MarshalIndent(vss.data, "", "    ")

	lines := bufio.NewScanner(bytes.NewReader(d))
	for i := 1; lines.Scan(); i++ {
		fmt.Printf("%05d: %s\\n", i, lines.Text())
	}
'''),(V,'''	"encoding/json"
''','''	"bufio"
	"encoding/json"
''')],needs='a data set that holds a string of more than 64 KiB',
 breaks='printed with line numbers, the data set ends before the long string',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"VIN":{"type":"sensor","datatype":"string","allowed":["`+strings.Repeat("x", 100000)+`"]}}}}`).Generate(1, 1)
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	out := os.Stdout
	os.Stdout = w
	got := make(chan int)
	go func() {
		b, _ := io.ReadAll(r)
		got <- len(b)
	}()
	v.PrintWithIndex()
	os.Stdout = out
	w.Close()
	if n := <-got; n < 100000 {
		t.Fatal(n)
	}''','io os path/filepath strings',SCHEMA)),
dict(name='c24-second',prop='C24',pkg='tson',edits=[(TS,'''	var (
		o1, o2 any
		j1, _  = ToJsonBytes(t1)
		j2, _  = ToJsonBytes(t2)
	)
''','''	var (
		o1    any
		j1, _ = ToJsonBytes(t1)
	)
'''),(TS,'''	if err = json.Unmarshal(j2, &o2); err != nil {
		return false, err
	}
''','')],needs='a number that is not finite in the second document only',
 breaks='a document that cannot be written is compared without an error',
 demo=ts('''	if _, err := EqualWithoutTimestamp(Object{}, Object{"a": Leaf[float64]{Value: math.NaN()}}); err == nil {
		t.Fatal("no error")
	}''','\t"math"\n')),
dict(name='c28-wide-percent',prop='C28',pkg='vssgen',edits=[(V,'''		case dtype == "uint8" || dtype == "uint16" || dtype == "uint32":
			new[node] = map[string]any{
				tsonValue:     rand.Intn(101),
''','''		case dtype == "uint8" || dtype == "uint16" || dtype == "uint32":
			new[node] = map[string]any{
				tsonValue:     rand.Intn(256),
''')],needs='a percentage of a wider unsigned type (uint16, uint32)',
 breaks='percentages of wider unsigned types may exceed 100',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"Load":{"type":"sensor","datatype":"uint16","unit":"percent"}}}}`)
	for i := 0; i < 500; i++ {
		if x := v.Generate(1, 1).GetData().(map[string]any)["Vehicle"].(map[string]any)["Load"].(map[string]any)["value"].(int); x > 100 {
			t.Fatal(x)
		}
	}''','os path/filepath',SCHEMA)),
dict(name='c33-whole-numbers',prop='C33',pkg='vssgen',edits=[(EX,'''				current[part] = value
''','''				current[part] = withWholeNumber(value)
'''),(EX,'''// buildNestedStructure는 "a.b.c" 형식의 경로를 중첩된 맵 구조로 변환합니다
''','''// withWholeNumber gives the leaf with its number as an integer if it is one
func withWholeNumber(value interface{}) interface{} {
	if leaf, ok := value.(map[string]interface{}); ok {
		if f, ok := leaf[tsonValue].(float64); ok && f == float64(int(f)) {
			return map[string]interface{}{tsonValue: int(f), tsonTimestamp: leaf[tsonTimestamp]}
		}
	}
	return value
}

// buildNestedStructure는 "a.b.c" 형식의 경로를 중첩된 맵 구조로 변환합니다
''')],needs='a float signal whose value happens to be whole (an allowed value, say)',
 breaks='rebuilding turns whole numbers of float signals into integers',
 demo=vs('''	v := load(t, `{"Vehicle":{"type":"branch","children":{"G":{"type":"sensor","datatype":"float","allowed":[2]}}}}`).Generate(1, 1)
	m, err := v.BuildFromLeafNodes()
	if err != nil {
		t.Fatal(err)
	}
	if x, ok := m["Vehicle"].(map[string]any)["G"].(map[string]any)["value"].(float64); !ok {
		t.Fatal(x, m)
	}''','os path/filepath',SCHEMA)),
]
