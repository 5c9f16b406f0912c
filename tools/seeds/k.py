import importlib.util,os
_s=importlib.util.spec_from_file_location('j',os.path.join(os.path.dirname(os.path.abspath(__file__)),'j.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
SZ='internal/tson/serialization.go'; PT='internal/tsonpatch/tsonpatch.go'; TS='internal/tson/tson.go'
def ts(body,imports=''):
    return 'package tson\n\nimport (\n\t"testing"\n'+imports+')\n\nfunc TestDemo(t *testing.T) {\n'+body+'\n}\n'
def tp(body,imports=''):
    return 'package tsonpatch\n\nimport (\n\t"testing"\n'+imports+')\n\nfunc TestDemo(t *testing.T) {\n'+body+'\n}\n'
SPECS=[
dict(name='c42-text-buffer',prop='C42',pkg='tson',edits=[(SZ,'''func Marshal(t Tson) ([]byte, error) {
	s, err := marshalTson(t, top)
	if err != nil {
		return nil, err
	}
	return []byte(s), nil
}
''','''func Marshal(t Tson) ([]byte, error) {
	s, err := marshalTson(t, top)
	if err != nil {
		return nil, err
	}
	text := buffers.Get().(*[]byte) // one big enough is there already, mostly
	defer buffers.Put(text)
	*text = append((*text)[:0], s...)
	return *text, nil
}

// buffers keeps the memory of texts for the next ones.
var buffers = sync.Pool{New: func() any { return new([]byte) }}
'''),(SZ,'''	"strings"
''','''	"strings"
	"sync"
''')],
 needs='a text that is still in use when the next one is written',breaks='the texts share their memory: the first one changes',
 demo=ts('''	bad := 0
	for i := 0; i < 100; i++ { // a pool may forget
		a, _ := Marshal(Leaf[string]{Value: "first", Timestamp: 1})
		_, _ = Marshal(Leaf[string]{Value: "other", Timestamp: 1})
		var d Tson
		if err := Unmarshal(a, &d); err != nil || d.(Leaf[string]).Value != "first" {
			bad++
		}
	}
	if bad > 0 {
		t.Fatal(bad)
	}''')),
dict(name='c42-quoted-keys',prop='C42',pkg='tson',race=True,edits=[(SZ,'''		s.WriteString(fmt.Sprintf("%q", key))
		switch leaf''','''		quoted, ok := quotedKeys[key]
		if !ok { // the same keys come again and again
			quoted = fmt.Sprintf("%q", key)
			quotedKeys[key] = quoted
		}
		s.WriteString(quoted)
		switch leaf'''),(SZ,'''// marshalObject marshals an Object''','''// quotedKeys keeps the keys as they are written.
var quotedKeys = map[string]string{}

// marshalObject marshals an Object''')],
 needs='two goroutines that write documents with new keys at the same time',breaks='concurrent map writes: a race, or a crash',
 demo=ts('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				_, _ = Marshal(Object{fmt.Sprint(i, k): Leaf[bool]{Value: true, Timestamp: 1}})
			}
		}()
	}
	wg.Wait()''','\t"fmt"\n\t"sync"\n')),
dict(name='c42-operation-text',prop='C42',pkg='tsonpatch',edits=[(PT,'''	var buf bytes.Buffer
	op, _ := json.Marshal(p.Op)''','''	buf := texts.Get().(bytes.Buffer)
	defer func() { texts.Put(buf) }()
	buf.Reset()
	op, _ := json.Marshal(p.Op)'''),(PT,'''// Marshal converts the Operation to a JSON byte Array.
''','''// texts keeps buffers for operations.
var texts = sync.Pool{New: func() any { return bytes.Buffer{} }}

// Marshal converts the Operation to a JSON byte Array.
'''),(PT,'''	"strings"
''','''	"strings"
	"sync"
''')],
 needs='the text of one operation still in use when the next is written',breaks='both texts share their memory',
 demo=tp('''	bad := 0
	for i := 0; i < 100; i++ {
		x, y := NewOperation(OpAdd, "/x", 1.0, 1), NewOperation(OpAdd, "/y", 2.0, 2)
		a, _ := x.Marshal()
		was := string(a)
		_, _ = y.Marshal()
		if string(a) != was {
			bad++
		}
	}
	if bad > 0 {
		t.Fatal(bad)
	}''')),
dict(name='c42-patch-memory',prop='C42',pkg='tsonpatch',race=True,edits=[(PT,'''	var patch Patch
	if err := json.Unmarshal(b, &patch); err != nil {
		return nil, err
	}
	return patch, nil
''','''	patch := recent[len(recent):] // mostly there is room for one more
	if err := json.Unmarshal(b, &patch); err != nil {
		return nil, err
	}
	if len(recent)+len(patch) < 512 {
		recent = patch
	}
	return patch, nil
'''),(PT,'''// Unmarshal converts a JSON byte array to a Patch.
''','''// recent is the patch read last, with room behind it.
var recent Patch

// Unmarshal converts a JSON byte array to a Patch.
''')],
 needs='patches read on two goroutines, or appended to after another was read',breaks='patches share their memory',
 demo=tp('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				p, err := Unmarshal([]byte(`[{"op":"add","path":"/a","value":1,"timestamp":1},{"op":"add","path":"/b","value":1,"timestamp":1},{"op":"add","path":"/c","value":1,"timestamp":1}]`))
				if err != nil || len(p) != 3 {
					t.Error(err, p)
				}
			}
		}()
	}
	wg.Wait()''','\t"sync"\n')),
dict(name='c42-applied-count',prop='C42',pkg='tsonpatch',race=True,edits=[(PT,'''	// Traverse the TSON document
	if t, err = applyTraverse(doc, parts, op); err != nil {
		return nil, err
	}
	return t, nil
''','''	// Traverse the TSON document
	t, err = applyTraverse(doc, parts, op)
	if err != nil {
		failures = append(failures, err) // for the statistics
		return nil, err
	}
	return t, nil
'''),(PT,'''func ApplyOperation(doc tson.Tson''','''// failures are the errors so far.
var failures []error

func ApplyOperation(doc tson.Tson''')],
 needs='operations that cannot be applied on two goroutines at the same time',breaks='a data race',
 demo=tp('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				if _, err := ApplyOperation(nil, NewOperation(OpMove, "/a", nil, 1)); err == nil {
					t.Error("applied")
				}
			}
		}()
	}
	wg.Wait()''','\t"sync"\n')),
dict(name='c42-no-change',prop='C42',pkg='tsonpatch',edits=[(PT,'''func GeneratePatch(origin, modified tson.Tson) (Patch, error) {
	// If the two TSON documents are equal, return an empty patch
	if eq, err := tson.Equal(origin, modified); err == nil && eq {
		return Patch{}, nil
	}
''','''func GeneratePatch(origin, modified tson.Tson) (Patch, error) {
	// If the two TSON documents are equal, return an empty patch
	if eq, err := tson.Equal(origin, modified); err == nil && eq {
		return noChange, nil
	}
'''),(PT,'''// GeneratePatch generates a JSON''','''// noChange is the patch between equal documents, with room for what is added to it.
var noChange = make(Patch, 0, 8)

// GeneratePatch generates a JSON''')],
 needs='two empty patches that are both appended to',breaks='what was appended to the first is overwritten',
 demo=tp('''	a, _ := GeneratePatch(nil, nil)
	b, _ := GeneratePatch(nil, nil)
	a = append(a, NewOperation(OpAdd, "/a", 1.0, 1))
	b = append(b, NewOperation(OpAdd, "/b", 1.0, 1))
	if a[0].Path != "/a" || b[0].Path != "/b" {
		t.Fatal(a, b)
	}''')),
dict(name='c42-sibling-arrays',prop='C42',pkg='tson',edits=[(SZ,'''		if p.peek() == ',' {
			p.pos++
			continue
		} else if p.peek() == ']' {
			p.pos++
			break
		} else {
			return nil, fmt.Errorf("expected ',' or ']', got '%c' at pos %d", p.peek(), p.pos)
		}
	}
	return arr, nil
''','''		if p.peek() == ',' {
			p.pos++
			continue
		} else if p.peek() == ']' {
			p.pos++
			break
		} else {
			return nil, fmt.Errorf("expected ',' or ']', got '%c' at pos %d", p.peek(), p.pos)
		}
	}
	if n := len(p.elements); n+len(arr) <= cap(p.elements) { // one block for all small arrays of a document
		p.elements = append(p.elements, arr...)
		return p.elements[n:], nil
	} else if len(arr) <= 8 {
		p.elements = append(make(Array, 0, 64), arr...)
		return p.elements, nil
	}
	return arr, nil
'''),(SZ,'''	arr := Array{}
	p.skipWhitespace()
''','''	arr := make(Array, 0)
	p.skipWhitespace()
'''),(SZ,'''type Parser struct {
''','''type Parser struct {
	elements Array
''')],
 needs='an array of a document read from text that is appended to, with another array behind it',breaks='the other array changes',
 demo=ts('''	var d Tson
	if err := Unmarshal([]byte(`[[1],[2]]`), &d); err != nil {
		t.Fatal(err)
	}
	a := d.(Array)
	_ = append(a[0].(Array), Leaf[float64]{Value: 7})
	if a[1].(Array)[0].(Leaf[float64]).Value != 2 {
		t.Fatal(d)
	}''')),
]
