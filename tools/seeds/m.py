import importlib.util,os
_s=importlib.util.spec_from_file_location('k',os.path.join(os.path.dirname(os.path.abspath(__file__)),'k.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
SPECS=[
dict(name='c21-number-buffer',prop='C21',pkg='tson',edits=[(SZ,'''	numStr := string(p.input[start:p.pos])
	return strconv.ParseFloat(numStr, 64)
''','''	var digits [64]byte // no float64 needs more
	n := copy(digits[:], p.input[start:p.pos])
	return strconv.ParseFloat(string(digits[:n]), 64)
''')],
 needs='a number written with more than 64 characters, an exponent or digits before the point beyond them',breaks='such numbers are read with another value',
 demo=ts('''	var d Tson
	s := "1" + strings.Repeat("0", 70) + " <1>"
	if err := Unmarshal([]byte(s), &d); err != nil || d.(Leaf[float64]).Value != 1e70 {
		t.Fatal(d, err)
	}''','\t"strings"\n')),
dict(name='c20-huge-timestamp',prop='C20',pkg='tson',edits=[(SZ,'''	ts, err := strconv.ParseInt(numStr, 10, 64)
	if err != nil {
		return 0, err
	}
	if err := p.expect('>'); err != nil {
''','''	ts, _ := strconv.ParseInt(numStr, 10, 64) // all digits
	if err := p.expect('>'); err != nil {
''')],
 needs='a timestamp that does not fit into 64 bits',breaks='it is read as another timestamp',
 demo=ts('''	var d Tson
	if err := Unmarshal([]byte("1 <9223372036854775808>"), &d); err == nil {
		t.Fatal(d)
	}''')),
dict(name='c20-bare-exponent',prop='C20',pkg='tson',edits=[(SZ,'''	numStr := string(p.input[start:p.pos])
	return strconv.ParseFloat(numStr, 64)
''','''	numStr := strings.TrimRight(string(p.input[start:p.pos]), "eE")
	return strconv.ParseFloat(numStr, 64)
''')],
 needs='a number with an e and nothing behind it',breaks='malformed numbers are accepted',
 demo=ts('''	var d Tson
	if err := Unmarshal([]byte("1e"), &d); err == nil {
		t.Fatal(d)
	}''')),
dict(name='c19-long-text',prop='C19',pkg='tson',edits=[(SZ,'''	var result []byte
	for p.pos < len(p.input) {
		ch := p.next()
''','''	var result []byte
	for p.pos < len(p.input) && len(result) <= 1<<16 {
		ch := p.next()
''')],
 needs='a string of more than 64 KiB',breaks='it cannot be read back',
 demo=ts('''	b, err := Marshal(Leaf[string]{strings.Repeat("a", 70000), 1})
	var d Tson
	if err == nil {
		err = Unmarshal(b, &d)
	}
	if err != nil {
		t.Fatal(err)
	}''','\t"strings"\n')),
dict(name='c22-wide',prop='C22',pkg='tson',edits=[(TS,'''			arr := Array{}
			for _, elem := range t {
''','''			arr := Array{}
			for _, elem := range t[:min(len(t), 1<<12)] {
''')],
 needs='an array of more than 4096 elements',breaks='the others are lost',
 demo=ts('''	var a Array
	for i := 0; i < 5000; i++ {
		a = append(a, Leaf[float64]{1, 5})
	}
	b, err := ToCompatibleTsonBytes(a)
	var d Tson
	if err == nil {
		err = FromCompatibleTsonBytes(b, &d)
	}
	if err != nil || len(d.(Array)) != 5000 {
		t.Fatal(err)
	}''')),
dict(name='c05-unstamped',prop='C05',pkg='logument',edits=[(L,'''			if p.Timestamp >= tsi && p.Timestamp <= tsj {
				// Compare to previous''','''			if p.Timestamp >= tsi && p.Timestamp <= tsj || p.Timestamp == tson.DefaultTimestamp && tsi <= 0 {
				// Compare to previous''')],
 needs='an operation without a timestamp (-1) and a window that starts at 0',breaks='it appears in the window',
 demo=lg('''	l := NewLogument(tson.Object{}, nil)
	l.Store(op("add", "/a", 1.0, -1))
	l.Store(op("add", "/b", 1.0, 3))
	l.Append()
	if m := l.TemporalTrack(0, 5); len(m[1]) != 1 {
		t.Fatal(m)
	}''')),
dict(name='c13-skip-overwritten',prop='C13',pkg='tsonpatch',edits=[(PT,'''	for _, op := range patch {
		if t, err = ApplyOperation(t, op); err != nil {
''','''	for i, op := range patch {
		if i+1 < len(patch) && patch[i+1].Path == op.Path && patch[i+1].Op == op.Op && op.Op == OpAdd {
			continue // The next one overwrites it
		}
		if t, err = ApplyOperation(t, op); err != nil {
''')],
 needs='two adds of the same path in a row, the first with a value that is not supported',breaks='the patch is accepted',
 demo=tp('''	if d, err := ApplyPatch(tson.Object{}, Patch{{OpAdd, "/a", []any{}, 1}, {OpAdd, "/a", 1.0, 1}}); err == nil {
		t.Fatal(d)
	}''','\n\t"github.com/CAU-CPSS/logument/internal/tson"\n')),
dict(name='c15-grown',prop='C15',pkg='tsonpatch',edits=[(PT,'''		_, found := modified[key]
		if !found {
''','''		_, found := modified[key]
		if !found && len(origin) > len(modified)/2 { // otherwise it has only grown
''')],
 needs='an object that becomes at least twice as big and loses a member',breaks='the member remains',
 demo=tp('''	a := tson.Object{"a": tson.Leaf[bool]{true, 1}}
	b := tson.Object{"b": tson.Leaf[bool]{true, 2}, "c": tson.Leaf[bool]{true, 9}}
	p, err := GeneratePatch(a, b)
	if err != nil || len(p) != 3 {
		t.Fatal(p, err)
	}''','\n\t"github.com/CAU-CPSS/logument/internal/tson"\n')),
dict(name='c18-depth',prop='C18',pkg='tson',edits=[(TS,'''		if obj, ok := t.(Object); ok { // If Object, call getValue recursively using the key
''','''		if obj, ok := t.(Object); ok && len(parts) <= 128 { // If Object, call getValue recursively using the key
''')],
 needs='a leaf more than 128 levels deep',breaks='it cannot be looked up',
 demo=ts('''	var d Tson = Leaf[bool]{true, 1}
	for i := 0; i < 200; i++ {
		d = Object{"a": d}
	}
	if _, err := GetValue(d, strings.Repeat("/a", 200)); err != nil {
		t.Fatal(err)
	}''','\t"strings"\n')),
]
