import importlib.util,os
_s=importlib.util.spec_from_file_location('e',os.path.join(os.path.dirname(os.path.abspath(__file__)),'e.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
globals().update({k:v for k,v in vars(_c).items() if not k.startswith('__') and k!='SPECS'})
SZ='internal/tson/serialization.go'
def tw(body,imports='strings'): return 'package tson\n\nimport (\n\t"testing"\n'+''.join(f'\t"{i}"\n' for i in imports.split())+')\n\nfunc TestDemo(t *testing.T) {\n'+body+'\n}\n'
SPECS=[
dict(name='c40-null-stamp',prop='C40',pkg='tson',edits=[(SZ,'''		switch leaf := value.(type) {
		case Leaf[string]:
			if leaf.Timestamp >= 0 {
				s.WriteString(fmt.Sprintf(" <%d>", leaf.Timestamp))
			} else {
				s.WriteString(" <>")
			}
		case Leaf[float64]:
			if leaf.Timestamp >= 0 {
				s.WriteString(fmt.Sprintf(" <%d>", leaf.Timestamp))
			} else {
				s.WriteString(" <>")
			}
		case Leaf[bool]:
			if leaf.Timestamp >= 0 {
				s.WriteString(fmt.Sprintf(" <%d>", leaf.Timestamp))
			} else {
				s.WriteString(" <>")
			}
		}
''','''		switch value.(type) {
		case Object, Array:
		default:
			if ts := GetLatestTimestamp(value); ts >= 0 {
				s.WriteString(fmt.Sprintf(" <%d>", ts))
			} else {
				s.WriteString(" <>")
			}
		}
''')],
 needs='an object member that is null, written compactly',breaks='a null is written with an empty timestamp, which only the library\'s own reader takes',
 demo=tw('''	b, err := Marshal(Object{"a": nil, "b": Object{"c": nil}})
	if err != nil || strings.Contains(string(b), "<") {
		t.Fatalf("%s %v", b, err)
	}''')),
dict(name='c40-indent-cap',prop='C40',pkg='tson',edits=[(SZ,'''				valStr, err := marshalIndentValue(val, currentIndent+indent, indent, object)
				if err != nil {
					return "", err
				}
				s.WriteString(currentIndent + indent + keyStr + ": " + valStr)
			}
		}
		s.WriteString("\\n" + currentIndent + "}")
		return s.String(), nil

	case Array:''','''				next := currentIndent + indent
				if len(next) > 80 { // the rest of the line would be lost off screen
					next = currentIndent
				}
				valStr, err := marshalIndentValue(val, next, indent, object)
				if err != nil {
					return "", err
				}
				s.WriteString(currentIndent + indent + keyStr + ": " + valStr)
			}
		}
		s.WriteString("\\n" + currentIndent + "}")
		return s.String(), nil

	case Array:''')],
 needs='objects nested so deep that the indent is longer than 80 characters',breaks='deeper levels are not indented any more',
 demo=tw('''	var v Value = Leaf[bool]{true, 1}
	for i := 0; i < 30; i++ {
		v = Object{"k": v}
	}
	b, _ := MarshalIndent(v, "", "    ")
	if !strings.Contains(string(b), strings.Repeat("    ", 30)+"\\"k\\" <1>: true") {
		t.Fatalf("%s", b)
	}''')),
dict(name='c40-element-line',prop='C40',pkg='tson',edits=[(SZ,'''			case Leaf[bool]:
				s.WriteString(currentIndent + indent)
				if leaf.Timestamp >= 0 {
					s.WriteString(fmt.Sprintf("<%d> %v", leaf.Timestamp, leaf.Value))
				} else {
					s.WriteString(fmt.Sprintf("<> %v", leaf.Value))
				}
			default:
				elemStr, err := marshalIndentValue(elem, currentIndent+indent, indent, array)
''','''			case Leaf[bool]:
				s.WriteString(currentIndent + indent)
				if leaf.Timestamp >= 0 {
					s.WriteString(fmt.Sprintf("<%d> %v", leaf.Timestamp, leaf.Value))
				} else {
					s.WriteString(fmt.Sprintf("%v <>", leaf.Value))
				}
			case Array:
				elemStr, err := marshalIndentValue(elem, currentIndent, indent, array)
				if err != nil {
					return "", err
				}
				s.WriteString(currentIndent + indent + elemStr)
			default:
				elemStr, err := marshalIndentValue(elem, currentIndent+indent, indent, array)
''')],
 needs='an array within an array, written with an indent',breaks='the elements of the inner array have the indent of the outer one',
 demo=tw('''	b, _ := MarshalIndent(Array{Array{Leaf[float64]{1, 2}}}, "", "  ")
	if !strings.Contains(string(b), "\\n    <2> 1") {
		t.Fatalf("%s", b)
	}''')),
dict(name='c40-twice',prop='C40',pkg='tson',edits=[(SZ,'''	case Leaf[bool]:
		if ctx == array {
			if val.Timestamp >= 0 {
				return fmt.Sprintf("<%d> %v", val.Timestamp, val.Value), nil
			}
			return fmt.Sprintf("<> %v", val.Value), nil
		} else if ctx == object {
			return fmt.Sprintf("%v", val.Value), nil
		} else {
''','''	case Leaf[bool]:
		if ctx == object && val.Timestamp < 0 {
			return fmt.Sprintf("%v", val.Value), nil
		} else {
''')],
 needs='a truth value with a timestamp in an object, written compactly',breaks='it is written with two timestamps',
 demo=tw('''	b, _ := Marshal(Object{"k": Leaf[bool]{true, 5}})
	if strings.Count(string(b), "<5>") != 1 {
		t.Fatalf("%s", b)
	}''')),
dict(name='c40-raw-lines',prop='C40',pkg='tson',edits=[(SZ,'''				s.WriteString(">: " + strconv.Quote(leaf.Value))
''','''				s.WriteString(">: " + strings.ReplaceAll(strconv.Quote(leaf.Value), `\\t`, "\\t"))
''')],
 needs='a string with a tab in an object, written with an indent',breaks='the tab is written as it is, which only the library\'s own reader takes',
 demo=tw('''	b, _ := MarshalIndent(Object{"k": Leaf[string]{"a\\tb", 5}}, "", " ")
	if strings.Contains(string(b), "\\t") {
		t.Fatalf("%s", b)
	}''')),
]
