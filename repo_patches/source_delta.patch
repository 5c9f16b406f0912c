From 1e4af636d43570289f63953e47eab115ca7b388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 01/34] fix: read, write and inspect documents that hold null

Null is part of the documented grammar, but reading one inside an object
or array panicked, writing one failed, and taking the latest timestamp of
a document with one panicked.
---
 internal/tson/serialization.go | 6 ++++++
 internal/tson/tson.go          | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 9f7f10d..9156e7f 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -96,6 +96,8 @@ func marshalTson(v Value, ctx int) (string, error) {
 			}
 			return fmt.Sprintf("%v <>", val.Value), nil
 		}
+	case nil:
+		return "null", nil
 	default:
 		return "", fmt.Errorf("marshalTson: unknown type")
 	}
@@ -425,6 +427,8 @@ func formatPrimitive(v any) (string, error) {
 		return fmt.Sprintf("%v", t), nil
 	case bool:
 		return fmt.Sprintf("%v", t), nil
+	case nil:
+		return "null", nil
 	default:
 		return "", fmt.Errorf("unsupported primitive type: %T", v)
 	}
@@ -449,6 +453,8 @@ func Unmarshal(data []byte, t *Tson) (err error) {
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
 func wrapIfPrimitive(v any, timestamp int64) Value {
 	switch val := v.(type) {
+	case nil: // null has no timestamp
+		return nil
 	case string:
 		return Leaf[string]{Value: val, Timestamp: timestamp}
 	case float64:
diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index d41dc9a..3faa1ba 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -159,6 +159,8 @@ func GetLatestTimestamp(t Tson) int64 {
 		return v.Timestamp
 	case Leaf[bool]:
 		return v.Timestamp
+	case nil: // null has no timestamp
+		return DefaultTimestamp
 	case Object, Array:
 		max := int64(0)
 		if obj, ok := v.(Object); ok { // v is Object
@@ -528,6 +530,9 @@ func toSortedInterface(t Tson) (any, error) {
 		}
 		return arr, nil
 
+	case nil:
+		return nil, nil
+
 	default:
 		return nil, fmt.Errorf("unexpected type in toSortedInterface: %T", t)
 	}
-- 
2.43.0


From 7781f90170614c2e59588d39b76597684652c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 02/34] fix: keep every timestamp exact in the compatible JSON
 form

Timestamps went through float64, so nanosecond clock values were rounded
when a document was read back, and Equal took documents whose timestamps
differ by less than the rounding for equal. Data that is not compatible
TSON (a bare number, a null) made the reader panic instead of failing.
---
 internal/tson/tson.go | 74 +++++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 24 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 3faa1ba..135dbcf 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -13,6 +13,7 @@
 package tson
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"reflect"
@@ -109,20 +110,14 @@ func GetValue(t Tson, path string) (v Value, err error) {
 
 // Equal checks if two TSONs are equal, including timestamps.
 func Equal(t1, t2 Tson) (ret bool, err error) {
-	var (
-		o1, o2 any
-		b1, _  = ToCompatibleTsonBytes(t1)
-		b2, _  = ToCompatibleTsonBytes(t2)
-	)
-
 	// Check if the given TSONs are valid
-	if err = json.Unmarshal(b1, &o1); err != nil {
+	if _, err = ToCompatibleTsonBytes(t1); err != nil {
 		return false, err
 	}
-	if err = json.Unmarshal(b2, &o2); err != nil {
+	if _, err = ToCompatibleTsonBytes(t2); err != nil {
 		return false, err
 	}
-	return reflect.DeepEqual(o1, o2), nil
+	return reflect.DeepEqual(t1, t2), nil
 }
 
 // EqualWithoutTimestamp checks if two TSONs are equal, excluding timestamps.
@@ -216,43 +211,66 @@ func ToCompatibleTsonBytes(t Tson) (j []byte, err error) {
 // FromCompatibleTsonBytes converts a JSON byte array (with leaf nodes as { "value": ..., "timestamp": ... })
 // into a Tson object.
 func FromCompatibleTsonBytes(data []byte, t *Tson) error {
-	var convert func(v any) Value
-	convert = func(v any) Value {
+	var convert func(v any) (Value, error)
+	convert = func(v any) (Value, error) {
 		switch t := v.(type) {
 		case map[string]any:
 			if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
 				switch leafVal.(type) {
 				case string:
-					return Leaf[string]{Value: leafVal.(string), Timestamp: ts}
-				case float64:
-					return Leaf[float64]{Value: leafVal.(float64), Timestamp: ts}
+					return Leaf[string]{Value: leafVal.(string), Timestamp: ts}, nil
+				case json.Number:
+					num, err := leafVal.(json.Number).Float64()
+					return Leaf[float64]{Value: num, Timestamp: ts}, err
 				case bool:
-					return Leaf[bool]{Value: leafVal.(bool), Timestamp: ts}
-				default:
-					return nil // NOT supported
+					return Leaf[bool]{Value: leafVal.(bool), Timestamp: ts}, nil
+				case nil:
+					return nil, nil
+				default: // NOT supported
+					return nil, fmt.Errorf("FromCompatibleTsonBytes: invalid leaf type %T", leafVal)
 				}
 			}
 			obj := Object{}
 			for key, val := range t {
-				obj[key] = convert(val)
+				child, err := convert(val)
+				if err != nil {
+					return nil, err
+				}
+				obj[key] = child
 			}
-			return obj
+			return obj, nil
 		case []any:
 			arr := Array{}
 			for _, elem := range t {
-				arr = append(arr, convert(elem))
+				child, err := convert(elem)
+				if err != nil {
+					return nil, err
+				}
+				arr = append(arr, child)
 			}
-			return arr
+			return arr, nil
+		case nil:
+			return nil, nil
 		default:
-			panic("FromCompatibleTsonBytes: Not a compatible TSON data")
+			return nil, fmt.Errorf("FromCompatibleTsonBytes: Not a compatible TSON data")
 		}
 	}
 
+	// Keep the numbers as they are written: a float64 cannot hold every timestamp
+	if !json.Valid(data) {
+		return fmt.Errorf("FromCompatibleTsonBytes: invalid JSON")
+	}
 	var intermediate any
-	if err := json.Unmarshal(data, &intermediate); err != nil {
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	if err := decoder.Decode(&intermediate); err != nil {
 		return err
 	}
-	*t = convert(intermediate)
+	v, err := convert(intermediate)
+	if err != nil {
+		return err
+	}
+	*t = v
 	return nil
 }
 
@@ -468,6 +486,14 @@ func checkLeaf(m map[string]any) (bool, any, int64) {
 		tsVal, okTs := m["timestamp"]
 		if okVal && okTs {
 			switch t := tsVal.(type) {
+			case json.Number:
+				ts, err := t.Int64()
+				if err != nil { // written with a fraction or an exponent
+					var f float64
+					f, err = t.Float64()
+					ts = int64(f)
+				}
+				return err == nil, val, ts
 			case float64:
 				return true, val, int64(t)
 			case int:
-- 
2.43.0


From 73c48ee7e7466ea40e117aadca8a9ac79ff0b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 03/34] fix: convert top-level primitives and leave the
 caller's JSON alone

ToJson kept the timestamp of a document that is a single leaf, FromJson
panicked on a top-level primitive and rewrote the map it was given.
---
 internal/tson/tson.go | 56 +++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 135dbcf..e90115c 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -337,7 +337,15 @@ func ToJson(t Tson, j *any) (err error) {
 		}
 	}
 
-	ToCompatibleTson(t, j)
+	if err = ToCompatibleTson(t, j); err != nil {
+		return err
+	}
+	if leaf, ok := (*j).(map[string]any); ok { // The document itself can be a leaf
+		if isLeaf, leafVal, _ := checkLeaf(leaf); isLeaf {
+			*j = leafVal
+			return nil
+		}
+	}
 	removeTimestamp(*j)
 
 	return nil
@@ -346,42 +354,38 @@ func ToJson(t Tson, j *any) (err error) {
 // FromJson converts the given JSON object to a TSON.
 // NOTE: The timestamp field is added with the default(< 0) value.
 func FromJson(o any, t *Tson) (err error) {
-	var addTimestamp func(o any)
-	addTimestamp = func(o any) {
+	// The given JSON object belongs to the caller, so build a new one
+	var addTimestamp func(o any) any
+	addTimestamp = func(o any) any {
 		switch value := o.(type) {
 		case map[string]any:
+			obj := make(map[string]any, len(value))
 			for k, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[k] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[k] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[k] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
-				}
+				obj[k] = addTimestamp(v)
 			}
+			return obj
 		case []any:
+			arr := make([]any, len(value))
 			for i, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[i] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[i] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[i] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
-				}
+				arr[i] = addTimestamp(v)
 			}
+			return arr
+		case string:
+			return Leaf[string]{Value: value, Timestamp: DefaultTimestamp}
+		case float64:
+			return Leaf[float64]{Value: value, Timestamp: DefaultTimestamp}
+		case bool:
+			return Leaf[bool]{Value: value, Timestamp: DefaultTimestamp}
+		default:
+			return o
 		}
 	}
 
-	addTimestamp(o)
-
 	// Step 1: Convert TSON(any) to CompatibleTSON(JSON with timestamp)
-	str, err := json.Marshal(o)
+	str, err := json.Marshal(addTimestamp(o))
+	if err != nil {
+		return err
+	}
 
 	// Step 2: Convert CompatibleTSON to TSON
 	return FromCompatibleTsonBytes(str, t)
-- 
2.43.0


From a4961f8d61a89b40baafa05d7596924e4de01e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 04/34] fix: read omitted and trailing timestamps as the
 grammar says

A leaf without a timestamp inside an object or array got the timestamp 0
instead of the default, and that 0 replaced a timestamp written after the
value ("a": 1 <5>).
---
 internal/tson/serialization.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 9156e7f..1b777fa 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -721,7 +721,7 @@ func (p *Parser) parseObject() (Value, error) {
 		}
 		p.skipWhitespace()
 		// optional timestamp after key
-		var ts int64 = 0
+		var ts int64 = DefaultTimestamp
 		if p.peek() == '<' {
 			ts, err = p.parseTimestamp()
 			if err != nil {
@@ -765,7 +765,7 @@ func (p *Parser) parseArray() (Value, error) {
 	}
 	for {
 		p.skipWhitespace()
-		var ts int64 = 0
+		var ts int64 = DefaultTimestamp
 		if p.peek() == '<' {
 			var err error
 			ts, err = p.parseTimestamp()
-- 
2.43.0


From 505fdaeebddfa374793670a6a4ac21f277b549f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 05/34] fix: refuse trailing text and unbounded nesting

Anything after the document was silently ignored, and a long run of
opening brackets overflowed the stack, which ends the process.
---
 internal/tson/serialization.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 1b777fa..3e0eb2f 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -436,18 +436,28 @@ func formatPrimitive(v any) (string, error) {
 
 // <<<<<<<<< Unmarshalling
 
+// maxDepth limits how deep a document can be nested (same as encoding/json).
+const maxDepth = 10000
+
 // Parser struct maintains the parsing state.
 type Parser struct {
 	input []byte
 	pos   int
+	depth int
 }
 
 // Unmarshal parses the TSON bytes with '<>' timestamp
 // and stores the result in the value pointed to by t.
 func Unmarshal(data []byte, t *Tson) (err error) {
 	p := &Parser{input: data, pos: 0}
-	*t, err = p.parseTson()
-	return err
+	if *t, err = p.parseTson(); err != nil {
+		return err
+	}
+	if p.skipWhitespace(); p.pos < len(p.input) {
+		*t = nil
+		return fmt.Errorf("unexpected '%c' after the document at pos %d", p.peek(), p.pos)
+	}
+	return nil
 }
 
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
@@ -537,6 +547,11 @@ func (p *Parser) parseVal() (Value, error) {
 		return wrapIfPrimitive(prim, ts), nil
 	}
 
+	if p.depth++; p.depth > maxDepth {
+		return nil, fmt.Errorf("exceeded max depth at pos %d", p.pos)
+	}
+	defer func() { p.depth-- }()
+
 	switch p.peek() {
 	case '{':
 		return p.parseObject()
-- 
2.43.0


From 2825559ec11ea4f89c5fa76dfbe2229150a295dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 06/34] fix: read back the strings and numbers that Marshal
 writes

Marshal quotes strings the Go way (\x00, \u00e9, \a, ...) and writes large
and small numbers with an exponent, but Unmarshal refused all of these
and the JSON \u escape.
---
 internal/tson/serialization.go | 57 ++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 3e0eb2f..31e3642 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -14,6 +14,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // ToCompatibleTsonString converts TSON to a string.
@@ -656,6 +658,39 @@ func (p *Parser) parseString() (string, error) {
 				result = append(result, '\r')
 			case 't':
 				result = append(result, '\t')
+			case 'a':
+				result = append(result, '\a')
+			case 'v':
+				result = append(result, '\v')
+			case 'x': // a single byte
+				code, err := p.parseHex(2)
+				if err != nil {
+					return "", err
+				}
+				result = append(result, byte(code))
+			case 'u':
+				code, err := p.parseHex(4)
+				if err != nil {
+					return "", err
+				}
+				if utf16.IsSurrogate(code) && p.startsWith(`\u`) {
+					rest := p.pos
+					p.pos += 2
+					low, err := p.parseHex(4)
+					if err != nil {
+						return "", err
+					}
+					if code = utf16.DecodeRune(code, low); code == utf8.RuneError {
+						p.pos = rest // not a pair
+					}
+				}
+				result = utf8.AppendRune(result, code)
+			case 'U':
+				code, err := p.parseHex(8)
+				if err != nil {
+					return "", err
+				}
+				result = utf8.AppendRune(result, code)
 			default:
 				return "", fmt.Errorf("invalid escape character: %c", esc)
 			}
@@ -668,6 +703,19 @@ func (p *Parser) parseString() (string, error) {
 	return "", fmt.Errorf("unterminated string")
 }
 
+// parseHex parses n hexadecimal digits of an escape sequence.
+func (p *Parser) parseHex(n int) (rune, error) {
+	if p.pos+n > len(p.input) {
+		return 0, fmt.Errorf("unterminated escape sequence")
+	}
+	code, err := strconv.ParseUint(string(p.input[p.pos:p.pos+n]), 16, 32)
+	if err != nil {
+		return 0, fmt.Errorf("invalid escape sequence at pos %d", p.pos)
+	}
+	p.pos += n
+	return rune(code), nil
+}
+
 // parseNumber parses a number.
 func (p *Parser) parseNumber() (float64, error) {
 	start := p.pos
@@ -683,6 +731,15 @@ func (p *Parser) parseNumber() (float64, error) {
 			p.pos++
 		}
 	}
+	if p.peek() == 'e' || p.peek() == 'E' { // exponent
+		p.pos++
+		if p.peek() == '+' || p.peek() == '-' {
+			p.pos++
+		}
+		for p.pos < len(p.input) && p.input[p.pos] >= '0' && p.input[p.pos] <= '9' {
+			p.pos++
+		}
+	}
 	numStr := string(p.input[start:p.pos])
 	return strconv.ParseFloat(numStr, 64)
 }
-- 
2.43.0


From 5f736cf4d61c97088756836fee7350efcc3b3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 07/34] fix: address the leaf that a path names

A patch path with its leading slash was applied below a member with an
empty name, and keys containing a slash, tilde or dot could not be
addressed at all because paths were decoded before they were split.
Looking up a path without a leading slash panicked.
---
 internal/tson/tson.go           | 31 +++++++++++++++++++++++++++----
 internal/tsonpatch/tsonpatch.go |  6 +-----
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index e90115c..fa9cc29 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -60,6 +60,10 @@ const DefaultTimestamp int64 = -1
 func GetValue(t Tson, path string) (v Value, err error) {
 	var getValue func(t Tson, parts []string) (Value, error)
 	getValue = func(t Tson, parts []string) (Value, error) {
+		if len(parts) == 0 { // The path of the whole document
+			return t, nil
+		}
+
 		if len(parts) == 1 { // If Object, return the value of the key
 			if obj, ok := t.(Object); ok {
 				if value, ok := obj[parts[0]]; ok {
@@ -101,11 +105,30 @@ func GetValue(t Tson, path string) (v Value, err error) {
 		}
 	}
 
-	rfc6901Decoder := strings.NewReplacer("~1", "/", "~0", "~")
-	path = rfc6901Decoder.Replace(path)
-	parts := strings.Split(path, "/")[1:]
+	return getValue(t, SplitPath(path))
+}
+
+// Note: http://tools.ietf.org/html/rfc6901#section-4 :
+var rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
 
-	return getValue(t, parts)
+// SplitPath splits a path into the keys it consists of.
+// A path is either a JSON pointer ("/a/b") or in dot notation ("a.b").
+func SplitPath(path string) []string {
+	if path == "" {
+		return nil
+	}
+	if path[0] == '/' {
+		path = path[1:]
+	} else {
+		path = strings.ReplaceAll(path, ".", "/")
+	}
+
+	// Decode after splitting: an escaped slash is part of the key
+	parts := strings.Split(path, "/")
+	for i, part := range parts {
+		parts[i] = rfc6901Decoder.Replace(part)
+	}
+	return parts
 }
 
 // Equal checks if two TSONs are equal, including timestamps.
diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index df2802b..3bc2a28 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -149,11 +149,8 @@ func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
 }
 
 func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
-	path := rfc6901Decoder.Replace(op.Path)
-
 	// Split the path into parts, ignoring the first empty string
-	path = strings.ReplaceAll(path, ".", "/")
-	parts := strings.Split(path, "/")
+	parts := tson.SplitPath(op.Path)
 
 	// Traverse the TSON document
 	if t, err = applyTraverse(doc, parts, op); err != nil {
@@ -434,7 +431,6 @@ func getIndex(part string) (idx int, err error) {
 // Note: http://tools.ietf.org/html/rfc6901#section-4 :
 var (
 	rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
 )
 
 func makePath(path string, newPart any) string {
-- 
2.43.0


From 882e165c4728f7561cf9586eb0537ffa128712ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 08/34] fix: do not round plain JSON numbers in MarshalIndent

---
 internal/tson/serialization.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 31e3642..4dba5f1 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -194,7 +194,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 	case bool:
 		return fmt.Sprintf("%v", t), nil
 	case float64:
-		return fmt.Sprintf("%.f", t), nil
+		return fmt.Sprintf("%v", t), nil
 	case string:
 		return strconv.Quote(t), nil
 
-- 
2.43.0


From b5f5148771f2018368be1be846d8d219d075d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 09/34] fix: apply all operations of a patch, also none

---
 internal/tsonpatch/tsonpatch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 3bc2a28..6f51d4b 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -140,8 +140,9 @@ func GeneratePatchWithTimestamp(origin, modified tson.Tson) (Patch, error) {
 
 // ApplyPatch applies a JSON patch to a TSON document
 func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
+	t = doc
 	for _, op := range patch {
-		if t, err = ApplyOperation(doc, op); err != nil {
+		if t, err = ApplyOperation(t, op); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 2e30d124c215965e3d38e4afdfb33bf782a81e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 10/34] fix: apply patches on a copy, through arrays, and
 without panics

---
 internal/tsonpatch/tsonpatch.go | 86 +++++++++++++++------------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 6f51d4b..f82fcb8 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -20,7 +20,9 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -162,17 +164,28 @@ func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 
 // applyTraverse 함수 수정
 func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, err error) {
-	if len(parts) == 0 { // If the path is empty, return
-		return doc, nil
+	if len(parts) == 0 { // If the path is empty, the whole document is meant
+		if op.Op == OpRemove {
+			return nil, fmt.Errorf("applyTraverse(): Cannot remove the whole document")
+		}
+		root, err := applyTraverse(tson.Object{"": doc}, []string{""}, op)
+		if err != nil {
+			return nil, err
+		}
+		return root.(tson.Object)[""], nil
 	}
 
-	switch doc.(type) { // If doc is a leaf node, return
+	switch doc.(type) { // If doc is a leaf node, there is nothing below it
 	case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-		return doc, nil
+		return nil, fmt.Errorf("applyTraverse(): Path leads through a leaf at %s", parts[0])
 	}
 
+	// Work on a copy of every container on the path, never on the caller's document
 	switch part := parts[0]; j := doc.(type) {
 	case tson.Object:
+		if j = maps.Clone(j); j == nil {
+			j = tson.Object{}
+		}
 		if len(parts) == 1 { // Only a single part of path left
 			switch op.Op { // switch by operation type
 			case OpAdd, OpReplace:
@@ -198,7 +211,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			case OpRemove:
 				delete(j, part)
 			case OpMove, OpCopy, OpTest:
-				panic(fmt.Sprintf("applyTraverse(): Operation %s not implemented", op.Op))
+				return nil, fmt.Errorf("applyTraverse(): Operation %s not implemented", op.Op)
 			default:
 				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
 			}
@@ -207,54 +220,15 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 		switch value := j[part].(type) { // Recursively traverse the TSON document
 		case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-			panic("applyTraverse(): Leaf[T] should not be here")
+			return nil, fmt.Errorf("applyTraverse(): Path leads through a leaf at %s", part)
 		case tson.Object:
 			if j[part], err = applyTraverse(value, parts[1:], op); err != nil {
 				return nil, err
 			}
 		case tson.Array:
-			idx, err := getIndex(parts[1])
-			if err != nil {
+			if j[part], err = applyTraverse(value, parts[1:], op); err != nil {
 				return nil, err
 			}
-
-			switch op.Op {
-			case OpAdd, OpReplace:
-				if idx >= len(value) {
-					// 배열 크기가 충분하지 않은 경우 확장
-					newArray := make(tson.Array, idx+1)
-					copy(newArray, value)
-					value = newArray
-					j[part] = value
-				}
-
-				// 타입 변환 로직 개선
-				switch opValue := op.Value.(type) {
-				case string:
-					value[idx] = tson.Leaf[string]{Value: opValue, Timestamp: op.Timestamp}
-				case float64:
-					value[idx] = tson.Leaf[float64]{Value: opValue, Timestamp: op.Timestamp}
-				case int:
-					value[idx] = tson.Leaf[float64]{Value: float64(opValue), Timestamp: op.Timestamp}
-				case bool:
-					value[idx] = tson.Leaf[bool]{Value: opValue, Timestamp: op.Timestamp}
-				case nil:
-					return nil, fmt.Errorf("applyTraverse(): Nil value not supported for array element")
-				default:
-					if elem, ok := value[idx].(tson.Object); ok || elem == nil {
-						// 객체나 nil인 경우 재귀적으로 처리
-						if j[part], err = applyTraverse(value[idx], parts[1:], op); err != nil {
-							return nil, err
-						}
-					} else {
-						return nil, fmt.Errorf("applyTraverse(): Unsupported array element type %T", op.Value)
-					}
-				}
-			case OpRemove:
-				j[part] = append(value[:idx], value[idx+1:]...)
-			default:
-				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
-			}
 		case nil:
 			// 경로가 없는 경우 새로 생성
 			if op.Op == OpAdd || op.Op == OpReplace {
@@ -290,9 +264,14 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			return nil, err
 		}
 
+		j = slices.Clone(j)
+
 		// 배열 인덱스 범위 체크 및 확장
 		if idx >= len(j) {
 			if op.Op == OpAdd || op.Op == OpReplace {
+				if idx-len(j) > maxArrayGap {
+					return nil, fmt.Errorf("applyTraverse(): Index %d too far beyond array of length %d", idx, len(j))
+				}
 				// 배열 확장
 				newArray := make(tson.Array, idx+1)
 				copy(newArray, j)
@@ -332,11 +311,23 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 		}
 
 		return j, nil
+	case nil:
+		// A null (or not yet filled) element on the path becomes a container
+		if op.Op != OpAdd && op.Op != OpReplace {
+			return nil, fmt.Errorf("applyTraverse(): Cannot %s on nil value at %s", op.Op, part)
+		}
+		if _, err := getIndex(part); err == nil {
+			return applyTraverse(tson.Array{}, parts, op)
+		}
+		return applyTraverse(tson.Object{}, parts, op)
 	default:
 		return nil, fmt.Errorf("applyTraverse(): Unknown type %T for doc", doc)
 	}
 }
 
+// maxArrayGap limits how far beyond its end an add or replace may extend an array.
+const maxArrayGap = 1 << 20
+
 // func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, err error) {
 // 	if len(parts) == 0 { // If the path is empty, return
 // 		return doc, nil
@@ -426,6 +417,9 @@ func getIndex(part string) (idx int, err error) {
 	if idx, err = strconv.Atoi(part); err != nil {
 		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
 	}
+	if idx < 0 {
+		return -1, fmt.Errorf("getIndex(): Negative index %s", part)
+	}
 	return idx, nil
 }
 
-- 
2.43.0


From f7a4579c314fc4412d8d5bca5b1b3d31b234b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 11/34] fix: keep empty keys in generated patch paths

---
 internal/tsonpatch/tsonpatch.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index f82fcb8..d90279c 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -430,12 +430,6 @@ var (
 
 func makePath(path string, newPart any) string {
 	key := rfc6901Encoder.Replace(fmt.Sprintf("%v", newPart))
-	if path == "" {
-		return "/" + key
-	}
-	if strings.HasSuffix(path, "/") {
-		return path + key
-	}
 	return path + "/" + key
 }
 
-- 
2.43.0


From 4f10d509de27fa8517e53e979481b7ddb6961f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 12/34] fix: generate patches for every change of type, array
 length and null

---
 internal/tsonpatch/tsonpatch.go | 173 ++++++++++----------------------
 1 file changed, 52 insertions(+), 121 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index d90279c..b306a17 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -125,7 +125,7 @@ func NewOperation(op OpType, path string, value any, timestamp int64) Operation
 // GeneratePatch generates a JSON patch from two TSON documents
 func GeneratePatch(origin, modified tson.Tson) (Patch, error) {
 	// If the two TSON documents are equal, return an empty patch
-	if eq, err := tson.Equal(origin, modified); err != nil && eq {
+	if eq, err := tson.Equal(origin, modified); err == nil && eq {
 		return Patch{}, nil
 	}
 	return handleValues(origin, modified, "", Patch{})
@@ -134,7 +134,7 @@ func GeneratePatch(origin, modified tson.Tson) (Patch, error) {
 // GeneratePatchWithTimestamp는 타임스탬프 변경도 감지하여 패치를 생성합니다.
 func GeneratePatchWithTimestamp(origin, modified tson.Tson) (Patch, error) {
 	// If the two TSON documents are equal, return an empty patch
-	if eq, err := tson.Equal(origin, modified); err != nil && eq {
+	if eq, err := tson.Equal(origin, modified); err == nil && eq {
 		return Patch{}, nil
 	}
 	return handleValuesWithTimestamp(origin, modified, "", Patch{})
@@ -495,6 +495,8 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			case tson.Array:
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
+			case nil:
+				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			default:
 				panic(fmt.Sprintf("diff(): Unknown type %T for origValue", origValue))
 			}
@@ -505,6 +507,9 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 
 func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		return createLeaf(OpReplace, modValue, path, patch)
+	}
 	switch origin := origValue.(type) {
 	case tson.Leaf[string]:
 		if !matchesValue(origValue, modValue) {
@@ -527,21 +532,12 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 			return nil, err
 		}
 	case tson.Array:
-		modified, ok := modValue.(tson.Array)
-		if !ok { // tson.Array replaced by non-Array
-			var mod any = modValue
-			switch modLeaf := mod.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			default:
-				return nil, fmt.Errorf("handleValues(): Unknown type %T for modValue", modValue)
+		modified := modValue.(tson.Array)
+		if len(origin) != len(modified) { // Different array lengths
+			patch, err = compareArray(origin, modified, path, patch, false)
+			if err != nil {
+				return nil, err
 			}
-		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArray(origin, modified, path)...)
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValues(origin[i], modified[i], makePath(path, i), patch)
@@ -581,6 +577,9 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 	// 타임스탬프 변경 감지
 	timestampChanged := !matchTimestamp(origValue, modValue)
 
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		return createLeaf(OpReplace, modValue, path, patch)
+	}
 	switch origin := origValue.(type) {
 	case tson.Leaf[string]:
 		valuesEqual := matchesValue(origValue, modValue)
@@ -614,21 +613,12 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 		}
 
 	case tson.Array:
-		modified, ok := modValue.(tson.Array)
-		if !ok { // tson.Array replaced by non-Array
-			var mod any = modValue
-			switch modLeaf := mod.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp))
-			default:
-				return nil, fmt.Errorf("handleValuesWithTimestamp(): Unknown type %T for modValue", modValue)
+		modified := modValue.(tson.Array)
+		if len(origin) != len(modified) { // Different array lengths
+			patch, err = compareArray(origin, modified, path, patch, true)
+			if err != nil {
+				return nil, err
 			}
-		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArrayWithTimestamp(origin, modified, path)...)
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValuesWithTimestamp(origin[i], modified[i], makePath(path, i), patch)
@@ -764,106 +754,47 @@ func matchTimestamp(origin, modified tson.Value) bool {
 	return false
 }
 
-// compareArray generates remove and add operations
-func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
-		// TODO: is there a way to calculate the timestamp?
-		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
+// createLeaf generates an operation that puts a leaf at the path.
+func createLeaf(op OpType, value tson.Value, path string, patch Patch) (Patch, error) {
+	switch leaf := value.(type) {
+	case tson.Leaf[string]:
+		return append(patch, NewOperation(op, path, leaf.Value, leaf.Timestamp)), nil
+	case tson.Leaf[float64]:
+		return append(patch, NewOperation(op, path, leaf.Value, leaf.Timestamp)), nil
+	case tson.Leaf[bool]:
+		return append(patch, NewOperation(op, path, leaf.Value, leaf.Timestamp)), nil
+	default:
+		return nil, fmt.Errorf("createLeaf(): Unknown type %T for value", value)
 	}
-	patch = reversed
+}
 
-	// Find elements that need to be added.
-	processArray(modArr, origArr, func(i int, value any) {
-		switch leaf := value.(type) {
-		case tson.Leaf[string]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		case tson.Leaf[float64]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		case tson.Leaf[bool]:
-			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-		default:
-			panic(fmt.Sprintf("compareArray(): Unknown type %T for value", value))
+// compareArray generates operations between arrays of different lengths:
+// the common elements are compared by index, then the surplus elements
+// are removed (the last one first) or the missing ones added.
+func compareArray(origArr, modArr tson.Array, p string, patch Patch, withTimestamp bool) (Patch, error) {
+	var err error
+	for i := 0; i < len(origArr) && i < len(modArr); i++ {
+		if withTimestamp {
+			patch, err = handleValuesWithTimestamp(origArr[i], modArr[i], makePath(p, i), patch)
+		} else {
+			patch, err = handleValues(origArr[i], modArr[i], makePath(p, i), patch)
 		}
-	})
-	return patch
-}
+		if err != nil {
+			return nil, err
+		}
+	}
 
-// compareArrayWithTimestamp는 두 배열을 비교하여 패치를 생성합니다. 타임스탬프 변경도 감지합니다.
-func compareArrayWithTimestamp(origArr, modArr tson.Array, p string) (patch Patch) {
 	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
+	for i := len(origArr) - 1; i >= len(modArr); i-- {
 		// TODO: is there a way to calculate the timestamp?
 		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
-	}
-	patch = reversed
-
-	// Find elements that need to be added, or have changed values or timestamps
-	for i, value := range modArr {
-		// 원래 배열과 수정된 배열의 같은 인덱스에서 값 또는 타임스탬프 변경 확인
-		if i < len(origArr) {
-			valuesEqual := matchesValue(origArr[i], value)
-			timestampEqual := matchTimestamp(origArr[i], value)
-
-			if !valuesEqual || !timestampEqual {
-				switch leaf := value.(type) {
-				case tson.Leaf[string]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[float64]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[bool]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				}
-			}
-		} else {
-			// 새로 추가된 요소
-			switch leaf := value.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			default:
-				panic(fmt.Sprintf("compareArrayWithTimestamp(): Unknown type %T for value", value))
-			}
-		}
 	}
 
-	return patch
-}
-
-// processArray processes two arrays calling applyOp whenever a value is absent.
-func processArray(origArr, modArr tson.Array, applyOp func(i int, value any)) {
-	// Note: map[T]struct{} is used to simulate a set.
-	foundIndexes := make(map[int]struct{}, len(origArr))
-	reverseFoundIndexes := make(map[int]struct{}, len(origArr))
-
-	for idx1, value1 := range origArr {
-		for idx2, value2 := range modArr {
-			if _, ok := reverseFoundIndexes[idx2]; ok {
-				// This one is already found.
-				continue
-			}
-			if reflect.DeepEqual(value1, value2) {
-				// Mark this as found
-				foundIndexes[idx1] = struct{}{}
-				reverseFoundIndexes[idx2] = struct{}{}
-				break
-			}
-		}
-		if _, ok := foundIndexes[idx1]; !ok {
-			applyOp(idx1, value1)
+	// Find elements that need to be added.
+	for i := len(origArr); i < len(modArr); i++ {
+		if patch, err = createLeaf(OpAdd, modArr[i], makePath(p, i), patch); err != nil {
+			return nil, err
 		}
 	}
+	return patch, nil
 }
-- 
2.43.0


From 2b10dce972b7e5cf354b06f4be890cee3bdf16d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 13/34] fix: quote the path of an operation in its JSON text

---
 internal/tsonpatch/tsonpatch.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index b306a17..abcea83 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -90,14 +90,14 @@ type Operation struct {
 // String converts the Operation to a JSON string.
 func (p *Operation) String() string {
 	var ( // Using vanila JSON here
-		op        = p.Op
-		path      = p.Path
+		op, _     = json.Marshal(p.Op)
+		path, _   = json.Marshal(p.Path)
 		value, _  = json.Marshal(p.Value)
 		timestamp = p.Timestamp
 		buf       bytes.Buffer
 	)
 	fmt.Fprintf(&buf,
-		`{ "op": "%s", "path": "%s", "value": %s, "timestamp": %d }`,
+		`{ "op": %s, "path": %s, "value": %s, "timestamp": %d }`,
 		op, path, value, timestamp)
 	return buf.String()
 }
@@ -105,7 +105,9 @@ func (p *Operation) String() string {
 // Marshal converts the Operation to a JSON byte Array.
 func (p *Operation) Marshal() (b []byte, err error) {
 	var buf bytes.Buffer
-	fmt.Fprintf(&buf, `{ "op": "%s", "path": "%s"`, p.Op, p.Path)
+	op, _ := json.Marshal(p.Op)
+	path, _ := json.Marshal(p.Path)
+	fmt.Fprintf(&buf, `{ "op": %s, "path": %s`, op, path)
 	if p.Value != nil || p.Op == OpReplace || p.Op == OpAdd || p.Op == OpTest {
 		if v, err := json.Marshal(p.Value); err != nil {
 			return nil, err
-- 
2.43.0


From 6e9b1da447cc67d3f4a70725a6205169186ba4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 14/34] fix: replay every version up to the snapshot's

---
 internal/logument/logument.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 98dda3b..cb2f146 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -219,19 +219,17 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 		panic(err)
 	}
 
-	var timedSnapshot tsonSnapshot
+	timedSnapshot := latestSnapshot
 
 	if latestVersion != vk {
 		// Apply patches from the latest version to the target version
 		for i := latestVersion + 1; i <= vk; i++ {
 			var err error
-			timedSnapshot, err = tsonpatch.ApplyPatch(latestSnapshot, lgm.Patches[i])
+			timedSnapshot, err = tsonpatch.ApplyPatch(timedSnapshot, lgm.Patches[i])
 			if err != nil {
 				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 			}
 		}
-	} else {
-		timedSnapshot = latestSnapshot
 	}
 
 	if _, exists := lgm.Snapshots[vk]; !exists {
-- 
2.43.0


From de452dc31c3c3ef697060b6653e16565f0d11015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 15/34] fix: keep the current state in step with stored and set
 operations

---
 internal/logument/logument.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index cb2f146..889b7df 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -160,10 +161,17 @@ func (lgm *Logument) Store(inputPatches any) {
 	}
 
 	if lgm.PatchPool == nil {
-		lgm.PatchPool = patches
+		lgm.PatchPool = slices.Clone(patches) // The caller keeps its own slice
 	} else {
 		lgm.PatchPool = append(lgm.PatchPool, patches...)
 	}
+
+	// Keep the current state in step with what has been stored
+	for _, patch := range patches {
+		if state, err := tsonpatch.ApplyOperation(lgm.CurrentState, patch); err == nil {
+			lgm.CurrentState = state
+		}
+	}
 }
 
 func (lgm *Logument) findLatest(targetVersion uint64) (latestVersion uint64, latestSnapshot tsonSnapshot, rr error) {
@@ -526,11 +534,11 @@ func (lgm *Logument) Set(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	var err error
-	lgm.CurrentState, err = tsonpatch.ApplyOperation(lgm.CurrentState, patch)
+	state, err := tsonpatch.ApplyOperation(lgm.CurrentState, patch)
 	if err != nil {
 		panic(fmt.Sprintf("failed to apply patch: %v", err))
 	}
+	lgm.CurrentState = state
 
 	if lgm.PatchPool == nil {
 		lgm.PatchPool = tsonpatch.Patch{patch}
@@ -550,13 +558,12 @@ func (lgm *Logument) TestSet(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	latesetSnapshot := lgm.Snapshots[lgm.Version[len(lgm.Version)-1]]
 	// if _, exists := lgm.Snapshots[vk]; !exists {
 	// 	s := lgm.Snapshot(vk)
 	// 	lgm.Snapshots[vk] = s
 	// }
 
-	exist_value, err := tson.GetValue(latesetSnapshot, patch.Path)
+	exist_value, err := tson.GetValue(lgm.CurrentState, patch.Path)
 	if err != nil {
 		lgm.Set(vk,
 			tsonpatch.Operation{
@@ -583,6 +590,9 @@ func leafCompareValue(leafValue tson.Value, value any) bool {
 		if floatVal, ok := value.(float64); ok {
 			return leaf.Value == floatVal
 		}
+		if intVal, ok := value.(int); ok {
+			return leaf.Value == float64(intVal)
+		}
 	case tson.Leaf[bool]:
 		if boolVal, ok := value.(bool); ok {
 			return leaf.Value == boolVal
-- 
2.43.0


From ffad053e6daea93f4984d432229301c744ba16eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 16/34] fix: take every version into account in a time snapshot

---
 internal/logument/logument.go | 90 ++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 43 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 889b7df..665325b 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -248,63 +248,67 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 }
 
 func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
-	versions := lgm.getSortedVersions("snapshot")
-
-	// Find the latest timestamp before the target timestamp
-	latestVersion := lgm.Version[0]
-	for _, version := range versions {
-		s := lgm.Snapshots[version]
-		lts := tson.GetLatestTimestamp(s)
-		if lts <= tsk {
-			latestVersion = version
-		} else {
-			break
-		}
+	if lgm.PatchPool != nil {
+		lgm.Append()
 	}
 
-	// Get the latest snapshot
-	latestSnapshot := lgm.Snapshots[latestVersion]
-
-	if latestVersion >= lgm.Version[len(lgm.Version)-1] {
-		if lgm.PatchPool != nil {
-			lgm.Append()
-		} else {
-			return latestSnapshot
-		}
+	timedSnapshot, err := lgm.stateOf(func(timestamp int64) bool { return timestamp <= tsk })
+	if err != nil {
+		panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 	}
 
-	// Create a map to store the most recent patch for each path
-	latestPatchMap := make(map[string]tsonpatch.Operation)
+	// lgm.Snapshots[latestVersion+1] = timedSnapshot
 
-	// Iterate through the patches and keep only the most recent one for each path
-	sort.Slice(lgm.Patches[latestVersion+1], func(i, j int) bool {
-		return lgm.Patches[latestVersion+1][i].Timestamp < lgm.Patches[latestVersion+1][j].Timestamp
-	})
+	return timedSnapshot
+}
 
-	for _, p := range lgm.Patches[latestVersion+1] {
-		if p.Timestamp <= tsk {
-			// Check if we've seen this path before and if this patch is more recent
-			if existing, exists := latestPatchMap[p.Path]; !exists || p.Timestamp > existing.Timestamp {
-				latestPatchMap[p.Path] = p
+// stateOf applies, in the order of their timestamps, all the patches
+// of the log whose timestamp is included.
+func (lgm *Logument) stateOf(included func(timestamp int64) bool) (tsonSnapshot, error) {
+	type storedPatch struct {
+		tsonpatch.Operation
+		position int // in the order of storing
+	}
+
+	// Gather the patches stored after the first snapshot
+	var patches []storedPatch
+	stored := 0
+	storedUntil := make(map[uint64]int)
+	for _, version := range lgm.Version {
+		if version > lgm.Version[0] {
+			for _, p := range lgm.Patches[version] {
+				if included(p.Timestamp) {
+					patches = append(patches, storedPatch{p, stored})
+				}
+				stored++
 			}
 		}
+		storedUntil[version] = stored
 	}
+	sort.SliceStable(patches, func(i, j int) bool {
+		return patches[i].Timestamp < patches[j].Timestamp
+	})
 
-	// Convert the map to a slice
-	var latestPatches tsonpatch.Patch
-	for _, patch := range latestPatchMap {
-		latestPatches = append(latestPatches, patch)
+	// The patches that were stored in the order of their timestamps
+	settled := 0
+	for settled < len(patches) && patches[settled].position == settled {
+		settled++
 	}
 
-	// Apply patches
-	timedSnapshot, err := tsonpatch.ApplyPatch(latestSnapshot, latestPatches)
-	if err != nil {
-		panic("Failed to make a snapshot with the given version. Error: " + err.Error())
+	// Find the latest snapshot that holds none but settled patches
+	latestVersion := lgm.Version[0]
+	for _, version := range lgm.getSortedVersions("snapshot") {
+		if n, exists := storedUntil[version]; exists && n <= settled {
+			latestVersion = version
+		}
 	}
 
-	// lgm.Snapshots[latestVersion+1] = timedSnapshot
-
-	return timedSnapshot
+	// Apply patches
+	var remaining tsonpatch.Patch
+	for _, p := range patches[storedUntil[latestVersion]:] {
+		remaining = append(remaining, p.Operation)
+	}
+	return tsonpatch.ApplyPatch(lgm.Snapshots[latestVersion], remaining)
 }
 
 func (lgm *Logument) Slice(vi, vj uint64) *Logument {
-- 
2.43.0


From 4cea23a22b3fd59950c55c833c86f25d30fc356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 17/34] fix: give slices their base state and every version
 they cover

---
 internal/logument/logument.go | 59 ++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 665325b..4959b2f 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"maps"
 	"slices"
 	"sort"
 	"strconv"
@@ -341,29 +342,31 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 		}
 	}
 
-	versionsFromPatch := lgm.getSortedVersions("patch")
 	SlicedPatches := make(map[uint64]tsonPatches)
-	for _, version := range versionsFromPatch {
+	for _, version := range lgm.Version {
 		if version >= vi && version <= vj {
 			// SlicedVersions always includes all versions between the start and end versions
-			// because lgm.Version and lgm.PatchMap are continuous.
+			// because lgm.Version is continuous.
 			// However, lgm.Snapshots may not be continuous,
 			// so the following line works correctly only in this loop.
 			SlicedVersions = append(SlicedVersions, version)
-			SlicedPatches[version] = lgm.Patches[version]
+			if patches, exists := lgm.Patches[version]; exists {
+				SlicedPatches[version] = patches
+			}
 		}
 	}
 
 	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
+	if _, exists := SlicedSnapshots[vi]; !exists {
 		SlicedSnapshots[vi] = lgm.Snapshot(vi)
 	}
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: lgm.Snapshot(vj),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
@@ -383,15 +386,7 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 
 	var SlicedVersions []uint64
 
-	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
 	SlicedSnapshots := make(map[uint64]tsonSnapshot)
-	for _, version := range versionsFromSnapshot {
-		snapshot := lgm.Snapshots[version]
-		latestTimestamp := tson.GetLatestTimestamp(snapshot)
-		if latestTimestamp >= tsi && latestTimestamp <= tsj {
-			SlicedSnapshots[version] = snapshot
-		}
-	}
 
 	versionsFromPatch := lgm.getSortedVersions("patch")
 	SlicedPatches := make(map[uint64]tsonPatches)
@@ -399,28 +394,40 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 		patches := lgm.Patches[version]
 		for _, patch := range patches {
 			if patch.Timestamp >= tsi && patch.Timestamp <= tsj {
-				// SlicedVersions always includes all versions between the start and end times
-				// because lgm.Version and lgm.PatchMap are continuous.
-				// However, lgm.Snapshots may not be continuous,
-				// so the following line works correctly only in this loop.
-				SlicedVersions = append(SlicedVersions, version)
 				SlicedPatches[version] = append(SlicedPatches[version], patch)
 			}
 		}
 	}
 
-	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
-		startVersion := SlicedVersions[0]
-		SlicedSnapshots[startVersion] = lgm.TemporalSnapshot(tsi)
+	// The slice starts, one version before its first patch,
+	// from the state just before the start time
+	startVersion := lgm.Version[len(lgm.Version)-1]
+	endVersion := startVersion
+	for version := range SlicedPatches {
+		startVersion = min(startVersion, version-1)
+	}
+	if len(SlicedPatches) > 0 {
+		endVersion = slices.Max(slices.Collect(maps.Keys(SlicedPatches)))
+	}
+	for version := startVersion; version <= endVersion; version++ {
+		SlicedVersions = append(SlicedVersions, version)
 	}
 
+	startState, err := lgm.stateOf(func(timestamp int64) bool { return timestamp < tsi })
+	if err != nil {
+		panic("Failed to make a snapshot at the start time. Error: " + err.Error())
+	}
+	SlicedSnapshots[startVersion] = startState
+
 	slicedLgm := &Logument{
 		Version:   SlicedVersions,
 		Snapshots: SlicedSnapshots,
 		Patches:   SlicedPatches,
 		PatchPool: nil,
 	}
+	if slicedLgm.CurrentState, err = slicedLgm.stateOf(func(int64) bool { return true }); err != nil {
+		panic("Failed to make a snapshot at the end time. Error: " + err.Error())
+	}
 
 	return slicedLgm
 }
-- 
2.43.0


From 6b3537a1f836521c4eb233861f803b8c0eeaaa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 18/34] fix: leave the log alone when tracking changes

---
 internal/logument/logument.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 4959b2f..60aac01 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -486,7 +486,7 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 				latestValues[patch.Path] = patch.Value
 			}
 		}
-		lgm.Patches[path] = compactPatches
+		packedPatches[path] = compactPatches
 	}
 
 	return packedPatches
-- 
2.43.0


From 1c2b9d221f628254f48e5cd384c380470f87e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 19/34] fix: track, compact and list exactly the value-changing
 operations

---
 internal/logument/logument.go | 126 +++++++++++++++++++++-------------
 1 file changed, 77 insertions(+), 49 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 60aac01..dcba3ad 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -3,6 +3,7 @@ package logument
 import (
 	"fmt"
 	"maps"
+	"reflect"
 	"slices"
 	"sort"
 	"strconv"
@@ -15,8 +16,7 @@ import (
 
 // Note: http://tools.ietf.org/html/rfc6901#section-4 :
 var (
-	// rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
+	rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
 )
 
 type tsonSnapshot = tson.Tson
@@ -460,7 +460,7 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 		}
 	}
 
-	latestValues := make(map[string]any)
+	latestValues := make(pathValues)
 
 	paths := make([]uint64, 0, len(packedPatches))
 	for path := range packedPatches {
@@ -473,18 +473,10 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 		compactPatches := make(tsonPatches, 0, len(patches))
 		for _, patch := range patches {
 			// Compare to previous value if it exists at the same path
-			if prev, exists := latestValues[patch.Path]; exists {
-				// If value has changed, keep the patch and update the status bool { return paths[i] < paths[j] })
-				if prev != patch.Value {
-					compactPatches = append(compactPatches, patch)
-					latestValues[patch.Path] = patch.Value
-				}
-				// Skip if value is the same
-			} else {
-				// Always keep the patch when it appears for the first time
+			if latestValues.update(patch) {
 				compactPatches = append(compactPatches, patch)
-				latestValues[patch.Path] = patch.Value
 			}
+			// Skip if value is the same
 		}
 		packedPatches[path] = compactPatches
 	}
@@ -504,7 +496,7 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 	}
 
 	trackedPatches := make(map[uint64]tsonPatches)
-	latestValues := make(map[string]any)
+	latestValues := make(pathValues)
 
 	versions := lgm.getSortedVersions("patch")
 	for _, version := range versions {
@@ -513,18 +505,10 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 		for _, p := range ps {
 			if p.Timestamp >= tsi && p.Timestamp <= tsj {
 				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
-					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
-						compactPatches = append(compactPatches, p)
-						latestValues[p.Path] = p.Value
-					}
-					// Skip if value is the same
-				} else {
-					// Always keep the patch when it appears for the first time
+				if latestValues.update(p) {
 					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
 				}
+				// Skip if value is the same
 			}
 		}
 		if len(compactPatches) > 0 {
@@ -612,6 +596,54 @@ func leafCompareValue(leafValue tson.Value, value any) bool {
 	return false
 }
 
+// pathValues holds the values that patches have given to paths.
+type pathValues map[string]any
+
+// update records the patch and reports whether it changes anything,
+// that is, whether it does not just repeat the value its path has.
+func (values pathValues) update(patch tsonpatch.Operation) bool {
+	parts := tson.SplitPath(patch.Path)
+	key := pathKey(parts)
+	isSet := patch.Op == tsonpatch.OpAdd || patch.Op == tsonpatch.OpReplace
+
+	if prev, exists := values[key]; exists && isSet && reflect.DeepEqual(prev, patch.Value) {
+		return false
+	}
+
+	// Whatever was known below the path is gone. Removing
+	// an element also moves the elements behind it.
+	affected := key
+	if !isSet && len(parts) > 0 {
+		if _, err := strconv.Atoi(parts[len(parts)-1]); err == nil {
+			affected = pathKey(parts[:len(parts)-1])
+		}
+	}
+	for path := range values {
+		if strings.HasPrefix(path, affected) {
+			delete(values, path)
+		}
+	}
+	// Neither does a value above the path remain
+	for i := range parts {
+		delete(values, pathKey(parts[:i]))
+	}
+
+	if isSet {
+		values[key] = patch.Value
+	}
+	return true
+}
+
+// pathKey makes a string of the path which is a prefix
+// of exactly the keys of the paths at or below it.
+func pathKey(parts []string) string {
+	var key strings.Builder
+	for _, part := range parts {
+		key.WriteString(rfc6901Encoder.Replace(part) + "/")
+	}
+	return key.String()
+}
+
 func (lgm *Logument) Compact(targetPath string) {
 	// Compact the Logument document
 	// Remove the patches that have changed only the value without changing the TIMESTAMP ts
@@ -619,30 +651,24 @@ func (lgm *Logument) Compact(targetPath string) {
 		panic("Versions are not continuous.")
 	}
 
-	latestValues := make(map[string]any)
+	targetKey := pathKey(tson.SplitPath(targetPath))
+	latestValues := make(pathValues)
 
 	versions := lgm.getSortedVersions("patch")
 	for _, version := range versions {
 		ps := lgm.Patches[version]
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
-			pt := rfc6901Decoder.Replace(p.Path)
-			if strings.HasPrefix(pt, targetPath) {
+			pt := pathKey(tson.SplitPath(p.Path))
+			if strings.HasPrefix(pt, targetKey) {
 				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
-					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
-						compactPatches = append(compactPatches, p)
-						latestValues[p.Path] = p.Value
-					}
-					// Skip if value is the same
-				} else {
-					// Always keep the patch when it appears for the first time
+				if latestValues.update(p) {
 					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
 				}
+				// Skip if value is the same
 			} else {
 				// Keep patches that do not match the targetPath
+				latestValues.update(p)
 				compactPatches = append(compactPatches, p)
 			}
 		}
@@ -658,25 +684,27 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 		panic("Versions are not continuous.")
 	}
 
-	lgm.Compact(targetPath)
+	targetKey := pathKey(tson.SplitPath(targetPath))
+	latestValues := make(pathValues)
+
+	var patches tsonPatches
+	for _, version := range lgm.getSortedVersions("patch") {
+		patches = append(patches, lgm.Patches[version]...)
+	}
+	sort.SliceStable(patches, func(i, j int) bool { return patches[i].Timestamp < patches[j].Timestamp })
 
 	historyPatches := make(map[string]tsonPatches)
-	for _, patches := range lgm.Patches {
-		for _, patch := range patches {
-			path := rfc6901Decoder.Replace(patch.Path)
-			if strings.HasPrefix(path, targetPath) {
-				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
-			}
+	for _, patch := range patches {
+		path := pathKey(tson.SplitPath(patch.Path))
+		if latestValues.update(patch) && strings.HasPrefix(path, targetKey) {
+			historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
 		}
 	}
 
 	// Add the initial value to the history
 	for key := range historyPatches {
-		val, err := tson.GetValue(lgm.Snapshots[0], key)
-		if err != nil {
-			panic("Failed to get the value from the snapshot. Error: " + err.Error())
-		}
-		if val != nil {
+		val, err := tson.GetValue(lgm.Snapshots[lgm.Version[0]], key)
+		if err == nil && val != nil {
 			historyPatches[key] = append([]tsonpatch.Operation{{
 				Op:        tsonpatch.OpAdd,
 				Path:      key,
-- 
2.43.0


From c29f5248ba671d9a3c8c19a08dcea064d7526a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 20/34] fix: generate each document from the one before it

---
 internal/vssgen/args.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 427a634..0f1583c 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -106,7 +106,8 @@ func Generate(metadata map[string]any, dataFolder string) {
 
 		// Generate the rest of the JSON files
 		for j := 2; j <= files; j++ {
-			data, patch := data.GenerateNext(changeRate, maintainRate, i, j)
+			var patch *VssJson
+			data, patch = data.GenerateNext(changeRate, maintainRate, i, j)
 			data.Save(filepath.Join(carDir, fmt.Sprintf("%d_%d.tson", i, j)))
 			patch.Save(filepath.Join(patchDir, fmt.Sprintf("%d_%d.json", i, j)))
 			bar.Add(1)
-- 
2.43.0


From d2abf39dda3f8f2ed14c479b2c37322e09dac812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 21/34] fix: do without an optional maintain rate

---
 internal/vssgen/args.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 0f1583c..47b3d8c 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -72,12 +72,13 @@ func SaveMetadata(metadata map[string]any, dataFolder string) {
 // Generate generates the VSS dataset as TSON & JSON patch
 func Generate(metadata map[string]any, dataFolder string) {
 	var (
-		dataset      = metadata["dataset"].(string)
-		cars         = metadata["cars"].(int)
-		files        = metadata["files"].(int)
-		changeRate   = metadata["change_rate"].(float64)
-		maintainRate = metadata["maintain_rate"].(float64)
-		size         = metadata["size"].(float64)
+		dataset    = metadata["dataset"].(string)
+		cars       = metadata["cars"].(int)
+		files      = metadata["files"].(int)
+		changeRate = metadata["change_rate"].(float64)
+		size       = metadata["size"].(float64)
+
+		maintainRate, _ = metadata["maintain_rate"].(float64) // optional
 	)
 
 	fmt.Printf("Generating %d cars with %d files each...\n", cars, files)
-- 
2.43.0


From 71020c362c12b671c3ee967eb452ff8d0f1b7dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 22/34] fix: keep timestamps and values exact in generated
 patch files

---
 internal/vssgen/vss.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 6225caf..d46c1e5 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -366,11 +366,13 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 	ops, _ := tsonpatch.GeneratePatchWithTimestamp(origin, modified)
 
 	// Step 2. Convert the patch object to a []byte
-	bytes, _ := json.Marshal(ops)
+	b, _ = json.Marshal(ops)
 
-	// Step 3. Unmarshal the []byte to a JSON object
+	// Step 3. Unmarshal the []byte to a JSON object, keeping every digit
 	var patch any
-	json.Unmarshal(bytes, &patch)
+	decoder := json.NewDecoder(bytes.NewReader(b))
+	decoder.UseNumber()
+	decoder.Decode(&patch)
 
 	// Step 4. Return the new dataset and the patch
 	return &VssJson{initialized: true, data: result}, &VssJson{initialized: true, data: patch}
@@ -393,9 +395,11 @@ func (vss *VssJson) Save(file string) {
 			var buf bytes.Buffer
 			d := item.(map[string]any)
 
+			path, _ := json.Marshal(d["path"])
+			value, _ := json.Marshal(d[tsonValue])
 			fmt.Fprintf(&buf,
-				`{ "op": "%s", "path": "%s", "value": %#v, "timestamp": %d }`,
-				d["op"], d["path"], d[tsonValue], int64(d[tsonTimestamp].(float64)))
+				`{ "op": "%s", "path": %s, "value": %s, "timestamp": %v }`,
+				d["op"], path, value, d[tsonTimestamp])
 			lines = append(lines, "    "+buf.String())
 		}
 
-- 
2.43.0


From 34996b406b2db38989d1fa3f8876e35cf9bf986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 23/34] fix: generate arrays of allowed values, and keep nulls

---
 internal/vssgen/vss.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index d46c1e5..7bc36ac 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -181,7 +181,7 @@ func (vss VssJson) Generate(datasetSize float64, id int) *VssJson {
 				tsonValue:     rand.Float64() < 0.5,
 				tsonTimestamp: timestamp,
 			}
-		case dtype == "int8" || dtype == "uint8" || dtype == "float" && metadata["unit"] == "percent":
+		case !allowed_ok && (dtype == "int8" || dtype == "uint8" || dtype == "float" && metadata["unit"] == "percent"):
 			f := rand.Float64() * 100
 			if dtype == "float" {
 				new[node] = map[string]any{
@@ -194,6 +194,15 @@ func (vss VssJson) Generate(datasetSize float64, id int) *VssJson {
 					tsonTimestamp: timestamp,
 				}
 			}
+		case allowed_ok && dtype == "string[]":
+			array := metadata["allowed"].([]any)
+			new[node] = make([]any, 0)
+			for i := 0; i < rand.Intn(5)+1; i++ {
+				new[node] = append(new[node].([]any), map[string]any{
+					tsonValue:     array[rand.Intn(len(array))],
+					tsonTimestamp: timestamp,
+				})
+			}
 		case allowed_ok:
 			array := metadata["allowed"].([]any)
 			new[node] = map[string]any{
@@ -327,6 +336,11 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 						tsonValue:     rand.Float64() * 100,
 						tsonTimestamp: timestamp,
 					}
+				default: // null
+					new[node] = map[string]any{
+						tsonValue:     nil,
+						tsonTimestamp: timestamp,
+					}
 				}
 			} else if r < (changeRate + maintainRate) {
 				// 값은 변하지 않고 타임스탬프만 변경되는 패치 생성
-- 
2.43.0


From fe2d12ae7e8f4eab15e2d62e07bf98682e32b6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 24/34] fix: serve the web demo's data by number only, the
 first document too

---
 web_demo.go | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/web_demo.go b/web_demo.go
index 0745eb6..2ce1741 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -71,30 +71,50 @@ func homeHandler(w http.ResponseWriter, r *http.Request) {
 
 // updateHandler handles the update request, sending the TSON or Patch
 func updateHandler(w http.ResponseWriter, r *http.Request) {
-	car := r.URL.Query().Get("car")
+	// Only numbers may become a part of the file name
+	car, err := strconv.Atoi(r.URL.Query().Get("car"))
+	if err != nil {
+		http.NotFound(w, r)
+		return
+	}
+
+	var b []byte
 	if patch := r.URL.Query().Get("patch"); patch == "" {
 		// Send the TSON snapshot
-		b, _ := os.ReadFile(fmt.Sprintf("dataset/car_%s/tson/%s_1.tson", car, car))
-		w.Write(b)
-	} else { // Send the patch
-		b, _ := os.ReadFile(fmt.Sprintf("dataset/car_%s/patches/%s_%s.json", car, car, patch))
-		w.Write(b)
+		b, err = os.ReadFile(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car))
+	} else if n, e := strconv.Atoi(patch); e == nil { // Send the patch
+		b, err = os.ReadFile(fmt.Sprintf("dataset/car_%d/patches/%d_%d.json", car, car, n))
+	} else {
+		err = e
 	}
+	if err != nil {
+		http.NotFound(w, r)
+		return
+	}
+	w.Write(b)
 }
 
 // patchHandler handles the patch request, sending the patched TSON
 func patchHandler(w http.ResponseWriter, r *http.Request) {
 	var (
-		car, _          = strconv.Atoi(r.URL.Query().Get("car"))
-		maxpatch, _     = strconv.Atoi(r.URL.Query().Get("patch"))
-		originalTson, _ = os.ReadFile(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car))
-		lgm             = logument.NewLogument(originalTson, nil)
+		car, carErr       = strconv.Atoi(r.URL.Query().Get("car"))
+		maxpatch, numErr  = strconv.Atoi(r.URL.Query().Get("patch"))
+		originalTson, err = os.ReadFile(fmt.Sprintf("dataset/car_%d/tson/%d_1.tson", car, car))
 	)
+	if carErr != nil || numErr != nil || err != nil || maxpatch < 1 {
+		http.NotFound(w, r)
+		return
+	}
+	lgm := logument.NewLogument(originalTson, nil)
 
 	for i := 2; i <= maxpatch; i++ {
 		// Read patch file
 		fileName := fmt.Sprintf("dataset/car_%d/patches/%d_%d.json", car, car, i)
-		patch, _ := os.ReadFile(fileName)
+		patch, err := os.ReadFile(fileName)
+		if err != nil {
+			http.NotFound(w, r)
+			return
+		}
 
 		// Append it to the PatchPool
 		lgm.Store(patch)
@@ -104,7 +124,7 @@ func patchHandler(w http.ResponseWriter, r *http.Request) {
 	lgm.Append()
 
 	// Take the snapshot
-	snapshot := lgm.Snapshot(1)
+	snapshot := lgm.Snapshot(lgm.Version[len(lgm.Version)-1])
 	result, _ := tson.MarshalIndent(snapshot, "", "  ")
 
 	// Send the result
-- 
2.43.0


From b0cb161b0f26fc9fb7da0fe1009323bd1459893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 25/34] fix: make the interval baseline and the event searches
 exact

---
 exp/tjson.go          | 45 +++++++++++++++++++++++++++----------------
 exp/utils_temporal.go | 26 ++++++++++++++++++++-----
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index f0fd5e8..9cbbca5 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -3,6 +3,7 @@ package exp
 import (
 	"fmt"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -75,20 +76,27 @@ func (doc *TJSONDocument) AddItem(path string, startTime, endTime int64, value i
 			currentItem.Children[key] = childItem
 		}
 		currentItem = childItem
+	}
 
-		// 마지막 부분일 경우 값도 설정
-		if i == len(parts)-1 {
-			version := &TJSONVersion{
-				Timestamp: timestamp,
-				Data:      value,
-			}
-			currentItem.Versions = append(currentItem.Versions, version)
-		}
+	// 마지막 부분에 값 설정
+	version := &TJSONVersion{
+		Timestamp: timestamp,
+		Data:      value,
 	}
+	currentItem.Versions = append(currentItem.Versions, version)
 
 	return nil
 }
 
+// addInterval adds the item unless its value has been replaced
+// at the very moment it was set.
+func (doc *TJSONDocument) addInterval(path string, startTime, endTime int64, value interface{}) error {
+	if endTime < startTime {
+		return nil
+	}
+	return doc.AddItem(path, startTime, endTime, value)
+}
+
 // TemporalSnapshot returns a snapshot of the document at a specific time
 func (doc *TJSONDocument) TemporalSnapshot(timestamp int64) (map[string]interface{}, error) {
 	result := make(map[string]interface{})
@@ -125,9 +133,6 @@ func getSnapshotForItem(item *TJSONItem, timestamp int64) interface{} {
 			versionFound = true
 			break
 		}
-
-		versionData = version.Data
-		versionFound = true
 	}
 
 	// 버전 데이터가 맵인 경우
@@ -248,7 +253,9 @@ func (doc *TJSONDocument) FindEvents(path string, startTime, endTime int64,
 		if predicate(result["data"]) {
 			// Get the start time of this event
 			start, _ := parseTimeRange(result["timestamp"].(string))
-			eventTimes = append(eventTimes, start)
+			if start >= startTime { // The value may have been set before
+				eventTimes = append(eventTimes, start)
+			}
 		}
 	}
 
@@ -277,8 +284,9 @@ func parseTimeRange(timeRange string) (int64, int64) {
 func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	doc := NewTJSONDocument()
 
-	// Sort patches by timestamp
-	sort.Slice(patches, func(i, j int) bool {
+	// Sort patches by timestamp, leaving the caller's slice as it is
+	patches = slices.Clone(patches)
+	sort.SliceStable(patches, func(i, j int) bool {
 		return patches[i].Timestamp < patches[j].Timestamp
 	})
 
@@ -305,7 +313,7 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 				if exists {
 					prevTime := lastTimes[path]
 					// Add the previous item with its time range
-					err := doc.AddItem(path, prevTime, patch.Timestamp-1, lastValue)
+					err := doc.addInterval(path, prevTime, patch.Timestamp-1, lastValue)
 					if err != nil {
 						fmt.Printf("Warning: Failed to add item for %s: %v\n", path, err)
 					}
@@ -319,7 +327,7 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 			// Handle deletion by closing the time range
 			if lastValue, exists := lastValues[path]; exists {
 				prevTime := lastTimes[path]
-				err := doc.AddItem(path, prevTime, patch.Timestamp-1, lastValue)
+				err := doc.addInterval(path, prevTime, patch.Timestamp-1, lastValue)
 				if err != nil {
 					fmt.Printf("Warning: Failed to add item for %s (remove): %v\n", path, err)
 				}
@@ -330,7 +338,10 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	}
 
 	// Close time ranges for values that still exist at the end
-	currentTime := time.Now().Unix()
+	currentTime := time.Now().UnixMilli()
+	if len(patches) > 0 {
+		currentTime = max(currentTime, patches[len(patches)-1].Timestamp)
+	}
 	for path, value := range lastValues {
 		err := doc.AddItem(path, lastTimes[path], currentTime, value)
 		if err != nil {
diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 5c19c99..3e035c9 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -4,8 +4,10 @@ import (
 	"encoding/csv"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"os"
 	"path/filepath"
+	"slices"
 	"sort"
 	"strings"
 	"time"
@@ -74,7 +76,7 @@ func NewTemporalQueryExperiment(inputDir, baseOutDir, scenario string, tsonPatch
 	allPatches = append(allPatches, tsonPatches...)
 
 	// Sort by timestamp
-	sort.Slice(allPatches, func(i, j int) bool {
+	sort.SliceStable(allPatches, func(i, j int) bool {
 		return allPatches[i].Timestamp < allPatches[j].Timestamp
 	})
 
@@ -384,8 +386,13 @@ func createLogumentFromPatches(path string, patches []TsonPatch) *logument.Logum
 		})
 	}
 
+	sort.SliceStable(tsonPatches, func(i, j int) bool {
+		return tsonPatches[i].Timestamp < tsonPatches[j].Timestamp
+	})
+
 	// Create the Logument
 	lgm := logument.NewLogument(initialTson, tsonPatches)
+	lgm.Append()
 	return lgm
 }
 
@@ -462,15 +469,24 @@ func findEventsInLogument(lgm *logument.Logument, path string, startTime, endTim
 	// Get tracked changes in the time range
 	changes := lgm.TemporalTrack(startTime, endTime)
 
+	// The value just before the time range
+	var last interface{}
+	if value, err := tson.GetValue(lgm.TemporalSnapshot(startTime-1), path); err == nil {
+		if leaf, ok := value.(tson.Leaf[float64]); ok {
+			last = leaf.Value
+		}
+	}
+
 	// Find all timestamps where the value exceeds the threshold
 	eventTimes := make([]int64, 0)
 
-	for _, patches := range changes {
-		for _, patch := range patches {
+	for _, version := range slices.Sorted(maps.Keys(changes)) {
+		for _, patch := range changes[version] {
 			if patch.Path == path {
-				if val, ok := patch.Value.(float64); ok && val > threshold {
+				if val, ok := patch.Value.(float64); ok && val > threshold && val != last {
 					eventTimes = append(eventTimes, patch.Timestamp)
 				}
+				last = patch.Value
 			}
 		}
 	}
@@ -549,7 +565,7 @@ func generateInitialPatches(path string, data interface{}, patches *[]TsonPatch)
 				}
 			}
 
-			if hasPrimitives {
+			if hasPrimitives && path != "" {
 				primitiveValues := make(map[string]interface{})
 				for fieldKey, fieldValue := range v {
 					if isPrimitive(fieldValue) {
-- 
2.43.0


From d348940f5628126414461a64316affd8d5fbba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 26/34] fix: keep the plain JSON document in step with its
 patches

---
 exp/exp_scenario.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp/exp_scenario.go b/exp/exp_scenario.go
index 3700703..45d13bc 100644
--- a/exp/exp_scenario.go
+++ b/exp/exp_scenario.go
@@ -488,7 +488,7 @@ func runRealisticExperiment(scenario string, timingWriter *csv.Writer) (Experime
 					}
 
 					// Update JSON document
-					updateJsonDoc(jsonDoc, path, newValue, newTimestamp)
+					updateJsonDoc(jsonDoc, path, sensor.Value, newTimestamp)
 
 					// Measure JSON processing time
 					jsonProcessingTime := time.Since(jsonStartTime).Nanoseconds()
-- 
2.43.0


From b1482e3dbda1d2b3d882665b5724b31d587d9321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 27/34] fix: convert a data set to a map without reading it
 back as JSON

ToMapStringInterface saved the data set in the timestamped format and
parsed that text as JSON, which fails for every data set with a leaf.
---
 internal/vssgen/extension.go | 42 ++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/internal/vssgen/extension.go b/internal/vssgen/extension.go
index 72c6543..c4da2e2 100644
--- a/internal/vssgen/extension.go
+++ b/internal/vssgen/extension.go
@@ -1,10 +1,7 @@
 package vssgen
 
 import (
-	"encoding/json"
 	"fmt"
-	"os"
-	"path/filepath"
 	"strconv"
 	"strings"
 )
@@ -16,28 +13,31 @@ func (vss *VssJson) GetData() interface{} {
 
 // ToMapStringInterface 메서드는 VSS 데이터를 map[string]interface{} 형식으로 변환합니다
 func (vss *VssJson) ToMapStringInterface() (map[string]interface{}, error) {
-	// 임시 파일에 저장하고 다시 읽어오기
-	tempDir, err := os.MkdirTemp("", "vssgen")
-	if err != nil {
-		return nil, fmt.Errorf("임시 디렉토리 생성 실패: %v", err)
+	data, ok := vss.data.(map[string]interface{})
+	if !ok {
+		return nil, fmt.Errorf("VSS 데이터가 객체가 아닙니다: %T", vss.data)
 	}
-	defer os.RemoveAll(tempDir)
 
-	tempFile := filepath.Join(tempDir, "temp_data.json")
-	vss.Save(tempFile)
-
-	// 파일에서 데이터 읽기
-	jsonBytes, err := os.ReadFile(tempFile)
-	if err != nil {
-		return nil, fmt.Errorf("임시 파일 읽기 실패: %v", err)
-	}
+	return copyData(data).(map[string]interface{}), nil
+}
 
-	var result map[string]interface{}
-	if err := json.Unmarshal(jsonBytes, &result); err != nil {
-		return nil, fmt.Errorf("JSON 파싱 실패: %v", err)
+// copyData는 VSS 데이터를 깊은 복사합니다
+func copyData(data interface{}) interface{} {
+	switch data := data.(type) {
+	case map[string]interface{}:
+		result := make(map[string]interface{}, len(data))
+		for key, value := range data {
+			result[key] = copyData(value)
+		}
+		return result
+	case []interface{}:
+		result := make([]interface{}, len(data))
+		for i, value := range data {
+			result[i] = copyData(value)
+		}
+		return result
 	}
-
-	return result, nil
+	return data
 }
 
 // BuildFromLeafNodes 메서드는 LeafNodes()로 얻은 데이터를 map[string]interface{}로 변환합니다
-- 
2.43.0


From 4fa9bd7cce25034fa53a935b8c63527ef5725660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 28/34] fix: stop charging when the vehicle drives off

Switching back from battery_charging left the vehicle driving while it
reported to be charging at the last charging rate.
---
 exp/scenario.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/exp/scenario.go b/exp/scenario.go
index e2324ef..5908526 100644
--- a/exp/scenario.go
+++ b/exp/scenario.go
@@ -198,6 +198,8 @@ func updateAllSensorPatterns(vehicle *VehicleData, scenario string) {
 func applyUrbanTrafficSettings(vehicle *VehicleData) {
 	// Urban traffic scenario - additional customizations beyond pattern updates
 
+	stopBatteryCharging(vehicle)
+
 	// Speed settings (set specific initial values and parameters)
 	if speedSensor, ok := vehicle.SensorsHighFreq["Vehicle.Speed"]; ok {
 		speedSensor.Value = 40.0 + rand.Float64()*20.0
@@ -271,6 +273,8 @@ func applyUrbanTrafficSettings(vehicle *VehicleData) {
 func applyHighwayCruisingSettings(vehicle *VehicleData) {
 	// Highway cruising scenario - high speed, steady direction, additional customizations
 
+	stopBatteryCharging(vehicle)
+
 	// Speed settings (high speed)
 	if speedSensor, ok := vehicle.SensorsHighFreq["Vehicle.Speed"]; ok {
 		speedSensor.Value = 90.0 + rand.Float64()*20.0
@@ -341,6 +345,17 @@ func applyHighwayCruisingSettings(vehicle *VehicleData) {
 	}
 }
 
+// stopBatteryCharging ends the charging process of a vehicle that drives off
+func stopBatteryCharging(vehicle *VehicleData) {
+	if chargingSensor, ok := vehicle.SensorsMedFreq["Vehicle.Powertrain.TractionBattery.Charging.IsCharging"]; ok {
+		chargingSensor.Value = false
+	}
+
+	if ratesSensor, ok := vehicle.SensorsMedFreq["Vehicle.Powertrain.TractionBattery.Charging.ChargingRate"]; ok {
+		ratesSensor.Value = 0.0
+	}
+}
+
 // applyBatteryChargingSettings applies additional settings for the battery charging scenario
 func applyBatteryChargingSettings(vehicle *VehicleData) {
 	// Battery charging scenario - vehicle stationary, charging in progress
-- 
2.43.0


From 55e6a7d856d0bccfd9dce5e2acea102579feb9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 29/34] fix: show patches in the demo page with their exact
 timestamps

---
 index.html | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/index.html b/index.html
index cb28f79..52b4abd 100644
--- a/index.html
+++ b/index.html
@@ -260,17 +260,11 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             );
         }
 
-        // Parse text given by server, and applies syntaxHighlight to display in <code>
+        // Applies syntaxHighlight to the text given by server to display in <code>
         function setCodeBlockContent(elementId, textData) {
             const codeBlock = document.getElementById(elementId);
-            try {
-                const parsed = JSON.parse(textData);
-                const pretty = JSON.stringify(parsed, null, 2);
-                codeBlock.innerHTML = syntaxHighlight(pretty);
-            } catch (e) {
-                // Try highlighting even if JSON.parse fails
-                codeBlock.innerHTML = syntaxHighlight(textData);
-            }
+            // As it is: JSON.parse would round the timestamps
+            codeBlock.innerHTML = syntaxHighlight(textData);
         }
 
         // If car changes, fetch the original TSON of the car
-- 
2.43.0


From 4aab39e39b8f78662e996f645a2af6c1b254577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 30/34] fix: ignore late replies in the demo page

---
 index.html | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/index.html b/index.html
index 52b4abd..c1cfeac 100644
--- a/index.html
+++ b/index.html
@@ -267,21 +267,32 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             codeBlock.innerHTML = syntaxHighlight(textData);
         }
 
+        // The latest request made for each <code>
+        const requests = {};
+
+        // Fetch the text to display in <code>, unless a later request was made for it
+        async function fetchCodeBlockContent(elementId, url) {
+            const request = requests[elementId] = (requests[elementId] || 0) + 1;
+            const res = await fetch(url);
+            const data = await res.text();
+            if (request !== requests[elementId]) {
+                return false;
+            }
+            setCodeBlockContent(elementId, data);
+            return true;
+        }
+
         // If car changes, fetch the original TSON of the car
         async function updateVehicle() {
             const car = document.getElementById("carSelect").value;
-            const res = await fetch(`/update?car=${car}`);
-            const data = await res.text();
-            setCodeBlockContent("view", data);
+            await fetchCodeBlockContent("view", `/update?car=${car}`);
             await updatePatch();
         }
 
         async function updatePatch() {
             const car = document.getElementById("carSelect").value;
             const patch = document.getElementById("patchSelect").value;
-            const res = await fetch(`/update?car=${car}&patch=${patch}`);
-            const data = await res.text();
-            setCodeBlockContent("patch", data);
+            await fetchCodeBlockContent("patch", `/update?car=${car}&patch=${patch}`);
         }
 
         async function updateVehicleAndReset() {
@@ -301,9 +312,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             const patch = document.getElementById("patchSelect").value;
             /* patch=1 -> original TSON
             patch>=2 -> patch applied TSON */
-            const res = await fetch(`/patch?car=${car}&patch=${patch}`);
-            const data = await res.text();
-            setCodeBlockContent("result", data);
+            return fetchCodeBlockContent("result", `/patch?car=${car}&patch=${patch}`);
         }
 
         const snapshots = {};
-- 
2.43.0


From d797d4152727e9066a23f56704e8d788b11b5bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:15 +0000
Subject: [PATCH 31/34] fix: save demo snapshots under the car and patch they
 show

---
 index.html | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/index.html b/index.html
index c1cfeac..47dfda0 100644
--- a/index.html
+++ b/index.html
@@ -166,7 +166,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
                 <div class="box-header">
                     <div class="title-text">Vehicle State</div>
                     <!-- Car selection -->
-                    <select id="carSelect" onchange="updateVehicle()">
+                    <select id="carSelect" onchange="updateVehicleAndReset()">
                         <option value="1">Car 1</option>
                         <option value="2">Car 2</option>
                         <option value="3">Car 3</option>
@@ -185,7 +185,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
                 <div class="box-header">
                     <div class="title-text">Patches</div>
                     <!-- Patch Selection -->
-                    <select id="patchSelect" onchange="updatePatch()">
+                    <select id="patchSelect" onchange="updatePatchAndReset()">
                         <!-- 2 <= patchIdx <= 9 -->
                         <option value="2">Patch 1</option>
                         <option value="3">Patch 2</option>
@@ -295,14 +295,19 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             await fetchCodeBlockContent("patch", `/update?car=${car}&patch=${patch}`);
         }
 
-        async function updateVehicleAndReset() {
+        // The result is not that of the selection anymore
+        function resetAppended() {
+            requests["result"] = (requests["result"] || 0) + 1;
             isAppended = false;
             document.getElementById("appendSnapshotBtn").textContent = "Append";
+        }
+
+        async function updateVehicleAndReset() {
+            resetAppended();
             await updateVehicle();
         }
         async function updatePatchAndReset() {
-            isAppended = false;
-            document.getElementById("appendSnapshotBtn").textContent = "Append";
+            resetAppended();
             await updatePatch();
         }
 
@@ -345,10 +350,12 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             }
         }
 
-        function onAppendSnapshotClicked() {
+        async function onAppendSnapshotClicked() {
             const btn = document.getElementById("appendSnapshotBtn");
             if (!isAppended) {
-                applyPatches();
+                if (!await applyPatches()) {
+                    return;
+                }
                 isAppended = true;
                 btn.textContent = "Snapshot";
             } else {
-- 
2.43.0


From 9b566fb36eea094abb958c780997a1867c7dd5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 32/34] fix: compare nested values once per level when
 generating a patch

Each level compared all its members twice, so the time doubled with each
level of nesting: a document 30 levels deep never came to an end.
---
 internal/tsonpatch/tsonpatch.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index abcea83..36e54d2 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -681,12 +681,7 @@ func matchesValue(origin, modified tson.Value) bool {
 				return false
 			}
 		}
-		for key := range modObj {
-			if !matchesValue(org[key], modObj[key]) {
-				return false
-			}
-		}
-		return true
+		return len(modObj) == len(org)
 	case tson.Array:
 		modArray := modified.(tson.Array)
 		if len(modArray) != len(org) {
@@ -697,11 +692,6 @@ func matchesValue(origin, modified tson.Value) bool {
 				return false
 			}
 		}
-		for key := range modArray {
-			if !matchesValue(org[key], modArray[key]) {
-				return false
-			}
-		}
 		return true
 	}
 	return false
@@ -730,12 +720,7 @@ func matchTimestamp(origin, modified tson.Value) bool {
 				return false
 			}
 		}
-		for key := range modObj {
-			if !matchTimestamp(org[key], modObj[key]) {
-				return false
-			}
-		}
-		return true
+		return len(modObj) == len(org)
 	case tson.Array:
 		modArray := modified.(tson.Array)
 		if len(modArray) != len(org) {
@@ -746,11 +731,6 @@ func matchTimestamp(origin, modified tson.Value) bool {
 				return false
 			}
 		}
-		for key := range modArray {
-			if !matchTimestamp(org[key], modArray[key]) {
-				return false
-			}
-		}
 		return true
 	}
 	return false
-- 
2.43.0


From 499a8422684170213e10c52e40c4b79133ee0c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 33/34] fix: tell strings of different bytes apart when
 comparing without timestamps

---
 internal/tson/tson.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index fa9cc29..f94a755 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -16,7 +16,9 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -159,7 +161,31 @@ func EqualWithoutTimestamp(t1, t2 Tson) (ret bool, err error) {
 		return false, err
 	}
 
-	return reflect.DeepEqual(o1, o2), nil
+	return equalValues(t1, t2), nil
+}
+
+// equalValues compares the documents themselves, since strings that
+// are not valid UTF-8 may become the same JSON.
+func equalValues(v1, v2 Value) bool {
+	switch v1 := v1.(type) {
+	case Object:
+		v2, ok := v2.(Object)
+		return ok && maps.EqualFunc(v1, v2, equalValues)
+	case Array:
+		v2, ok := v2.(Array)
+		return ok && slices.EqualFunc(v1, v2, equalValues)
+	case Leaf[string]:
+		v2, ok := v2.(Leaf[string])
+		return ok && v1.Value == v2.Value
+	case Leaf[float64]:
+		v2, ok := v2.(Leaf[float64])
+		return ok && v1.Value == v2.Value
+	case Leaf[bool]:
+		v2, ok := v2.(Leaf[bool])
+		return ok && v1.Value == v2.Value
+	default:
+		return reflect.DeepEqual(v1, v2)
+	}
 }
 
 // GetLatestTimestamp returns the latest timestamp of the given TSON.
-- 
2.43.0


From 3a51eaa0ba87c7fc652662e30ec7e4afcb0f9a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:48 +0000
Subject: [PATCH 34/34] fix: time ranges of interval documents may start or end
 before 0

---
 exp/tjson.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index 9cbbca5..d8f474c 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -270,12 +270,16 @@ func isTimeInRange(timestamp int64, timeRange string) bool {
 
 // Helper function to parse a time range string like "2015-2018"
 func parseTimeRange(timeRange string) (int64, int64) {
-	parts := strings.Split(timeRange, "-")
+	sign := "" // The start time may be negative
+	if strings.HasPrefix(timeRange, "-") {
+		sign, timeRange = "-", timeRange[1:]
+	}
+	parts := strings.SplitN(timeRange, "-", 2)
 	if len(parts) != 2 {
 		return 0, 0
 	}
 
-	start, _ := strconv.ParseInt(parts[0], 10, 64)
+	start, _ := strconv.ParseInt(sign+parts[0], 10, 64)
 	end, _ := strconv.ParseInt(parts[1], 10, 64)
 	return start, end
 }
-- 
2.43.0

