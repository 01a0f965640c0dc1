From aea344881081a2155240dc7d5276afa21670d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 01/45] fix: drop the separator too when a field behind a nil
 embedded pointer is omitted

---
 encode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index e4c0202..669dff6 100644
--- a/encode.go
+++ b/encode.go
@@ -709,6 +709,8 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			continue
 		}
 
+		lengthBeforeField := len(b)
+
 		if n != 0 {
 			b = e.clrs.appendPunc(b, ',')
 			b = e.indentr.appendByte(b, '\n')
@@ -720,7 +722,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			k = f.json
 		}
 
-		lengthBeforeKey := len(b)
 		b = e.indentr.appendIndent(b)
 
 		if e.clrs == nil {
@@ -737,7 +738,7 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 		if b, err = f.codec.encode(e, b, v); err != nil {
 			if errors.Is(err, rollback{}) {
-				b = b[:lengthBeforeKey]
+				b = b[:lengthBeforeField]
 				continue
 			}
 			return b[:start], err
-- 
2.43.0


From f1d1e159dca3279c01ecef3454e9aa2fe182929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 02/45] fix: print a struct with no encoded fields as {} when
 indenting

---
 encode.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/encode.go b/encode.go
index 669dff6..8f9805f 100644
--- a/encode.go
+++ b/encode.go
@@ -695,10 +695,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 	b = e.clrs.appendPunc(b, '{')
 
-	if len(st.fields) > 0 {
-		b = e.indentr.appendByte(b, '\n')
-	}
-
 	e.indentr.push()
 
 	for i := range st.fields {
@@ -713,8 +709,8 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 		if n != 0 {
 			b = e.clrs.appendPunc(b, ',')
-			b = e.indentr.appendByte(b, '\n')
 		}
+		b = e.indentr.appendByte(b, '\n')
 
 		if (e.flags & EscapeHTML) != 0 {
 			k = f.html
@@ -747,13 +743,13 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		n++
 	}
 
+	e.indentr.pop()
+
 	if n > 0 {
 		b = e.indentr.appendByte(b, '\n')
+		b = e.indentr.appendIndent(b)
 	}
 
-	e.indentr.pop()
-	b = e.indentr.appendIndent(b)
-
 	b = e.clrs.appendPunc(b, '}')
 	return b, nil
 }
-- 
2.43.0


From 576fc1725e2ac7f72334a50cb5b053d777da6656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:44 +0000
Subject: [PATCH 03/45] fix: report the writer's error from the Encode call
 that hit it

---
 json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json.go b/json.go
index cb27c32..82d07f2 100644
--- a/json.go
+++ b/json.go
@@ -410,6 +410,7 @@ func (enc *Encoder) Encode(v interface{}) error {
 
 	if _, err2 := enc.writer.Write(b); err2 != nil {
 		enc.err = err2
+		err = err2
 	}
 
 	encoderBufferPool.Put(buf)
-- 
2.43.0


From ae80eba1c430ed60e7a10ab37a3df0ae0b90eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 04/45] fix: restore the indentation level when encoding fails

---
 encode.go | 17 +++++++++++++++++
 json.go   |  5 +++++
 2 files changed, 22 insertions(+)

diff --git a/encode.go b/encode.go
index 8f9805f..ceaf321 100644
--- a/encode.go
+++ b/encode.go
@@ -872,6 +872,7 @@ type rawFrame struct {
 // RawMessage is rendered identically to an equivalent natively-encoded value.
 func (e encoder) appendRawMessageTokens(b, s []byte) ([]byte, error) {
 	start := len(b)
+	depth := e.indentr.level()
 
 	stack := make([]rawFrame, 0, 8)
 
@@ -923,6 +924,7 @@ func (e encoder) appendRawMessageTokens(b, s []byte) ([]byte, error) {
 	}
 
 	if tok.Err != nil {
+		e.indentr.setLevel(depth)
 		return b[:start], tok.Err
 	}
 
@@ -1155,6 +1157,21 @@ func (in *Indenter) pop() {
 	}
 }
 
+// level returns the current indentation level.
+func (in *Indenter) level() int {
+	if in == nil {
+		return 0
+	}
+	return in.depth
+}
+
+// setLevel sets the indentation level to one returned earlier by level.
+func (in *Indenter) setLevel(depth int) {
+	if in != nil {
+		in.depth = depth
+	}
+}
+
 // appendByte appends a to b if the Indenter is non-nil and enabled.
 // Otherwise b is returned unmodified.
 func (in *Indenter) appendByte(b []byte, a byte) []byte {
diff --git a/json.go b/json.go
index 82d07f2..aad7b35 100644
--- a/json.go
+++ b/json.go
@@ -136,7 +136,12 @@ func Append(b []byte, x interface{}, flags AppendFlags, clrs *Colors, indentr *I
 		c = constructCachedCodec(t, cache)
 	}
 
+	depth := indentr.level()
 	b, err := c.encode(encoder{flags: flags, clrs: clrs, indentr: indentr}, b, p)
+	if err != nil {
+		// Encoding may have stopped at any nesting depth.
+		indentr.setLevel(depth)
+	}
 	runtime.KeepAlive(x)
 	return b, err
 }
-- 
2.43.0


From 75d75a922b4685ee8ee60ff9923455070e947a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 05/45] fix: do not swallow errors from values of unsorted maps

---
 encode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/encode.go b/encode.go
index ceaf321..368f632 100644
--- a/encode.go
+++ b/encode.go
@@ -487,6 +487,7 @@ func (e encoder) encodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 	if (e.flags & SortMapKeys) == 0 {
 		// Optimized code path when the program does not need the map keys to be
 		// sorted.
+		start := len(b)
 		b = e.clrs.appendPunc(b, '{')
 
 		if len(m) != 0 {
@@ -506,7 +507,7 @@ func (e encoder) encodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 
 				b, err = e.encodeKey(b, unsafe.Pointer(&k))
 				if err != nil {
-					return b, err
+					return b[:start], err
 				}
 
 				b = e.clrs.appendPunc(b, ':')
@@ -514,7 +515,7 @@ func (e encoder) encodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 
 				b, err = Append(b, v, e.flags, e.clrs, e.indentr)
 				if err != nil {
-					return b, err
+					return b[:start], err
 				}
 
 				i++
@@ -592,6 +593,7 @@ func (e encoder) encodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 	if (e.flags & SortMapKeys) == 0 {
 		// Optimized code path when the program does not need the map keys to be
 		// sorted.
+		start := len(b)
 		b = e.clrs.appendPunc(b, '{')
 
 		if len(m) != 0 {
@@ -617,7 +619,7 @@ func (e encoder) encodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 				v := m[k]
 				b, err = e.encodeRawMessage(b, unsafe.Pointer(&v))
 				if err != nil {
-					break
+					return b[:start], err
 				}
 
 				i++
-- 
2.43.0


From ec1d56c6cea24b5ae6c65f8288c1236a02b3bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 06/45] fix: reject a Number with trailing characters

---
 encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 368f632..e79310a 100644
--- a/encode.go
+++ b/encode.go
@@ -135,10 +135,13 @@ func (e encoder) encodeNumber(b []byte, p unsafe.Pointer) ([]byte, error) {
 		n = "0"
 	}
 
-	_, _, err := parseNumber(stringToBytes(string(n)))
+	_, r, err := parseNumber(stringToBytes(string(n)))
 	if err != nil {
 		return b, err
 	}
+	if len(r) != 0 {
+		return b, syntaxError(r, "invalid number literal %q", string(n))
+	}
 
 	if e.clrs == nil {
 		return append(b, n...), nil
-- 
2.43.0


From fa448f5376b8aee62c2571378d95eb8f81d79484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 07/45] fix: require raw messages to hold exactly one JSON
 value

---
 encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index e79310a..031bf66 100644
--- a/encode.go
+++ b/encode.go
@@ -815,8 +815,12 @@ func (e encoder) encodeRawMessage(b []byte, p unsafe.Pointer) ([]byte, error) {
 
 	s := []byte(v)
 	if !trusted {
+		var r []byte
 		var err error
-		s, _, err = parseValue(v)
+		s, r, err = parseValue(skipSpaces(v))
+		if r = skipSpaces(r); err == nil && len(r) != 0 {
+			err = syntaxError(r, "invalid character '%c' after top-level value", r[0])
+		}
 		if err != nil {
 			return b, &UnsupportedValueError{Value: reflect.ValueOf(v), Str: err.Error()}
 		}
-- 
2.43.0


From 013c3bd4b27da8f38f0857e6b6ce92558f0dbefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 08/45] fix: keep color codes out of stringified values and
 non-string map keys

---
 codec.go  | 10 +++++-----
 encode.go | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/codec.go b/codec.go
index 8f932b2..e14ecfe 100644
--- a/codec.go
+++ b/codec.go
@@ -215,14 +215,14 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 func constructStringCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) codec {
 	c := constructCodec(t, seen, canAddr)
 	return codec{
-		encode: constructStringEncodeFunc(c.encode),
+		encode: constructStringEncodeFunc(c.encode, true),
 		decode: constructStringDecodeFunc(c.decode),
 	}
 }
 
-func constructStringEncodeFunc(encode encodeFunc) encodeFunc {
+func constructStringEncodeFunc(encode encodeFunc, isKey bool) encodeFunc {
 	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
-		return e.encodeToString(b, p, encode)
+		return e.encodeToString(b, p, isKey, encode)
 	}
 }
 
@@ -691,13 +691,13 @@ func stringify(f *reflect.StructField, c codec) codec {
 		reflect.Uint16,
 		reflect.Uint32,
 		reflect.Uint64:
-		c.encode = constructStringEncodeFunc(c.encode)
+		c.encode = constructStringEncodeFunc(c.encode, false)
 		c.decode = constructStringToIntDecodeFunc(typ, c.decode)
 	case reflect.Bool,
 		reflect.Float32,
 		reflect.Float64,
 		reflect.String:
-		c.encode = constructStringEncodeFunc(c.encode)
+		c.encode = constructStringEncodeFunc(c.encode, false)
 		c.decode = constructStringDecodeFunc(c.decode)
 	}
 
diff --git a/encode.go b/encode.go
index 031bf66..657177f 100644
--- a/encode.go
+++ b/encode.go
@@ -277,7 +277,21 @@ func (e encoder) doEncodeString(b []byte, p unsafe.Pointer) ([]byte, error) {
 	return b, nil
 }
 
-func (e encoder) encodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) ([]byte, error) {
+// encodeToString encodes the value at p as JSON inside a JSON string. Color is
+// applied to the string as a whole: colorizing the inner value would put the
+// escape sequences inside the string.
+func (e encoder) encodeToString(b []byte, p unsafe.Pointer, isKey bool, encode encodeFunc) ([]byte, error) {
+	if e.clrs != nil {
+		clr := e.clrs.String
+		if isKey {
+			clr = e.clrs.Key
+		}
+
+		b = append(b, clr...)
+		b, err := encoder{flags: e.flags}.encodeToString(b, p, isKey, encode)
+		return append(b, ansiReset...), err
+	}
+
 	i := len(b)
 
 	b, err := encode(e, b, p)
-- 
2.43.0


From fa19d493cfeabb3255e0fdc9f79784c2890ea35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:35 +0000
Subject: [PATCH 09/45] fix: color a nil byte slice as null only

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 657177f..670bb61 100644
--- a/encode.go
+++ b/encode.go
@@ -311,7 +311,7 @@ func (e encoder) encodeToString(b []byte, p unsafe.Pointer, isKey bool, encode e
 }
 
 func (e encoder) encodeBytes(b []byte, p unsafe.Pointer) ([]byte, error) {
-	if e.clrs == nil {
+	if e.clrs == nil || *(*[]byte)(p) == nil {
 		return e.doEncodeBytes(b, p)
 	}
 
-- 
2.43.0


From f34f1852459137acc737cd5d32376d4eb2cc9fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:38 +0000
Subject: [PATCH 10/45] fix: encode a nil pointer with the string option as
 null

---
 codec.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/codec.go b/codec.go
index e14ecfe..10ed23c 100644
--- a/codec.go
+++ b/codec.go
@@ -226,6 +226,17 @@ func constructStringEncodeFunc(encode encodeFunc, isKey bool) encodeFunc {
 	}
 }
 
+// constructNullOrEncodeFunc returns a func that encodes a nil pointer as null,
+// and otherwise delegates to encode.
+func constructNullOrEncodeFunc(encode encodeFunc) encodeFunc {
+	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+		if *(*unsafe.Pointer)(p) == nil {
+			return e.encodeNull(b, nil)
+		}
+		return encode(e, b, p)
+	}
+}
+
 func constructStringDecodeFunc(decode decodeFunc) decodeFunc {
 	return func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) {
 		return d.decodeFromString(b, p, decode)
@@ -699,6 +710,12 @@ func stringify(f *reflect.StructField, c codec) codec {
 		reflect.String:
 		c.encode = constructStringEncodeFunc(c.encode, false)
 		c.decode = constructStringDecodeFunc(c.decode)
+	default:
+		return c
+	}
+
+	if f.Type.Kind() == reflect.Pointer {
+		c.encode = constructNullOrEncodeFunc(c.encode)
 	}
 
 	return c
-- 
2.43.0


From 072386913891df9885030e6b68363475e4b8a97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 11/45] fix: color text-marshaler map keys as keys

---
 codec.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/codec.go b/codec.go
index 10ed23c..17b1174 100644
--- a/codec.go
+++ b/codec.go
@@ -226,6 +226,20 @@ func constructStringEncodeFunc(encode encodeFunc, isKey bool) encodeFunc {
 	}
 }
 
+// constructKeyEncodeFunc returns a func that encodes an object key using encode,
+// applying the key color.
+func constructKeyEncodeFunc(encode encodeFunc) encodeFunc {
+	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+		if e.clrs == nil {
+			return encode(e, b, p)
+		}
+
+		b = append(b, e.clrs.Key...)
+		b, err := encode(encoder{flags: e.flags}, b, p)
+		return append(b, ansiReset...), err
+	}
+}
+
 // constructNullOrEncodeFunc returns a func that encodes a nil pointer as null,
 // and otherwise delegates to encode.
 func constructNullOrEncodeFunc(encode encodeFunc) encodeFunc {
@@ -364,7 +378,7 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 	vc := constructCodec(v, seen, false)
 
 	if k.Implements(textMarshalerType) || reflect.PointerTo(k).Implements(textUnmarshalerType) {
-		kc.encode = constructTextMarshalerEncodeFunc(k, false)
+		kc.encode = constructKeyEncodeFunc(constructTextMarshalerEncodeFunc(k, false))
 		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
 
 		sortKeys = func(keys []reflect.Value) {
-- 
2.43.0


From aa1bd338bfa4b50f1095b1b3f49e94011514308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 12/45] fix: encode and decode map keys that implement only one
 text interface, or are pointers

---
 codec.go | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/codec.go b/codec.go
index 17b1174..b734c16 100644
--- a/codec.go
+++ b/codec.go
@@ -377,22 +377,10 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 	kc := codec{}
 	vc := constructCodec(v, seen, false)
 
-	if k.Implements(textMarshalerType) || reflect.PointerTo(k).Implements(textUnmarshalerType) {
-		kc.encode = constructKeyEncodeFunc(constructTextMarshalerEncodeFunc(k, false))
-		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
+	textMarshaler := k.Implements(textMarshalerType)
+	textUnmarshaler := reflect.PointerTo(k).Implements(textUnmarshalerType)
 
-		sortKeys = func(keys []reflect.Value) {
-			sort.Slice(keys, func(i, j int) bool {
-				// This is a performance abomination but the use case is rare
-				// enough that it shouldn't be a problem in practice.
-				tm1, _ := keys[i].Interface().(encoding.TextMarshaler)
-				tm2, _ := keys[j].Interface().(encoding.TextMarshaler)
-				k1, _ := tm1.MarshalText()
-				k2, _ := tm2.MarshalText()
-				return string(k1) < string(k2)
-			})
-		}
-	} else {
+	if !textMarshaler || !textUnmarshaler {
 		switch k.Kind() {
 		case reflect.String:
 			kc.encode = encoder.encodeKey
@@ -426,10 +414,36 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 			}
 
 		default:
-			return constructUnsupportedTypeCodec(t)
+			if !textMarshaler && !textUnmarshaler {
+				return constructUnsupportedTypeCodec(t)
+			}
+			kc = constructUnsupportedTypeCodec(k)
 		}
 	}
 
+	if textMarshaler {
+		kc.encode = constructKeyEncodeFunc(constructTextMarshalerEncodeFunc(k, false))
+		if inlined(k) {
+			kc.encode = constructInlineValueEncodeFunc(kc.encode)
+		}
+
+		sortKeys = func(keys []reflect.Value) {
+			sort.Slice(keys, func(i, j int) bool {
+				// This is a performance abomination but the use case is rare
+				// enough that it shouldn't be a problem in practice.
+				tm1, _ := keys[i].Interface().(encoding.TextMarshaler)
+				tm2, _ := keys[j].Interface().(encoding.TextMarshaler)
+				k1, _ := tm1.MarshalText()
+				k2, _ := tm2.MarshalText()
+				return string(k1) < string(k2)
+			})
+		}
+	}
+
+	if textUnmarshaler {
+		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
+	}
+
 	if inlined(v) {
 		vc.encode = constructInlineValueEncodeFunc(vc.encode)
 	}
-- 
2.43.0


From 320c95ba79b26b034c1d67837af4787a10a860a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 13/45] fix: recognize all types whose values are stored
 directly in interfaces

---
 codec.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/codec.go b/codec.go
index b734c16..bfd4bbe 100644
--- a/codec.go
+++ b/codec.go
@@ -871,17 +871,16 @@ func align(align, size uintptr) uintptr {
 	return size
 }
 
+// inlined returns true if an interface holding a value of type t stores the
+// value itself in its data word, instead of a pointer to it. Which types are
+// stored that way (e.g. structs and arrays made of a single pointer) depends on
+// the Go version, hence the answer is taken from an actual interface value.
 func inlined(t reflect.Type) bool {
-	switch t.Kind() {
-	case reflect.Pointer:
-		return true
-	case reflect.Map:
-		return true
-	case reflect.Struct:
-		return t.NumField() == 1 && inlined(t.Field(0).Type)
-	default:
+	if t.Kind() == reflect.Interface {
 		return false
 	}
+	zero := reflect.Zero(t).Interface()
+	return (*iface)(unsafe.Pointer(&zero)).ptr == nil
 }
 
 func isValidTag(s string) bool {
-- 
2.43.0


From 7c2426bdc5ade36f33701476df29f7162cb3fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 14/45] fix: omitempty keeps an interface that holds a nil
 pointer

---
 codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec.go b/codec.go
index bfd4bbe..45540d6 100644
--- a/codec.go
+++ b/codec.go
@@ -954,7 +954,7 @@ func emptyFuncOf(t reflect.Type) emptyFunc {
 		return func(p unsafe.Pointer) bool { return *(*unsafe.Pointer)(p) == nil }
 
 	case reflect.Interface:
-		return func(p unsafe.Pointer) bool { return (*iface)(p).ptr == nil }
+		return func(p unsafe.Pointer) bool { return (*iface)(p).typ == nil }
 	}
 
 	return func(unsafe.Pointer) bool { return false }
-- 
2.43.0


From 27089a44815c57d7119e6d3280a2e3e2a27861ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:54 +0000
Subject: [PATCH 15/45] fix: apply omitempty to the fields of embedded struct
 pointers, not to the pointer

---
 codec.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/codec.go b/codec.go
index 45540d6..628ac7c 100644
--- a/codec.go
+++ b/codec.go
@@ -540,6 +540,16 @@ func constructEmbeddedStructPointerDecodeFunc(t reflect.Type, unexported bool, o
 	}
 }
 
+// constructEmbeddedStructPointerEmptyFunc returns a func that reports whether a
+// field of the embedded struct pointed to is empty. A field behind a nil pointer
+// is not reported empty: encoding it skips it.
+func constructEmbeddedStructPointerEmptyFunc(offset uintptr, empty emptyFunc) emptyFunc {
+	return func(p unsafe.Pointer) bool {
+		p = *(*unsafe.Pointer)(p)
+		return p != nil && empty(unsafe.Pointer(uintptr(p)+offset))
+	}
+}
+
 type embeddedField struct {
 	index      int
 	offset     uintptr
@@ -659,6 +669,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 
 		if embfield.pointer {
 			subfield.codec = constructEmbeddedStructPointerCodec(embfield.subtype.typ, embfield.unexported, subfield.offset, subfield.codec)
+			subfield.empty = constructEmbeddedStructPointerEmptyFunc(subfield.offset, subfield.empty)
 			subfield.offset = embfield.offset
 		} else {
 			subfield.offset += embfield.offset
-- 
2.43.0


From 3bc44bc1be5bfde5f3f9d2c48a74b115108fac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 16/45] fix: do not reuse the codec of an addressable struct
 for a non-addressable one

---
 codec.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/codec.go b/codec.go
index 628ac7c..bddbad4 100644
--- a/codec.go
+++ b/codec.go
@@ -66,7 +66,7 @@ func typeid(t reflect.Type) unsafe.Pointer {
 }
 
 func constructCachedCodec(t reflect.Type, cache map[unsafe.Pointer]codec) codec {
-	c := constructCodec(t, map[reflect.Type]*structType{}, t.Kind() == reflect.Pointer)
+	c := constructCodec(t, map[structKey]*structType{}, t.Kind() == reflect.Pointer)
 
 	if inlined(t) {
 		c.encode = constructInlineValueEncodeFunc(c.encode)
@@ -76,7 +76,7 @@ func constructCachedCodec(t reflect.Type, cache map[unsafe.Pointer]codec) codec
 	return c
 }
 
-func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) (c codec) {
+func constructCodec(t reflect.Type, seen map[structKey]*structType, canAddr bool) (c codec) {
 	switch t {
 	case nullType, nil:
 		c = codec{encode: encoder.encodeNull, decode: decoder.decodeNull}
@@ -212,7 +212,7 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 	return c
 }
 
-func constructStringCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) codec {
+func constructStringCodec(t reflect.Type, seen map[structKey]*structType, canAddr bool) codec {
 	c := constructCodec(t, seen, canAddr)
 	return codec{
 		encode: constructStringEncodeFunc(c.encode, true),
@@ -263,7 +263,7 @@ func constructStringToIntDecodeFunc(t reflect.Type, decode decodeFunc) decodeFun
 	}
 }
 
-func constructArrayCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) codec {
+func constructArrayCodec(t reflect.Type, seen map[structKey]*structType, canAddr bool) codec {
 	e := t.Elem()
 	c := constructCodec(e, seen, canAddr)
 	s := alignedSize(e)
@@ -287,7 +287,7 @@ func constructArrayDecodeFunc(size uintptr, t reflect.Type, decode decodeFunc) d
 	}
 }
 
-func constructSliceCodec(t reflect.Type, seen map[reflect.Type]*structType) codec {
+func constructSliceCodec(t reflect.Type, seen map[structKey]*structType) codec {
 	e := t.Elem()
 	s := alignedSize(e)
 
@@ -354,7 +354,7 @@ func constructSliceDecodeFunc(size uintptr, t reflect.Type, decode decodeFunc) d
 	}
 }
 
-func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec {
+func constructMapCodec(t reflect.Type, seen map[structKey]*structType) codec {
 	var sortKeys sortFunc
 	k := t.Key()
 	v := t.Elem()
@@ -470,7 +470,7 @@ func constructMapDecodeFunc(t reflect.Type, decodeKey, decodeValue decodeFunc) d
 	}
 }
 
-func constructStructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) codec {
+func constructStructCodec(t reflect.Type, seen map[structKey]*structType, canAddr bool) codec {
 	st := constructStructType(t, seen, canAddr)
 	return codec{
 		encode: constructStructEncodeFunc(st),
@@ -478,10 +478,19 @@ func constructStructCodec(t reflect.Type, seen map[reflect.Type]*structType, can
 	}
 }
 
-func constructStructType(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) *structType {
+// structKey identifies a struct type being constructed. Whether values of the
+// type are addressable matters, because it decides if marshalers with pointer
+// receivers are used.
+type structKey struct {
+	typ     reflect.Type
+	canAddr bool
+}
+
+func constructStructType(t reflect.Type, seen map[structKey]*structType, canAddr bool) *structType {
 	// Used for preventing infinite recursion on types that have pointers to
 	// themselves.
-	st := seen[t]
+	key := structKey{typ: t, canAddr: canAddr}
+	st := seen[key]
 
 	if st == nil {
 		st = &structType{
@@ -491,7 +500,7 @@ func constructStructType(t reflect.Type, seen map[reflect.Type]*structType, canA
 			typ:         t,
 		}
 
-		seen[t] = st
+		seen[key] = st
 		st.fields = appendStructFields(st.fields, t, 0, seen, canAddr)
 
 		for i := range st.fields {
@@ -559,7 +568,7 @@ type embeddedField struct {
 	subfield   *structField
 }
 
-func appendStructFields(fields []structField, t reflect.Type, offset uintptr, seen map[reflect.Type]*structType, canAddr bool) []structField {
+func appendStructFields(fields []structField, t reflect.Type, offset uintptr, seen map[structKey]*structType, canAddr bool) []structField {
 	names := make(map[string]struct{})
 	embedded := make([]embeddedField, 0, 10)
 
@@ -767,7 +776,7 @@ func encodeString(s string, flags AppendFlags) string {
 	return *(*string)(unsafe.Pointer(&b))
 }
 
-func constructPointerCodec(t reflect.Type, seen map[reflect.Type]*structType) codec {
+func constructPointerCodec(t reflect.Type, seen map[structKey]*structType) codec {
 	e := t.Elem()
 	c := constructCodec(e, seen, true)
 	return codec{
-- 
2.43.0


From 8a8ff2febe5c9c62f70c674f3d8509bb6a5d63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 17/45] fix: support slice, map, array and pointer types that
 contain themselves

---
 codec.go | 68 ++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/codec.go b/codec.go
index bddbad4..ed44c8e 100644
--- a/codec.go
+++ b/codec.go
@@ -66,7 +66,7 @@ func typeid(t reflect.Type) unsafe.Pointer {
 }
 
 func constructCachedCodec(t reflect.Type, cache map[unsafe.Pointer]codec) codec {
-	c := constructCodec(t, map[structKey]*structType{}, t.Kind() == reflect.Pointer)
+	c := constructCodec(t, newSeenTypes(), t.Kind() == reflect.Pointer)
 
 	if inlined(t) {
 		c.encode = constructInlineValueEncodeFunc(c.encode)
@@ -76,7 +76,7 @@ func constructCachedCodec(t reflect.Type, cache map[unsafe.Pointer]codec) codec
 	return c
 }
 
-func constructCodec(t reflect.Type, seen map[structKey]*structType, canAddr bool) (c codec) {
+func constructCodec(t reflect.Type, seen *seenTypes, canAddr bool) (c codec) {
 	switch t {
 	case nullType, nil:
 		c = codec{encode: encoder.encodeNull, decode: decoder.decodeNull}
@@ -116,6 +116,26 @@ func constructCodec(t reflect.Type, seen map[structKey]*structType, canAddr bool
 		return c
 	}
 
+	switch t.Kind() {
+	case reflect.Array, reflect.Map, reflect.Pointer, reflect.Slice:
+		if t.Name() == "" {
+			break
+		}
+
+		// A defined type may contain itself, e.g. "type tree []tree".
+		key := typeKey{typ: t, canAddr: canAddr}
+		if self := seen.codecs[key]; self != nil {
+			return codec{
+				encode: func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) { return self.encode(e, b, p) },
+				decode: func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) { return self.decode(d, b, p) },
+			}
+		}
+
+		self := new(codec)
+		seen.codecs[key] = self
+		defer func() { *self = c }()
+	}
+
 	switch t.Kind() {
 	case reflect.Bool:
 		c = codec{encode: encoder.encodeBool, decode: decoder.decodeBool}
@@ -212,7 +232,7 @@ func constructCodec(t reflect.Type, seen map[structKey]*structType, canAddr bool
 	return c
 }
 
-func constructStringCodec(t reflect.Type, seen map[structKey]*structType, canAddr bool) codec {
+func constructStringCodec(t reflect.Type, seen *seenTypes, canAddr bool) codec {
 	c := constructCodec(t, seen, canAddr)
 	return codec{
 		encode: constructStringEncodeFunc(c.encode, true),
@@ -263,7 +283,7 @@ func constructStringToIntDecodeFunc(t reflect.Type, decode decodeFunc) decodeFun
 	}
 }
 
-func constructArrayCodec(t reflect.Type, seen map[structKey]*structType, canAddr bool) codec {
+func constructArrayCodec(t reflect.Type, seen *seenTypes, canAddr bool) codec {
 	e := t.Elem()
 	c := constructCodec(e, seen, canAddr)
 	s := alignedSize(e)
@@ -287,7 +307,7 @@ func constructArrayDecodeFunc(size uintptr, t reflect.Type, decode decodeFunc) d
 	}
 }
 
-func constructSliceCodec(t reflect.Type, seen map[structKey]*structType) codec {
+func constructSliceCodec(t reflect.Type, seen *seenTypes) codec {
 	e := t.Elem()
 	s := alignedSize(e)
 
@@ -354,7 +374,7 @@ func constructSliceDecodeFunc(size uintptr, t reflect.Type, decode decodeFunc) d
 	}
 }
 
-func constructMapCodec(t reflect.Type, seen map[structKey]*structType) codec {
+func constructMapCodec(t reflect.Type, seen *seenTypes) codec {
 	var sortKeys sortFunc
 	k := t.Key()
 	v := t.Elem()
@@ -470,7 +490,7 @@ func constructMapDecodeFunc(t reflect.Type, decodeKey, decodeValue decodeFunc) d
 	}
 }
 
-func constructStructCodec(t reflect.Type, seen map[structKey]*structType, canAddr bool) codec {
+func constructStructCodec(t reflect.Type, seen *seenTypes, canAddr bool) codec {
 	st := constructStructType(t, seen, canAddr)
 	return codec{
 		encode: constructStructEncodeFunc(st),
@@ -478,19 +498,33 @@ func constructStructCodec(t reflect.Type, seen map[structKey]*structType, canAdd
 	}
 }
 
-// structKey identifies a struct type being constructed. Whether values of the
-// type are addressable matters, because it decides if marshalers with pointer
-// receivers are used.
-type structKey struct {
+// typeKey identifies a type being constructed. Whether values of the type are
+// addressable matters, because it decides if marshalers with pointer receivers
+// are used.
+type typeKey struct {
 	typ     reflect.Type
 	canAddr bool
 }
 
-func constructStructType(t reflect.Type, seen map[structKey]*structType, canAddr bool) *structType {
+// seenTypes is used for preventing infinite recursion on types that contain
+// themselves.
+type seenTypes struct {
+	structs map[typeKey]*structType
+	codecs  map[typeKey]*codec
+}
+
+func newSeenTypes() *seenTypes {
+	return &seenTypes{
+		structs: make(map[typeKey]*structType),
+		codecs:  make(map[typeKey]*codec),
+	}
+}
+
+func constructStructType(t reflect.Type, seen *seenTypes, canAddr bool) *structType {
 	// Used for preventing infinite recursion on types that have pointers to
 	// themselves.
-	key := structKey{typ: t, canAddr: canAddr}
-	st := seen[key]
+	key := typeKey{typ: t, canAddr: canAddr}
+	st := seen.structs[key]
 
 	if st == nil {
 		st = &structType{
@@ -500,7 +534,7 @@ func constructStructType(t reflect.Type, seen map[structKey]*structType, canAddr
 			typ:         t,
 		}
 
-		seen[key] = st
+		seen.structs[key] = st
 		st.fields = appendStructFields(st.fields, t, 0, seen, canAddr)
 
 		for i := range st.fields {
@@ -568,7 +602,7 @@ type embeddedField struct {
 	subfield   *structField
 }
 
-func appendStructFields(fields []structField, t reflect.Type, offset uintptr, seen map[structKey]*structType, canAddr bool) []structField {
+func appendStructFields(fields []structField, t reflect.Type, offset uintptr, seen *seenTypes, canAddr bool) []structField {
 	names := make(map[string]struct{})
 	embedded := make([]embeddedField, 0, 10)
 
@@ -776,7 +810,7 @@ func encodeString(s string, flags AppendFlags) string {
 	return *(*string)(unsafe.Pointer(&b))
 }
 
-func constructPointerCodec(t reflect.Type, seen map[structKey]*structType) codec {
+func constructPointerCodec(t reflect.Type, seen *seenTypes) codec {
 	e := t.Elem()
 	c := constructCodec(e, seen, true)
 	return codec{
-- 
2.43.0


From f9a2a39c55ecff329732a0fe9ab127bc6760dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 18/45] fix: treat fields behind an embedded pointer as
 addressable

---
 codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec.go b/codec.go
index ed44c8e..b902988 100644
--- a/codec.go
+++ b/codec.go
@@ -658,7 +658,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 				// up by offset from the address of the wrapping object, so we
 				// simply add the embedded struct fields to the list of fields
 				// of the current struct type.
-				subtype := constructStructType(typ, seen, canAddr)
+				subtype := constructStructType(typ, seen, canAddr || ptr)
 
 				for j := range subtype.fields {
 					embedded = append(embedded, embeddedField{
-- 
2.43.0


From 03860beeeb8535c19ff8d7c5b89154cd9bd8c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 19/45] fix: match field names ignoring case consistently for
 non-ASCII letters

---
 codec.go |  2 +-
 parse.go | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/codec.go b/codec.go
index b902988..8cba8b9 100644
--- a/codec.go
+++ b/codec.go
@@ -539,7 +539,7 @@ func constructStructType(t reflect.Type, seen *seenTypes, canAddr bool) *structT
 
 		for i := range st.fields {
 			f := &st.fields[i]
-			s := strings.ToLower(f.name)
+			s := string(appendToLower(nil, []byte(f.name)))
 			st.fieldsIndex[f.name] = f
 			// When there is ambiguity because multiple fields have the same
 			// case-insensitive representation, the first field must win.
diff --git a/parse.go b/parse.go
index f6efe9f..95538ed 100644
--- a/parse.go
+++ b/parse.go
@@ -722,9 +722,19 @@ func appendToLower(b, s []byte) []byte {
 	return b
 }
 
+// foldRune returns the same rune for all runes that are equal ignoring case,
+// preferring lower case.
 func foldRune(r rune) rune {
-	if r = unicode.SimpleFold(r); 'A' <= r && r <= 'Z' {
-		r += 'a' - 'A'
+	fold := r
+	// The runes equal to r ignoring case form a cycle.
+	for c := unicode.SimpleFold(r); c != r; c = unicode.SimpleFold(c) {
+		if lower := unicode.IsLower(c); lower != unicode.IsLower(fold) {
+			if lower {
+				fold = c
+			}
+		} else if c < fold {
+			fold = c
+		}
 	}
-	return r
+	return fold
 }
-- 
2.43.0


From 862cd2a35bdffbead4234f004c75368f31a02abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:10 +0000
Subject: [PATCH 20/45] fix: report misplaced commas and closing delimiters as
 tokenizer errors

---
 token.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/token.go b/token.go
index df5f11e..71d6ffb 100644
--- a/token.go
+++ b/token.go
@@ -164,7 +164,6 @@ skipLoop:
 
 	t.Delim = d
 	t.Value = RawValue(v)
-	t.Err = err
 	t.Depth = t.depth()
 	t.Index = t.index()
 	t.IsKey = d == 0 && t.isKey
@@ -191,10 +190,15 @@ skipLoop:
 			if t.is(inObject) {
 				t.isKey = true
 			}
-			t.stack[len(t.stack)-1].len++
+			if n := len(t.stack); n != 0 {
+				t.stack[n-1].len++
+			} else {
+				err = syntaxError(t.json, "found unexpected character while tokenizing json input")
+			}
 		}
 	}
 
+	t.Err = err
 	return (d != 0 || len(v) != 0) && err == nil
 }
 
-- 
2.43.0


From 0e38b0a5010fb5d67e48621f14ef3e7e659cdac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:13 +0000
Subject: [PATCH 21/45] fix: do not flag values after an empty object as keys

---
 token.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token.go b/token.go
index 71d6ffb..fcd6e07 100644
--- a/token.go
+++ b/token.go
@@ -175,9 +175,11 @@ skipLoop:
 			t.isKey = true
 			t.push(inObject)
 		case '[':
+			t.isKey = false
 			t.push(inArray)
 		case '}':
 			err = t.pop(inObject)
+			t.isKey = false
 			t.Depth--
 			t.Index = t.index()
 		case ']':
-- 
2.43.0


From 0d35b95811ce2715b21ca3296b345d49046593f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 22/45] fix: do not mistake an invalid exponent for the end of
 the input

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 95538ed..c7e8e60 100644
--- a/parse.go
+++ b/parse.go
@@ -349,7 +349,7 @@ func parseNumber(b []byte) (v, r []byte, err error) {
 		for i < len(b) {
 			if c := b[i]; c < '0' || c > '9' {
 				if i == exponentStart {
-					err = syntaxError(b, "expected digit but found '%c'", c)
+					r, err = b[i:], syntaxError(b, "expected digit but found '%c'", c)
 					return v, r, err
 				}
 				break
-- 
2.43.0


From acbe1a672054450276581ea53820b14fe326ee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 23/45] fix: count whitespace at the end of the buffer in the
 input offset

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index c7e8e60..c1b07a0 100644
--- a/parse.go
+++ b/parse.go
@@ -30,7 +30,7 @@ func skipSpacesN(b []byte) ([]byte, int) {
 			return b[i:], i
 		}
 	}
-	return nil, 0
+	return nil, len(b)
 }
 
 // parseInt parses a decimanl representation of an int64 from b.
-- 
2.43.0


From 7b599cd904b1d605ff638b3877b437a84fb9ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 24/45] fix: do not split a number at the end of the decoder's
 buffer

---
 json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index aad7b35..6ca30c6 100644
--- a/json.go
+++ b/json.go
@@ -287,7 +287,9 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 	for {
 		if len(dec.remain) != 0 {
 			v, r, err = parseValue(dec.remain)
-			if err == nil {
+			// A number at the end of the buffered input may have more digits.
+			partial := err == nil && len(r) == 0 && dec.err == nil && RawValue(v).Number()
+			if err == nil && !partial {
 				dec.remain, n = skipSpacesN(r)
 				dec.inputOffset += int64(len(v) + n)
 				return v, nil
-- 
2.43.0


From 0386d77e518870d155701ea73d1f2739fab30bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 25/45] fix: report the reader's error when it arrives with
 data, and io.ErrUnexpectedEOF as such

---
 json.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/json.go b/json.go
index 6ca30c6..42e3d3e 100644
--- a/json.go
+++ b/json.go
@@ -322,14 +322,10 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 			dec.buffer = buf
 		}
 
-		n, err = io.ReadFull(dec.reader, dec.buffer[len(dec.buffer):cap(dec.buffer)])
-		if n > 0 {
+		// Like io.ReadFull, but preserving the reader's own error.
+		for err = nil; len(dec.buffer) < cap(dec.buffer) && err == nil; {
+			n, err = dec.reader.Read(dec.buffer[len(dec.buffer):cap(dec.buffer)])
 			dec.buffer = dec.buffer[:len(dec.buffer)+n]
-			if err != nil {
-				err = nil
-			}
-		} else if errors.Is(err, io.ErrUnexpectedEOF) {
-			err = io.EOF
 		}
 		dec.remain, n = skipSpacesN(dec.buffer)
 		dec.inputOffset += int64(n)
-- 
2.43.0


From 21d1a731ec6332a964d9566c84e0ae6bbc73b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 26/45] fix: recognize a unicode escape cut off by the end of
 the decoder's buffer

---
 parse.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parse.go b/parse.go
index c1b07a0..65c2dab 100644
--- a/parse.go
+++ b/parse.go
@@ -379,6 +379,16 @@ func parseUnicode(b []byte) (rune, int, error) {
 	return rune(u), 4, nil //nolint:gosec // u is at most 0xFFFF (4 hex digits), always a valid rune
 }
 
+// isTruncatedUnicode returns true if b is the beginning of a unicode code point
+// that was cut off by the end of the input.
+func isTruncatedUnicode(b []byte) bool {
+	if len(b) == 0 {
+		return true
+	}
+	_, r, err := parseUintHex(b)
+	return len(b) < 4 && len(r) == 0 && err == nil
+}
+
 func parseStringFast(b []byte) ([]byte, []byte, bool, error) {
 	if len(b) < 2 {
 		return nil, b[len(b):], false, unexpectedEOF(b)
@@ -404,6 +414,9 @@ func parseStringFast(b []byte) ([]byte, []byte, bool, error) {
 				case 'u':
 					_, n, err := parseUnicode(b[i+1:])
 					if err != nil {
+						if isTruncatedUnicode(b[i+1:]) {
+							return nil, b[len(b):], false, err
+						}
 						return nil, b, false, err
 					}
 					i += n
-- 
2.43.0


From 65447adbe239320f76fd0368dd8c45f17100b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 27/45] fix: report malformed literals and strings as syntax
 errors, not as truncated input

---
 parse.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/parse.go b/parse.go
index 65c2dab..17ea9b3 100644
--- a/parse.go
+++ b/parse.go
@@ -242,7 +242,7 @@ func parseNull(b []byte) ([]byte, []byte, error) {
 	if hasNullPrefix(b) {
 		return b[:4], b[4:], nil
 	}
-	if len(b) < 4 {
+	if hasPrefix(stringToBytes("null"), string(b)) {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
 	return nil, b, syntaxError(b, "expected 'null' but found invalid token")
@@ -252,7 +252,7 @@ func parseTrue(b []byte) ([]byte, []byte, error) {
 	if hasTruePrefix(b) {
 		return b[:4], b[4:], nil
 	}
-	if len(b) < 4 {
+	if hasPrefix(stringToBytes("true"), string(b)) {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
 	return nil, b, syntaxError(b, "expected 'true' but found invalid token")
@@ -262,7 +262,7 @@ func parseFalse(b []byte) ([]byte, []byte, error) {
 	if hasFalsePrefix(b) {
 		return b[:5], b[5:], nil
 	}
-	if len(b) < 5 {
+	if hasPrefix(stringToBytes("false"), string(b)) {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
 	return nil, b, syntaxError(b, "expected 'false' but found invalid token")
@@ -390,18 +390,15 @@ func isTruncatedUnicode(b []byte) bool {
 }
 
 func parseStringFast(b []byte) ([]byte, []byte, bool, error) {
-	if len(b) < 2 {
-		return nil, b[len(b):], false, unexpectedEOF(b)
+	if len(b) == 0 {
+		return nil, b, false, unexpectedEOF(b)
 	}
 	if b[0] != '"' {
 		return nil, b, false, syntaxError(b, "expected '\"' at the beginning of a string value")
 	}
 
 	n := bytes.IndexByte(b[1:], '"') + 2
-	if n <= 1 {
-		return nil, b[len(b):], false, syntaxError(b, "missing '\"' at the end of a string value")
-	}
-	if bytes.IndexByte(b[1:n], '\\') < 0 && asciiValidPrint(b[1:n]) {
+	if n > 1 && bytes.IndexByte(b[1:n], '\\') < 0 && asciiValidPrint(b[1:n]) {
 		return b[:n], b[n:], false, nil
 	}
 
-- 
2.43.0


From aa48d0fc0cbe19d0bd7e2b3e28b88738f19e95cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 28/45] fix: decode fixed-size arrays of any length, and reject
 malformed ones

---
 decode.go | 57 +++++++++++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/decode.go b/decode.go
index ad4b113..7fa3a88 100644
--- a/decode.go
+++ b/decode.go
@@ -510,28 +510,49 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 	if len(b) < 2 || b[0] != '[' {
 		return inputError(b, t)
 	}
+	input := b
 	b = b[1:]
 
 	var err error
-	for i := 0; i < n; i++ {
+	for i := 0; ; i++ {
 		b = skipSpaces(b)
 
+		if len(b) != 0 && b[0] == ']' {
+			// The encoding/json package zeroes the elements for which there
+			// is no value.
+			for a := reflect.NewAt(t, p).Elem(); i < n; i++ {
+				a.Index(i).Set(reflect.Zero(t.Elem()))
+			}
+			return b[1:], nil
+		}
+
 		if i != 0 {
 			if len(b) == 0 {
 				return b, syntaxError(b, "unexpected EOF after array element")
 			}
-			switch b[0] {
-			case ',':
-				b = skipSpaces(b[1:])
-			case ']':
-				return b[1:], nil
-			default:
+			if b[0] != ',' {
 				return b, syntaxError(b, "expected ',' after array element but found '%c'", b[0])
 			}
+			b = skipSpaces(b[1:])
+		}
+
+		if i >= n {
+			// The encoding/json package ignores extra elements found when
+			// decoding into array types (which have a fixed size).
+			if _, b, err = parseValue(b); err != nil {
+				return b, err
+			}
+			continue
 		}
 
 		b, err = decode(d, b, unsafe.Pointer(uintptr(p)+(uintptr(i)*size)))
 		if err != nil {
+			_, r, err2 := parseValue(input)
+			if err2 != nil {
+				return r, err2
+			}
+			b = r
+
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
 				e.Struct = t.String() + e.Struct
@@ -540,28 +561,6 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 			return b, err
 		}
 	}
-
-	// The encoding/json package ignores extra elements found when decoding into
-	// array types (which have a fixed size).
-	for {
-		b = skipSpaces(b)
-
-		if len(b) == 0 {
-			return b, syntaxError(b, "missing closing ']' in array value")
-		}
-
-		switch b[0] {
-		case ',':
-			b = skipSpaces(b[1:])
-		case ']':
-			return b[1:], nil
-		}
-
-		_, b, err = parseValue(b)
-		if err != nil {
-			return b, err
-		}
-	}
 }
 
 // This is a placeholder used to construct non-nil empty slices.
-- 
2.43.0


From 64ba07ec239944d553b77b80bcdd8795553a832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 29/45] fix: follow the Go visibility rules for fields with the
 same JSON name

---
 codec.go | 65 ++++++++++++++++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/codec.go b/codec.go
index 8cba8b9..6271832 100644
--- a/codec.go
+++ b/codec.go
@@ -528,14 +528,15 @@ func constructStructType(t reflect.Type, seen *seenTypes, canAddr bool) *structT
 
 	if st == nil {
 		st = &structType{
-			fields:      make([]structField, 0, t.NumField()),
+			allFields:   make([]structField, 0, t.NumField()),
 			fieldsIndex: make(map[string]*structField),
 			ficaseIndex: make(map[string]*structField),
 			typ:         t,
 		}
 
 		seen.structs[key] = st
-		st.fields = appendStructFields(st.fields, t, 0, seen, canAddr)
+		st.allFields = appendStructFields(st.allFields, t, 0, seen, canAddr)
+		st.fields = dominantFields(st.allFields)
 
 		for i := range st.fields {
 			f := &st.fields[i]
@@ -603,7 +604,6 @@ type embeddedField struct {
 }
 
 func appendStructFields(fields []structField, t reflect.Type, offset uintptr, seen *seenTypes, canAddr bool) []structField {
-	names := make(map[string]struct{})
 	embedded := make([]embeddedField, 0, 10)
 
 	for i, n := 0, t.NumField(); i < n; i++ {
@@ -660,14 +660,14 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 				// of the current struct type.
 				subtype := constructStructType(typ, seen, canAddr || ptr)
 
-				for j := range subtype.fields {
+				for j := range subtype.allFields {
 					embedded = append(embedded, embeddedField{
 						index:      i<<32 | j,
 						offset:     offset + f.Offset,
 						pointer:    ptr,
 						unexported: unexported,
 						subtype:    subtype,
-						subfield:   &subtype.fields[j],
+						subfield:   &subtype.allFields[j],
 					})
 				}
 
@@ -696,20 +696,11 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 			typ:       f.Type,
 			zero:      reflect.Zero(f.Type),
 		})
-
-		names[name] = struct{}{}
 	}
 
-	// Only unambiguous embedded fields must be serialized.
-	ambiguousNames, ambiguousTags := ambiguousNameTagCount(names, embedded)
-
 	for _, embfield := range embedded {
 		subfield := *embfield.subfield
 
-		if ambiguousNames[subfield.name] > 1 && (!subfield.tag || ambiguousTags[subfield.name] != 1) {
-			continue // ambiguous embedded field
-		}
-
 		if embfield.pointer {
 			subfield.codec = constructEmbeddedStructPointerCodec(embfield.subtype.typ, embfield.unexported, subfield.offset, subfield.codec)
 			subfield.empty = constructEmbeddedStructPointerEmptyFunc(subfield.offset, subfield.empty)
@@ -718,8 +709,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 			subfield.offset += embfield.offset
 		}
 
-		// To prevent dominant flags more than one level below the embedded one.
-		subfield.tag = false
+		subfield.depth++
 
 		// To ensure the order of the fields in the output is the same is in the
 		// struct type.
@@ -737,25 +727,38 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 	return fields
 }
 
-func ambiguousNameTagCount(names map[string]struct{}, embedded []embeddedField) (map[string]int, map[string]int) {
-	ambiguousNames := make(map[string]int)
-	ambiguousTags := make(map[string]int)
-
-	// Embedded types can never override a field that was already present at
-	// the top-level.
-	for name := range names {
-		ambiguousNames[name]++
-		ambiguousTags[name]++
+// dominantFields returns the fields which are visible according to the Go rules,
+// amended for tags: of the fields with the same name, those at the shallowest
+// depth hide the others, and among these a single tagged one hides the untagged
+// ones. If several fields remain, none is visible.
+func dominantFields(fields []structField) []structField {
+	type rank struct {
+		depth  int
+		tagged bool
+		count  int
 	}
 
-	for _, embfield := range embedded {
-		ambiguousNames[embfield.subfield.name]++
-		if embfield.subfield.tag {
-			ambiguousTags[embfield.subfield.name]++
+	ranks := make(map[string]rank, len(fields))
+	for i := range fields {
+		f := &fields[i]
+		best, found := ranks[f.name]
+		switch {
+		case !found || f.depth < best.depth || (f.depth == best.depth && f.tag && !best.tagged):
+			ranks[f.name] = rank{depth: f.depth, tagged: f.tag, count: 1}
+		case f.depth == best.depth && f.tag == best.tagged:
+			best.count++
+			ranks[f.name] = best
 		}
 	}
 
-	return ambiguousNames, ambiguousTags
+	dominant := make([]structField, 0, len(fields))
+	for i := range fields {
+		f := &fields[i]
+		if f.depth == ranks[f.name].depth && f.tag == ranks[f.name].tagged && ranks[f.name].count == 1 {
+			dominant = append(dominant, *f)
+		}
+	}
+	return dominant
 }
 
 func stringify(f *reflect.StructField, c codec) codec {
@@ -1026,6 +1029,7 @@ type slice struct {
 }
 
 type structType struct {
+	allFields   []structField // includes hidden and ambiguous fields
 	fields      []structField
 	fieldsIndex map[string]*structField
 	ficaseIndex map[string]*structField
@@ -1037,6 +1041,7 @@ type structField struct {
 	offset    uintptr
 	empty     emptyFunc
 	tag       bool
+	depth     int
 	omitempty bool
 	json      string
 	html      string
-- 
2.43.0


From f6d27d8fa6d10d631be144382bc53116992f5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:17 +0000
Subject: [PATCH 30/45] fix: do not return a number cut short by a read error

---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 42e3d3e..07fff20 100644
--- a/json.go
+++ b/json.go
@@ -287,8 +287,10 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 	for {
 		if len(dec.remain) != 0 {
 			v, r, err = parseValue(dec.remain)
-			// A number at the end of the buffered input may have more digits.
-			partial := err == nil && len(r) == 0 && dec.err == nil && RawValue(v).Number()
+			// A number at the end of the buffered input may have more digits,
+			// unless this is known to be the end of the stream.
+			partial := err == nil && len(r) == 0 && RawValue(v).Number() &&
+				!(dec.err != nil && errors.Is(dec.err, io.EOF))
 			if err == nil && !partial {
 				dec.remain, n = skipSpacesN(r)
 				dec.inputOffset += int64(len(v) + n)
-- 
2.43.0


From e61bbe435fb40cec5018877da8aa7787bde07bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 31/45] fix: keep the digits of numbers in jc

---
 cmd/jc/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/jc/main.go b/cmd/jc/main.go
index 4b6061e..939fbec 100644
--- a/cmd/jc/main.go
+++ b/cmd/jc/main.go
@@ -91,9 +91,14 @@ func doMain() error {
 	}
 
 	jsn := new(interface{}) // generic interface{} that will hold the parsed JSON
-	if err = json.Unmarshal(input, jsn); err != nil {
+	// UseNumber: numbers must not be squeezed into a float64.
+	rest, err := json.Parse(input, jsn, json.UseNumber)
+	if err != nil {
 		return fmt.Errorf("invalid input JSON: %w", err)
 	}
+	if len(rest) != 0 {
+		return errors.New("invalid input JSON: unexpected data after top-level value")
+	}
 
 	var out io.Writer
 	if flagOutputFile != nil && *flagOutputFile != "" {
-- 
2.43.0


From ff6d3f81b8726fef46bc626518a86d4d97f76f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:46 +0000
Subject: [PATCH 32/45] fix: report 64-bit integer overflow as an
 UnmarshalTypeError

parseInt and parseUint left the overflowing number unconsumed, so that
Unmarshal reported a SyntaxError about trailing data instead.
---
 parse.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/parse.go b/parse.go
index 17ea9b3..d32a469 100644
--- a/parse.go
+++ b/parse.go
@@ -71,14 +71,16 @@ func parseInt(b []byte, t reflect.Type) (int64, []byte, error) {
 			}
 
 			if value < lim {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := numberOverflow(b, t)
+				return 0, r, err
 			}
 
 			value *= 10
 			x := int64(d - '0')
 
 			if value < (maxVal + x) {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := numberOverflow(b, t)
+				return 0, r, err
 			}
 
 			value -= x
@@ -105,11 +107,13 @@ func parseInt(b []byte, t reflect.Type) (int64, []byte, error) {
 			x := int64(d - '0')
 
 			if value > lim {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := numberOverflow(b, t)
+				return 0, r, err
 			}
 
 			if value *= 10; value > (maxVal - x) {
-				return 0, b, unmarshalOverflow(b, t)
+				r, err := numberOverflow(b, t)
+				return 0, r, err
 			}
 
 			value += x
@@ -158,11 +162,13 @@ func parseUint(b []byte, t reflect.Type) (uint64, []byte, error) {
 		x := uint64(d - '0')
 
 		if value > lim {
-			return 0, b, unmarshalOverflow(b, t)
+			r, err := numberOverflow(b, t)
+			return 0, r, err
 		}
 
 		if value *= 10; value > (maxVal - x) {
-			return 0, b, unmarshalOverflow(b, t)
+			r, err := numberOverflow(b, t)
+			return 0, r, err
 		}
 
 		value += x
@@ -183,6 +189,15 @@ func parseUint(b []byte, t reflect.Type) (uint64, []byte, error) {
 	return value, b[count:], nil
 }
 
+// numberOverflow consumes the number at the start of b, which overflows t.
+func numberOverflow(b []byte, t reflect.Type) ([]byte, error) {
+	v, r, err := parseNumber(b)
+	if err != nil {
+		return r, err
+	}
+	return r, unmarshalOverflow(v, t)
+}
+
 // parseUintHex parses a hexadecimanl representation of a uint64 from b.
 //
 // The function is equivalent to calling strconv.ParseUint(string(b), 16, 64) but
-- 
2.43.0


From 085db79d9134b62b78ad1372295025ba21817295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:50 +0000
Subject: [PATCH 33/45] fix: report map keys that don't suit the map, not a
 syntax error

A key of a well-formed object that isn't an integer of the map's key type is
now an UnmarshalTypeError, and an error of the key's own UnmarshalText is
returned as it is.
---
 codec.go  | 16 ++++++++++++++++
 decode.go |  4 ++++
 2 files changed, 20 insertions(+)

diff --git a/codec.go b/codec.go
index 6271832..b93b591 100644
--- a/codec.go
+++ b/codec.go
@@ -283,6 +283,20 @@ func constructStringToIntDecodeFunc(t reflect.Type, decode decodeFunc) decodeFun
 	}
 }
 
+// constructIntKeyDecodeFunc returns a func that delegates to decode, and reports
+// a key that isn't an integer of type t as an UnmarshalTypeError.
+func constructIntKeyDecodeFunc(t reflect.Type, decode decodeFunc) decodeFunc {
+	return func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+		r, err := decode(d, b, p)
+		if err != nil {
+			if v, r, err := parseString(b); err == nil {
+				return r, unmarshalTypeError(v, t)
+			}
+		}
+		return r, err
+	}
+}
+
 func constructArrayCodec(t reflect.Type, seen *seenTypes, canAddr bool) codec {
 	e := t.Elem()
 	c := constructCodec(e, seen, canAddr)
@@ -416,6 +430,7 @@ func constructMapCodec(t reflect.Type, seen *seenTypes) codec {
 			reflect.Int32,
 			reflect.Int64:
 			kc = constructStringCodec(k, seen, false)
+			kc.decode = constructIntKeyDecodeFunc(k, kc.decode)
 
 			sortKeys = func(keys []reflect.Value) {
 				sort.Slice(keys, func(i, j int) bool { return intStringsAreSorted(keys[i].Int(), keys[j].Int()) })
@@ -428,6 +443,7 @@ func constructMapCodec(t reflect.Type, seen *seenTypes) codec {
 			reflect.Uint32,
 			reflect.Uint64:
 			kc = constructStringCodec(k, seen, false)
+			kc.decode = constructIntKeyDecodeFunc(k, kc.decode)
 
 			sortKeys = func(keys []reflect.Value) {
 				sort.Slice(keys, func(i, j int) bool { return uintStringsAreSorted(keys[i].Uint(), keys[j].Uint()) })
diff --git a/decode.go b/decode.go
index 7fa3a88..51e797f 100644
--- a/decode.go
+++ b/decode.go
@@ -695,6 +695,10 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 		}
 
 		if b, err = decodeKey(d, b, kptr); err != nil {
+			if _, r, err2 := parseValue(input); err2 == nil {
+				// A key that doesn't suit the map, in a well-formed object.
+				return r, err
+			}
 			return objectKeyError(b, err)
 		}
 		b = skipSpaces(b)
-- 
2.43.0


From 5ec14db6ceb1f50ad52c94191cf7997f44a5deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:24 +0000
Subject: [PATCH 34/45] fix: decode slices of byte types with value-receiver
 unmarshalers without a panic

---
 codec.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/codec.go b/codec.go
index b93b591..6ac92de 100644
--- a/codec.go
+++ b/codec.go
@@ -344,10 +344,6 @@ func constructSliceCodec(t reflect.Type, seen *seenTypes) codec {
 		}
 
 		switch {
-		case e.Implements(jsonUnmarshalerType):
-			c.decode = constructJSONUnmarshalerDecodeFunc(e, false)
-		case e.Implements(textUnmarshalerType):
-			c.decode = constructTextUnmarshalerDecodeFunc(e, false)
 		case p.Implements(jsonUnmarshalerType):
 			c.decode = constructJSONUnmarshalerDecodeFunc(e, true)
 		case p.Implements(textUnmarshalerType):
-- 
2.43.0


From 13b4c74879fef30ca31bf127d1b67b4ec7c1545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:29 +0000
Subject: [PATCH 35/45] fix: prefer MarshalJSON with a pointer receiver to
 MarshalText with a value receiver

---
 codec.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/codec.go b/codec.go
index 6ac92de..e957e31 100644
--- a/codec.go
+++ b/codec.go
@@ -206,20 +206,17 @@ func constructCodec(t reflect.Type, seen *seenTypes, canAddr bool) (c codec) {
 
 	p := reflect.PointerTo(t)
 
-	if canAddr {
-		switch {
-		case p.Implements(jsonMarshalerType):
-			c.encode = constructJSONMarshalerEncodeFunc(t, true)
-		case p.Implements(textMarshalerType):
-			c.encode = constructTextMarshalerEncodeFunc(t, true)
-		}
-	}
-
+	// JSON marshalers take precedence over text marshalers, whatever the kind
+	// of their receivers.
 	switch {
 	case t.Implements(jsonMarshalerType):
 		c.encode = constructJSONMarshalerEncodeFunc(t, false)
+	case canAddr && p.Implements(jsonMarshalerType):
+		c.encode = constructJSONMarshalerEncodeFunc(t, true)
 	case t.Implements(textMarshalerType):
 		c.encode = constructTextMarshalerEncodeFunc(t, false)
+	case canAddr && p.Implements(textMarshalerType):
+		c.encode = constructTextMarshalerEncodeFunc(t, true)
 	}
 
 	switch {
@@ -335,10 +332,10 @@ func constructSliceCodec(t reflect.Type, seen *seenTypes) codec {
 		switch {
 		case e.Implements(jsonMarshalerType):
 			c.encode = constructJSONMarshalerEncodeFunc(e, false)
-		case e.Implements(textMarshalerType):
-			c.encode = constructTextMarshalerEncodeFunc(e, false)
 		case p.Implements(jsonMarshalerType):
 			c.encode = constructJSONMarshalerEncodeFunc(e, true)
+		case e.Implements(textMarshalerType):
+			c.encode = constructTextMarshalerEncodeFunc(e, false)
 		case p.Implements(textMarshalerType):
 			c.encode = constructTextMarshalerEncodeFunc(e, true)
 		}
-- 
2.43.0


From 31d78782647c27cc95b0c486dc6516c28741c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 36/45] fix: report marshalers that return no JSON instead of
 encoding null

---
 encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode.go b/encode.go
index 670bb61..1bf98d5 100644
--- a/encode.go
+++ b/encode.go
@@ -1042,6 +1042,12 @@ func (e encoder) encodeJSONMarshaler(b []byte, p unsafe.Pointer, t reflect.Type,
 		return b, err
 	}
 
+	if j == nil {
+		// A nil RawMessage encodes as null, but a marshaler without output is
+		// an error.
+		return b, &UnsupportedValueError{Value: v, Str: unexpectedEOF(j).Error()}
+	}
+
 	// We effectively delegate to the encodeRawMessage method.
 	return Append(b, RawMessage(j), e.flags, e.clrs, e.indentr)
 }
-- 
2.43.0


From 62e0bf5fabba485acfe6797d3588bdb82929a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:45 +0000
Subject: [PATCH 37/45] fix: use map keys of string types directly, as
 encoding/json does

---
 codec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codec.go b/codec.go
index e957e31..d12efb8 100644
--- a/codec.go
+++ b/codec.go
@@ -404,7 +404,8 @@ func constructMapCodec(t reflect.Type, seen *seenTypes) codec {
 	kc := codec{}
 	vc := constructCodec(v, seen, false)
 
-	textMarshaler := k.Implements(textMarshalerType)
+	// As in encoding/json, keys of any string type are used directly.
+	textMarshaler := k.Implements(textMarshalerType) && k.Kind() != reflect.String
 	textUnmarshaler := reflect.PointerTo(k).Implements(textUnmarshalerType)
 
 	if !textMarshaler || !textUnmarshaler {
-- 
2.43.0


From 9bea63882f718981935502038731dd43265b47c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:48 +0000
Subject: [PATCH 38/45] fix: accept semicolons in the names of struct tags

---
 codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec.go b/codec.go
index d12efb8..17bc6d1 100644
--- a/codec.go
+++ b/codec.go
@@ -956,7 +956,7 @@ func isValidTag(s string) bool {
 	}
 	for _, c := range s {
 		switch {
-		case strings.ContainsRune("!#$%&()*+-./:<=>?@[]^_{|}~ ", c):
+		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c):
 			// Backslash and quote chars are reserved, but
 			// otherwise any punctuation chars are allowed
 			// in a tag name.
-- 
2.43.0


From 69532c46b5b3f238b209e11667c7ce0e7cf98c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:52 +0000
Subject: [PATCH 39/45] fix: decode null into variables of types without JSON
 form

---
 codec.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codec.go b/codec.go
index 17bc6d1..b3b8375 100644
--- a/codec.go
+++ b/codec.go
@@ -877,7 +877,14 @@ func constructUnsupportedTypeEncodeFunc(t reflect.Type) encodeFunc {
 }
 
 func constructUnsupportedTypeDecodeFunc(t reflect.Type) decodeFunc {
+	isMap := t.Kind() == reflect.Map
 	return func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+		if hasNullPrefix(b) {
+			if isMap {
+				*(*unsafe.Pointer)(p) = nil
+			}
+			return b[4:], nil
+		}
 		return d.decodeUnmarshalTypeError(b, p, t)
 	}
 }
-- 
2.43.0


From 0d5a1cbaa0cd6b32943a256f62756a079693fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 40/45] fix: encoding a time that has no RFC 3339 text is an
 error

Times with years outside 0 to 9999 and zone offsets of 24 hours and more
were written as text that is not RFC 3339, and that decoding rejects.
---
 encode.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/encode.go b/encode.go
index 1bf98d5..65ca81e 100644
--- a/encode.go
+++ b/encode.go
@@ -371,6 +371,10 @@ func (e encoder) encodeDuration(b []byte, p unsafe.Pointer) ([]byte, error) {
 }
 
 func (e encoder) encodeTime(b []byte, p unsafe.Pointer) ([]byte, error) {
+	if err := checkTime(*(*time.Time)(p)); err != nil {
+		return b, err
+	}
+
 	if e.clrs == nil {
 		t := *(*time.Time)(p)
 		b = append(b, '"')
@@ -388,6 +392,20 @@ func (e encoder) encodeTime(b []byte, p unsafe.Pointer) ([]byte, error) {
 	return b, nil
 }
 
+// checkTime returns an error if t cannot be represented in RFC 3339 format,
+// which has four digits for the year, and zone offsets of less than 24 hours.
+func checkTime(t time.Time) error {
+	if y := t.Year(); y < 0 || y > 9999 {
+		return &UnsupportedValueError{Value: reflect.ValueOf(t), Str: "time: year outside of range [0,9999]"}
+	}
+
+	if _, offset := t.Zone(); offset <= -24*60*60 || offset >= 24*60*60 {
+		return &UnsupportedValueError{Value: reflect.ValueOf(t), Str: "time: zone offset outside of range (-24h,24h)"}
+	}
+
+	return nil
+}
+
 func (e encoder) encodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, _ reflect.Type, encode encodeFunc) ([]byte, error) {
 	start := len(b)
 	var err error
-- 
2.43.0


From 0ed54b5be244e40f2afac91ebb22ca73dc9cd9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:00 +0000
Subject: [PATCH 41/45] fix: deeply nested input overflowed the stack

Parsing and decoding recurse for every level of nesting, and a goroutine
whose stack overflows ends the whole process. Limit the nesting of decoded
values (and of raw JSON that is encoded) to 10000 levels, the limit of the
encoding/json package.
---
 codec.go  |  5 ++++-
 decode.go | 46 ++++++++++++++++++++++++++++++++++++----------
 json.go   |  6 +++++-
 parse.go  | 30 ++++++++++++++++++++++--------
 4 files changed, 67 insertions(+), 20 deletions(-)

diff --git a/codec.go b/codec.go
index b3b8375..71f5742 100644
--- a/codec.go
+++ b/codec.go
@@ -25,7 +25,10 @@ type encoder struct {
 	clrs    *Colors
 	indentr *Indenter
 }
-type decoder struct{ flags ParseFlags }
+type decoder struct {
+	flags ParseFlags
+	depth int // number of arrays and objects the value is nested in
+}
 
 type (
 	encodeFunc func(encoder, []byte, unsafe.Pointer) ([]byte, error)
diff --git a/decode.go b/decode.go
index 51e797f..37a8c9a 100644
--- a/decode.go
+++ b/decode.go
@@ -510,6 +510,11 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 	if len(b) < 2 || b[0] != '[' {
 		return inputError(b, t)
 	}
+
+	if d.depth++; d.depth > maxDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
+
 	input := b
 	b = b[1:]
 
@@ -539,7 +544,7 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 		if i >= n {
 			// The encoding/json package ignores extra elements found when
 			// decoding into array types (which have a fixed size).
-			if _, b, err = parseValue(b); err != nil {
+			if _, b, err = parseValueDepth(b, d.depth); err != nil {
 				return b, err
 			}
 			continue
@@ -586,6 +591,10 @@ func (d decoder) decodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 		return inputError(b, t)
 	}
 
+	if d.depth++; d.depth > maxDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
+
 	input := b
 	b = b[1:]
 
@@ -654,6 +663,11 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 	if len(b) < 2 || b[0] != '{' {
 		return inputError(b, t)
 	}
+
+	if d.depth++; d.depth > maxDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
+
 	i := 0
 	m := reflect.NewAt(t, p).Elem()
 
@@ -740,6 +754,10 @@ func (d decoder) decodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 		return inputError(b, mapStringInterfaceType)
 	}
 
+	if d.depth++; d.depth > maxDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
+
 	m := *(*map[string]interface{})(p)
 	if m == nil {
 		m = make(map[string]interface{}, 64)
@@ -792,6 +810,10 @@ func (d decoder) decodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 		return inputError(b, mapStringRawMessageType)
 	}
 
+	if d.depth++; d.depth > maxDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
+
 	m := *(*map[string]RawMessage)(p)
 	if m == nil {
 		m = make(map[string]RawMessage, 64)
@@ -877,6 +899,10 @@ func (d decoder) decodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		return inputError(b, st.typ)
 	}
 
+	if d.depth++; d.depth > maxDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
+
 	var err error
 	var k []byte
 	var i int
@@ -934,7 +960,7 @@ func (d decoder) decodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			if (d.flags & DisallowUnknownFields) != 0 {
 				return b, fmt.Errorf("json: unknown field %q", k)
 			}
-			if _, b, err = parseValue(b); err != nil {
+			if _, b, err = parseValueDepth(b, d.depth); err != nil {
 				return b, err
 			}
 			continue
@@ -1005,14 +1031,14 @@ func (d decoder) decodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 			}
 		}
 
-		parsedBytes, err := Parse(b, val, d.flags)
+		parsedBytes, err := parse(b, val, d)
 		if err == nil {
 			*(*interface{})(p) = val
 		}
 		return parsedBytes, err
 	}
 
-	v, b, err := parseValue(b)
+	v, b, err := parseValueDepth(b, d.depth)
 	if err != nil {
 		return b, err
 	}
@@ -1077,17 +1103,17 @@ func (d decoder) decodeMaybeEmptyInterface(b []byte, p unsafe.Pointer, t reflect
 
 	if x := reflect.NewAt(t, p).Elem(); !x.IsNil() {
 		if e := x.Elem(); e.Kind() == reflect.Pointer {
-			return Parse(b, e.Interface(), d.flags)
+			return parse(b, e.Interface(), d)
 		}
 	} else if t.NumMethod() == 0 { // empty interface
-		return Parse(b, (*interface{})(p), d.flags)
+		return parse(b, (*interface{})(p), d)
 	}
 
 	return d.decodeUnmarshalTypeError(b, p, t)
 }
 
 func (d decoder) decodeUnmarshalTypeError(b []byte, _ unsafe.Pointer, t reflect.Type) ([]byte, error) {
-	v, b, err := parseValue(b)
+	v, b, err := parseValueDepth(b, d.depth)
 	if err != nil {
 		return b, err
 	}
@@ -1098,7 +1124,7 @@ func (d decoder) decodeUnmarshalTypeError(b []byte, _ unsafe.Pointer, t reflect.
 }
 
 func (d decoder) decodeRawMessage(b []byte, p unsafe.Pointer) ([]byte, error) {
-	v, r, err := parseValue(b)
+	v, r, err := parseValueDepth(b, d.depth)
 	if err != nil {
 		return inputError(b, rawMessageType)
 	}
@@ -1112,7 +1138,7 @@ func (d decoder) decodeRawMessage(b []byte, p unsafe.Pointer) ([]byte, error) {
 }
 
 func (d decoder) decodeJSONUnmarshaler(b []byte, p unsafe.Pointer, t reflect.Type, pointer bool) ([]byte, error) {
-	v, b, err := parseValue(b)
+	v, b, err := parseValueDepth(b, d.depth)
 	if err != nil {
 		return b, err
 	}
@@ -1136,7 +1162,7 @@ func (d decoder) decodeJSONUnmarshaler(b []byte, p unsafe.Pointer, t reflect.Typ
 func (d decoder) decodeTextUnmarshaler(b []byte, p unsafe.Pointer, t reflect.Type, pointer bool) ([]byte, error) {
 	var value string
 
-	v, b, err := parseValue(b)
+	v, b, err := parseValueDepth(b, d.depth)
 	if err != nil {
 		return b, err
 	}
diff --git a/json.go b/json.go
index 07fff20..dbb4092 100644
--- a/json.go
+++ b/json.go
@@ -212,6 +212,10 @@ func Unmarshal(b []byte, x interface{}) error {
 // Parse behaves like Unmarshal but the caller can pass a set of flags to
 // configure the parsing behavior.
 func Parse(b []byte, x interface{}, flags ParseFlags) ([]byte, error) {
+	return parse(b, x, decoder{flags: flags})
+}
+
+func parse(b []byte, x interface{}, d decoder) ([]byte, error) {
 	t := reflect.TypeOf(x)
 	p := (*iface)(unsafe.Pointer(&x)).ptr
 
@@ -232,7 +236,7 @@ func Parse(b []byte, x interface{}, flags ParseFlags) ([]byte, error) {
 		c = constructCachedCodec(t, cache)
 	}
 
-	r, err := c.decode(decoder{flags: flags}, skipSpaces(b), p)
+	r, err := c.decode(d, skipSpaces(b), p)
 	return skipSpaces(r), err
 }
 
diff --git a/parse.go b/parse.go
index d32a469..db97aa8 100644
--- a/parse.go
+++ b/parse.go
@@ -554,7 +554,7 @@ func appendCoerceInvalidUTF8(b, s []byte) []byte {
 	return b
 }
 
-func parseObject(b []byte) ([]byte, []byte, error) {
+func parseObject(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) < 2 {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
@@ -611,7 +611,7 @@ func parseObject(b []byte) ([]byte, []byte, error) {
 		}
 		b = skipSpaces(b[1:])
 
-		_, b, err = parseValue(b)
+		_, b, err = parseValueDepth(b, depth)
 		if err != nil {
 			return nil, b, err
 		}
@@ -620,7 +620,7 @@ func parseObject(b []byte) ([]byte, []byte, error) {
 	}
 }
 
-func parseArray(b []byte) ([]byte, []byte, error) {
+func parseArray(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) < 2 {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
@@ -663,7 +663,7 @@ func parseArray(b []byte) ([]byte, []byte, error) {
 			}
 		}
 
-		_, b, err = parseValue(b)
+		_, b, err = parseValueDepth(b, depth)
 		if err != nil {
 			return nil, b, err
 		}
@@ -672,13 +672,27 @@ func parseArray(b []byte) ([]byte, []byte, error) {
 	}
 }
 
+// maxDepth is the maximum nesting depth of JSON values that are decoded. It is
+// the limit of the encoding/json package, and keeps a goroutine's stack from
+// overflowing.
+const maxDepth = 10000
+
 func parseValue(b []byte) ([]byte, []byte, error) {
+	return parseValueDepth(b, 0)
+}
+
+// parseValueDepth parses a value that is nested in depth arrays and objects.
+func parseValueDepth(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) != 0 {
 		switch b[0] {
-		case '{':
-			return parseObject(b)
-		case '[':
-			return parseArray(b)
+		case '{', '[':
+			if depth++; depth > maxDepth {
+				return nil, b, syntaxError(b, "exceeded max depth")
+			}
+			if b[0] == '{' {
+				return parseObject(b, depth)
+			}
+			return parseArray(b, depth)
 		case '"':
 			return parseString(b)
 		case 'n':
-- 
2.43.0


From 5eceedaf7898939abd7f822e6cd9220c3be80710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:57 +0000
Subject: [PATCH 42/45] fix: a recovered panic of a marshaler left the encoder
 indenting too deep

---
 json.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/json.go b/json.go
index dbb4092..ad74f2d 100644
--- a/json.go
+++ b/json.go
@@ -136,12 +136,10 @@ func Append(b []byte, x interface{}, flags AppendFlags, clrs *Colors, indentr *I
 		c = constructCachedCodec(t, cache)
 	}
 
-	depth := indentr.level()
+	// Encoding may stop at any nesting depth, by an error or by a panic of a
+	// marshaler.
+	defer indentr.setLevel(indentr.level())
 	b, err := c.encode(encoder{flags: flags, clrs: clrs, indentr: indentr}, b, p)
-	if err != nil {
-		// Encoding may have stopped at any nesting depth.
-		indentr.setLevel(depth)
-	}
 	runtime.KeepAlive(x)
 	return b, err
 }
-- 
2.43.0


From df4f81b2ecf18a1628cfdaef3e3ff28f6f432630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:51 +0000
Subject: [PATCH 43/45] fix: a named empty interface holding a value could not
 be decoded into

---
 decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decode.go b/decode.go
index 37a8c9a..821770a 100644
--- a/decode.go
+++ b/decode.go
@@ -1096,6 +1096,10 @@ func (d decoder) decodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 }
 
 func (d decoder) decodeMaybeEmptyInterface(b []byte, p unsafe.Pointer, t reflect.Type) ([]byte, error) {
+	if t.NumMethod() == 0 { // empty interface
+		return d.decodeInterface(b, p)
+	}
+
 	if hasNullPrefix(b) {
 		*(*interface{})(p) = nil
 		return b[4:], nil
@@ -1105,8 +1109,6 @@ func (d decoder) decodeMaybeEmptyInterface(b []byte, p unsafe.Pointer, t reflect
 		if e := x.Elem(); e.Kind() == reflect.Pointer {
 			return parse(b, e.Interface(), d)
 		}
-	} else if t.NumMethod() == 0 { // empty interface
-		return parse(b, (*interface{})(p), d)
 	}
 
 	return d.decodeUnmarshalTypeError(b, p, t)
-- 
2.43.0


From 01a32285fbebcab85f94a4056b269435212bb9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:55 +0000
Subject: [PATCH 44/45] fix: an interface holding a nil pointer could not be
 decoded into

---
 decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decode.go b/decode.go
index 821770a..f182c88 100644
--- a/decode.go
+++ b/decode.go
@@ -1020,10 +1020,10 @@ func (d decoder) decodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 	val := *(*interface{})(p)
 	*(*interface{})(p) = nil
 
-	if t := reflect.TypeOf(val); t != nil && t.Kind() == reflect.Pointer {
-		if v := reflect.ValueOf(val); v.IsNil() || t.Elem().Kind() != reflect.Pointer {
-			// If the destination is nil the only value that is OK to decode is
-			// `null`, and the encoding/json package always nils the destination
+	// A nil pointer is replaced like any other value.
+	if v := reflect.ValueOf(val); v.Kind() == reflect.Pointer && !v.IsNil() {
+		if v.Type().Elem().Kind() != reflect.Pointer {
+			// For `null`, the encoding/json package nils the destination
 			// interface value in this case.
 			if hasNullPrefix(b) {
 				*(*interface{})(p) = nil
@@ -1106,7 +1106,7 @@ func (d decoder) decodeMaybeEmptyInterface(b []byte, p unsafe.Pointer, t reflect
 	}
 
 	if x := reflect.NewAt(t, p).Elem(); !x.IsNil() {
-		if e := x.Elem(); e.Kind() == reflect.Pointer {
+		if e := x.Elem(); e.Kind() == reflect.Pointer && !e.IsNil() {
 			return parse(b, e.Interface(), d)
 		}
 	}
-- 
2.43.0


From 50187c333be5f57f3c5d2fa049c1f6714e4dcdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:59 +0000
Subject: [PATCH 45/45] fix: errors whose Is method matches anything dropped
 struct members silently

---
 encode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 65ca81e..bcfb807 100644
--- a/encode.go
+++ b/encode.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding"
 	"encoding/base64"
-	"errors"
 	"math"
 	"reflect"
 	"sort"
@@ -770,7 +769,7 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		b = e.indentr.appendByte(b, ' ')
 
 		if b, err = f.codec.encode(e, b, v); err != nil {
-			if errors.Is(err, rollback{}) {
+			if _, ok := err.(rollback); ok { //nolint:errorlint
 				b = b[:lengthBeforeField]
 				continue
 			}
-- 
2.43.0

