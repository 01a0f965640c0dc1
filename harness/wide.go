package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

// wide is a case of Wide.tla: open, n times item with separators in between,
// close.
type wide struct {
	K              string
	O, I, S, C     B
	Ot, It, St, Ct []towerTok
	U              []struct{ T, D, H, P, R B }
	N              int
	Fault          string
	Doc            bool
}

func wideOf(line []byte) *wide {
	w := new(wide)
	check(json.Unmarshal(line, w))
	return w
}

func (w *wide) String() string {
	return fmt.Sprintf("%d times %q in %q...%q (%s, fault %s)", w.N, w.I, w.O, w.C, w.K, w.Fault)
}

func (w *wide) ok() bool { return w.Fault == "none" }

// values: the document is the encoding of a value.
func (w *wide) values() bool { return w.ok() && w.K != "num" && w.K != "objd" }

type wideLay struct {
	on, bare bool
	pre, in  string
}

func (l wideLay) add(b []byte, s []byte, i int) []byte {
	for _, c := range s {
		switch {
		case c > 5:
			b = append(b, c)
		case c == 4:
			b = append(b, fmt.Sprintf("%06d", i)...)
		case c == 5:
			if !l.on && !l.bare {
				b = append(b, ' ')
			}
		case !l.on:
		case c == 3:
			b = append(b, ' ')
		default:
			b = append(b, '\n')
			b = append(b, l.pre...)
			for ; c > 0; c-- {
				b = append(b, l.in...)
			}
		}
	}
	return b
}

// text writes the document out as Wide.tla does (TextOf).
func (w *wide) text(l wideLay) []byte {
	b := l.add(nil, w.O, 0)
	for i := 1; i <= w.N; i++ {
		if i > 1 {
			b = l.add(b, w.S, i)
		}
		if w.Fault == "sep" && i == w.N {
			b = append(b, ',')
		}
		b = l.add(b, w.I, i)
	}
	if w.Fault == "ctl" {
		b = append(b, 1)
	}
	b = l.add(b, w.C, 0)
	switch w.Fault {
	case "short":
		b = b[:len(b)-1]
	case "two":
		b = append(b, ',')
	}
	return b
}

func (w *wide) given() []byte { return w.text(wideLay{}) }
func (w *wide) bare() []byte  { return w.text(wideLay{bare: true}) }

// times is n times u.
func (w *wide) times(u B) string { return strings.Repeat(string(u), w.N) }

// member is the value of every member of arrays and objects.
func (w *wide) member() (x interface{}) {
	t := wideLay{bare: true}.add(nil, w.I, 0)
	if w.K != "arr" {
		t = t[bytes.IndexByte(t, ':')+1:]
	}
	check(json.Unmarshal(t, &x))
	return x
}

// native builds the value the document denotes, for those with one.
func (w *wide) native() (x interface{}, ok bool) {
	switch w.K {
	case "arr":
		a := make([]interface{}, w.N)
		for i := range a {
			a[i] = w.member()
		}
		return a, true
	case "obj", "objz", "objd":
		m := map[string]interface{}{}
		v := w.member()
		for i := 1; i <= w.N; i++ {
			m[fmt.Sprintf("%06d", i)] = v
		}
		if w.K == "objz" {
			m["z"] = 7.0
		}
		if w.K == "objd" { // the last of several counts
			m["000001"] = 7.0
		}
		return m, true
	case "str":
		return w.times(w.U[0].D), true
	case "key":
		return map[string]interface{}{w.times(w.U[0].D): 1.0}, true
	case "gap":
		var v interface{}
		check(json.Unmarshal(w.bare(), &v))
		return v, true
	}
	return nil, false
}

// encoded is the compact encoding of the native value.
func (w *wide) encoded(html bool) []byte {
	if w.K != "str" && w.K != "key" {
		return w.bare()
	}
	x := *w
	x.I = w.U[0].P
	if html {
		x.I = w.U[0].H
	}
	return x.bare()
}

// escaped is the document as a raw message with HTML escaping.
func (w *wide) escaped() []byte {
	if w.K != "str" && w.K != "key" {
		return w.bare()
	}
	x := *w
	x.I = w.U[0].R
	return x.bare()
}

func (w *wide) tokens() (out []towerTok) {
	add := func(ts []towerTok, i int) {
		for _, k := range ts {
			k.v = string(wideLay{bare: true}.add(nil, []byte(k.v), i))
			switch k.ix {
			case -1:
				k.ix = i - 1
			case -2:
				k.ix = w.N
			}
			out = append(out, k)
		}
	}
	add(w.Ot, 0)
	for i := 1; i <= w.N; i++ {
		if i > 1 {
			add(w.St, i-1)
		}
		add(w.It, i)
	}
	add(w.Ct, w.N)
	return out
}

func (w *wide) check(what string, got []byte, err error, want []byte, ok bool) string {
	return differ(w, what, got, err, want, ok)
}

func replayWideAccept(g *gen, line []byte) string {
	w := wideOf(line)
	b := w.given()
	if jc.Valid(b) != w.Doc {
		return fmt.Sprintf("%v: Valid is %v", w, !w.Doc)
	}
	tries := map[string]interface{}{"RawMessage": new(jc.RawMessage), "a number": new(jc.Number)}
	if w.K != "num" {
		tries["interface"] = new(interface{})
	}
	switch b[0] {
	case '[':
		tries["[0]int"], tries["[]RawMessage"] = new([0]int), new([]jc.RawMessage)
	case '{':
		tries["struct{}"], tries["map of RawMessage"] = new(struct{}), new(map[string]jc.RawMessage)
		tries["map"] = new(map[string]interface{})
	case '"':
		tries["string"] = new(string)
	}
	for what, x := range tries {
		err := jc.Unmarshal(b, x)
		var ute *jc.UnmarshalTypeError
		if what == "a number" {
			if !w.Doc && err == nil {
				return fmt.Sprintf("%v: accepted into %s", w, what)
			}
		} else if (err == nil) != w.Doc || errors.As(err, &ute) {
			return fmt.Sprintf("%v: into %s: %v", w, what, err)
		}
	}
	return ""
}

// same compares with the native value.
func (w *wide) same(what string, got interface{}, err error) string {
	want, _ := w.native()
	if err != nil {
		return fmt.Sprintf("%v: %s: %v", w, what, err)
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("%v: %s: %.60q (%T)", w, what, fmt.Sprint(got), got)
	}
	return ""
}

func replayWideUntyped(g *gen, line []byte) string {
	w := wideOf(line)
	b := w.given()
	if !w.ok() {
		return ""
	}
	var x interface{}
	if w.K == "num" { // as it stands
		err := parseAll(b, &x, jc.UseNumber)
		if err != nil || x != interface{}(jc.Number(b)) {
			return fmt.Sprintf("%v: number %.60q, %v", w, x, err)
		}
		return ""
	}
	err := jc.Unmarshal(b, &x)
	if s := w.same("Unmarshal", x, err); s != "" {
		return s
	}
	x = nil
	err = parseAll(b, &x, jc.ZeroCopy)
	return w.same("Parse", x, err)
}

// typed gives the slice, map or scalar type whose elements are exactly the
// members, or nil.
func (w *wide) typed() reflect.Type {
	var e reflect.Type
	switch w.K {
	case "arr", "obj", "objz":
		switch w.member().(type) {
		case float64:
			e = reflect.TypeOf(float32(0))
			if !bytes.Contains(w.I, []byte(".")) {
				e = reflect.TypeOf(int16(0))
			}
		case string:
			e = reflect.TypeOf("")
		case bool:
			e = reflect.TypeOf(false)
		case []interface{}:
			e = reflect.TypeOf([]bool{})
		case map[string]interface{}:
			e = reflect.TypeOf(map[string]uint8{})
		default:
			e = reflect.TypeOf((*int)(nil))
		}
		if w.K == "arr" {
			return reflect.SliceOf(e)
		}
		if w.K == "obj" {
			return reflect.MapOf(reflect.TypeOf(""), e)
		}
	case "str":
		return reflect.TypeOf("")
	case "key":
		return reflect.TypeOf(map[string]int8{})
	}
	return nil
}

// generic turns a typed value into what untyped decoding gives.
func generic(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		a := make([]interface{}, v.Len())
		for i := range a {
			a[i] = generic(v.Index(i))
		}
		return a
	case reflect.Map:
		m := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			m[k.String()] = generic(v.MapIndex(k))
		}
		return m
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return generic(v.Elem())
	case reflect.Int8, reflect.Int16:
		return float64(v.Int())
	case reflect.Uint8:
		return float64(v.Uint())
	case reflect.Float32:
		return v.Float()
	}
	return v.Interface()
}

func replayWideTyped(g *gen, line []byte) string {
	w := wideOf(line)
	b := w.given()
	if !w.ok() {
		return ""
	}
	t := w.typed()
	if t != nil {
		x := reflect.New(t)
		err := jc.Unmarshal(b, x.Interface())
		if s := w.same("into "+t.String(), generic(x.Elem()), err); s != "" {
			return s
		}
	}
	switch w.K {
	case "num":
		// Too many digits for an integer of any size are an error.
		if w.N > 20 && len(w.O) == 0 {
			for _, x := range []interface{}{new(int), new(uint64), new(int8), new(uint16)} {
				if err := jc.Unmarshal(b, x); err == nil {
					return fmt.Sprintf("%v: accepted as %T", w, x)
				}
			}
		}
		if bytes.HasPrefix(w.O, []byte("-1.")) {
			var f float64
			if err := jc.Unmarshal(b, &f); err != nil || f != -1 {
				return fmt.Sprintf("%v: decoded as %v, %v", w, f, err)
			}
		}
		var n jc.Number
		if err := jc.Unmarshal(b, &n); err != nil || string(n) != string(b) {
			return fmt.Sprintf("%v: number %.60q, %v", w, n, err)
		}
	case "arr": // arrays of the length, shorter ones, longer ones
		for _, d := range []int{-1, 0, 1} {
			x := reflect.New(reflect.ArrayOf(w.N+d, t.Elem()))
			if w.N+d == 0 {
				continue
			}
			if d == 1 && t.Elem().Kind() == reflect.String { // is cleared
				x.Elem().Index(w.N).SetString("old")
			}
			err := jc.Unmarshal(b, x.Interface())
			want, _ := w.native()
			a := want.([]interface{})
			if d < 0 {
				a = a[:w.N-1]
			} else if d > 0 {
				a = append(a, generic(reflect.Zero(t.Elem())))
			}
			if got := generic(x.Elem()); err != nil || !reflect.DeepEqual(got, interface{}(a)) {
				return fmt.Sprintf("%v: into an array of %d: %v", w, w.N+d, err)
			}
		}
	case "str":
		if string(w.I) == "QUJD" {
			var x []byte
			if err := jc.Unmarshal(b, &x); err != nil || string(x) != strings.Repeat("ABC", w.N) {
				return fmt.Sprintf("%v: %d bytes, %v", w, len(x), err)
			}
		}
	}
	return ""
}

// wideStruct has one int16 field per member of an object.
func wideStruct(n int) reflect.Type {
	fs := make([]reflect.StructField, n)
	for i := range fs {
		fs[i] = reflect.StructField{Name: fmt.Sprintf("F%06d", i+1), Type: reflect.TypeOf(int16(0)), Tag: reflect.StructTag(fmt.Sprintf(`json:"%06d"`, i+1))}
	}
	return reflect.StructOf(fs)
}

func named(name string) reflect.Type {
	return reflect.StructOf([]reflect.StructField{{Name: "F", Type: reflect.TypeOf(0), Tag: reflect.StructTag(`json:"` + name + `"`)}})
}

// replayWideField: members among and besides the fields of a struct (C12).
func replayWideField(g *gen, line []byte) string {
	w := wideOf(line)
	b := w.given()
	if !w.ok() {
		return ""
	}
	switch {
	case w.K == "objz":
		x := struct{ Y, Z, A int }{1, 2, 3}
		if err := jc.Unmarshal(b, &x); err != nil || x.Y != 1 || x.Z != 7 || x.A != 3 {
			return fmt.Sprintf("%v: %+v, %v", w, x, err)
		}
		if _, err := jc.Parse(b, &x, jc.DisallowUnknownFields); err == nil {
			return fmt.Sprintf("%v: unknown members accepted", w)
		}
	case w.K == "obj" && string(w.I[len(w.I)-1:]) == "1" && w.N <= 1000:
		x := reflect.New(wideStruct(w.N))
		if err := parseAll(b, x.Interface(), jc.DisallowUnknownFields); err != nil {
			return fmt.Sprintf("%v: into a struct: %v", w, err)
		}
		for i := 0; i < w.N; i++ {
			if x.Elem().Field(i).Int() != 1 {
				return fmt.Sprintf("%v: field %d is not set", w, i+1)
			}
		}
	case w.K == "key" && string(w.I) == "a":
		x := reflect.New(named(strings.Repeat("a", w.N)))
		if err := parseAll(b, x.Interface(), jc.DisallowUnknownFields); err != nil || x.Elem().Field(0).Int() != 1 {
			return fmt.Sprintf("%v: into a struct: %v", w, err)
		}
		y := reflect.New(named(strings.Repeat("A", w.N)))
		if err := parseAll(b, y.Interface(), jc.DisallowUnknownFields); err != nil || y.Elem().Field(0).Int() != 1 {
			return fmt.Sprintf("%v: into a struct with capitals: %v", w, err)
		}
		z := reflect.New(named(strings.Repeat("A", w.N)))
		if err := parseAll(b, z.Interface(), jc.DontMatchCaseInsensitiveStructFields); err != nil || z.Elem().Field(0).Int() != 0 {
			return fmt.Sprintf("%v: matched case-insensitively: %v", w, err)
		}
		for _, name := range []string{strings.Repeat("a", w.N-1) + "b", strings.Repeat("a", w.N+1)} {
			v := reflect.New(named(name))
			if err := jc.Unmarshal(b, v.Interface()); err != nil || v.Elem().Field(0).Int() != 0 {
				return fmt.Sprintf("%v: matched a different name: %v", w, err)
			}
		}
	}
	return ""
}

// replayWideEncode: the compact encoding of native values (C04, C05).
func replayWideEncode(g *gen, line []byte) string {
	w := wideOf(line)
	if !w.values() {
		return ""
	}
	v, _ := w.native()
	for _, html := range []bool{true, false} {
		c := cfg{sort: true, html: html}
		want := w.encoded(html)
		out, err := jc.Append(nil, v, c.flags(), nil, nil)
		if s := w.check("Append", out, err, want, true); s != "" {
			return s
		}
		// whatever the destination has room for
		dst := make([]byte, 3, g.picki(3, len(want)/2+3, len(want)+2, len(want)+3, len(want)+4))
		out, err = jc.Append(dst, v, c.flags(), nil, nil)
		if s := w.check("Append to a buffer", out[3:], err, want, true); s != "" {
			return s
		}
	}
	want := w.encoded(true)
	if t := w.typed(); t != nil {
		x := reflect.New(t)
		check(json.Unmarshal(w.given(), x.Interface()))
		for _, v := range []interface{}{x.Elem().Interface(), x.Interface()} {
			out, err := jc.Marshal(v)
			if s := w.check("Marshal of a typed value", out, err, want, true); s != "" {
				return s
			}
		}
		if w.K == "arr" {
			y := reflect.New(reflect.ArrayOf(w.N, t.Elem())).Elem()
			reflect.Copy(y, x.Elem())
			out, err := jc.Marshal(y.Interface())
			if s := w.check("Marshal of an array", out, err, want, true); s != "" {
				return s
			}
		}
	}
	switch {
	case w.K == "str" && string(w.I) == "QUJD":
		out, err := jc.Marshal([]byte(strings.Repeat("ABC", w.N)))
		if s := w.check("Marshal of bytes", out, err, want, true); s != "" {
			return s
		}
		for _, n := range []int{1, 2} { // with padding
			x := append([]byte(strings.Repeat("ABC", w.N)), "DE"[:n]...)
			out, err := jc.Marshal(x)
			if s := w.check("Marshal of bytes", out, err, []byte(`"`+base64.StdEncoding.EncodeToString(x)+`"`), true); s != "" {
				return s
			}
		}
	case w.K == "str":
		for _, v := range []interface{}{textOf(w.times(w.U[0].D)), []interface{}{v}, &v} {
			out, err := jc.Marshal(v)
			if _, ok := v.([]interface{}); ok {
				out = bytes.TrimSuffix(bytes.TrimPrefix(out, []byte("[")), []byte("]"))
			}
			if s := w.check(fmt.Sprintf("Marshal of a %T", v), out, err, want, true); s != "" {
				return s
			}
		}
	case w.K == "key" && string(w.I) == "a":
		x := reflect.New(named(strings.Repeat("a", w.N)))
		x.Elem().Field(0).SetInt(1)
		out, err := jc.Marshal(x.Interface())
		if s := w.check("Marshal of a struct", out, err, want, true); s != "" {
			return s
		}
	case w.K == "obj" && string(w.I[len(w.I)-1:]) == "1" && w.N <= 1000:
		x := reflect.New(wideStruct(w.N))
		for i := 0; i < w.N; i++ {
			x.Elem().Field(i).SetInt(1)
		}
		out, err := jc.Marshal(x.Interface())
		if s := w.check("Marshal of a struct", out, err, want, true); s != "" {
			return s
		}
	}
	return ""
}

type textOf string

func (t textOf) MarshalText() ([]byte, error) { return []byte(t), nil }

// replayWideEntry: all entry points (C08).
func replayWideEntry(g *gen, line []byte) string {
	w := wideOf(line)
	if !w.values() {
		return ""
	}
	v, _ := w.native()
	want := w.encoded(true)
	out, err := jc.Marshal(v)
	if s := w.check("Marshal", out, err, want, true); s != "" {
		return s
	}
	var buf bytes.Buffer
	err = jc.NewEncoder(&buf).Encode(v)
	if s := w.check("Encode", buf.Bytes(), err, append(append([]byte(nil), want...), '\n'), true); s != "" {
		return s
	}
	l := towerLays[g.Intn(len(towerLays))]
	enc := *w
	if len(w.U) > 0 {
		enc.I = w.U[0].H
	}
	if w.laysOut() {
		out, err = jc.MarshalIndent(v, l[0], l[1])
		if s := w.check("MarshalIndent", out, err, enc.text(wideLay{true, true, l[0], l[1]}), true); s != "" {
			return s
		}
	}
	pre := append(make([]byte, 0, g.picki(3, 10, 4096, 5000, len(want)+3)), "abc"...)
	out2, err := jc.Append(pre, v, jc.EscapeHTML|jc.SortMapKeys, nil, nil)
	if string(pre) != "abc" || !bytes.HasPrefix(out2, pre) {
		return fmt.Sprintf("%v: Append changed its destination", w)
	}
	return w.check("Append", out2[3:], err, want, true)
}

// laysOut: the pattern has a layout ([] in between of white space has not).
func (w *wide) laysOut() bool { return !(w.K == "gap" && string(w.C) == "]") }

// replayWideLayout: the indented encoding (C03).
func replayWideLayout(g *gen, line []byte) string {
	w := wideOf(line)
	if !w.ok() || !w.laysOut() {
		return ""
	}
	l := towerLays[g.Intn(len(towerLays))]
	in := jc.NewIndenter(l[0], l[1])
	lay := wideLay{true, true, l[0], l[1]}
	raw := jc.RawMessage(w.given())
	for what, x := range map[string]interface{}{"raw message": raw, "marshaler": MJ{Out: raw}} {
		out, err := jc.Append(nil, x, jc.SortMapKeys, nil, in)
		if s := w.check("indented "+what, out, err, w.text(lay), true); s != "" {
			return s
		}
	}
	v, ok := w.native()
	if !ok || !w.values() {
		return ""
	}
	enc := *w
	if len(w.U) > 0 {
		enc.I = w.U[0].P
	}
	out, err := jc.Append(nil, v, jc.SortMapKeys, nil, in)
	if s := w.check("indented value", out, err, enc.text(lay), true); s != "" {
		return s
	}
	if t := w.typed(); t != nil {
		x := reflect.New(t)
		check(json.Unmarshal(w.given(), x.Interface()))
		out, err := jc.Append(nil, x.Interface(), jc.SortMapKeys, nil, in)
		return w.check("indented typed value", out, err, enc.text(lay), true)
	}
	return ""
}

// replayWideRaw: raw JSON passes through (C06).
func replayWideRaw(g *gen, line []byte) string {
	w := wideOf(line)
	b := w.given()
	for what, x := range map[string]interface{}{"raw message": jc.RawMessage(b), "marshaler": MJ{Out: b}} {
		out, err := jc.Append(nil, x, 0, nil, nil)
		if s := w.check(what, out, err, w.bare(), w.Doc); s != "" {
			return s
		}
		out, err = jc.Append(nil, x, jc.EscapeHTML, nil, nil)
		if s := w.check("escaped "+what, out, err, w.escaped(), w.Doc); s != "" {
			return s
		}
		if w.Doc {
			out, err = jc.Append(nil, x, jc.TrustRawMessage, nil, nil)
			if s := w.check("trusted "+what, out, err, w.bare(), true); s != "" {
				return s
			}
		}
	}
	return ""
}

// replayWideStrip: colour adds escape sequences, the right one per token (C01, C02).
func replayWideStrip(g *gen, line []byte) string {
	w := wideOf(line)
	if !w.ok() {
		return ""
	}
	toks := w.tokens()
	vals := map[string]interface{}{"raw message": jc.RawMessage(w.given())}
	if v, ok := w.native(); ok && w.values() {
		vals["value"] = v
	}
	for what, x := range vals {
		out, err := jc.Append(nil, x, jc.SortMapKeys, colFull, nil)
		if err != nil {
			return fmt.Sprintf("%v: coloured %s: %v", w, what, err)
		}
		want := w.bare()
		if what == "value" {
			want = w.encoded(false)
		}
		if len(toks) > 0 {
			var c []byte
			for _, k := range toks {
				c = append(append(append(c, colourOf(k.v, k.key)...), k.v...), "\x1b[0m"...)
			}
			if s := w.check("coloured "+what, out, nil, c, true); s != "" {
				return s
			}
		} else if s := w.check("stripped "+what, markRE.ReplaceAll(out, nil), nil, want, true); s != "" {
			return s
		}
	}
	return ""
}

func replayWideTokens(g *gen, line []byte) string {
	w := wideOf(line)
	b := w.given()
	k := jc.NewTokenizer(b)
	if !w.ok() {
		return "" // the enumerated texts decide which faults a tokenizer has to see
	}
	toks := w.tokens()
	if len(toks) == 0 {
		// the texts of the tokens, in order
		var out []byte
		n := 0
		for k.Next() {
			out = append(out, k.Value...)
			n++
			if k.Delim == 0 && k.Value.String() && len(w.U) > 0 {
				if got := string(k.Value.Unquote()); got != w.times(w.U[0].D) {
					return fmt.Sprintf("%v: string value %.60q", w, got)
				}
			}
		}
		if k.Err != nil {
			return fmt.Sprintf("%v: %v", w, k.Err)
		}
		return w.check("tokens", out, nil, w.bare(), true)
	}
	for i, t := range toks {
		if !k.Next() {
			return fmt.Sprintf("%v: no token %d (%v)", w, i, k.Err)
		}
		if string(k.Value) != t.v || k.Depth != t.in || k.Index != t.ix || k.IsKey != t.key {
			return fmt.Sprintf("%v: token %d: %q depth %d index %d key %v, not %+v", w, i, k.Value, k.Depth, k.Index, k.IsKey, t)
		}
	}
	if k.Next() || k.Err != nil || !zeroTok(k) {
		return fmt.Sprintf("%v: at the end: %v", w, k.Err)
	}
	return ""
}

// replayWideStream: the document between two values on a stream, in pieces (C13).
func replayWideStream(g *gen, line []byte) string {
	w := wideOf(line)
	if !w.ok() {
		return ""
	}
	b := w.given()
	var before []byte
	for len(before) < g.picki(0, 0, 100, 32768-2, 40000) {
		before = append(before, "17 "...)
	}
	data := append(append(append([]byte(nil), before...), b...), " 8\n "...)
	size := g.picki(1000, 4095, 4096, 32767, 32768, 32769, 1<<20)
	var cuts []int
	for n := 0; n < len(data); n += size {
		cuts = append(cuts, size)
	}
	dec := jc.NewDecoder(&cutReader{data: data, sizes: cuts, end: io.EOF, with: g.p(50)})
	var raw jc.RawMessage
	for n := 0; n < len(before); n += 3 {
		if err := dec.Decode(&raw); err != nil || string(raw) != "17" {
			return fmt.Sprintf("%v: value before it on a stream: %q, %v", w, raw, err)
		}
	}
	body := bytes.TrimLeft(b, " ")
	v, ok := w.native()
	if ok && g.p(50) {
		var x interface{}
		err := dec.Decode(&x)
		if err != nil || !reflect.DeepEqual(x, v) {
			return fmt.Sprintf("%v: on a stream: %.60q, %v", w, fmt.Sprint(x), err)
		}
	} else if err := dec.Decode(&raw); err != nil || !bytes.Equal(raw, body) {
		return fmt.Sprintf("%v: on a stream: %.60q, %v", w, raw, err)
	}
	if o := int(dec.InputOffset()); o < len(before)+len(b) || o > len(before)+len(b)+1 {
		return fmt.Sprintf("%v: offset %d, not %d", w, o, len(before)+len(b))
	}
	if err := dec.Decode(&raw); err != nil || string(raw) != "8" {
		return fmt.Sprintf("%v: value after it on a stream: %q, %v", w, raw, err)
	}
	if err := dec.Decode(&raw); !errors.Is(err, io.EOF) {
		return fmt.Sprintf("%v: end of the stream: %v", w, err)
	}
	return ""
}

// replayWideParse: the remainder after it (C14).
func replayWideParse(g *gen, line []byte) string {
	w := wideOf(line)
	if !w.ok() {
		return ""
	}
	b := w.given()
	rest := g.pick("", "7", "]", "}", `{"a":`, ",")
	data := append(append(append([]byte(" \n"), b...), g.pick(" ", "\t ", "\n")...), rest...)
	dsts := []interface{}{new(jc.RawMessage), new(interface{})}
	if w.K == "num" {
		dsts = dsts[:1]
	}
	for _, d := range dsts {
		fl := g.parseFlags()
		r, err := jc.Parse(data, d, fl)
		if err != nil || string(r) != rest {
			return fmt.Sprintf("%v: Parse into %T leaves %.40q, not %q (%v)", w, d, r, rest, err)
		}
		if raw, ok := d.(*jc.RawMessage); ok && !bytes.Equal(*raw, bytes.TrimLeft(b, " ")) {
			return fmt.Sprintf("%v: Parse of the raw message: %.60q", w, *raw)
		}
		if fl&jc.UseNumber == 0 && w.K != "num" {
			if x, ok := d.(*interface{}); ok {
				if s := w.same("Parse", *x, nil); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

// replayWideKept: what was decoded does not share the input (C15).
func replayWideKept(g *gen, line []byte) string {
	w := wideOf(line)
	if !w.ok() || w.K == "num" {
		return ""
	}
	b := w.given()
	var x interface{}
	var raw jc.RawMessage
	err := jc.Unmarshal(b, &x)
	if err == nil {
		err = jc.Unmarshal(b, &raw)
	}
	if !bytes.Equal(b, w.given()) {
		return fmt.Sprintf("%v: input changed", w)
	}
	for i := range b {
		b[i] = 'Z'
	}
	if err == nil && !bytes.Equal(raw, bytes.TrimLeft(w.given(), " ")) {
		return fmt.Sprintf("%v: the raw message follows the input", w)
	}
	return w.same("after the input was overwritten", x, err)
}

// replayWideRound: encoding and decoding again (C17).
func replayWideRound(g *gen, line []byte) string {
	w := wideOf(line)
	if !w.values() {
		return ""
	}
	v, _ := w.native()
	c := cfg{sort: g.p(50), html: g.p(50)}
	out, err := jc.Append(nil, v, c.flags(), nil, jc.NewIndenter(g.pick("", " "), g.pick("", "\t")))
	if err != nil {
		return fmt.Sprintf("%v: %v", w, err)
	}
	var x interface{}
	err = jc.Unmarshal(out, &x)
	if s := w.same("decoding its encoding", x, err); s != "" {
		return s
	}
	if t := w.typed(); t != nil {
		y, z := reflect.New(t), reflect.New(t)
		check(json.Unmarshal(w.given(), y.Interface()))
		out, err := jc.Marshal(y.Interface())
		if err == nil {
			err = jc.Unmarshal(out, z.Interface())
		}
		if err != nil || !reflect.DeepEqual(y.Interface(), z.Interface()) {
			return fmt.Sprintf("%v: round trip of a %v: %v", w, t, err)
		}
	}
	return ""
}

// replayWideText: Compact, Indent and HTMLEscape (C22).
func replayWideText(g *gen, line []byte) string {
	w := wideOf(line)
	b := w.given()
	buf := bytes.NewBufferString("old")
	err := jc.Compact(buf, b)
	if s := w.check("Compact", buf.Bytes()[3:], err, w.bare(), w.Doc); s != "" {
		return s
	}
	l := towerLays[g.Intn(len(towerLays))]
	buf.Truncate(3)
	err = jc.Indent(buf, b, l[0], l[1])
	if w.laysOut() || !w.Doc {
		if s := w.check("Indent", buf.Bytes()[3:], err, w.text(wideLay{true, true, l[0], l[1]}), w.Doc); s != "" {
			return s
		}
	}
	if w.ok() {
		buf.Truncate(3)
		jc.HTMLEscape(buf, w.bare())
		if s := w.check("HTMLEscape", buf.Bytes()[3:], nil, w.escaped(), true); s != "" {
			return s
		}
	}
	if !bytes.HasPrefix(buf.Bytes(), []byte("old")) {
		return fmt.Sprintf("%v: the buffer's contents changed", w)
	}
	return ""
}

// replayWideWhy: the error names the member that does not suit (C23).
func replayWideWhy(g *gen, line []byte) string {
	w := wideOf(line)
	if w.K != "arr" && w.K != "obj" && w.K != "objz" {
		return ""
	}
	b := w.given()
	var e *jc.SyntaxError
	var u *jc.UnmarshalTypeError
	if !w.Doc {
		if err := jc.Unmarshal(b, new(interface{})); !errors.As(err, &e) {
			return fmt.Sprintf("%v: %v, not a SyntaxError", w, err)
		}
		return ""
	}
	// the last member is of another type
	at := w.N - 1
	if w.K == "objz" {
		b = bytes.Replace(b, []byte(`"z":7`), []byte(`"z":"bad"`), 1)
		x := struct{ Z int }{}
		if err := jc.Unmarshal(b, &x); !errors.As(err, &u) || errors.As(err, &e) || strings.Trim(u.Field, ".") != "z" {
			return fmt.Sprintf("%v, but the last: %v", w, err)
		}
		return ""
	}
	x := *w
	x.C = append(append(append(B(nil), w.S...), `{"no":7}`...), w.C...)
	field := fmt.Sprint(at + 1)
	if w.K == "obj" {
		x.C = append(append(append(B(nil), w.S...), `"zz":{"no":7}`...), w.C...)
		field = "zz"
	}
	t := w.typed()
	switch t.Elem().Kind() {
	case reflect.Map:
		return ""
	case reflect.Pointer: // null suits all
	}
	err := jc.Unmarshal(x.given(), reflect.New(t).Interface())
	if !errors.As(err, &u) || errors.As(err, &e) || strings.Trim(u.Field, ".") != field {
		return fmt.Sprintf("%v, but the last: %#v", w, err)
	}
	return ""
}

// replayWideTool: the command on it (C20).
func replayWideTool(g *gen, line []byte) string {
	w := wideOf(line)
	switch w.N {
	case 1, 33, 4096, 4097, 32768, 65536, 99999:
	default:
		return ""
	}
	if w.K == "num" && w.N > 10 {
		return ""
	}
	d, clean := scratchDir()
	defer clean()
	t := toolRun{dir: d, env: envList("(unset)", "(unset)", "(unset)")}
	t.args = append(flagArg(g, "p", g.pick("", "true", "false")), flagArg(g, "c", g.pick("", "false"))...)
	in := w.given()
	t.source(g.pick("stdinpipe", "stdinfile", "iflag"), in)
	t.target("pipe", nil, false)
	r := t.run()
	what := fmt.Sprintf("jc %q, %v: ", t.args, w)
	if !w.Doc {
		if r.rc == 0 || r.crashed() || !r.message() || len(r.out) != 0 {
			return fmt.Sprintf("%sexit code %d, %d bytes of output, stderr %.200q", what, r.rc, len(r.out), r.stderr)
		}
		return ""
	}
	var x, y interface{}
	check(json.Unmarshal(in, &x))
	if err := json.Unmarshal(r.out, &y); err != nil || r.rc != 0 || !reflect.DeepEqual(x, y) {
		return fmt.Sprintf("%sexit code %d, %d bytes of output, %v, stderr %.200q", what, r.rc, len(r.out), err, r.stderr)
	}
	return ""
}
