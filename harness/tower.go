package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

// towerTok is a token of one level: text, 1 if inside the level, position (-1:
// that of the level itself in its parent), whether it is a key.
type towerTok struct {
	v      string
	in, ix int
	key    bool
}

func (t *towerTok) UnmarshalJSON(b []byte) error {
	var v B
	if err := json.Unmarshal(b, &[]interface{}{&v, &t.in, &t.ix, &t.key}); err != nil {
		return err
	}
	t.v = string(v)
	return nil
}

// tower is a case of Tower.tla.
type tower struct {
	Ls []struct {
		L      string
		O, C   B
		Ot, Ct []towerTok
		In     int
	}
	N        int
	Core     B
	Fault    string
	Doc      bool
	Deep     int
	Accepted bool
}

func towerOf(line []byte) (t tower) {
	check(json.Unmarshal(line, &t))
	return t
}

func (t *tower) String() string {
	w := ""
	for _, l := range t.Ls {
		w += l.L
	}
	return fmt.Sprintf("tower %q, %d levels around %s, %s", w, t.N, t.Core, t.Fault)
}

func (t *tower) letter() string {
	if len(t.Ls) == 1 {
		return t.Ls[0].L
	}
	return ""
}

// text writes the tower out as Tower.tla does (TextOf).
func (t *tower) text(on bool, pre, in string) []byte {
	var b []byte
	level := func(s B, i int) {
		for _, c := range s {
			switch {
			case c > 3:
				b = append(b, c)
			case !on:
			case c == 3:
				b = append(b, ' ')
			default:
				b = append(b, '\n')
				b = append(b, pre...)
				for k := i + 2 - int(c); k > 0; k-- {
					b = append(b, in...)
				}
			}
		}
	}
	for i := 0; i < t.N; i++ {
		level(t.Ls[i%len(t.Ls)].O, i)
	}
	if t.Fault == "open" {
		return b
	}
	if t.Fault != "nocore" {
		b = append(b, t.Core...)
	}
	for i := t.N - 1; i >= 0; i-- {
		level(t.Ls[i%len(t.Ls)].C, i)
	}
	last := b[len(b)-1]
	switch t.Fault {
	case "short":
		b = b[:len(b)-1]
	case "long":
		b = append(b, last)
	case "other":
		b[len(b)-1] = ']' + '}' - last
	}
	return b
}

func (t *tower) flat() []byte { return t.text(false, "", "") }

// native builds the value; num is how numbers are represented.
func (t *tower) native(num func(int) interface{}) interface{} {
	var x interface{}
	switch string(t.Core) {
	case "0":
		x = num(0)
	case `"s"`:
		x = "s"
	case "[]":
		x = []interface{}{}
	case "{}":
		x = map[string]interface{}{}
	}
	for i := t.N - 1; i >= 0; i-- {
		switch t.Ls[i%len(t.Ls)].L {
		case "a":
			x = []interface{}{x}
		case "o":
			x = map[string]interface{}{"k": x}
		case "s":
			x = []interface{}{num(0), x}
		case "t":
			x = []interface{}{x, num(0)}
		case "m":
			x = map[string]interface{}{"a": num(1), "k": x}
		}
	}
	return x
}

func asInt(i int) interface{}   { return i }
func asFloat(i int) interface{} { return float64(i) }

// slow: decoding into interfaces takes time quadratic in the depth.
func (t *tower) slow() bool { return t.N > 2500 && t.Accepted && (t.letter() != "a" || t.N < 10000) }

var markRE = regexp.MustCompile("\x1b\\[(9.|0)m")

type towerSlice []towerSlice
type towerMap map[string]towerMap
type towerStruct struct {
	K *towerStruct `json:"k"`
}
type towerArr [1]*towerArr
type towerNamed map[string]*towerNamed
type towerPair struct {
	A int        `json:"a"`
	K *towerPair `json:"K"`
}

// heights of typed values
func (x towerSlice) height() (n int) {
	for ; len(x) == 1; x = x[0] {
		n++
	}
	return n
}
func (x towerMap) height() (n int) {
	for ; len(x) == 1; x = x["k"] {
		n++
	}
	return n
}

func replayTowerAccept(g *gen, line []byte) string {
	t := towerOf(line)
	b := t.flat()
	keep := append([]byte(nil), b...)
	if jc.Valid(b) != t.Accepted {
		return fmt.Sprintf("%v: Valid is %v", &t, !t.Accepted)
	}
	var raw jc.RawMessage
	tries := map[string]func() error{
		"RawMessage":       func() error { return jc.Unmarshal(b, &raw) },
		"Parse RawMessage": func() error { return parseAll(b, &raw, jc.ZeroCopy) },
	}
	if !t.slow() {
		tries["interface"] = func() error { return jc.Unmarshal(b, new(interface{})) }
		tries["Parse interface"] = func() error { return parseAll(b, new(interface{}), jc.UseNumber) }
	}
	if t.N < 2500 || t.N > 10000 { // types whose elements are interfaces again
		switch t.Ls[0].L {
		case "a", "s", "t":
			tries["[]interface{}"] = func() error { return jc.Unmarshal(b, new([]interface{})) }
		default:
			tries["map[string]interface{}"] = func() error { return jc.Unmarshal(b, new(map[string]interface{})) }
			tries["struct"] = func() error { return jc.Unmarshal(b, &struct{ K interface{} }{}) }
		}
	}
	switch t.Ls[0].L { // members and elements that are skipped
	case "a", "s", "t":
		tries["[0]int"] = func() error { return jc.Unmarshal(b, new([0]int)) }
		tries["[]RawMessage"] = func() error { return jc.Unmarshal(b, new([]jc.RawMessage)) }
	default:
		tries["struct{}"] = func() error { return jc.Unmarshal(b, new(struct{})) }
		tries["map of RawMessage"] = func() error { return jc.Unmarshal(b, new(map[string]jc.RawMessage)) }
	}
	if string(t.Core) == "null" || t.Fault != "none" && t.N < 2500 || t.N > 100000 {
		switch t.letter() {
		case "a":
			tries["towerSlice"] = func() error { return jc.Unmarshal(b, new(towerSlice)) }
			if t.N < 10001 {
				tries["towerArr"] = func() error { return jc.Unmarshal(b, new(towerArr)) }
			}
		case "o":
			tries["towerMap"] = func() error { return jc.Unmarshal(b, new(towerMap)) }
			tries["towerStruct"] = func() error { return jc.Unmarshal(b, new(towerStruct)) }
			if t.N < 10001 {
				tries["towerNamed"] = func() error { return jc.Unmarshal(b, new(towerNamed)) }
			}
		case "m":
			tries["towerPair"] = func() error { return jc.Unmarshal(b, new(towerPair)) }
		}
	}
	for what, f := range tries {
		if err := f(); (err == nil) != t.Accepted {
			return fmt.Sprintf("%v into %s: %v", &t, what, err)
		}
	}
	if !bytes.Equal(b, keep) {
		return fmt.Sprintf("%v: input changed", &t)
	}
	return ""
}

// walk follows a decoded value down the tower (C10).
func (t *tower) walk(x interface{}) string {
	for i := 0; i < t.N; i++ {
		l := t.Ls[i%len(t.Ls)].L
		a, _ := x.([]interface{})
		m, _ := x.(map[string]interface{})
		switch {
		case l == "a" && len(a) == 1, l == "t" && len(a) == 2 && a[1] == 0.0:
			x = a[0]
		case l == "s" && len(a) == 2 && a[0] == 0.0:
			x = a[1]
		case l == "o" && len(m) == 1, l == "m" && len(m) == 2 && m["a"] == 1.0:
			x = m["k"]
		default:
			return fmt.Sprintf("%v: level %d is a %T of %d", t, i, x, len(a)+len(m))
		}
	}
	u := *t
	u.N = 0
	if want := u.native(asFloat); !reflect.DeepEqual(x, want) {
		return fmt.Sprintf("%v: the core is %#v", t, x)
	}
	return ""
}

func replayTowerUntyped(g *gen, line []byte) string {
	t := towerOf(line)
	if t.slow() || t.Fault != "none" || t.N > 100000 {
		return ""
	}
	b := t.flat()
	var x interface{}
	err := jc.Unmarshal(b, &x)
	if (err == nil) != t.Accepted {
		return fmt.Sprintf("%v: %v", &t, err)
	}
	if err != nil {
		return ""
	}
	return t.walk(x)
}

func replayTowerTyped(g *gen, line []byte) string {
	t := towerOf(line)
	if t.Fault != "none" || t.N > 100000 {
		return ""
	}
	b := t.flat()
	var n int
	var err error
	empty := 0 // levels of the core that the type shares
	switch c := string(t.Core); {
	case t.letter() == "a" && (c == "null" || c == "[]"):
		var x towerSlice
		err = jc.Unmarshal(b, &x)
		n = x.height()
		var y towerArr
		if err2 := jc.Unmarshal(b, &y); (err2 == nil) != t.Accepted {
			return fmt.Sprintf("%v: into arrays: %v", &t, err2)
		}
		if err == nil {
			k := 1
			for p := y[0]; p != nil; p = p[0] {
				k++
			}
			if c == "[]" {
				k--
			}
			if k != t.N {
				return fmt.Sprintf("%v: %d levels of arrays", &t, k)
			}
		}
	case t.letter() == "o" && (c == "null" || c == "{}"):
		var x towerMap
		err = jc.Unmarshal(b, &x)
		n = x.height()
		var y towerStruct
		if err2 := jc.Unmarshal(b, &y); (err2 == nil) != t.Accepted {
			return fmt.Sprintf("%v: into structs: %v", &t, err2)
		}
		if err == nil {
			k := 1
			for p := y.K; p != nil; p = p.K {
				k++
			}
			if c == "{}" {
				k--
			}
			if k != t.N {
				return fmt.Sprintf("%v: %d levels of structs", &t, k)
			}
		}
	default:
		return ""
	}
	if (err == nil) != t.Accepted {
		return fmt.Sprintf("%v: %v", &t, err)
	}
	if err == nil && n != t.N+empty {
		return fmt.Sprintf("%v: %d levels decoded", &t, n)
	}
	return ""
}

var towerLays = [][2]string{{">", ".\t"}, {"", " "}, {"-", ""}}

func (t *tower) check(what string, got []byte, err error, want []byte, ok bool) string {
	return differ(t, what, got, err, want, ok)
}

func differ(t fmt.Stringer, what string, got []byte, err error, want []byte, ok bool) string {
	if (err == nil) != ok || !ok && len(got) != 0 {
		return fmt.Sprintf("%v: %s: %d bytes, %v", t, what, len(got), err)
	}
	if ok && !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		return fmt.Sprintf("%v: %s differs at byte %d: %.60q not %.60q", t, what, i, got[i:], want[i:])
	}
	return ""
}

// replayTowerEncode: the compact encoding of native values (C05).
func replayTowerEncode(g *gen, line []byte) string {
	t := towerOf(line)
	if t.Fault != "none" || t.N > 100000 {
		return ""
	}
	want := t.flat()
	v := t.native(asInt)
	out, err := jc.Append(nil, v, jc.SortMapKeys, nil, nil)
	if w := t.check("Append", out, err, want, true); w != "" {
		return w
	}
	var buf bytes.Buffer
	err = jc.NewEncoder(&buf).Encode(v)
	return t.check("Encode", buf.Bytes(), err, append(want, '\n'), true)
}

// replayTowerLayout: the indented encoding of native values and raw messages (C03).
func replayTowerLayout(g *gen, line []byte) string {
	t := towerOf(line)
	if t.Fault != "none" || t.N > 1100 {
		return ""
	}
	v := t.native(asInt)
	raw := jc.RawMessage(t.flat())
	for _, l := range towerLays {
		want := t.text(true, l[0], l[1])
		in := jc.NewIndenter(l[0], l[1])
		for what, x := range map[string]interface{}{"value": v, "raw message": raw, "marshaler": MJ{Out: raw}} {
			out, err := jc.Append(nil, x, jc.SortMapKeys, nil, in)
			if w := t.check("indented "+what, out, err, want, true); w != "" {
				return w
			}
		}
		if t.letter() == "o" && string(t.Core) == "{}" { // structs
			var x interface{} = struct{}{}
			for i := 0; i < t.N; i++ {
				x = &struct {
					K interface{} `json:"k"`
				}{x}
			}
			out, err := jc.Append(nil, x, 0, nil, in)
			if w := t.check("indented structs", out, err, want, true); w != "" {
				return w
			}
		}
	}
	return ""
}

// replayTowerRaw: raw JSON passes through (C06).
func replayTowerRaw(g *gen, line []byte) string {
	t := towerOf(line)
	b := t.flat()
	for what, x := range map[string]interface{}{"raw message": jc.RawMessage(b), "marshaler": MJ{Out: b}} {
		out, err := jc.Append(nil, x, 0, nil, nil)
		if w := t.check(what, out, err, b, t.Accepted); w != "" {
			return w
		}
		if t.Accepted {
			out, err = jc.Append(nil, x, jc.TrustRawMessage, nil, nil)
			if w := t.check("trusted "+what, out, err, b, true); w != "" {
				return w
			}
		}
	}
	return ""
}

// replayTowerStrip: colour only adds escape sequences (C01), one per token (C02).
func replayTowerStrip(g *gen, line []byte) string {
	t := towerOf(line)
	if t.Fault != "none" || t.N > 100000 {
		return ""
	}
	want := t.flat()
	reset := []byte("\x1b[0m")
	toks := t.tokens()
	for what, x := range map[string]interface{}{"value": t.native(asInt), "raw message": jc.RawMessage(want)} {
		if what == "raw message" && !t.Accepted {
			continue
		}
		out, err := jc.Append(nil, x, jc.SortMapKeys, colFull, nil)
		if err != nil {
			return fmt.Sprintf("%v: coloured %s: %v", &t, what, err)
		}
		for i, k := range toks {
			c := colourOf(k.v, k.key)
			w := string(c) + k.v + string(reset)
			if !bytes.HasPrefix(out, []byte(w)) {
				return fmt.Sprintf("%v: token %d of the coloured %s: %.60q, not %q", &t, i, what, out, w)
			}
			out = out[len(w):]
		}
		if len(out) != 0 {
			return fmt.Sprintf("%v: coloured %s: %.60q at the end", &t, what, out)
		}
	}
	return ""
}

func colourOf(v string, key bool) jc.Color {
	c := colFull
	switch {
	case key:
		return c.Key
	case v[0] == '"':
		return c.String
	case v == "null":
		return c.Null
	case v == "true" || v == "false":
		return c.Bool
	case v[0] == '-' || v[0] >= '0' && v[0] <= '9':
		return c.Number
	}
	for _, p := range []struct {
		s string
		c jc.Color
	}{{"[]", c.Brackets}, {"{}", c.Braces}, {",", c.Comma}, {":", c.Colon}} {
		if strings.Contains(p.s, v) && len(p.c) > 0 {
			return p.c
		}
	}
	return c.Punc
}

// tokens writes out the tokens as Tower.tla does (TowerToks): in is the depth.
func (t *tower) tokens() (out []towerTok) {
	pos := func(i int) int {
		if i == 0 {
			return 0
		}
		return t.Ls[(i-1)%len(t.Ls)].In
	}
	add := func(ts []towerTok, i int) {
		for _, k := range ts {
			k.in += i
			if k.ix < 0 {
				k.ix = pos(i)
			}
			out = append(out, k)
		}
	}
	for i := 0; i < t.N; i++ {
		add(t.Ls[i%len(t.Ls)].Ot, i)
	}
	if c := string(t.Core); c == "[]" || c == "{}" {
		out = append(out, towerTok{c[:1], t.N, pos(t.N), false}, towerTok{c[1:], t.N, pos(t.N), false})
	} else {
		out = append(out, towerTok{c, t.N, pos(t.N), false})
	}
	for i := t.N - 1; i >= 0; i-- {
		add(t.Ls[i%len(t.Ls)].Ct, i)
	}
	return out
}

func replayTowerTokens(g *gen, line []byte) string {
	t := towerOf(line)
	if t.N > 100000 {
		return ""
	}
	k := jc.NewTokenizer(t.flat())
	if t.Fault != "none" {
		for k.Next() {
			continue
		}
		if t.Fault != "long" && t.Fault != "other" {
			return "" // texts that end too early are the parser's business
		}
		if k.Err == nil || k.Next() {
			return fmt.Sprintf("%v: tokenized without error", &t)
		}
		return ""
	}
	toks := t.tokens()
	for i, w := range toks {
		if !k.Next() {
			return fmt.Sprintf("%v: no token %d (%v)", &t, i, k.Err)
		}
		if string(k.Value) != w.v || k.Depth != w.in || k.Index != w.ix || k.IsKey != w.key {
			return fmt.Sprintf("%v: token %d: %q depth %d index %d key %v, not %+v", &t, i, k.Value, k.Depth, k.Index, k.IsKey, w)
		}
	}
	if k.Next() || k.Err != nil || !zeroTok(k) {
		return fmt.Sprintf("%v: at the end: %v", &t, k.Err)
	}
	return ""
}

// replayTowerStream: a tower between two values on a stream (C13).
func replayTowerStream(g *gen, line []byte) string {
	t := towerOf(line)
	b := t.flat()
	data := append(append([]byte("7 "), b...), " 8"...)
	size := g.picki(1, 100, 4095, 4096, 32767, 32768, 1<<20)
	if len(data) > 200000 && size < 4000 {
		size = 32768
	}
	var cuts []int
	for n := 0; n < len(data); n += size {
		cuts = append(cuts, size)
	}
	rd := &cutReader{data: data, sizes: cuts, end: io.EOF}
	dec := jc.NewDecoder(rd)
	var raw jc.RawMessage
	if err := dec.Decode(&raw); err != nil || string(raw) != "7" {
		return fmt.Sprintf("%v: value before it on a stream: %q, %v", &t, raw, err)
	}
	off := int(dec.InputOffset())
	err := dec.Decode(&raw)
	if !t.Accepted {
		// "long" is a value followed by a closer, "nocore" of "a" a document
		if t.Fault == "long" && t.Deep <= 10000 {
			if err != nil || !bytes.Equal(raw, b[:len(b)-1]) {
				return fmt.Sprintf("%v: on a stream: %v", &t, err)
			}
			err = dec.Decode(&raw)
		}
		if err == nil || errors.Is(err, io.EOF) {
			return fmt.Sprintf("%v: accepted on a stream (%v)", &t, err)
		}
		return ""
	}
	if err != nil || !bytes.Equal(raw, b) {
		return fmt.Sprintf("%v: on a stream: %v", &t, err)
	}
	if o := int(dec.InputOffset()); o < off+len(b) || o > len(data) {
		return fmt.Sprintf("%v: offset %d after %d", &t, o, off)
	}
	if err := dec.Decode(&raw); err != nil || string(raw) != "8" {
		return fmt.Sprintf("%v: value after it on a stream: %q, %v", &t, raw, err)
	}
	if err := dec.Decode(&raw); !errors.Is(err, io.EOF) {
		return fmt.Sprintf("%v: end of the stream: %v", &t, err)
	}
	return ""
}

// replayTowerParse: the remainder after a tower (C14).
func replayTowerParse(g *gen, line []byte) string {
	t := towerOf(line)
	if !t.Accepted {
		return ""
	}
	b := t.flat()
	rest := g.pick("", "7", "]", "}", `{"a":`, ",")
	data := append(append(append([]byte(" \n"), b...), "\t "...), rest...)
	var raw jc.RawMessage
	dsts := []interface{}{&raw, new(struct{ B int })}
	if !t.slow() {
		dsts = append(dsts, new(interface{}))
	}
	for _, d := range dsts {
		r, err := jc.Parse(data, d, g.parseFlags())
		var ute *jc.UnmarshalTypeError
		if err != nil && !errors.As(err, &ute) && !strings.Contains(err.Error(), "unknown field") {
			return fmt.Sprintf("%v: Parse into %T: %v", &t, d, err)
		}
		if err == nil && string(r) != rest {
			return fmt.Sprintf("%v: Parse into %T leaves %.40q, not %q", &t, d, r, rest)
		}
	}
	if !bytes.Equal(raw, b) {
		return fmt.Sprintf("%v: Parse of the raw message: %.60q", &t, raw)
	}
	return ""
}

func (g *gen) parseFlags() jc.ParseFlags {
	return jc.ParseFlags(g.Intn(64))
}

// replayTowerRound: encoding and decoding again (C17).
func replayTowerRound(g *gen, line []byte) string {
	t := towerOf(line)
	if t.Fault != "none" || t.N > 1100 {
		return ""
	}
	v := t.native(asFloat)
	for _, col := range []*jc.Colors{nil, colFull} {
		out, err := jc.Append(nil, v, jc.SortMapKeys, col, jc.NewIndenter(g.pick("", " "), g.pick("", "\t")))
		if err != nil {
			return fmt.Sprintf("%v: %v", &t, err)
		}
		if col != nil {
			out = markRE.ReplaceAll(out, nil)
		}
		var x interface{}
		if err := jc.Unmarshal(out, &x); err != nil {
			return fmt.Sprintf("%v: decoding its encoding: %v", &t, err)
		}
		if w := t.walk(x); w != "" {
			return w
		}
	}
	return ""
}

// replayTowerText: Compact and Indent (C22).
func replayTowerText(g *gen, line []byte) string {
	t := towerOf(line)
	if t.N > 1100 && t.N < 9000 || t.N > 100000 {
		return ""
	}
	b := t.flat()
	lay := towerLays[g.Intn(len(towerLays))]
	spread := b
	if t.Fault == "none" && t.N < 2000 {
		spread = t.text(true, " ", "\t")
	}
	var buf bytes.Buffer
	err := jc.Compact(&buf, spread)
	if w := t.check("Compact", buf.Bytes(), err, b, t.Accepted); w != "" {
		return w
	}
	if t.N > 2000 {
		return ""
	}
	buf.Reset()
	err = jc.Indent(&buf, b, lay[0], lay[1])
	want := b
	if t.Fault == "none" {
		want = t.text(true, lay[0], lay[1])
	}
	if t.Fault == "nocore" && t.Doc {
		return ""
	}
	return t.check("Indent", buf.Bytes(), err, want, t.Accepted)
}
