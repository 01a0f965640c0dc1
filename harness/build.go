package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"

	jc "github.com/neilotoole/jsoncolor"
)

// Types and contents as the specification has them (see Universe.tla), and
// the Go types and variables they stand for.
type (
	tdesc struct {
		T      string
		Lo, Hi B
		Uns    bool
		E, K   *tdesc
		N      int
		F      []fdesc
		In     []tdesc
	}
	fdesc struct {
		G, Tag     B
		An, Ex, Es bool
		Ty         tdesc
	}
	wdesc struct {
		T   string
		Tf  bool
		B   B
		Neg bool
		Dg  B
		E   int
		A   []wdesc
		M   []struct {
			K B
			V wdesc
		}
		Fs []wdesc
		V  *wdesc
		N  int
	}
)

var typeCache sync.Map

// goType builds the Go type of a descriptor.
func goType(t *tdesc) reflect.Type {
	k, err := json.Marshal(t)
	check(err)
	if rt, ok := typeCache.Load(string(k)); ok {
		return rt.(reflect.Type)
	}
	rt := newType(t)
	typeCache.Store(string(k), rt)
	return rt
}

func newType(t *tdesc) reflect.Type {
	switch t.T {
	case "bool":
		return reflect.TypeOf(false)
	case "int":
		n := map[string]reflect.Type{"127": reflect.TypeOf(int8(0)), "32767": reflect.TypeOf(int16(0)), "2147483647": reflect.TypeOf(int32(0)), "9223372036854775807": reflect.TypeOf(int64(0)),
			"255": reflect.TypeOf(uint8(0)), "65535": reflect.TypeOf(uint16(0)), "4294967295": reflect.TypeOf(uint32(0)), "18446744073709551615": reflect.TypeOf(uint64(0))}[string(t.Hi)]
		if n == nil {
			check(fmt.Errorf("no integer type up to %s", t.Hi))
		}
		return n
	case "f64":
		return reflect.TypeOf(float64(0))
	case "f32":
		return reflect.TypeOf(float32(0))
	case "str":
		return reflect.TypeOf("")
	case "num":
		return tNumber
	case "raw":
		return tRaw
	case "bytes":
		return reflect.TypeOf([]byte{})
	case "text":
		return tKT
	case "uj":
		return tUJ
	case "ut":
		return tUT
	case "any":
		return reflect.TypeOf((*interface{})(nil)).Elem()
	case "ptr":
		return reflect.PointerTo(goType(t.E))
	case "slice":
		return reflect.SliceOf(goType(t.E))
	case "array":
		return reflect.ArrayOf(t.N, goType(t.E))
	case "map":
		return reflect.MapOf(goType(t.K), goType(t.E))
	case "st":
		var fs []reflect.StructField
		for i := range t.F {
			f := &t.F[i]
			sf := reflect.StructField{Name: string(f.G), Type: goType(&f.Ty), Anonymous: f.An}
			if len(f.Tag) > 0 {
				sf.Tag = reflect.StructTag(`json:` + strconv.Quote(string(f.Tag)))
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	check(fmt.Errorf("no type for %q", t.T))
	return nil
}

func (w *wdesc) float() float64 {
	s := string(w.Dg[:1]) + "." + string(w.Dg[1:]) + "e" + strconv.Itoa(w.E)
	f, err := strconv.ParseFloat(s, 64)
	check(err)
	if w.Neg {
		f = math.Copysign(f, -1)
	}
	return f
}

func held(w *wdesc) interface{} {
	switch w.T {
	case "bool":
		return w.Tf
	case "str":
		return string(w.B)
	case "num":
		return json.Number(w.B)
	case "flt":
		return w.float()
	case "arr":
		a := make([]interface{}, len(w.A))
		for i := range a {
			if w.A[i].T == "if" {
				a[i] = held(w.A[i].V)
			}
		}
		return a
	case "map":
		m := map[string]interface{}{}
		for i := range w.M {
			if e := &w.M[i]; e.V.T == "if" {
				m[string(e.K)] = held(e.V.V)
			} else {
				m[string(e.K)] = nil
			}
		}
		return m
	}
	check(fmt.Errorf("interface holding %q", w.T))
	return nil
}

// put gives v (of the descriptor's type) the contents w.
func put(v reflect.Value, t *tdesc, w *wdesc) {
	if w.T == "nil" {
		v.Set(reflect.Zero(v.Type()))
		return
	}
	switch t.T {
	case "bool":
		v.SetBool(w.Tf)
	case "int":
		if t.Uns {
			n, err := strconv.ParseUint(string(w.B), 10, 64)
			check(err)
			v.SetUint(n)
		} else {
			n, err := strconv.ParseInt(string(w.B), 10, 64)
			check(err)
			v.SetInt(n)
		}
	case "f64", "f32":
		v.SetFloat(w.float())
	case "str", "num":
		v.SetString(string(w.B))
	case "bytes", "raw":
		v.SetBytes(append([]byte{}, w.B...))
	case "uj":
		v.Set(reflect.ValueOf(UJ{Raw: append([]byte{}, w.B...), N: w.N}))
	case "ut":
		v.Set(reflect.ValueOf(UT{S: string(w.B), N: w.N}))
	case "any":
		v.Set(reflect.ValueOf(held(w.V)))
	case "ptr":
		p := reflect.New(v.Type().Elem())
		put(p.Elem(), t.E, w.V)
		v.Set(p)
	case "slice":
		s := reflect.MakeSlice(v.Type(), len(w.A), len(w.A)+len(w.A)%3)
		for i := range w.A {
			put(s.Index(i), t.E, &w.A[i])
		}
		v.Set(s)
	case "array":
		for i := range w.A {
			put(v.Index(i), t.E, &w.A[i])
		}
	case "map":
		m := reflect.MakeMap(v.Type())
		for i := range w.M {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			if t.K.T == "text" {
				k.Set(reflect.ValueOf(KT{string(w.M[i].K)}))
			} else {
				put(k, t.K, &wdesc{T: t.K.T, B: w.M[i].K})
			}
			put(e, t.E, &w.M[i].V)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case "st":
		for i := range t.F {
			put(v.Field(i), &t.F[i].Ty, &w.Fs[i])
		}
	default:
		check(fmt.Errorf("no contents for %q", t.T))
	}
}

// variable returns a pointer to a new variable with contents w.
func variable(t *tdesc, w *wdesc) reflect.Value {
	p := reflect.New(goType(t))
	put(p.Elem(), t, w)
	return p
}

// canon is a text for contents: equal contents, equal texts.
func canon(m interface{}) string {
	b, err := json.Marshal(m)
	check(err)
	return string(b)
}

func (w *wdesc) node() M {
	switch w.T {
	case "nil":
		return M{"t": "nil"}
	case "bool":
		return M{"t": "bool", "tf": w.Tf}
	case "flt":
		return M{"t": "flt", "neg": w.Neg, "dg": w.Dg, "e": w.E}
	case "um":
		return M{"t": "um", "b": w.B, "n": w.N}
	case "arr":
		a := A{}
		for i := range w.A {
			a = append(a, w.A[i].node())
		}
		return M{"t": "arr", "a": a}
	case "map":
		a := A{}
		for i := range w.M {
			a = append(a, M{"k": w.M[i].K, "v": w.M[i].V.node()})
		}
		return M{"t": "map", "m": a}
	case "st":
		a := A{}
		for i := range w.Fs {
			a = append(a, w.Fs[i].node())
		}
		return M{"t": "st", "fs": a}
	case "ptr", "if":
		return M{"t": w.T, "v": w.V.node()}
	}
	return M{"t": w.T, "b": w.B}
}

func sameContents(v reflect.Value, w *wdesc) bool { return canon(contents(v)) == canon(w.node()) }

// ---- encodings (EnumEnc.tla) ----

type encCase struct {
	Ty  tdesc
	W   wdesc
	Cfg struct {
		Html, Sort, Trust bool
		Pre, In           B
	}
	Col  string
	Ok   bool
	B    B
	Norm []wdesc
}

func mark(c byte) jc.Color { return jc.Color{27, '[', '9', c, 'm'} }

var colFull = &jc.Colors{Null: mark(48), Bool: mark(49), Number: mark(50), String: mark(51), Key: mark(52), Bytes: mark(53), Time: mark(54), TextMarshaler: mark(55), Punc: mark(56),
	Brackets: mark(57), Braces: mark(65), Comma: mark(66), Colon: mark(67)}
var colPart = &jc.Colors{Bool: mark(49), Number: mark(50), String: mark(51), Bytes: mark(53), Time: mark(54), TextMarshaler: mark(55), Punc: mark(56), Braces: mark(65)}

func (c *encCase) load(line []byte) (reflect.Value, cfg, *jc.Colors) {
	check(json.Unmarshal(line, c))
	col := map[string]*jc.Colors{"full": colFull, "part": colPart}[c.Col]
	return variable(&c.Ty, &c.W), cfg{html: c.Cfg.Html, sort: c.Cfg.Sort, trust: c.Cfg.Trust, pre: string(c.Cfg.Pre), in: string(c.Cfg.In)}, col
}

func (c *encCase) differs(how string, o observed) string {
	if o.panic != "" {
		return how + ": panic: " + o.panic
	}
	if o.err != !c.Ok || (c.Ok && !bytes.Equal(o.out, c.B)) || (!c.Ok && len(o.out) != 0) {
		return fmt.Sprintf("%s of %s: %q, error %v; not %q, ok %v", how, goType(&c.Ty), o.out, o.err, c.B, c.Ok)
	}
	return ""
}

// replayEnc: exactly the bytes (C02, C03, C04, C05).
func replayEnc(g *gen, line []byte) string {
	var c encCase
	p, cf, col := c.load(line)
	if r := c.differs("Encode", encode(p.Elem().Interface(), cf, col)); r != "" {
		return r
	}
	if r := c.differs("Encode of a pointer", encode(p.Interface(), cf, col)); r != "" {
		return r
	}
	o := appendTo(p.Elem().Interface(), cf, col)
	if o.err {
		o.out = nil
	}
	if r := c.differs("Append", o); r != "" {
		return r
	}
	if !c.Ok || len(c.B) == 0 {
		return ""
	}
	// Inside an interface, an array and a map, compactly.
	if cf.pre != "" || cf.in != "" || col != nil {
		return ""
	}
	for _, x := range []struct {
		v         interface{}
		pre, post string
	}{{[]interface{}{p.Elem().Interface()}, "[", "]"}, {map[string]interface{}{"k": p.Interface()}, `{"k":`, "}"}, {[1]interface{}{p.Interface()}, "[", "]"},
		{struct{ X, Y interface{} }{p.Interface(), 1}, `{"X":`, `,"Y":1}`}} {
		o := encode(x.v, cf, nil)
		want := x.pre + string(c.B) + x.post
		if o.err || o.panic != "" || string(o.out) != want {
			return fmt.Sprintf("inside %T: %q, %v %v; not %q", x.v, o.out, o.err, o.panic, want)
		}
	}
	return ""
}

var ansiEsc = func() func([]byte) []byte {
	return func(b []byte) []byte {
		var o []byte
		for i := 0; i < len(b); i++ {
			if b[i] == 27 && i+1 < len(b) && b[i+1] == '[' {
				for i < len(b) && b[i] != 'm' {
					i++
				}
				continue
			}
			o = append(o, b[i])
		}
		return o
	}
}()

// replayStrip: colours only add escape sequences (C01).  The case is the
// encoding without colours.
func replayStrip(g *gen, line []byte) string {
	var c encCase
	p, cf, _ := c.load(line)
	for _, col := range []*jc.Colors{colFull, colPart, {}, jc.DefaultColors()} {
		o := encode(p.Elem().Interface(), cf, col)
		o.out = ansiEsc(o.out)
		if r := c.differs("Coloured and stripped", o); r != "" {
			return r
		}
	}
	return c.differs("Without colors", encode(p.Elem().Interface(), cf, nil))
}

// replayEntry: all entry points give the bytes (C08).
func replayEntry(g *gen, line []byte) string {
	var c encCase
	p, cf, _ := c.load(line)
	v := p.Elem().Interface()
	none := func(b []byte, err error) observed {
		if err != nil {
			b = nil
		}
		return observed{out: b, err: err != nil}
	}
	if cf.pre != "" || cf.in != "" {
		return c.differs("MarshalIndent", none(jc.MarshalIndent(v, cf.pre, cf.in)))
	}
	if r := c.differs("Marshal", none(jc.Marshal(v))); r != "" {
		return r
	}
	if r := c.differs("Encode", encode(v, cf, nil)); r != "" {
		return r
	}
	n := len(c.B)
	for _, room := range []int{0, 1, n / 2, n - 1, n, n + 1, n + 8} {
		if room < 0 {
			continue
		}
		for _, have := range []int{0, 3} {
			all := bytes.Repeat([]byte("#"), have+room)
			dst := all[:have]
			b, err := jc.Append(dst, v, cf.flags(), nil, nil)
			if string(all[:have]) != "###"[:have] {
				return "Append changes the destination's bytes"
			}
			if err == nil && (len(b) < have || string(b[:have]) != "###"[:have]) {
				return fmt.Sprintf("Append loses the destination's bytes: %q", b)
			}
			if err == nil {
				b = b[have:]
			}
			if r := c.differs("Append", none(b, err)); r != "" {
				return r
			}
		}
	}
	return ""
}

func (w *wdesc) any(f func(*wdesc) bool) bool {
	if w == nil {
		return false
	}
	if f(w) || w.V.any(f) {
		return true
	}
	for i := range w.A {
		if w.A[i].any(f) {
			return true
		}
	}
	for i := range w.M {
		if w.M[i].V.any(f) {
			return true
		}
	}
	for i := range w.Fs {
		if w.Fs[i].any(f) {
			return true
		}
	}
	return false
}

// replayRound: decoding the encoding gives the value back (C17).
func replayRound(g *gen, line []byte) string {
	var c encCase
	p, cf, _ := c.load(line)
	if !c.Ok || len(c.Norm) == 0 {
		return ""
	}
	if c.W.any(func(w *wdesc) bool {
		return (w.T == "num" && len(w.B) == 0) || (w.T == "ptr" && w.V.T == "nil")
	}) {
		return "" // a number without text is 0; null has no depth
	}
	for i, col := range []*jc.Colors{nil, colFull} {
		o := encode(p.Interface(), cf, col)
		if col != nil {
			if strings.Contains(string(c.B), "\x1b") {
				continue
			}
			o.out = ansiEsc(o.out)
		}
		q := reflect.New(goType(&c.Ty))
		if err := jc.Unmarshal(o.out, q.Interface()); err != nil || o.err || !sameContents(q.Elem(), &c.Norm[0]) {
			return fmt.Sprintf("%s (colors %d) comes back through %q as %s (%v), not %s", goType(&c.Ty), i, o.out, canon(contents(q.Elem())), err, canon(c.Norm[0].node()))
		}
	}
	return ""
}
