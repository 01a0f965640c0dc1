package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

// cfg are the encoder settings the specification knows about.
type cfg struct {
	html, sort, trust bool
	pre, in           string
}

func (c cfg) flags() jc.AppendFlags {
	var f jc.AppendFlags
	if c.html {
		f |= jc.EscapeHTML
	}
	if c.sort {
		f |= jc.SortMapKeys
	}
	if c.trust {
		f |= jc.TrustRawMessage
	}
	return f
}

func (c cfg) indenter() *jc.Indenter {
	if c.pre == "" && c.in == "" {
		return nil
	}
	return jc.NewIndenter(c.pre, c.in)
}

func (c cfg) M() M {
	return M{"html": c.html, "sort": c.sort, "trust": c.trust, "pre": S(c.pre), "in": S(c.in)}
}

func colorsM(c *jc.Colors) M {
	if c == nil {
		return M{"on": false}
	}
	f := func(x jc.Color) B { return append(B{}, x...) }
	return M{"on": true, "null": f(c.Null), "bool": f(c.Bool), "num": f(c.Number), "str": f(c.String), "key": f(c.Key), "bytes": f(c.Bytes),
		"time": f(c.Time), "punc": f(c.Punc), "brk": f(c.Brackets), "brc": f(c.Braces), "com": f(c.Comma), "col": f(c.Colon), "text": f(c.TextMarshaler)}
}

var ansi = []string{"\x1b[31m", "\x1b[32m", "\x1b[36m", "\x1b[34;1m", "\x1b[2m", "\x1b[1m", "\x1b[38;5;200m", "\x1b[38;2;10;200;30;1m", "\x1b[m", "\x1b[0m", "\x1b[1;2;3;4;5;7;9m"}

// sharedColors are used by everyone, concurrently too.
var sharedColors = []*jc.Colors{jc.DefaultColors(), {Punc: jc.Color("\x1b[31m"), String: jc.Color("\x1b[32m")}, {Key: jc.Color("\x1b[33m"), Brackets: jc.Color("\x1b[34m"), Colon: jc.Color("\x1b[1m")}}

func (g *gen) colors() *jc.Colors {
	if g.p(15) {
		return sharedColors[g.Intn(len(sharedColors))]
	}
	switch g.Intn(6) {
	case 0:
		return jc.DefaultColors()
	case 1: // all distinct
		c := &jc.Colors{}
		rv := reflect.ValueOf(c).Elem()
		for i := 0; i < rv.NumField(); i++ {
			rv.Field(i).SetBytes([]byte(fmt.Sprintf("\x1b[38;5;%dm", 100+i)))
		}
		return c
	case 2:
		return &jc.Colors{}
	case 3: // only one set
		c := &jc.Colors{}
		rv := reflect.ValueOf(c).Elem()
		rv.Field(g.Intn(rv.NumField())).SetBytes([]byte("\x1b[33m"))
		return c
	default:
		c := &jc.Colors{}
		rv := reflect.ValueOf(c).Elem()
		for i := 0; i < rv.NumField(); i++ {
			if g.p(70) {
				rv.Field(i).SetBytes([]byte(ansi[g.Intn(len(ansi))]))
			}
		}
		return c
	}
}

var prefixes = []string{"", "", "", " ", "\t", "  ", ">", "// ", "    "}
var indents = []string{"", " ", "  ", "\t", "    ", "-", "\t\t", ". "}

func (g *gen) indent() (string, string) {
	if g.p(10) {
		return g.pick(prefixes...), ""
	}
	return g.pick(prefixes...), g.pick(indents...)
}

func (g *gen) cfg() cfg {
	c := cfg{html: g.p(50), sort: g.p(80)}
	if g.p(50) {
		c.pre, c.in = g.indent()
	}
	return c
}

// observed is the outcome of one encoding.
type observed struct {
	out   []byte
	err   bool
	panic string
}

func (o observed) fields(m M) M {
	m["out"], m["err"] = append(B{}, o.out...), o.err
	m["pn"] = o.panic != ""
	return m
}

// appendTo runs Append with a fresh indenter.
func appendTo(v interface{}, c cfg, col *jc.Colors) (o observed) {
	was := colorsOf(col)
	o.panic = guard(func() {
		b, err := jc.Append(nil, v, c.flags(), col, c.indenter())
		o.out, o.err = b, err != nil
	})
	o.unchanged(was, col)
	return o
}

func colorsOf(c *jc.Colors) string { return fmt.Sprintf("%+v", c) }

func (o *observed) unchanged(was string, c *jc.Colors) {
	if o.panic == "" && colorsOf(c) != was {
		o.panic = "colors changed"
	}
}

// encode runs a fresh Encoder; the trailing newline is checked and removed.
func encode(v interface{}, c cfg, col *jc.Colors) (o observed) {
	was := colorsOf(col)
	defer func() { o.unchanged(was, col) }()
	var buf bytes.Buffer
	o.panic = guard(func() {
		e := jc.NewEncoder(&buf)
		e.SetEscapeHTML(c.html)
		e.SetSortMapKeys(c.sort)
		e.SetTrustRawMessage(c.trust)
		if c.pre != "" || c.in != "" {
			e.SetIndent(c.pre, c.in)
		}
		if col != nil {
			e.SetColors(col)
		}
		o.err = e.Encode(v) != nil
	})
	o.out = buf.Bytes()
	if !o.err && o.panic == "" {
		if n := len(o.out); n > 0 && o.out[n-1] == '\n' {
			o.out = o.out[:n-1]
		} else {
			o.panic = "no newline"
		}
	}
	return o
}

func (g *gen) encodeBy(v interface{}, c cfg, col *jc.Colors) observed {
	switch g.Intn(4) {
	case 0, 1:
		return encode(v, c, col)
	case 2:
		return appendTo(v, c, col)
	}
	// Append to a destination that is just about large enough.
	o := appendTo(v, c, col)
	if o.err || o.panic != "" {
		return o
	}
	n := g.Intn(12) // already there
	room := len(o.out) - g.picki(-2, -1, 0, 0, 1, 2, 3, 4, 5, 8)
	if g.p(20) && len(o.out) > 0 {
		room = g.Intn(len(o.out))
	}
	if room < 0 {
		room = 0
	}
	dst := bytes.Repeat([]byte("#"), n+room)[:n]
	o.panic = guard(func() {
		b, err := jc.Append(dst, v, c.flags(), col, c.indenter())
		o.out, o.err = b, err != nil
		if err == nil {
			if !bytes.HasPrefix(b, bytes.Repeat([]byte("#"), n)) {
				panic("destination's contents changed")
			}
			o.out = b[n:]
		}
	})
	return o
}

func describe(v reflect.Value, c cfg) string {
	t := "nil"
	if v.IsValid() {
		t = v.Type().String()
	}
	var s string
	guard(func() { s = fmt.Sprintf("%#v", v) })
	if len(s) > 1500 {
		s = s[:1500]
	}
	return fmt.Sprintf("%s cfg=%+v value=%s", t, c, s)
}

// top turns a reflect.Value into what is passed to the encoder, and its node.
func (g *gen) top(v reflect.Value) (interface{}, M) {
	if g.p(25) && v.IsValid() {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return p.Interface(), M{"t": "ptr", "v": project(v)}
	}
	if !v.IsValid() {
		return nil, M{"t": "nil"}
	}
	return v.Interface(), project(v)
}

// exact records one encoding against the full specification of its output.
func (g *gen) exact(rec *recorder, v reflect.Value, c cfg, col *jc.Colors) {
	if !uniqueKeys(v) {
		return
	}
	if !c.sort && (strings.Trim(c.pre+c.in, " \t\n\r") != "" || hasOdd(col)) {
		c.pre, c.in, col = "", "", nil
	}
	x, node := g.top(v)
	rec.begin(describe(v, c))
	o := g.encodeBy(x, c, col)
	if o.err {
		o.out = nil
	}
	rec.trace(o.fields(M{"k": "enc", "v": node, "cfg": c.M(), "col": colorsM(col)}))
}

func hasOdd(c *jc.Colors) bool {
	if c == nil {
		return false
	}
	rv := reflect.ValueOf(c).Elem()
	for i := 0; i < rv.NumField(); i++ {
		if b := rv.Field(i).Bytes(); len(b) > 0 && b[0] != 0x1b {
			return true
		}
	}
	return false
}

func (g *gen) setup(simple, marshal, raw bool, bad, wide int) *gen {
	g.simple, g.marshal, g.raw, g.bad, g.wide = simple, marshal, raw, bad, wide
	g.html, g.oneEntry = 10, false
	return g
}

// ---- C01 ----

func genC01(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		g.setup(g.p(50), true, true, g.picki(0, 0, 0, 4), 5)
		c := g.cfg()
		if g.p(80) {
			c.sort = true
		}
		g.oneEntry = !c.sort
		v := g.value(g.picki(0, 1, 2, 3, 4))
		if g.p(30) {
			v = g.any(g.picki(1, 2, 3))
		}
		if c.sort && !uniqueKeys(v) {
			continue
		}
		x, _ := g.top(v)
		col := g.colors()
		rec.begin(describe(v, c))
		off := g.encodeBy(x, c, nil)
		on := g.encodeBy(x, c, col)
		rec.trace(M{"k": "strip", "on": append(B{}, on.out...), "one": on.err, "off": append(B{}, off.out...), "offe": off.err,
			"pn": on.panic != "" || off.panic != "", "ws": strings.Trim(c.pre+c.in, " \t") == ""})
	}
}

// ---- C02 ----

func genC02(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		g.setup(g.p(80), true, true, 0, 5)
		c := g.cfg()
		v := g.value(g.picki(0, 1, 1, 2, 3, 4))
		switch g.Intn(8) {
		case 0, 1:
			v = g.any(g.picki(1, 2, 3))
		case 2:
			v = reflect.ValueOf(json.RawMessage(g.rawDoc()))
		case 3:
			v = reflect.ValueOf([]interface{}{nil, g.p(50), g.Intn(9), "s", []byte("b"), g.timeEnc(), MT{S: "t"}, json.RawMessage(g.rawDoc()), map[string]interface{}{"k": []int{}, "": map[string]bool{}}, json.Number("1.5"), 1.5})
		}
		col := g.colors()
		if g.p(10) { // a colour need not be an ANSI sequence
			col = &jc.Colors{}
			rv := reflect.ValueOf(col).Elem()
			for i := 0; i < rv.NumField(); i++ {
				rv.Field(i).SetBytes([]byte(fmt.Sprintf("<%d>", i)))
			}
			c.sort = true
		}
		g.exact(rec, v, c, col)
	}
}

// ---- C03 ----

func genC03(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		g.setup(g.p(70), true, true, 0, 8)
		c := g.cfg()
		c.sort = true
		c.pre, c.in = g.indent()
		v := g.value(g.picki(1, 2, 3, 4, 5))
		switch g.Intn(8) {
		case 0, 1:
			v = g.any(g.picki(2, 3, 4))
		case 2:
			g.fresh(80)
			d := g.doc(4)
			if g.p(15) {
				d = g.wideDoc()
			}
			v = reflect.ValueOf(json.RawMessage(d))
		case 3:
			v = reflect.ValueOf(json.RawMessage(g.deepDoc(g.picki(2, 7, 8, 9, 10, 12, 20, 33))))
		case 4: // deep native nesting
			var x interface{} = g.Intn(10)
			for d := g.picki(3, 8, 9, 12, 20, 30); d > 0; d-- {
				switch g.Intn(5) {
				case 0:
					x = []interface{}{x, []int{}}
				case 1:
					x = map[string]interface{}{"k": x}
				case 2:
					x = StG{Any: x}
				case 3:
					x = map[int]interface{}{1: x, 2: map[string]int{}}
				default:
					x = [2]interface{}{nil, x}
				}
			}
			v = reflect.ValueOf(x)
		}
		if !uniqueKeys(v) {
			continue
		}
		cc := c
		cc.pre, cc.in = "", ""
		x, _ := g.top(v)
		rec.begin(describe(v, c))
		flat := g.encodeBy(x, cc, nil)
		var col *jc.Colors
		if g.p(20) {
			col = g.colors()
		}
		ind := g.encodeBy(x, c, col)
		m := M{"k": "lay", "c": append(B{}, flat.out...), "ce": flat.err, "i": append(B{}, ind.out...), "ie": ind.err, "pre": S(c.pre), "in": S(c.in), "col": col != nil,
			"pn": flat.panic != "" || ind.panic != ""}
		rec.trace(m)
	}
}

// ---- C04 ----

func genC04(g *gen, rec *recorder, n int) {
	types := append([]reflect.Type{}, basicType...)
	types = append(types, tString, tString, tString, tString, tNumber, tNumber, reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(float64(0)), tTime, tBytes)
	for i := 0; i < n; i++ {
		g.setup(false, false, false, g.picki(0, 0, 0, 15), 0)
		c := cfg{html: g.p(50), sort: true}
		g.fresh(100)
		t := types[g.Intn(len(types))]
		v := reflect.New(t).Elem()
		g.fill(v, 0)
		switch g.Intn(12) {
		case 0: // map key
			m := map[string]int{g.str(): 1}
			v = reflect.ValueOf(m)
		case 1:
			v = reflect.ValueOf(map[string]interface{}{g.str(): g.str()})
		case 2:
			v = reflect.ValueOf([]interface{}{v.Interface(), v.Interface()})
		case 3:
			v = reflect.ValueOf(MT{S: g.str()})
		case 4:
			v = reflect.ValueOf(struct {
				A string `json:"a,string"`
				B int64  `json:"b,string"`
				C float64
				D json.Number
			}{g.str(), g.intBits(64), g.float(), g.number()})
		}
		if g.p(3) {
			c.pre, c.in = "", " "
		}
		g.exact(rec, v, c, nil)
	}
}

// ---- C05 ----

func genC05(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		g.setup(true, true, g.p(25), g.picki(0, 0, 0, 0, 3), 6)
		c := cfg{html: g.p(50), sort: g.p(75)}
		var v reflect.Value
		switch g.Intn(6) {
		case 0:
			v = g.any(g.picki(2, 3, 4))
		case 1: // static structs, often mostly empty
			t := structTypes[g.Intn(len(structTypes))]
			if g.p(20) {
				t = reflect.TypeOf(StOm{})
			}
			g.fresh(40)
			v = reflect.New(t).Elem()
			g.fill(v, 2)
		case 2: // a static struct inside something
			t := structTypes[g.Intn(len(structTypes))]
			switch g.Intn(5) {
			case 0:
				t = reflect.SliceOf(t)
			case 1:
				t = reflect.MapOf(tString, t)
			case 2:
				t = reflect.ArrayOf(2, t)
			case 3:
				t = reflect.PointerTo(reflect.PointerTo(t))
			default:
				t = reflect.MapOf(reflect.TypeOf(0), reflect.PointerTo(t))
			}
			g.fresh(60)
			v = reflect.New(t).Elem()
			g.fill(v, 2)
		case 3: // wide maps
			g.fresh(200)
			t := reflect.MapOf(g.keyType(), []reflect.Type{tAny, tString, reflect.TypeOf(0), reflect.TypeOf(&StPtr{})}[g.Intn(4)])
			v = reflect.MakeMap(t)
			for k := g.picki(1, 2, 5, 9, 10, 11, 20, 21, 64, 65, 70); k > 0; k-- {
				key := reflect.New(t.Key()).Elem()
				g.fill(key, 0)
				e := reflect.New(t.Elem()).Elem()
				g.fill(e, 0)
				v.SetMapIndex(key, e)
			}
		default:
			v = g.value(g.picki(1, 2, 3, 4))
		}
		if g.p(15) {
			c.pre, c.in = "", " "
		}
		var col *jc.Colors
		if g.p(10) {
			col = g.colors()
		}
		g.exact(rec, v, c, col)
	}
}

// ---- C06 ----

func genC06(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		g.setup(g.p(40), true, true, g.picki(0, 0, 0, 12), 6)
		g.fresh(50)
		c := g.cfg()
		c.trust = g.p(25)
		if c.trust {
			g.bad = 0
		}
		var v reflect.Value
		raw := func() json.RawMessage {
			if g.p(8) {
				return nil
			}
			if g.p(10) {
				return json.RawMessage(g.deepDoc(g.picki(3, 8, 9, 12, 20)))
			}
			if g.p(3) {
				return json.RawMessage(g.wideDoc())
			}
			return json.RawMessage(g.rawDoc())
		}
		mj := func() MJ {
			m := MJ{Out: raw()}
			if m.Out == nil {
				m.Mode = 2
			}
			if g.p(g.bad) {
				m.Mode = 1
			}
			return m
		}
		switch g.Intn(12) {
		case 0, 1:
			v = reflect.ValueOf(raw())
		case 2:
			r := raw()
			v = reflect.ValueOf(&r)
		case 3:
			v = reflect.ValueOf([]json.RawMessage{raw(), raw()})
		case 4:
			v = reflect.ValueOf(map[string]json.RawMessage{"b": raw(), "a": raw(), "<": raw()})
		case 5:
			v = reflect.ValueOf(map[string]interface{}{"x": raw(), "m": mj(), "n": 1})
		case 6:
			v = reflect.ValueOf(mj())
		case 7:
			m := mj()
			v = reflect.ValueOf([]*MJ{&m, nil})
		case 8:
			v = reflect.ValueOf(struct {
				A int
				R json.RawMessage `json:"r"`
				M MJ              `json:"m,omitempty"`
				O json.RawMessage `json:"o,omitempty"`
				P *json.RawMessage
				S MJStr `json:",omitempty"`
				W MJWrap
				D MJMap
			}{1, raw(), mj(), raw(), nil, MJStr(g.rawDoc()), MJWrap{}, MJMap{"a": 1}})
		case 9:
			v = reflect.ValueOf([]interface{}{raw(), []interface{}{mj(), MJWrap{}, &MJPtr{N: 3}}, map[string]interface{}{"k": raw()}})
		case 10:
			v = reflect.ValueOf([]MJPtr{{N: 1}, {N: 2}})
		default:
			v = g.value(3)
		}
		var col *jc.Colors
		if g.p(40) {
			col = g.colors()
		}
		g.exact(rec, v, c, col)
	}
}

// ---- C07: histories on encoders ----

var errWrite = errors.New("write failed")

type faultyWriter struct {
	writes  [][]byte
	failAt  int // the failAt-th write fails (1-based); 0 never
	n       int
	partial bool
	err     error
}

func (w *faultyWriter) Write(b []byte) (int, error) {
	w.n++
	reenter()
	if w.failAt == w.n {
		w.writes = append(w.writes, nil)
		if w.partial {
			return len(b) / 2, w.err
		}
		return 0, w.err
	}
	w.writes = append(w.writes, append([]byte{}, b...))
	return len(b), nil
}

func (g *gen) sessionValue() reflect.Value {
	g.setup(true, true, true, g.picki(0, 0, 6), 10)
	g.html = 35
	switch g.Intn(7) {
	case 6: // every setting shows
		m := map[string]interface{}{}
		for k := g.between(4, 9); k > 0; k-- {
			m[g.ascii()] = g.pick("<a>", "&", "x", "\u2028")
		}
		m["r"] = json.RawMessage("[1, \"<\"]")
		return reflect.ValueOf(m)
	case 0:
		return g.any(3)
	case 1: // fails midway, at some depth
		var x interface{} = make(chan int)
		if g.p(40) {
			x = MJ{Mode: 3}
		}
		for d := g.Intn(4); d > 0; d-- {
			switch g.Intn(6) {
			case 0:
				x = []interface{}{1, x, 2}
			case 1:
				x = map[string]interface{}{"a": 1, "b": x, "c": 2}
			case 2:
				x = StG{Any: x}
			case 3:
				x = map[int]interface{}{1: 1, 2: x}
			case 4:
				x = [2]interface{}{"x", x}
			default:
				x = map[string]json.RawMessage{"a": json.RawMessage("[1]"), "b": json.RawMessage("[1,{\"a\":[}"), "c": json.RawMessage("2")}
			}
		}
		if g.p(50) {
			return reflect.ValueOf(x)
		}
		return reflect.ValueOf([]interface{}{map[string]interface{}{"x": 1, "y": []interface{}{x}}})
	case 2:
		m := map[string]interface{}{}
		for k := g.Intn(30); k > 0; k-- {
			m[g.ascii()] = g.Intn(100)
		}
		return reflect.ValueOf(m)
	case 3:
		return reflect.ValueOf(json.RawMessage(g.rawDoc()))
	case 4:
		if g.p(10) {
			return reflect.ValueOf(strings.Repeat(g.str()+"ab", g.picki(500, 2100, 3000)))
		}
		return reflect.ValueOf(g.str())
	default:
		return g.value(3)
	}
}

func genC07(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		nenc := g.between(1, 2)
		ws := make([]*faultyWriter, nenc)
		es := make([]*jc.Encoder, nenc)
		ops := []interface{}{M{"k": "new", "n": nenc}}
		for j := range es {
			ws[j] = &faultyWriter{err: errWrite, partial: g.p(30)}
			if g.p(25) {
				ws[j].failAt = g.between(1, 4)
				if g.p(30) {
					ws[j].err = io.ErrShortWrite
				}
			}
			es[j] = jc.NewEncoder(ws[j])
		}
		own := make([]*jc.Colors, nenc)
		cs := make([]cfg, nenc)
		for j := range cs {
			cs[j] = cfg{html: true, sort: true}
		}
		for k := g.between(3, 14); k > 0; k-- {
			j := g.Intn(nenc)
			e, c := es[j], &cs[j]
			switch g.Intn(9) {
			case 0:
				c.html = g.p(50)
				for r := g.picki(1, 1, 2, 3); r > 0; r-- { // setting twice is setting once
					e.SetEscapeHTML(c.html)
					ops = append(ops, M{"k": "set", "e": j + 1, "what": "html", "on": c.html})
				}
			case 1:
				c.sort = g.p(60)
				for r := g.picki(1, 1, 2, 3); r > 0; r-- {
					e.SetSortMapKeys(c.sort)
					ops = append(ops, M{"k": "set", "e": j + 1, "what": "sort", "on": c.sort})
				}
			case 2:
				c.pre, c.in = g.pick("", "", " ", "\t"), g.pick("", " ", "  ", "\t")
				e.SetIndent(c.pre, c.in)
				ops = append(ops, M{"k": "indent", "e": j + 1, "pre": S(c.pre), "in": S(c.in)})
			case 3:
				var col *jc.Colors
				if g.p(60) {
					x := *g.colors()
					col = &x
				}
				if g.p(40) && own[j] != nil { // the same ones, changed
					col = own[j]
					rv := reflect.ValueOf(col).Elem()
					for r := 1 + g.Intn(2); r > 0; r-- {
						rv.FieldByName(g.pick("Punc", "Punc", "Key", "String", "Number", "Comma", "Braces")).SetBytes([]byte(g.pick("", ansi[g.Intn(len(ansi))])))
					}
				}
				own[j] = col
				e.SetColors(col)
				ops = append(ops, M{"k": "colors", "e": j + 1, "col": colorsM(col)})
			case 4:
				on := g.p(50)
				c.trust = on
				for r := g.picki(1, 1, 2); r > 0; r-- {
					e.SetTrustRawMessage(on)
					ops = append(ops, M{"k": "set", "e": j + 1, "what": "trust", "on": on})
				}
			default:
				v := g.sessionValue()
				if c.trust {
					g.bad = 0
					v = g.any(2)
				}
				if !uniqueKeys(v) {
					continue
				}
				var x interface{}
				if v.IsValid() {
					x = v.Interface()
				}
				node := project(v)
				w := ws[j]
				before := len(w.writes)
				rec.begin(describe(v, *c))
				var err error
				pn, own := guardOwn(func() { err = e.Encode(x) })
				got := A{}
				for _, b := range w.writes[before:] {
					got = append(got, append(B{}, b...))
				}
				faulty := w.failAt != 0 && before+len(got) >= w.failAt
				ops = append(ops, M{"k": "encode", "e": j + 1, "v": node, "err": err != nil, "werr": err != nil && err == w.err, "writes": got,
					"fails": w.failAt == before+1, "dead": faulty && w.failAt <= before, "pn": pn != "", "own": own})
			}
		}
		rec.trace(ops...)
	}
}

// ---- C08 ----

func genC08(g *gen, rec *recorder, n int) {
	var kept, copies [][]byte // results returned earlier
	for i := 0; i < n; i++ {
		g.setup(g.p(70), true, true, g.picki(0, 0, 8), 6)
		v := g.value(g.picki(0, 1, 2, 3, 4))
		if g.p(30) {
			v = g.any(3)
		}
		if g.p(3) {
			v = reflect.ValueOf(strings.Repeat(g.str()+"é", g.picki(300, 1400, 2000, 4096)))
		}
		if !uniqueKeys(v) {
			continue
		}
		x, _ := g.top(v)
		c := cfg{html: true, sort: true}
		rec.begin(describe(v, c))
		m := M{"k": "entry"}
		var ms, mi []byte
		var mse, mie error
		pre, in := g.indent()
		dstLen := g.picki(0, 1, 2, 7, 30, 100)
		extra := g.picki(0, 1, 2, 3, 5, 8, 16, 100, 5000)
		pn := guard(func() {
			ms, mse = jc.Marshal(x)
			mi, mie = jc.MarshalIndent(x, pre, in)
			en := encode(x, c, nil)
			m["en"], m["ene"] = append(B{}, en.out...), en.err
			if en.panic != "" {
				panic(en.panic)
			}
			ap, ape := jc.Append(nil, x, c.flags(), nil, nil)
			if ape != nil {
				ap = nil
			}
			m["ap"], m["ape"] = append(B{}, ap...), ape != nil
			// Append to a destination with contents, length and capacity.
			dst := make([]byte, dstLen, dstLen+extra)
			for j := range dst {
				dst[j] = byte('A' + g.Intn(26))
			}
			orig := append([]byte{}, dst...)
			if g.p(50) { // another encoder wrote here before
				for j := dstLen; j < cap(dst); j++ {
					dst[:cap(dst)][j] = 'Z'
				}
			}
			c2 := g.cfg()
			c2.sort = true
			var col *jc.Colors
			if g.p(40) {
				col = g.colors()
			}
			full, fulle := jc.Append(nil, x, c2.flags(), col, c2.indenter())
			if fulle != nil {
				full = nil
			}
			m["full"], m["fulle"] = append(B{}, full...), fulle != nil
			b, err := jc.Append(dst, x, c2.flags(), col, c2.indenter())
			m["dst"] = append(B{}, orig...)
			m["dsta"] = append(B{}, dst...) // afterwards
			m["dout"] = append(B{}, b...)
			m["de"] = err != nil
		})
		if mse != nil {
			ms = nil
		}
		if mie != nil {
			mi = nil
		}
		m["pn"] = pn != ""
		m["m"], m["me"], m["mi"], m["mie"] = append(B{}, ms...), mse != nil, append(B{}, mi...), mie != nil
		m["pre"], m["in"] = S(pre), S(in)
		if pn != "" {
			for _, k := range []string{"en", "ap", "full", "dst", "dsta", "dout"} {
				if m[k] == nil {
					m[k] = B{}
				}
			}
			for _, k := range []string{"ene", "ape", "fulle", "de"} {
				if m[k] == nil {
					m[k] = false
				}
			}
		}
		// Retained results.
		keep := func(b []byte, err error) {
			if err != nil {
				return
			}
			kept, copies = append(kept, b), append(copies, append([]byte{}, b...))
			if len(kept) > 12 {
				kept, copies = kept[1:], copies[1:]
			}
		}
		keep(ms, mse)
		if g.p(30) {
			keep(mi, mie)
		}
		if g.p(4) { // long results, which the trace does not include
			for _, l := range []int{g.picki(3000, 9000, 17000, 33000, 70000, 140000), 20000} {
				big := strings.Repeat(g.ascii(), l/4)
				keep(jc.Marshal(big))
				keep(jc.MarshalIndent([]string{big}, "", " "))
				keep(jc.Append(nil, big, 0, nil, nil))
				encode(big, c, nil)
			}
		}
		changed := false
		for j := range kept {
			changed = changed || !bytes.Equal(kept[j], copies[j])
		}
		m["changed"] = changed
		rec.trace(m)
	}
}
