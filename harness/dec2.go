package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"runtime"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

// ---- C14: repeated parsing ----

func numberish(s string) bool {
	return s != "" && (s[0] == '-' || (s[0] >= '0' && s[0] <= '9'))
}

func genC14(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		g.wide = g.picki(0, 0, 8)
		g.huge = g.picki(0, 0, 0, 2)
		k := g.picki(0, 1, 2, 3, 5)
		var text strings.Builder
		var types []reflect.Type
		text.WriteString(g.ws(40))
		prev := ""
		for j := 0; j < k; j++ {
			g.fresh(25)
			t := tAny
			if g.p(70) {
				t = g.decType(g.picki(0, 0, 1, 2))
			}
			a := g.aim(g.picki(0, 0, 0, 0, 10), 5, 10)
			d := a.doc(t, 2)
			types = append(types, t)
			if j > 0 {
				sep := g.ws(50)
				last := prev[len(prev)-1]
				if sep == "" && !strings.ContainsRune("]}\"", rune(last)) && !strings.ContainsRune("[{\"", rune(d[0])) {
					sep = g.pick(" ", "\n", "\t", "\r\n", "  \n ")
				}
				text.WriteString(sep)
			}
			text.WriteString(d)
			prev = d
		}
		text.WriteString(g.ws(50))
		s := text.String()
		switch {
		case g.p(8):
			s += g.pick("}", "]", ",", ":", "x", "nul", "\"", "[1,", "{\"a\":", "tru", "\x00", "\xff", "/", "  {", "-", "\v")
		case g.p(5):
			s = g.mutate(s)
		}
		o := g.decOpts(15, 10, 10, 35)
		if g.p(4) && k > 0 {
			s = g.ifaceDoc() + g.ws(50) + g.ifaceDoc()
			types = []reflect.Type{reflect.TypeOf(DIf{}), reflect.TypeOf(DIf{})}
			o.dis = g.p(60)
		}
		in := []byte(s)
		ops := []interface{}{M{"k": "input", "b": S(s)}}
		rest := in
		for j := 0; j < k+3; j++ {
			t := tAny
			if j < len(types) {
				t = types[j]
			}
			b0 := string(rest)
			if g.p(6) { // nowhere to put the value
				x := []interface{}{nil, (*int)(nil), 5, "s", struct{}{}, (*interface{})(nil), []int{1}, map[string]int{}, (*UJ)(nil)}[g.Intn(9)]
				rec.begin(fmt.Sprintf("parse %q into %#v opts %+v", b0, x, o))
				var err error
				var r []byte
				pn := guard(func() { r, err = jc.Parse(rest, x, o.flags()) })
				var ie *jc.InvalidUnmarshalError
				ops = append(ops, M{"k": "parseno", "inv": errors.As(err, &ie), "err": err != nil, "rest": append(B{}, r...), "pn": pn != "", "same": string(in) == s})
				if pn != "" || len(r) >= len(rest) || len(r) == 0 || ie == nil {
					break
				}
				rest = r
				continue
			}
			v := reflect.New(t)
			if g.p(20) && !strings.Contains(s, "null") || t == reflect.TypeOf(DIf{}) && !strings.Contains(s, "null") {
				g.prior(v.Elem(), 2)
			}
			ty := desc(t, 8, v.Elem())
			w0 := contents(v.Elem())
			rec.begin(fmt.Sprintf("parse %q into %s opts %+v", b0, t, o))
			var err error
			var r []byte
			pn := guard(func() { r, err = jc.Parse(rest, v.Interface(), o.flags()) })
			ops = append(ops, tables(o.put(M{"k": "parse", "ty": ty, "w0": w0, "w1": contents(v.Elem()), "err": err != nil,
				"rest": append(B{}, r...), "pn": pn != "", "same": string(in) == s}), b0))
			if err != nil || pn != "" || len(r) >= len(rest) {
				break
			}
			rest = r
		}
		rec.trace(ops...)
	}
}

// ---- C15: what was decoded stays ----

type kept struct {
	v   reflect.Value
	err error
}

func errText(err error) B {
	if err == nil {
		return B{}
	}
	return S(err.Error())
}

// chop is a reader that hands out its data in pieces and reuses nothing of
// the caller's buffers.
type chop struct {
	data []byte
	g    *rng
	max  int
}

func (c *chop) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := 1 + c.g.Intn(c.max)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.data)
	c.data = c.data[n:]
	return n, nil
}

func zap(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = "X\"}{]1\x00"[i%7]
	}
}

// filler is a stream of documents, one per line.
func (g *gen) filler(n int) string {
	var b strings.Builder
	for b.Len() < n {
		switch g.Intn(4) {
		case 0:
			b.WriteString(`"` + strings.Repeat("#", g.picki(1, 100, 3000)) + `"`)
		case 1:
			b.WriteString(`{"zz":[9,9,9],"yy":"@@@@@@@@@@@@@@@@","xx":"\u0040"}`)
		case 2:
			b.WriteString(`[` + strings.Repeat("8888,", g.picki(1, 50, 700)) + `8]`)
		default:
			b.WriteString("7777777777")
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// disturb reuses whatever the library may pool, and overwrites buffers.
func (g *gen) disturb(owned [][]byte) {
	for _, b := range owned {
		zap(b)
	}
	for i := 0; i < 4; i++ {
		g.fresh(15)
		d := g.doc(3)
		var x interface{}
		switch g.Intn(8) {
		case 0:
			_ = jc.Unmarshal([]byte(d), &x)
		case 1:
			_, _ = jc.Parse([]byte(d), &x, jc.ZeroCopy)
		case 2:
			_ = jc.NewDecoder(strings.NewReader(strings.Repeat(d+" ", 3))).Decode(&x)
		case 3:
			jc.Valid([]byte(d))
		case 4:
			_, _ = jc.Marshal(map[string]interface{}{"z": d, "y": []string{d}, "x": map[string]int{d: 1}})
		case 5:
			t := jc.NewTokenizer([]byte(d))
			for t.Next() {
				if t.Value.String() {
					t.Value.Unquote()
				}
			}
		case 6:
			var m map[string]json.RawMessage
			_ = jc.Unmarshal([]byte(`{"k":`+d+`,"`+g.ascii()+`":[1,2]}`), &m)
		case 7:
			var s []string
			_ = jc.Unmarshal([]byte(`["aaaaaaaa\u0041","bb\n",`+g.strLit()+`]`), &s)
		}
	}
	if g.p(10) {
		runtime.GC()
	}
}

type uncopied struct {
	A json.RawMessage  `json:"a"`
	B string           `json:"b"`
	C *json.RawMessage `json:"c"`
	D json.Number      `json:"d"`
	E *string          `json:"e"`
}

func genC15(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		g.wide = g.picki(0, 0, 10)
		g.huge = g.picki(0, 0, 0, 2)
		ops := []interface{}{M{"k": "keep"}}
		var keep []kept
		var owned [][]byte
		checkOp := func() {
			ws := A{}
			for _, k := range keep {
				if k.err != nil {
					ws = append(ws, M{"t": "err", "b": S(k.err.Error())})
					continue
				}
				ws = append(ws, contents(k.v))
			}
			ops = append(ops, M{"k": "check", "ws": ws, "pn": false})
		}
		rounds := 1 + g.Intn(3)
		for r := 0; r < rounds; r++ {
			o := g.decOpts(30, 15, 10, 0)
			if g.p(35) {
				o.zs, o.zn, o.zr = g.p(70), g.p(70), g.p(70)
			}
			zero := o.zs || o.zn || o.zr
			m := 1 + g.Intn(4)
			if g.p(50) { // one stream
				var docs []string
				var types []reflect.Type
				for j := 0; j < m; j++ {
					g.fresh(25)
					t := tAny
					if g.p(60) {
						t = g.decType(g.picki(0, 1, 2))
					}
					d := g.aim(g.picki(0, 0, 0, 12), 5, 10).doc(t, 2)
					if g.p(8) {
						t, d = tAny, `["`+strings.Repeat(g.ascii(), 500)+`",`+d+`]`
					}
					docs, types = append(docs, d), append(types, t)
				}
				sep := g.pick(" ", "\n", "\n\n  ")
				data := []byte(strings.Join(docs, sep) + "\n")
				// Values before and after, not recorded, that make the
				// decoder go through its buffer several times.
				lead, trail := 0, 0
				if !zero && g.p(60) {
					f := g.filler(g.picki(0, 0, 20000, 32700-len(data)/2, 40000))
					lead, trail = strings.Count(f, "\n"), 50
					data = append([]byte(f), data...)
					data = append(data, g.filler(g.picki(33000, 50000, 100000))...)
				}
				max := g.picki(1, 3, 16, 512, 5000)
				if len(data) > 30000 {
					max = g.picki(1000, 4096, 20000, 50000)
				}
				dec := jc.NewDecoder(&chop{data: data, g: g.rng, max: max})
				o.apply(dec)
				for j := 0; j < lead; j++ {
					var x interface{}
					if err := dec.Decode(&x); err != nil {
						ops = append(ops, M{"k": "check", "ws": A{M{"t": "err", "b": S(err.Error())}}, "pn": true})
					}
				}
				for j := range docs {
					v := reflect.New(types[j])
					ty, w0 := desc(types[j], 8, v.Elem()), contents(v.Elem())
					rec.begin(fmt.Sprintf("stream decode %q into %s opts %+v", docs[j], types[j], o))
					var err error
					pn := guard(func() { err = dec.Decode(v.Interface()) })
					ops = append(ops, tables(o.put(M{"k": "kdec", "b": S(docs[j]), "ty": ty, "w0": w0, "w1": contents(v.Elem()), "err": err != nil, "msg": errText(err), "pn": pn != ""}), docs[j]))
					keep = append(keep, kept{v: v.Elem(), err: err})
					if zero && !g.p(50) {
						checkOp()
					}
				}
				// the decoder used further
				for j := 0; j < 3+trail*1000; j++ {
					var x interface{}
					if dec.Decode(&x) == io.EOF { //nolint:errorlint
						break
					}
				}
				owned = append(owned, data)
			} else {
				twin := reflect.Type(nil) // several of one type
				if g.p(25) {
					twin = reflect.SliceOf(g.decType(g.picki(0, 0, 1)))
					if g.p(50) {
						twin = reflect.SliceOf(tAny)
					}
					m++
				}
				for j := 0; j < m; j++ {
					g.fresh(30)
					t := tAny
					if twin != nil {
						t = twin
					} else if g.p(70) {
						t = g.decType(g.picki(0, 1, 2))
					}
					d := g.aim(g.picki(0, 0, 0, 12), 5, 10).doc(t, 2)
					if twin != nil && d[0] == '[' && g.p(50) && dupSafe(t, 0) {
						d = g.pick(`[null`, `[null,null`) + map[bool]string{true: "", false: ","}[strings.Trim(d, "[] \t\r\n") == ""] + d[1:]
					}
					if g.p(5) {
						d = g.mutate(d)
					}
					b := []byte(d)
					v := reflect.New(t)
					// A variable that holds part of another document, uncopied.
					var other, orig []byte
					if twin == nil && g.p(12) {
						t = []reflect.Type{tRaw, reflect.TypeOf(uncopied{}), reflect.TypeOf(uncopied{})}[g.Intn(3)]
						d = g.aim(0, 5, 10).doc(t, 2)
						b = []byte(d)
						v = reflect.New(t)
						other = []byte(g.aim(0, 5, 10).doc(t, 2))
						orig = append(orig, other...)
						_, _ = jc.Parse(other, v.Interface(), jc.ZeroCopy)
					}
					ty, w0 := desc(t, 8, v.Elem()), contents(v.Elem())
					rec.begin(fmt.Sprintf("decode %q into %s opts %+v", d, t, o))
					var err error
					pn := guard(func() {
						if o == (decOpts{}) && g.p(50) {
							err = jc.Unmarshal(b, v.Interface())
							return
						}
						var rest []byte
						rest, err = jc.Parse(b, v.Interface(), o.flags())
						if err == nil && len(rest) != 0 {
							err = fmt.Errorf("trailing data")
						}
					})
					ops = append(ops, tables(o.put(M{"k": "kdec", "b": S(d), "ty": ty, "w0": w0, "w1": contents(v.Elem()), "err": err != nil, "msg": errText(err), "pn": pn != "" || string(other) != string(orig)}), d))
					keep = append(keep, kept{v: v.Elem(), err: err})
					if !zero {
						owned = append(owned, b)
					}
				}
			}
			rec.begin("disturb")
			g.disturb(owned)
			owned = nil
			checkOp()
		}
		rec.trace(ops...)
	}
}

// ---- C17: round trips ----

// roundable: no custom marshalers below, and nothing that encodes like
// something else.
func roundable(t reflect.Type, depth int) bool {
	if depth > 8 {
		return true
	}
	switch t {
	case tNumber, tTime, tDur, tAny, tNAny:
		return true
	case tRaw, tUJ, tUT, tUB, tUBT, tUV, tUVT, tKT, tKSM, tKSD, tKID, reflect.TypeOf(KIE(0)):
		return false
	}
	if t.Implements(tNoder) || reflect.PointerTo(t).Implements(tNoder) || hasNoJSON(t) {
		return false
	}
	switch t.Kind() {
	case reflect.Interface:
		return false
	case reflect.Pointer, reflect.Slice, reflect.Array:
		return roundable(t.Elem(), depth+1)
	case reflect.Map:
		return roundable(t.Key(), depth+1) && roundable(t.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous && !f.IsExported() && f.Type.Kind() == reflect.Pointer {
				return false
			}
			if !roundable(f.Type, depth+1) {
				return false
			}
		}
	}
	return true
}

func (g *gen) vstr() string { return strings.ToValidUTF8(g.str(), g.pick("?", "\ufffd", "")) }

func (g *gen) rany(depth int) interface{} {
	g.budget--
	k := g.Intn(8)
	if depth <= 0 || g.budget <= 0 {
		k = g.Intn(5)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return g.p(50)
	case 2:
		return g.float()
	case 3, 4:
		return g.vstr()
	case 5:
		a := make([]interface{}, g.count())
		for i := range a {
			a[i] = g.rany(depth - 1)
		}
		return a
	default:
		m := map[string]interface{}{}
		for i := g.count(); i > 0; i-- {
			m[g.vstr()] = g.rany(depth - 1)
		}
		return m
	}
}

// rfill sets v to a value that encoding and decoding can carry over.
func (g *gen) rfill(v reflect.Value, depth int) {
	t := v.Type()
	g.budget--
	switch t {
	case tNumber:
		v.SetString(g.numberText())
		return
	case tTime:
		v.Set(reflect.ValueOf(g.time()))
		return
	case tAny, tNAny:
		if x := g.rany(depth); x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(g.vstr())
	case reflect.Pointer:
		if g.p(25) || g.budget <= 0 || depth < -2 {
			return
		}
		x := reflect.New(t.Elem())
		g.rfill(x.Elem(), depth-1)
		switch x.Elem().Kind() {
		case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Interface:
			if x.Elem().IsNil() {
				return
			}
		}
		v.Set(x)
	case reflect.Slice:
		if g.p(12) {
			return
		}
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes(g.bytes())
			return
		}
		n := g.count()
		if depth < -2 || g.budget <= 0 {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			g.rfill(s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.rfill(v.Index(i), depth-1)
		}
	case reflect.Map:
		if g.p(12) {
			return
		}
		n := g.count()
		if depth < -2 || g.budget <= 0 {
			n = 0
		}
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			g.rfill(k, 0)
			g.rfill(e, depth-1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous && f.Type.Kind() == reflect.Struct || v.Field(i).CanSet() {
				if hasNumber(f.Type) || !g.p(12) {
					g.rfill(v.Field(i), depth-1)
				}
			}
		}
	default:
		if v.CanSet() {
			g.fill(v, 0)
		}
	}
}

// hasNumber: the zero value contains an empty json.Number (which encodes as 0).
func hasNumber(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return hasNumber(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField() && t != tTime; i++ {
			if hasNumber(t.Field(i).Type) {
				return true
			}
		}
	}
	return t == tNumber
}

var ansiRE = regexp.MustCompile("\x1b\\[[0-9;]*m")

// roundEncode encodes by some entry point with some settings; the result is
// without colours.
func (g *gen) roundEncode(v interface{}, sorted bool) ([]byte, bool, string) {
	c := cfg{html: g.p(50), sort: sorted || g.p(50)}
	if g.p(40) {
		c.pre, c.in = g.pick("", "", " ", "\t"), g.pick("", " ", "\t", "  ")
	}
	var col *jc.Colors
	if g.p(50) {
		col = g.colors()
	}
	o := g.encodeBy(v, c, col)
	if !bytes.Contains(o.out, []byte{0x1b}) {
		return o.out, o.err, o.panic
	}
	return ansiRE.ReplaceAll(o.out, nil), o.err, o.panic
}

func genC17(g *gen, rec *recorder, n int) {
	g.setup(false, false, false, 0, 0)
	for i := 0; i < n; i++ {
		g.fresh(60)
		g.wide = g.picki(0, 0, 10)
		g.huge = g.picki(0, 0, 0, 2)
		if g.p(25) {
			// any document
			doc := g.ws(20) + g.doc(4) + g.ws(20)
			num := g.p(30)
			rec.begin(fmt.Sprintf("fix %q", doc))
			var a1, a2 interface{}
			var e1, e2 []byte
			var err error
			var fl jc.ParseFlags
			if num {
				fl = jc.UseNumber
			}
			c := cfg{html: g.p(50), sort: true}
			pn := guard(func() {
				if _, err = jc.Parse([]byte(doc), &a1, fl); err != nil {
					return
				}
				if e1, err = jc.Append(nil, a1, c.flags(), nil, nil); err != nil {
					return
				}
				if _, err = jc.Parse(e1, &a2, fl); err != nil {
					return
				}
				e2, err = jc.Append(nil, a2, c.flags(), nil, nil)
			})
			p := func(x interface{}) M { return contents(reflect.ValueOf(&x).Elem()) }
			rec.trace(tables(decOpts{num: num}.put(M{"k": "fix", "b": S(doc), "a1": p(a1), "a2": p(a2), "e1": B(e1), "e2": B(e2), "err": err != nil, "pn": pn != ""}), doc))
			continue
		}
		t := g.decType(g.picki(0, 1, 2, 2, 3))
		for !roundable(t, 0) {
			t = g.decType(g.picki(0, 1, 2, 2, 3))
		}
		v := reflect.New(t)
		g.rfill(v.Elem(), 3)
		rec.begin("round " + describe(v.Elem(), cfg{}))
		var x interface{} = v.Interface()
		if g.p(70) {
			x = v.Elem().Interface()
		}
		b, eerr, pn := g.roundEncode(x, false)
		w := reflect.New(t)
		var derr error
		if !eerr && pn == "" {
			o := g.decOpts(0, 20, 10, 20)
			pn = guard(func() { derr = g.wholeDecode(b, w.Interface(), o) })
		}
		rec.trace(tables(decOpts{}.put(M{"k": "round", "ty": desc(t, 12, w.Elem()), "w0": contents(v.Elem()), "w1": contents(w.Elem()),
			"b": B(b), "eerr": eerr, "derr": derr != nil, "pn": pn != ""}), string(b)))
	}
}
