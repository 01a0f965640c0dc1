package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"

	jc "github.com/neilotoole/jsoncolor"
)

// ---- C23: what an error says ----

// classes names what errors.As and errors.Is find in an error.
func classes(err error) A {
	if err == nil {
		return A{"none"}
	}
	var (
		out    A
		typ    *jc.UnmarshalTypeError
		utype  *jc.UnsupportedTypeError
		uvalue *jc.UnsupportedValueError
		syntax *jc.SyntaxError
		dest   *jc.InvalidUnmarshalError
		b64    base64.CorruptInputError
	)
	add := func(is bool, class string) {
		if is {
			out = append(out, class)
		}
	}
	add(errors.Is(err, errMarshal), "own")
	add(errors.As(err, &typ), "type")
	add(errors.As(err, &utype), "utype")
	add(errors.As(err, &uvalue), "uvalue")
	add(errors.As(err, &syntax), "syntax")
	add(errors.As(err, &dest), "dest")
	add(errors.As(err, &b64), "base64")
	if out == nil {
		out = A{"other"}
	}
	return out
}

// place is where a type error says it is.
func place(err error) string {
	var e *jc.UnmarshalTypeError
	if errors.As(err, &e) {
		return e.Field
	}
	return ""
}

func genC23(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		switch k := g.Intn(20); {
		case k < 8:
			g.encWhy(rec)
		case k < 19:
			g.decWhy(rec)
		default:
			g.destWhy(rec)
		}
	}
}

func (g *gen) encWhy(rec *recorder) {
	for try := 0; ; try++ {
		g.setup(g.p(50), true, true, g.picki(0, 5, 10, 20), 3)
		c := cfg{html: g.p(50), sort: g.p(80)}
		v := g.value(g.picki(0, 1, 2, 3))
		if g.p(30) {
			v = g.any(g.picki(1, 2, 3))
		}
		x, node := g.top(v)
		rec.begin(describe(v, c))
		var errs []error
		pn := guard(func() {
			_, e1 := jc.Marshal(x)
			_, e2 := jc.MarshalIndent(x, "", " ")
			_, e3 := jc.Append(nil, x, c.flags(), g.colors(), nil)
			enc := jc.NewEncoder(new(bytes.Buffer))
			enc.SetEscapeHTML(c.html)
			enc.SetSortMapKeys(c.sort)
			errs = append(errs, e1, e2, e3, enc.Encode(x), enc.Encode([]interface{}{1, x}))
		})
		got := A{}
		bad := false
		for _, e := range errs {
			got = append(got, classes(e))
			bad = bad || e != nil
		}
		if !bad && pn == "" && try < 20 && g.p(97) {
			continue
		}
		rec.trace(M{"k": "encwhy", "v": node, "cfg": c.M(), "got": got, "pn": pn != ""})
		return
	}
}

func (g *gen) decWhy(rec *recorder) {
	for try := 0; ; try++ {
		g.fresh(60)
		g.wide, g.huge = g.picki(0, 0, 10), g.picki(0, 0, 0, 10)
		t := g.decType(g.picki(0, 0, 1, 1, 2, 3))
		if g.p(15) {
			t = decStructs[g.Intn(len(decStructs))]
		}
		a := g.aim(g.picki(3, 10, 25, 50), g.picki(0, 0, 20), g.picki(0, 30, 60))
		fill := g.p(30)
		a.nulls = !fill
		doc := g.maybeMutate(a.sp()+a.doc(t, 3)+a.sp(), 5)
		o := g.decOpts(15, g.picki(0, 0, 60), 15, 10)
		seed := g.Int63()
		fresh := func() reflect.Value {
			v := reflect.New(t)
			if fill {
				h := *g
				h.rng = newRng(seed)
				h.prior(v.Elem(), 3)
			}
			return v
		}
		v := fresh()
		ty, w0 := desc(t, 12, v.Elem()), contents(v.Elem())
		rec.begin(fmt.Sprintf("decode %q into %s opts %+v", doc, t, o))
		var errs []error
		valid := json.Valid([]byte(doc))
		pn := guard(func() {
			if o == (decOpts{}) {
				errs = append(errs, jc.Unmarshal([]byte(doc), fresh().Interface()))
			}
			if valid || len(errs) == 0 {
				r, err := jc.Parse([]byte(doc), fresh().Interface(), o.flags())
				if err == nil && len(r) != 0 {
					err = new(jc.SyntaxError) // not reported by Parse
				}
				errs = append(errs, err)
			}
			if valid {
				d := jc.NewDecoder(bytes.NewReader([]byte(doc)))
				o.apply(d)
				errs = append(errs, d.Decode(fresh().Interface()))
			}
		})
		got, at := A{}, A{}
		bad := false
		for _, e := range errs {
			got = append(got, classes(e))
			at = append(at, S(place(e)))
			bad = bad || e != nil
		}
		if !bad && pn == "" && try < 20 && g.p(97) {
			continue
		}
		rec.trace(tables(o.put(M{"k": "decwhy", "b": S(doc), "ty": ty, "w0": w0, "got": got, "at": at, "pn": pn != ""}), doc))
		return
	}
}

// destWhy decodes into nothing.
func (g *gen) destWhy(rec *recorder) {
	g.wide, g.huge = 0, 0
	doc := g.maybeMutate(g.ws(30)+g.doc(2)+g.ws(30), 30)
	var x interface{}
	switch g.Intn(6) {
	case 0:
	case 1:
		x = reflect.Zero(g.decType(1)).Interface()
	case 2:
		x = reflect.Zero(reflect.PointerTo(g.decType(1))).Interface()
	case 3:
		x = g.Intn(9)
	case 4:
		x = map[string]interface{}{"a": 1}
	case 5:
		x = DEmb1{}
	}
	if v := reflect.ValueOf(x); v.IsValid() && v.Kind() == reflect.Pointer && !v.IsNil() {
		return
	}
	rec.begin(fmt.Sprintf("decode %q into %T", doc, x))
	var errs []error
	pn := guard(func() {
		errs = append(errs, jc.Unmarshal([]byte(doc), x))
		if json.Valid([]byte(doc)) {
			_, err := jc.Parse([]byte(doc), x, 0)
			errs = append(errs, err, jc.NewDecoder(bytes.NewReader([]byte(doc))).Decode(x))
		}
	})
	got := A{}
	for _, e := range errs {
		got = append(got, classes(e))
	}
	rec.trace(M{"k": "dest", "b": S(doc), "got": got, "pn": pn != ""})
}

// replayWhy: what the errors say about documents that may not suit a variable.
func replayWhy(g *gen, line []byte) string {
	var c struct {
		Ty           tdesc
		W            wdesc
		Num, Dis, Ci bool
		Docs         []struct {
			B   B
			Why []struct {
				Cl string
				At []int
			}
		}
	}
	check(json.Unmarshal(line, &c))
	o := decOpts{num: c.Num, dis: c.Dis, noci: !c.Ci}
	for _, d := range c.Docs {
		differs := func(how string, err error) string {
			got := classes(err)
			ok := len(d.Why) == 0 && err == nil
			for _, w := range d.Why {
				var at string
				there := false // the place holds the text of a key that marshals itself
				for _, x := range w.At {
					there = there || x < 0
					at += string([]byte{byte(x)})
				}
				there = there || at == place(err) || at == place(err)+"."
				for _, c := range got {
					ok = ok || err != nil && (c == w.Cl && (c != "type" || there) || w.Cl == "any")
				}
			}
			if !ok {
				return fmt.Sprintf("%s %q: %v (%v), expected %v", how, d.B, err, got, d.Why)
			}
			return ""
		}
		if !c.Num && !c.Dis && c.Ci {
			if r := differs("Unmarshal", jc.Unmarshal(append([]byte{}, d.B...), variable(&c.Ty, &c.W).Interface())); r != "" {
				return r
			}
		}
		dec := jc.NewDecoder(bytes.NewReader(d.B))
		o.apply(dec)
		if r := differs("Decode", dec.Decode(variable(&c.Ty, &c.W).Interface())); r != "" {
			return r
		}
		_, err := jc.Parse(append([]byte{}, d.B...), variable(&c.Ty, &c.W).Interface(), o.flags()|jc.ZeroCopy)
		if r := differs("Parse", err); r != "" {
			return r
		}
	}
	return ""
}
