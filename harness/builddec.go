package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"

	jc "github.com/neilotoole/jsoncolor"
)

// ---- decodings (EnumDec.tla) ----

type slot struct {
	S        string
	Old, New *wdesc
	V        *slot
	Fs       []slot
}

type decDoc struct {
	B  B
	Ok bool
	W  []wdesc
	S  []slot
}

type decCase struct {
	Ty           tdesc
	W            wdesc
	Num, Dis, Ci bool
	Docs         []decDoc
}

func (c *decCase) flags() jc.ParseFlags {
	var f jc.ParseFlags
	if c.Num {
		f |= jc.UseNumber
	}
	if c.Dis {
		f |= jc.DisallowUnknownFields
	}
	if !c.Ci {
		f |= jc.DontMatchCaseInsensitiveStructFields
	}
	return f
}

func (c *decCase) set(d *jc.Decoder) {
	if c.Num {
		d.UseNumber()
	}
	if c.Dis {
		d.DisallowUnknownFields()
	}
	if !c.Ci {
		d.DontMatchCaseInsensitiveStructFields()
	}
}

// fits: whether a variable may have these contents after a failure.
func (s *slot) fits(m interface{}) bool {
	switch s.S {
	case "one":
		g := canon(m)
		return g == canon(s.Old.node()) || g == canon(s.New.node())
	case "ptr":
		x := m.(M)
		return x["t"] != "ptr" || s.V.fits(x["v"])
	case "st":
		x, ok := m.(M)["fs"].(A)
		if !ok || len(x) != len(s.Fs) {
			return false
		}
		for i := range x {
			if !s.Fs[i].fits(x[i]) {
				return false
			}
		}
	}
	return true
}

func (d *decDoc) differs(how string, t *tdesc, v reflect.Value, err error) string {
	if (err == nil) != d.Ok {
		return fmt.Sprintf("%s of %q into %s: error %v; expected ok %v", how, d.B, goType(t), err, d.Ok)
	}
	if d.Ok && !sameContents(v, &d.W[0]) {
		return fmt.Sprintf("%s of %q into %s: %s, not %s", how, d.B, goType(t), canon(contents(v)), canon(d.W[0].node()))
	}
	if !d.Ok && !d.S[0].fits(contents(v)) {
		return fmt.Sprintf("%s of %q into %s fails and leaves %s, not one of %s", how, d.B, goType(t), canon(contents(v)), canon(d.S[0]))
	}
	return ""
}

// replayDec: what is stored (C11, C12).
func replayDec(g *gen, line []byte) string {
	var c decCase
	check(json.Unmarshal(line, &c))
	for i := range c.Docs {
		d := &c.Docs[i]
		if !c.Num && !c.Dis && c.Ci {
			p := variable(&c.Ty, &c.W)
			b := append([]byte{}, d.B...)
			if r := d.differs("Unmarshal", &c.Ty, p.Elem(), jc.Unmarshal(b, p.Interface())); r != "" {
				return r
			}
			if !bytes.Equal(b, d.B) {
				return "input changed"
			}
		}
		p := variable(&c.Ty, &c.W)
		dec := jc.NewDecoder(bytes.NewReader(d.B))
		c.set(dec)
		if r := d.differs("Decode", &c.Ty, p.Elem(), dec.Decode(p.Interface())); r != "" {
			return r
		}
		for _, zc := range []jc.ParseFlags{0, jc.ZeroCopy} {
			p := variable(&c.Ty, &c.W)
			b := append([]byte{}, d.B...)
			_, err := jc.Parse(b, p.Interface(), c.flags()|zc)
			if r := d.differs("Parse", &c.Ty, p.Elem(), err); r != "" {
				return r
			}
			if !bytes.Equal(b, d.B) {
				return "input changed"
			}
		}
		// Through an interface holding the pointer, and as part of an array.
		var i interface{} = variable(&c.Ty, &c.W).Interface()
		v := reflect.ValueOf(i).Elem()
		if d.isNull() && c.Ty.T == "ptr" {
			continue
		}
		if _, err := jc.Parse(append([]byte{}, d.B...), &i, c.flags()); !d.isNull() {
			if r := d.differs("Parse into an interface", &c.Ty, v, err); r != "" {
				return r
			}
		} else if err != nil || i != nil {
			return fmt.Sprintf("null into an interface: %v, %v", i, err)
		}
	}
	return ""
}

func (d *decDoc) isNull() bool { return string(bytes.TrimSpace(d.B)) == "null" }

// replayKept: what was decoded does not depend on the input (C15).
func replayKept(g *gen, line []byte) string {
	var c decCase
	check(json.Unmarshal(line, &c))
	type kept struct {
		d *decDoc
		v reflect.Value
	}
	var all []kept
	buf := make([]byte, 0, 256)
	var stream []byte
	for i := range c.Docs {
		d := &c.Docs[i]
		buf = append(buf[:0], d.B...) // the same memory every time
		p := variable(&c.Ty, &c.W)
		var err error
		how := "Parse"
		if i%2 == 0 && !c.Num && !c.Dis && c.Ci {
			how, err = "Unmarshal", jc.Unmarshal(buf, p.Interface())
		} else {
			_, err = jc.Parse(buf, p.Interface(), c.flags())
		}
		for j := range buf[:cap(buf)] {
			buf[:cap(buf)][j] = '#'
		}
		if r := d.differs(how+", input overwritten,", &c.Ty, p.Elem(), err); r != "" {
			return r
		}
		if d.Ok {
			all = append(all, kept{d, p.Elem()})
		}
		stream = append(append(stream, d.B...), '\n')
	}
	dec := jc.NewDecoder(&cutReader{data: stream, sizes: []int{g.picki(1, 7, 64, 1000, 100000)}, end: io.EOF})
	c.set(dec)
	for i := range c.Docs {
		d := &c.Docs[i]
		p := variable(&c.Ty, &c.W)
		if r := d.differs("Decode", &c.Ty, p.Elem(), dec.Decode(p.Interface())); r != "" {
			return r
		}
		if d.Ok {
			all = append(all, kept{d, p.Elem()})
		}
	}
	for i := range stream {
		stream[i] = '#'
	}
	for _, k := range all {
		if r := k.d.differs("Earlier decoding", &c.Ty, k.v, nil); r != "" {
			return r
		}
	}
	return ""
}

// replayStreamed: the values of a stream, however it is cut (C13).
func replayStreamed(g *gen, line []byte) string {
	var c decCase
	check(json.Unmarshal(line, &c))
	var b []byte
	order := g.Perm(len(c.Docs))
	ends := make([]int, len(order))
	for i, k := range order {
		b = append(b, g.pick("", " ", "\n", "\t\r\n ")...)
		if i > 0 && len(b) > 0 && !isSpace(b[len(b)-1]) {
			b = append(b, ' ')
		}
		b = append(b, bytes.TrimSpace(c.Docs[k].B)...)
		ends[i] = len(b)
	}
	b = append(b, g.pick("", " ", "\n\n")...)
	sizes := make([]int, g.picki(1, 2, 5))
	for i := range sizes {
		sizes[i] = g.picki(1, 1, 2, 3, 10, 100, 5000)
	}
	rd := &cutReader{data: b, sizes: sizes, zeros: g.picki(0, 0, 5), end: io.EOF}
	dec := jc.NewDecoder(rd)
	c.set(dec)
	for i, k := range order {
		d := &c.Docs[k]
		p := variable(&c.Ty, &c.W)
		if r := d.differs("Decode", &c.Ty, p.Elem(), dec.Decode(p.Interface())); r != "" {
			return r
		}
		if o := dec.InputOffset(); o < int64(ends[i]) || (i+1 < len(order) && o > int64(ends[i+1])) || len(bytes.TrimSpace(b[ends[i]:o])) > 0 {
			return fmt.Sprintf("offset %d after a value that ends at %d", o, ends[i])
		}
		rest, err := io.ReadAll(dec.Buffered())
		if err != nil || !bytes.Equal(rest, b[dec.InputOffset():rd.del]) {
			return fmt.Sprintf("buffered %q, %v", rest, err)
		}
	}
	p := variable(&c.Ty, &c.W)
	if err := dec.Decode(p.Interface()); err != io.EOF { //nolint:errorlint
		return fmt.Sprintf("after the last value: %v", err)
	}
	if !sameContents(p.Elem(), &c.W) {
		return "the end of the stream changes the variable"
	}
	return ""
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// replayParsed: the remainder (C14).
func replayParsed(g *gen, line []byte) string {
	var c decCase
	check(json.Unmarshal(line, &c))
	for i := range c.Docs {
		d := &c.Docs[i]
		for _, tail := range []string{"", " ", ",1", " x", "\n]", "}", "\t{\"a\":[", " 12", "\r\n\"", ":\"\\x"} {
			b := append(append([]byte(g.pick("", " ", "\n")), bytes.TrimSpace(d.B)...), tail...)
			was := append([]byte{}, b...)
			p := variable(&c.Ty, &c.W)
			var zc jc.ParseFlags
			for _, f := range []jc.ParseFlags{jc.DontCopyString, jc.DontCopyNumber, jc.DontCopyRawMessage} {
				if g.p(30) {
					zc |= f
				}
			}
			rest, err := jc.Parse(b, p.Interface(), c.flags()|zc)
			if r := d.differs("Parse", &c.Ty, p.Elem(), err); r != "" {
				return r
			}
			if !bytes.Equal(b, was) {
				return "input changed"
			}
			if want := bytes.TrimLeft([]byte(tail), " \t\r\n"); d.Ok && !bytes.Equal(rest, want) {
				return fmt.Sprintf("Parse of %q leaves %q, not %q", b, rest, want)
			}
		}
	}
	return ""
}
