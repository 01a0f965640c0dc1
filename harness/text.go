package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

// ---- C22: Compact, Indent, HTMLEscape ----

func (g *gen) reformatInput() string {
	g.fresh(50)
	g.wide = g.picki(0, 0, 10)
	w := g.ws
	switch g.Intn(9) {
	case 0:
		return g.grammarInput()
	case 1:
		return g.mutate(w(30) + g.doc(4) + w(30))
	case 2:
		return w(30) + g.deepDoc(g.picki(3, 9, 20, 60)) + w(60)
	case 3:
		return w(50) + g.wideDoc() + w(50)
	case 4: // (not always a document)
		return g.str() + g.str()
	}
	return w(60) + g.doc(4) + w(60)
}

var layouts = []string{"", "", " ", "  ", "\t", "\t\t", ">", "// ", "é", "\n", "\x00", "<&>", "    ", "x{", "\u2028", strings.Repeat("-", 40)}

func genC22(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		var buf *bytes.Buffer
		start := g.pick("", "", "x", "[1, 2]", "<a>", " \n", strings.Repeat("old", 30))
		switch g.Intn(3) {
		case 0:
			buf = bytes.NewBufferString(start)
		case 1: // room to spare, or exactly none
			buf = bytes.NewBuffer(append(make([]byte, 0, len(start)+g.Intn(100)), start...))
		default:
			buf = &bytes.Buffer{}
			buf.WriteString("gone" + start)
			buf.Next(4)
		}
		ops := []interface{}{M{"k": "buffer", "b": S(start)}}
		for k := 1 + g.Intn(4); k > 0; k-- {
			if buf.Len() > 0 && g.p(10) {
				m := g.Intn(buf.Len() + 1)
				buf.Next(m)
				ops = append(ops, M{"k": "drain", "n": m, "now": B(append([]byte{}, buf.Bytes()...))})
			}
			in := g.reformatInput()
			b := []byte(in)
			pre, ind := layouts[g.Intn(len(layouts))], layouts[g.Intn(len(layouts))]
			what := g.pick("compact", "layout", "layout", "html")
			rec.begin(fmt.Sprintf("%s %q prefix %q indent %q", what, in, pre, ind))
			var err error
			pn := guard(func() {
				switch what {
				case "compact":
					err = jc.Compact(buf, b)
				case "layout":
					err = jc.Indent(buf, b, pre, ind)
				default:
					jc.HTMLEscape(buf, b)
				}
			})
			ops = append(ops, M{"k": what, "b": S(in), "pre": S(pre), "in": S(ind), "err": err != nil, "pn": pn != "", "same": string(b) == in,
				"now": B(append([]byte{}, buf.Bytes()...))})
		}
		rec.trace(ops...)
	}
}

func replayC22(g *gen, line []byte) string {
	c := text(line)
	want := ""
	for _, t := range c.Toks {
		want += string(c.B[t.I-1 : t.J])
	}
	old := g.pick("", "old ", "{")
	for _, x := range []struct {
		what, want string
		f          func(*bytes.Buffer, []byte) error
	}{
		{"Compact", want, jc.Compact},
		{"Indent", string(c.Lay), func(d *bytes.Buffer, s []byte) error { return jc.Indent(d, s, ">", ".\t") }},
	} {
		b := []byte(c.B)
		var buf bytes.Buffer
		buf.WriteString(old)
		err := x.f(&buf, b)
		exp := old
		if c.Valid {
			exp += x.want
		}
		if (err == nil) != c.Valid || buf.String() != exp || string(b) != string(c.B) {
			return fmt.Sprintf("%s(%q) = %q, %v, not %q", x.what, c.B, buf.String(), err, exp)
		}
	}
	return ""
}

func replayHTML(g *gen, line []byte) string {
	var c struct{ B, Out B }
	check(json.Unmarshal(line, &c))
	for _, old := range []string{"", "<", "\xe2\x80"} {
		b := []byte(c.B)
		var buf bytes.Buffer
		buf.WriteString(old)
		jc.HTMLEscape(&buf, b)
		if buf.String() != old+string(c.Out) || string(b) != string(c.B) {
			return fmt.Sprintf("HTMLEscape(%q) = %q, not %q", c.B, buf.String(), old+string(c.Out))
		}
	}
	return ""
}
