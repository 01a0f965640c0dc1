package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

// ---- C13: streams ----

var errOwn = errors.New("the reader's own error")

// cutReader hands out data in the pieces given (sizes, then repeated from the
// last), and counts what it has delivered.
type cutReader struct {
	data  []byte
	sizes []int
	i     int
	end   error
	with  bool // the last piece comes together with the end
	zeros int  // this many empty reads in between
	del   int
}

func (c *cutReader) Read(p []byte) (int, error) {
	if c.del == len(c.data) {
		return 0, c.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.zeros > 0 && c.i%3 == 1 {
		c.zeros--
		c.i++
		return 0, nil
	}
	n := 1
	if len(c.sizes) > 0 {
		n = c.sizes[c.i%len(c.sizes)]
	}
	c.i++
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.data[c.del:])
	if c.i < 100 || c.i%997 == 0 {
		reenter()
	}
	c.del += n
	if c.del == len(c.data) && c.with {
		return n, c.end
	}
	return n, nil
}

func classify(err error) string {
	var se *jc.SyntaxError
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF: //nolint:errorlint
		return "eof"
	case err == io.ErrUnexpectedEOF: //nolint:errorlint
		return "uneof"
	case errors.Is(err, errOwn):
		return "own"
	case errors.As(err, &se):
		return "syntax"
	}
	return "type"
}

func ends(b []byte, n int) (head, tail B) {
	if len(b) < n {
		n = len(b)
	}
	return append(B{}, b[:n]...), append(B{}, b[len(b)-n:]...)
}

func (g *gen) sizes(n int) []int {
	switch g.Intn(7) {
	case 0:
		return []int{1}
	case 1:
		return []int{n + 1}
	case 2:
		return []int{g.picki(2, 3, 7)}
	case 3:
		return []int{4096}
	case 4:
		return []int{g.picki(32767, 32768, 32769, 1+g.Intn(n+1))}
	}
	s := make([]int, 1+g.Intn(8))
	for i := range s {
		s[i] = 1 + g.Intn(g.picki(2, 10, 100, 10000))
	}
	return s
}

func (g *gen) blank(n int) string {
	switch g.Intn(3) {
	case 0:
		return strings.Repeat(" ", n)
	case 1:
		return strings.Repeat("\n", n)
	}
	return strings.Repeat(" \t\r\n", n/4+1)[:n]
}

// Texts too long to be recorded as they are: a run of L bytes 'q' (at least
// runLen) is recorded as L / runLen times 'q' and L % runLen times 'r'.  What
// the decoder does to plain text does not depend on what the text is, and
// bytes lost, moved or doubled still show.
const runLen = 4096

func squeeze(b []byte) B {
	o := B{}
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == 'q' {
			j++
		}
		if n := j - i; n >= runLen {
			o = append(o, strings.Repeat("q", n/runLen)+strings.Repeat("r", n%runLen)...)
			i = j
			continue
		}
		if j == i {
			j++
		}
		o = append(o, b[i:j]...)
		i = j
	}
	return o
}

func squeezeAll(x interface{}) interface{} {
	switch x := x.(type) {
	case B:
		return squeeze(x)
	case M:
		for k, v := range x {
			x[k] = squeezeAll(v)
		}
	case A:
		for i, v := range x {
			x[i] = squeezeAll(v)
		}
	}
	return x
}

func genC13(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		big := i%60 == 7
		huge := i%50 == 9
		g.wide = g.picki(0, 0, 8)
		g.huge = g.picki(0, 0, 0, 2)
		k := g.picki(0, 1, 2, 3, 5)
		if big || huge {
			k = 1 + g.Intn(4)
		}
		var text strings.Builder
		var types []reflect.Type
		text.WriteString(g.ws(40))
		for j := 0; j < k; j++ {
			g.fresh(20)
			t := tAny
			if g.p(60) {
				t = g.decType(g.picki(0, 0, 1, 2))
			}
			d := g.aim(g.picki(0, 0, 0, 12), 5, 10).doc(t, 2)
			if big && g.p(60) {
				m := g.picki(4096, 28670, 32760, 32768, 65536, 20000) + g.Intn(20)
				switch g.Intn(6) {
				case 0, 1:
					d = g.blank(m) + d
				case 2:
					t, d = tRaw, "[1,"+g.blank(m)+d+"]"
				case 3:
					t, d = tRaw, `"`+strings.Repeat("s", m)+`"`
				case 4:
					t, d = tRaw, `{"k`+strings.Repeat("k", m/2)+`":`+g.blank(m/2)+d+`}`
				case 5: // the buffer's end falls somewhere near or inside the value
					if r := 32768 - text.Len() - 1 - g.Intn(len(d)+2); r > 0 {
						d = g.blank(r) + d
					}
				}
			}
			if huge && g.p(60) {
				run := strings.Repeat("q", runLen*g.picki(7, 8, 15, 16, 17, 31, 32, 33, 48, 64, 65, 100, 130, 260))
				t = []reflect.Type{tAny, tRaw, tAny}[g.Intn(3)]
				switch g.Intn(5) {
				case 0:
					d = `"` + run + `"`
					if g.p(50) {
						t = tString
					}
				case 1:
					d = `{"a":1,"b":["` + run + `",` + d + `],"c":[2]}`
				case 2:
					d = `["x","` + run + `y\n","` + run + `"]`
				case 3:
					d = `{"` + run + `":` + d + `}`
				default:
					d = `[[` + d + `],"\u0041` + run + g.pick(``, `\"`) + `"]`
				}
			}
			types = append(types, t)
			prev := text.String()
			sep := g.ws(50)
			if sep == "" && prev != "" && !strings.ContainsRune("]}\" \n\t\r", rune(prev[len(prev)-1])) && !strings.ContainsRune("[{\" \n\t\r", rune(d[0])) {
				sep = g.pick(" ", "\n", "\t", "\r\n", "  \n ")
			}
			text.WriteString(sep + d)
		}
		text.WriteString(g.ws(50))
		s := text.String()
		switch {
		case big && g.p(20):
			s += g.blank(32768 + g.Intn(1000))
		case g.p(10):
			s += g.pick("}", "]", ",", ":", "x", "nul", "nulx", "\"", "\"ab", "\"a\\", "\"a\\u00", "\"a\\q", "\"a\x01", "[1,", "[1 ", "[1 2", "{\"a\":", "{\"a\"", "{\"a\" 1", "tru", "trux", "\x00", "\xff", "/", "  {", "-", "-x", "1.", "1.x", "1e", "1e+", "12", "\v", "[]]", "{}}", "{,", "[,", "[1,]")
		case g.p(8) && !big && !huge:
			s = g.mutate(s)
		case g.p(12) && len(s) > 0 && !big:
			s = s[:g.Intn(len(s))]
		}
		rd := &cutReader{data: []byte(s), sizes: g.sizes(len(s)), with: g.p(50), zeros: g.picki(0, 0, 3, 50), end: io.EOF}
		own := g.p(25)
		if own {
			rd.end = errOwn
		}
		o := g.decOpts(15, 10, 10, 0)
		rec.begin(fmt.Sprintf("stream of %d bytes in pieces %v own %v opts %+v: %.1000q", len(s), rd.sizes, own, o, s))
		at := func(n int) int { return n }
		rs := s // as recorded
		if huge {
			rs = string(squeeze([]byte(s)))
			at = func(n int) int { return len(squeeze([]byte(s[:n]))) }
		}
		head := tables(M{"k": "open", "b": S(rs), "own": own, "huge": huge}, rs)
		ops := []interface{}{head}
		dec := jc.NewDecoder(rd)
		o.apply(dec)
		again := 0
		for j := 0; again < 3 && j < len(s)+4; j++ {
			t := tAny
			if j < len(types) {
				t = types[j]
			}
			v := reflect.New(t)
			if g.p(20) && !strings.Contains(s, "null") {
				g.prior(v.Elem(), 2)
			}
			ty := desc(t, 8, v.Elem())
			w0 := contents(v.Elem())
			var err error
			rec.alive()
			pn := guard(func() { err = dec.Decode(v.Interface()) })
			var unread []byte
			if p := guard(func() { unread, _ = io.ReadAll(dec.Buffered()) }); p != "" {
				pn = p
			}
			h, tl := ends(unread, 64)
			off := int(dec.InputOffset())
			if off < 0 || off > len(s) {
				pn = "offset"
				off = 0
			}
			same := off <= rd.del && string(unread) == s[off:rd.del]
			m := M{"k": "snext", "ty": ty, "w0": w0, "res": classify(err), "off": at(off), "del": rd.del,
				"bl": len(unread), "head": h, "tail": tl, "same": same, "pn": pn != ""}
			m["w1"] = contents(v.Elem())
			if err != nil {
				m["w1"] = M{"t": "nil"}
			}
			if huge {
				m["w0"], m["w1"], m["head"], m["tail"] = M(squeezeAll(m["w0"]).(M)), squeezeAll(m["w1"]), B{}, B{}
			}
			ops = append(ops, o.put(m))
			if err != nil && m["res"] != "type" {
				again++
			}
			if pn != "" {
				break
			}
			if g.p(5) && again == 0 { // settings may change between values
				n := g.decOpts(15, 10, 10, 0)
				o.num, o.dis, o.noci = o.num || n.num, o.dis || n.dis, o.noci || n.noci
				o.apply(dec)
			}
		}
		rec.trace(ops...)
	}
}
