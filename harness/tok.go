package main

import (
	"fmt"

	jc "github.com/neilotoole/jsoncolor"
)

// ---- C16: the tokenizer ----

func tokenText(g *gen) string {
	g.fresh(50)
	switch g.Intn(6) {
	case 0:
		return g.grammarInput()
	case 1:
		return g.mutate(g.ws(30) + g.doc(4) + g.ws(30))
	case 2:
		return g.deepDoc(g.picki(3, 7, 8, 9, 10, 21))
	case 3:
		d := g.doc(4)
		return d[:g.Intn(len(d)+1)]
	}
	return g.ws(40) + g.doc(4) + g.ws(40)
}

// zeroTok: every exported field has its zero value.
func zeroTok(t *jc.Tokenizer) bool {
	return t.Delim == 0 && t.Value == nil && t.Err == nil && t.Depth == 0 && t.Index == 0 && !t.IsKey
}

// nextOp is one call of Next.
func nextOp(t *jc.Tokenizer, in []byte, text string, pre []byte) M {
	m := M{"k": "tnext", "dp": 0, "ix": 0, "key": false, "delim": 0, "val": B{}, "cls": "", "uq": B{}, "au": B{}, "pre": B(pre), "more": false, "er": false, "zero": false}
	pn := guard(func() {
		more := t.Next()
		m["more"], m["er"], m["zero"] = more, t.Err != nil, zeroTok(t)
		if !more {
			return
		}
		m["dp"], m["ix"], m["key"], m["delim"], m["val"] = t.Depth, t.Index, t.IsKey, int(t.Delim), append(B{}, t.Value...)
		n := 0
		for _, c := range []struct {
			is   bool
			name string
		}{{t.Value.String(), "str"}, {t.Value.Null(), "null"}, {t.Value.True(), "true"}, {t.Value.False(), "false"}, {t.Value.Number(), "num"}} {
			if c.is {
				m["cls"] = c.name
				n++
			}
		}
		if n > 1 {
			m["cls"] = "several"
		}
		if t.Value.String() {
			u := t.Value.Unquote()
			m["uq"] = append(B{}, u...)
			zap(u)
			dst := append(make([]byte, 0, len(pre)+len(text)%7), pre...)
			m["au"] = append(B{}, t.Value.AppendUnquote(dst)...)
		}
	})
	m["pn"] = pn != ""
	m["same"] = string(in) == text
	return m
}

func genC16(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		g.wide = g.picki(0, 0, 8, 20)
		var ops []interface{}
		var t *jc.Tokenizer
		for r := g.picki(1, 1, 2, 3); r > 0; r-- {
			s := tokenText(g)
			in := []byte(s)
			rec.begin(fmt.Sprintf("tokenize %q", s))
			if t == nil {
				t = jc.NewTokenizer(in)
			} else {
				t.Reset(in)
			}
			ops = append(ops, M{"k": "treset", "b": S(s), "pn": false, "zero": zeroTok(t)})
			stop := -1
			if r > 1 && g.p(50) {
				stop = g.Intn(12)
			}
			ended := 0
			for j := 0; ended < 3 && j != stop && j < 2*len(s)+10; j++ {
				var pre []byte
				if g.p(40) {
					pre = []byte(g.pick("x", "prefix ", "\"", "0123456789abcdef"))
				}
				m := nextOp(t, in, s, pre)
				ops = append(ops, m)
				if m["pn"].(bool) {
					ended = 9
				}
				if !m["more"].(bool) {
					ended++
				}
			}
			if ended == 9 {
				break
			}
		}
		rec.trace(ops...)
	}
}
