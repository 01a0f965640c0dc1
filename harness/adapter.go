package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/fatih/color"
	jc "github.com/neilotoole/jsoncolor"
	"github.com/neilotoole/jsoncolor/helper/fatihcolor"
)

// ---- C21: the colour adapter ----

// fatihSet is the set as the specification numbers it.
func fatihSet(c *fatihcolor.Colors) []**color.Color {
	return []**color.Color{&c.Bool, &c.Bytes, &c.Datetime, &c.Null, &c.Number, &c.String, &c.Key, &c.Punc, &c.TextMarshaler}
}

func coreSet(c *jc.Colors) []*jc.Color {
	return []*jc.Color{&c.Bool, &c.Bytes, &c.Time, &c.Null, &c.Number, &c.String, &c.Key, &c.Punc, &c.TextMarshaler}
}

// emits is what c writes before a text, as it is.
func emits(c *color.Color) string {
	if c == nil {
		return ""
	}
	s := c.Sprint("X")
	return s[:strings.IndexByte(s, 'X')]
}

var attrs = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 22, 30, 31, 32, 33, 34, 35, 36, 37, 40, 44, 47, 90, 96, 97, 100, 107}

func (g *gen) attrs() []int {
	switch g.Intn(8) {
	case 0:
		return nil
	case 1:
		return []int{g.picki(38, 48), 5, g.Intn(256)}
	case 2:
		return []int{g.picki(38, 48), 2, g.Intn(256), g.Intn(256), g.Intn(256)}
	}
	var as []int
	for n := g.picki(1, 1, 2, 3, 6); n > 0; n-- {
		as = append(as, attrs[g.Intn(len(attrs))])
	}
	return as
}

func toAttributes(as []int) []color.Attribute {
	var o []color.Attribute
	for _, a := range as {
		o = append(o, color.Attribute(a))
	}
	return o
}

// sharedAttrs are attributes as the specification has them.
func attrList(as []int) A {
	a := A{}
	for _, x := range as {
		a = append(a, x)
	}
	return a
}

func (g *gen) newColor(as []int) *color.Color {
	was := color.NoColor
	if g.p(20) {
		color.NoColor = !was
	}
	old, set := os.LookupEnv("NO_COLOR")
	if g.p(20) {
		check(os.Setenv("NO_COLOR", "1"))
	}
	var c *color.Color
	if len(as) == 5 && as[1] == 2 && g.p(50) {
		if as[0] == 38 {
			c = color.RGB(as[2], as[3], as[4])
		} else {
			c = color.BgRGB(as[2], as[3], as[4])
		}
	} else {
		c = color.New(toAttributes(as)...)
	}
	if color.NoColor = was; set {
		check(os.Setenv("NO_COLOR", old))
	} else {
		check(os.Unsetenv("NO_COLOR"))
	}
	g.own(c)
	return c
}

func (g *gen) own(c *color.Color) {
	switch g.Intn(4) {
	case 0:
		c.EnableColor()
	case 1:
		c.DisableColor()
	}
}

// convert records one conversion of set.
func convertOp(set *fatihcolor.Colors, have []A) (M, *jc.Colors) {
	var before, after []string
	fs := []**color.Color{}
	if set != nil {
		fs = fatihSet(set)
	}
	ptrs := make([]*color.Color, len(fs))
	for i, c := range fs {
		before = append(before, emits(*c))
		ptrs[i] = *c
	}
	glob := color.NoColor
	var out *jc.Colors
	m := M{"k": "fconv", "on": false}
	pn := guard(func() { out = fatihcolor.ToCoreColors(set) })
	same := glob == color.NoColor
	for i, c := range fs {
		after = append(after, emits(*c))
		same = same && before[i] == after[i] && ptrs[i] == *c
	}
	got, own := make(A, 9), make(A, 9)
	for i := range got {
		got[i], own[i] = B{}, B{}
		if out != nil {
			got[i] = append(B{}, *coreSet(out)[i]...)
		}
		if set != nil && *fs[i] != nil {
			c := **fs[i]
			c.EnableColor()
			own[i] = S(emits(&c))
		}
	}
	m["pn"], m["on"], m["got"], m["own"], m["same"] = pn != "", out != nil, got, own, same
	return m, out
}

func genC21(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		color.NoColor = g.p(50)
		g.setup(true, true, true, 0, 5)
		g.fresh(40)
		var set *fatihcolor.Colors
		have := make([]A, 9)
		spec := func() A {
			o := make(A, 9)
			for i := range o {
				if o[i] = have[i]; have[i] == nil {
					o[i] = A{}
				}
			}
			return o
		}
		switch g.Intn(8) {
		case 0: // no set
		case 1: // the default one; what it holds is what it emits
			set = fatihcolor.DefaultColors()
			for i, c := range fatihSet(set) {
				x := **c
				x.EnableColor()
				e := emits(&x)
				as := A{}
				for _, p := range strings.Split(strings.TrimSuffix(strings.TrimPrefix(e, "\x1b["), "m"), ";") {
					var a int
					if _, err := fmt.Sscan(p, &a); err == nil {
						as = append(as, a)
					}
				}
				have[i] = A{as}
			}
		case 2: // one class
			set = &fatihcolor.Colors{}
			i, as := g.Intn(9), g.attrs()
			*fatihSet(set)[i] = g.newColor(as)
			have[i] = A{attrList(as)}
		default:
			set = &fatihcolor.Colors{}
			var shared *color.Color
			var sharedAs []int
			if g.p(30) {
				sharedAs = g.attrs()
				shared = g.newColor(sharedAs)
			}
			for i, c := range fatihSet(set) {
				switch {
				case g.p(15):
				case shared != nil && g.p(50):
					*c, have[i] = shared, A{attrList(sharedAs)}
				default:
					as := g.attrs()
					*c, have[i] = g.newColor(as), A{attrList(as)}
				}
			}
		}
		rec.begin(fmt.Sprintf("converting %v", have))
		ops := []interface{}{M{"k": "fset", "none": set == nil, "set": spec()}}
		var last *jc.Colors
		for k := g.picki(1, 2, 3, 5); k > 0; k-- {
			op, out := convertOp(set, have)
			ops = append(ops, op)
			if last != nil && out != nil && g.p(50) { // an earlier result is the caller's own
				for _, c := range coreSet(last) {
					zap(*c)
				}
			}
			last = out
			if g.p(70) {
				v := g.value(g.picki(0, 1, 2, 3))
				if g.p(40) {
					v = g.any(2)
				}
				c := g.cfg()
				c.sort = true
				kid := &recorder{kid: rec}
				g.exact(kid, v, c, out)
				for _, t := range kid.mem {
					ops = append(ops, t...)
				}
			}
			if set == nil {
				continue
			}
			switch j := g.Intn(9); g.Intn(5) {
			case 0:
				color.NoColor = !color.NoColor
				ops = append(ops, M{"k": "fswitch"})
			case 1:
				if c := *fatihSet(set)[j]; c != nil {
					g.own(c)
					ops = append(ops, M{"k": "fswitch"})
				}
			case 2: // more attributes for a colour (and all classes that share it)
				if c := *fatihSet(set)[j]; c != nil {
					as := g.attrs()
					c.Add(toAttributes(as)...)
					for i, p := range fatihSet(set) {
						if *p == c {
							have[i] = A{append(append(A{}, have[i][0].(A)...), attrList(as)...)}
							ops = append(ops, M{"k": "fadd", "i": i + 1, "at": attrList(as)})
						}
					}
				}
			case 3:
				c := A{}
				if g.p(30) {
					*fatihSet(set)[j], have[j] = nil, nil
				} else {
					as := g.attrs()
					*fatihSet(set)[j], have[j] = g.newColor(as), A{attrList(as)}
					c = have[j]
				}
				ops = append(ops, M{"k": "fput", "i": j + 1, "c": c})
			}
		}
		rec.trace(ops...)
	}
}

// ---- conversions enumerated by EnumColors.tla ----

func replayC21(g *gen, line []byte) string {
	var c struct {
		As   []int  `json:"as"`
		Glob bool   `json:"glob"`
		Own  string `json:"own"`
		Want B      `json:"want"`
	}
	check(json.Unmarshal(line, &c))
	color.NoColor = !c.Glob
	x := color.New(toAttributes(c.As)...)
	if c.Own == "on" {
		x.EnableColor()
	} else if c.Own == "off" {
		x.DisableColor()
	}
	before := emits(x)
	got := fatihcolor.ToCoreColor(x)
	if !bytes.Equal(got, c.Want) {
		return fmt.Sprintf("converted to %q, not %q", got, c.Want)
	}
	if emits(x) != before || color.NoColor == c.Glob {
		return "the colour was changed"
	}
	zap(got)
	if got = fatihcolor.ToCoreColor(x); !bytes.Equal(got, c.Want) {
		return fmt.Sprintf("converted to %q the second time, not %q", got, c.Want)
	}
	x.EnableColor()
	if emits(x) != string(c.Want) {
		return fmt.Sprintf("the colour emits %q, the specification %q", emits(x), c.Want)
	}
	if fatihcolor.ToCoreColor(nil) != nil && len(fatihcolor.ToCoreColor(nil)) != 0 {
		return "no colour converted to one"
	}
	return ""
}
