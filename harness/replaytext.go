package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"regexp"

	jc "github.com/neilotoole/jsoncolor"
)

// textCase is a case of EnumText.tla.
type textCase struct {
	B       B        `json:"b"`
	Valid   bool     `json:"valid"`
	Arr     bool     `json:"arr"`
	Obj     bool     `json:"obj"`
	Vals    [][2]int `json:"vals"`
	End     string   `json:"end"`
	OwnVals int      `json:"ownvals"`
	OwnEnd  string   `json:"ownend"`
	Toks    []struct {
		I, J, D, Dp, Ix int
		Key             bool
	} `json:"toks"`
	Sound bool `json:"sound"`
	Lay   B    `json:"lay"` // indented by ">" and ".\t" (documents only)
	Dup   bool `json:"dup"` // has a zero followed by a digit somewhere
}

func text(line []byte) (c textCase) {
	check(json.Unmarshal(line, &c))
	return c
}

// hugeRE: perhaps too large for a float64.
var hugeRE = regexp.MustCompile(`[eE]\+?[0-9]{3}`)

func isBlank(b []byte) bool { return len(bytes.Trim(b, " \t\r\n")) == 0 }

func parseAll(b []byte, x interface{}, f jc.ParseFlags) error {
	r, err := jc.Parse(b, x, f)
	if err == nil && len(r) != 0 {
		err = errMarshal
	}
	return err
}

// ---- C09 ----

type skipper struct {
	A int
}

func replayC09(g *gen, line []byte) string {
	c := text(line)
	b := []byte(c.B)
	keep := string(b)
	for _, ctx := range []struct {
		doc  string
		want bool
	}{{keep, c.Valid}, {"[" + keep + "]", c.Arr}, {`{"k":` + keep + `}`, c.Obj}} {
		d := []byte(ctx.doc)
		if jc.Valid(d) != ctx.want {
			return fmt.Sprintf("Valid(%q) = %v", d, !ctx.want)
		}
		var x interface{}
		var raw jc.RawMessage
		for name, err := range map[string]error{
			"Unmarshal into interface": jc.Unmarshal(d, &x), "Parse into interface": parseAll(d, &x, jc.UseNumber), "Parse ZeroCopy": parseAll(d, &x, jc.ZeroCopy|jc.UseNumber),
			"Unmarshal into RawMessage": jc.Unmarshal(d, &raw),
		} {
			if (err == nil) != ctx.want && !(name == "Unmarshal into interface" && hugeRE.MatchString(keep)) {
				return fmt.Sprintf("%s of %q: %v", name, d, err)
			}
		}
		if ctx.want {
			continue
		}
		for _, p := range []interface{}{new(int), new(string), new(bool), new(float64), new([]int), new([]interface{}), new(map[string]interface{}), new([]byte), new(json.Number),
			new([]jc.RawMessage), new(map[string]jc.RawMessage), new(map[string]string), new(skipper), new([2]jc.RawMessage), new(UJ), new(UT), new(*skipper), new([1]skipper), new(map[int]int), new([]map[string]int), new(struct{ K skipper }), new(struct{})} {
			if jc.Unmarshal(d, p) == nil {
				return fmt.Sprintf("Unmarshal accepts %q into %T", d, p)
			}
		}
	}
	if string(b) != keep {
		return "input changed"
	}
	return ""
}

// ---- C06 ----

func replayC06(g *gen, line []byte) string {
	c := text(line)
	want := ""
	for _, t := range c.Toks {
		want += string(c.B[t.I-1 : t.J])
	}
	one := func(what, want string, valid bool, v interface{}, f jc.AppendFlags) string {
		out, err := jc.Append(nil, v, f, nil, nil)
		if !valid {
			if err == nil || len(out) != 0 {
				return fmt.Sprintf("%s of %q: %q, %v", what, c.B, out, err)
			}
			return ""
		}
		if err != nil || string(out) != want {
			return fmt.Sprintf("%s of %q: %q, %v, not %q", what, c.B, out, err, want)
		}
		return ""
	}
	raw := jc.RawMessage(c.B)
	mj := MJ{Out: []byte(c.B)}
	for _, r := range []string{
		one("raw message", want, c.Valid, raw, 0),
		one("raw message in a struct", `{"R":`+want+`}`, c.Valid, struct{ R jc.RawMessage }{raw}, 0),
		one("raw message in a map", `{"k":`+want+`}`, c.Valid, map[string]jc.RawMessage{"k": raw}, jc.SortMapKeys),
		one("raw message in a slice", `[`+want+`,`+want+`]`, c.Valid, []jc.RawMessage{raw, raw}, 0),
		one("marshaler", want, c.Valid, mj, 0),
		one("marshaler in an interface", `[`+want+`]`, c.Valid, []interface{}{mj}, 0),
	} {
		if r != "" {
			return r
		}
	}
	if c.Valid {
		if r := one("trusted raw message", want, true, raw, jc.TrustRawMessage); r != "" && !bytes.ContainsAny(c.B, " \t\r\n") {
			return r
		}
	}
	return ""
}

// ---- C14 ----

func replayC14(g *gen, line []byte) string {
	c := text(line)
	for _, f := range []jc.ParseFlags{0, jc.ZeroCopy, jc.UseNumber | jc.DisallowUnknownFields} {
		for target := 0; target < 2; target++ {
			b := []byte(c.B)
			rest, done := b, 0
			for i, v := range c.Vals {
				var x interface{}
				var raw jc.RawMessage
				var p interface{} = &raw
				if target == 1 {
					p = &x
				}
				r, err := jc.Parse(rest, p, f)
				if target == 1 && f&jc.UseNumber == 0 && err != nil && hugeRE.MatchString(string(c.B)) {
					break // maybe too large for a float64
				}
				val := c.B[v[0]-1 : v[1]]
				if c.Dup && v[1] < len(c.B) && isDigit(c.B[v[1]-1]) && isDigit(c.B[v[1]]) {
					return ""
				}
				if err != nil {
					return fmt.Sprintf("value %d of %q: %v", i, c.B, err)
				}
				if target == 0 && string(raw) != string(val) {
					return fmt.Sprintf("value %d of %q is %q", i, c.B, raw)
				}
				want := bytes.TrimLeft(c.B[v[1]:], " \t\r\n")
				if string(r) != string(want) {
					return fmt.Sprintf("after value %d of %q remains %q", i, c.B, r)
				}
				rest, done = r, done+1
			}
			if done == len(c.Vals) {
				var raw jc.RawMessage
				if _, err := jc.Parse(rest, &raw, f); err == nil {
					return fmt.Sprintf("no more values in %q, but %q parsed as %q", c.B, rest, raw)
				}
			}
			if string(b) != string(c.B) {
				return "input changed"
			}
		}
	}
	return ""
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// ---- C13 ----

// streamRun decodes the stream cut in the given way and compares.
func streamRun(c *textCase, pad int, cuts []int, own, with bool) string {
	data := make([]byte, 0, pad+len(c.B))
	if pad > 0 {
		data = append(data, '0')
		for len(data) < pad {
			data = append(data, ' ')
		}
	}
	data = append(data, c.B...)
	rd := &cutReader{data: data, sizes: cuts, with: with, end: io.EOF}
	vals, end := c.Vals, c.End
	if own {
		rd.end, vals, end = errOwn, vals[:c.OwnVals], c.OwnEnd
	}
	how := fmt.Sprintf("stream %q after %d bytes, pieces %v, own error %v, with data %v: ", c.B, pad, cuts, own, with)
	dec := jc.NewDecoder(rd)
	pos := 0
	where := func() string {
		off := int(dec.InputOffset())
		if off < pos || off > len(data) || !isBlank(data[pos:off]) {
			return fmt.Sprintf("offset %d after a value ending at %d", off, pos)
		}
		u, _ := io.ReadAll(dec.Buffered())
		if off+len(u) != rd.del || string(u) != string(data[off:rd.del]) {
			return fmt.Sprintf("unread view has %d bytes at offset %d of %d delivered", len(u), off, rd.del)
		}
		return ""
	}
	if pad > 0 {
		var raw jc.RawMessage
		if err := dec.Decode(&raw); err != nil || string(raw) != "0" {
			return how + fmt.Sprintf("first value %q, %v", raw, err)
		}
		pos = 1
		if w := where(); w != "" {
			return how + w
		}
	}
	for i, v := range vals {
		if v[1] < len(c.B) && isDigit(c.B[v[1]-1]) && isDigit(c.B[v[1]]) {
			return ""
		}
		var raw jc.RawMessage
		err := dec.Decode(&raw)
		if err != nil || string(raw) != string(c.B[v[0]-1:v[1]]) {
			return how + fmt.Sprintf("value %d: %q, %v", i, raw, err)
		}
		pos = pad + v[1]
		if w := where(); w != "" {
			return how + w
		}
	}
	for i := 0; i < 2; i++ {
		var raw jc.RawMessage
		err := dec.Decode(&raw)
		if got := classify(err); got != end {
			return how + fmt.Sprintf("ends with %s (%v), not %s", got, err, end)
		}
		if w := where(); w != "" {
			return how + w
		}
	}
	return ""
}

func replayC13(g *gen, line []byte) string {
	c := text(line)
	n := len(c.B)
	for mask := 0; mask < 1<<uint(n-1); mask++ {
		if n > 5 && mask != 0 && mask != 1<<uint(n-1)-1 && !g.p(15) {
			continue
		}
		cuts := []int{1}
		for i := 0; i < n-1; i++ {
			if mask>>uint(i)&1 == 1 {
				cuts = append(cuts, 1)
			} else {
				cuts[len(cuts)-1]++
			}
		}
		own, with := g.p(30), g.p(50)
		if r := streamRun(&c, 0, cuts, own, with); r != "" {
			return r
		}
	}
	// the end of the decoder's buffer inside the text
	if g.p(60) && len(c.Vals) == 0 && n > 3 {
		return ""
	}
	j := g.Intn(n + 1)
	if r := streamRun(&c, 32768-j, []int{40000}, g.p(20), g.p(50)); r != "" {
		return r
	}
	return ""
}

// ---- C16 ----

func replayC16(g *gen, line []byte) string {
	c := text(line)
	b := []byte(c.B)
	t := jc.NewTokenizer(b)
	if g.p(50) { // a used tokenizer
		t.Reset([]byte(g.pick(`[{"a":[1,`, `{"a":{"b":`, `]`, `1`, `{"k"`, `[[[[[[[[[[`)))
		for i := g.Intn(14); i > 0 && t.Next(); i-- {
			continue
		}
		t.Reset(b)
	}
	if !zeroTok(t) {
		return fmt.Sprintf("%q: before the first token %+v", c.B, *t)
	}
	for i, w := range c.Toks {
		if !t.Next() {
			if !c.Valid && i+1 == len(c.Toks) && t.Err != nil && w.J < len(c.B) && !isBlank(c.B[w.J:w.J+1]) && w.D == 0 {
				return ""
			}
			return fmt.Sprintf("token %d of %q: no token (%v)", i, c.B, t.Err)
		}
		if string(t.Value) != string(c.B[w.I-1:w.J]) || int(t.Delim) != w.D || t.Depth != w.Dp || t.Index != w.Ix || t.IsKey != w.Key {
			return fmt.Sprintf("token %d of %q: %q delim %q depth %d index %d key %v", i, c.B, t.Value, t.Delim, t.Depth, t.Index, t.IsKey)
		}
	}
	n := 0
	for t.Next() {
		if n++; n > len(b)+2 || c.Sound {
			return fmt.Sprintf("too many tokens in %q", c.B)
		}
	}
	if c.Valid && t.Err != nil {
		return fmt.Sprintf("error at the end of %q: %v", c.B, t.Err)
	}
	failed := t.Err != nil
	for i := 0; i < 3; i++ {
		if t.Next() || (t.Err != nil) != failed || !failed && !zeroTok(t) {
			return fmt.Sprintf("after the end of %q: %v", c.B, t.Err)
		}
	}
	return ""
}
