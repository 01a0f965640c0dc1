package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	jc "github.com/neilotoole/jsoncolor"
)

// ---- histories of encoders (EnumSess.tla) ----

func sessVal(n string) interface{} {
	bad := json.Number("01")
	switch n {
	case "all":
		return map[string]interface{}{"<": []interface{}{1.5, json.RawMessage(`[1, "<"]`)}, "b": "&"}
	case "str":
		return "<"
	case "empty":
		return []interface{}{map[string]int{}, []string{}}
	case "failmap":
		return map[string]interface{}{"a": []interface{}{1.5}, "b": map[string]interface{}{"a": bad}, "<": 1.5}
	case "boommap":
		return map[string]interface{}{"a": []interface{}{1.5}, "b": map[string]interface{}{"a": MJ{Mode: 3}}, "<": 1.5}
	case "failarr":
		return []interface{}{1.5, []interface{}{map[string]interface{}{}, bad}}
	}
	check(fmt.Errorf("no value %q", n))
	return nil
}

func replaySess(g *gen, line []byte) string {
	var c struct {
		N, Fail int
		Ops     []struct {
			E    int
			X, V string
			Res  string
			Outs []B
		}
	}
	check(json.Unmarshal(line, &c))
	ws := make([]*faultyWriter, c.N)
	es := make([]*jc.Encoder, c.N)
	for i := range es {
		ws[i] = &faultyWriter{err: errWrite, partial: g.p(50)}
		if i == 0 {
			ws[i].failAt = c.Fail
		}
		es[i] = jc.NewEncoder(ws[i])
	}
	for i, o := range c.Ops {
		e, w := es[o.E-1], ws[o.E-1]
		switch o.X {
		case "html", "nohtml":
			e.SetEscapeHTML(o.X == "html")
		case "sort", "nosort":
			e.SetSortMapKeys(o.X == "sort")
		case "trust", "notrust":
			e.SetTrustRawMessage(o.X == "trust")
		case "flat":
			e.SetIndent("", "")
		case "indent":
			e.SetIndent("", "  ")
		case "prefix":
			e.SetIndent(">", "")
		case "color":
			e.SetColors(colFull)
		case "nocolor":
			e.SetColors(nil)
		case "":
			calls := w.n
			before := len(w.writes)
			var err error
			if pn, own := guardOwn(func() { err = e.Encode(sessVal(o.V)) }); own {
				err = errMarshal
			} else if pn != "" {
				return fmt.Sprintf("step %d: Encode(%s) panicked: %s", i+1, o.V, pn)
			}
			got := w.writes[before:]
			bad := func(f string, a ...interface{}) string {
				return fmt.Sprintf("step %d: Encode(%s): %q, %v: ", i+1, o.V, got, err) + fmt.Sprintf(f, a...)
			}
			switch o.Res {
			case "ok":
				if err != nil || w.n != calls+1 {
					return bad("one write expected")
				}
				ok := false
				for _, x := range o.Outs {
					ok = ok || bytes.Equal(x, got[0])
				}
				if !ok {
					return bad("not %q", o.Outs)
				}
			case "bad":
				if err == nil || err == errWrite || w.n != calls { //nolint:errorlint
					return bad("an error and no write expected")
				}
			case "fails":
				if err != errWrite || w.n != calls+1 { //nolint:errorlint
					return bad("the writer's error expected")
				}
			default:
				if err != errWrite || w.n != calls { //nolint:errorlint
					return bad("the writer's error expected, and no write")
				}
			}
		default:
			check(fmt.Errorf("no step %q", o.X))
		}
	}
	return ""
}
