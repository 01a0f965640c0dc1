package main

import (
	"encoding/json"
	"fmt"
	"io"
	"strings"

	jc "github.com/neilotoole/jsoncolor"
)

// ---- C18: interleavings enumerated by EnumCalls.tla ----

type callsCase struct {
	Kind  []string            `json:"kind"`
	Sched []int               `json:"sched"`
	Out   [][]json.RawMessage `json:"out"`
}

// actor is one call, run stage by stage.
type actor struct {
	kind    string
	n       int
	started bool
	goOn    chan bool
	at      chan bool // true: finished
	out     string
	err     error
	written []string
}

// gate ends a stage.
func (a *actor) gate() {
	a.at <- false
	<-a.goOn
}

func (a *actor) step() (finished bool) {
	if !a.started {
		a.started = true
		go func() {
			if pn := guard(a.run); pn != "" {
				a.out = "panic: " + pn
			}
			a.at <- true
		}()
	} else {
		a.goOn <- true
	}
	return <-a.at
}

func (a *actor) body(inner bool) string {
	if inner {
		return strings.Repeat(string(rune('p'+a.n)), 300)
	}
	return strings.Repeat(string(rune('a'+a.n)), 500)
}

// gated is the custom marshaler inside every value.
type gated struct {
	a     *actor
	inner bool
}

func (m gated) MarshalJSON() ([]byte, error) {
	if m.inner {
		m.a.gate()
		return []byte(`"in"`), nil
	}
	if m.a.kind == "nest" {
		m.a.gate()
		b, err := jc.Marshal(m.a.value(true))
		return b, err
	}
	m.a.gate()
	if m.a.kind == "merr" {
		return nil, errMarshal
	}
	return []byte(`[ "g" ]`), nil
}

func (m *gated) UnmarshalJSON(b []byte) error {
	m.a.gate()
	m.a.written = append(m.a.written, string(b))
	return nil
}

func (a *actor) value(inner bool) interface{} {
	v := map[string]interface{}{"z": a.body(inner), "m": gated{a, inner}, "a": a.body(inner), "k": a.n}
	if a.n%2 == 1 && !inner {
		return struct {
			A string
			M map[string]gated
			Z []interface{}
		}{a.body(false), map[string]gated{"x": {a, false}}, []interface{}{a.body(false), map[string]string{"b": "B", "a": "A"}}}
	}
	return v
}

func (a *actor) want() string {
	g := `["g"]`
	if a.kind == "nest" {
		g = fmt.Sprintf(`{"a":"%s","k":%d,"m":"in","z":"%s"}`, a.body(true), a.n, a.body(true))
	}
	if a.n%2 == 1 {
		return fmt.Sprintf(`{"A":"%s","M":{"x":%s},"Z":["%s",{"a":"A","b":"B"}]}`, a.body(false), g, a.body(false))
	}
	return fmt.Sprintf(`{"a":"%s","k":%d,"m":%s,"z":"%s"}`, a.body(false), a.n, g, a.body(false))
}

func (a *actor) Write(b []byte) (int, error) {
	at := string(b)
	a.gate()
	a.written = append(a.written, at, string(b))
	if a.kind == "werr" {
		return 0, errWrite
	}
	return len(b), nil
}

// gatedReader delivers one document, suspended before it does.
type gatedReader struct {
	a    *actor
	text string
}

func (r *gatedReader) Read(p []byte) (int, error) {
	if r.text == "" {
		return 0, io.EOF
	}
	r.a.gate()
	n := copy(p, r.text)
	r.text = r.text[n:]
	return n, nil
}

func (a *actor) run() {
	switch a.kind {
	case "mar", "merr":
		var b []byte
		if b, a.err = jc.Marshal(a.value(false)); a.err == nil {
			a.out = string(b)
		}
	case "enc", "werr", "nest":
		a.err = jc.NewEncoder(a).Encode(a.value(false))
		if len(a.written) == 2 && a.written[0] == a.written[1] && a.err == nil {
			a.out = strings.TrimSuffix(a.written[0], "\n")
		} else {
			a.out = fmt.Sprintf("writes %q", a.written)
		}
	case "dec":
		v := struct {
			A string
			M gated
			Z json.RawMessage
		}{M: gated{a: a}}
		text := fmt.Sprintf(`{"a":"%s","m":["g%d"],"z":["%s"]}`, a.body(false), a.n, a.body(true))
		a.err = jc.NewDecoder(&gatedReader{a, text}).Decode(&v)
		if v.A == a.body(false) && string(v.Z) == `["`+a.body(true)+`"]` && len(a.written) == 1 && a.written[0] == fmt.Sprintf(`["g%d"]`, a.n) {
			a.out = "decoded"
		} else {
			a.out = fmt.Sprintf("decoded %+v %q", v, a.written)
		}
	}
}

func replayC18(g *gen, line []byte) string {
	var c callsCase
	check(json.Unmarshal(line, &c))
	as := make([]*actor, len(c.Kind))
	for i, k := range c.Kind {
		as[i] = &actor{kind: k, n: i, goOn: make(chan bool), at: make(chan bool)}
	}
	left := make([]int, len(as))
	for _, i := range c.Sched {
		left[i-1]++
	}
	for _, i := range c.Sched {
		left[i-1]--
		if fin := as[i-1].step(); fin != (left[i-1] == 0) {
			return fmt.Sprintf("call %d (%s) finished: %v, with %d stages left; %s %v", i, c.Kind[i-1], fin, left[i-1], as[i-1].out, as[i-1].err)
		}
	}
	for i, a := range as {
		wantErr := string(c.Out[i][0]) == `"error"`
		want := ""
		if !wantErr {
			if want = a.want(); a.kind == "dec" {
				want = "decoded"
			}
		} else if a.kind == "werr" {
			want = a.out
			if a.err != errWrite || len(a.written) != 2 || a.written[0] != a.want()+"\n" || a.written[1] != a.written[0] { //nolint:errorlint
				return fmt.Sprintf("call %d (%s): %v, wrote %q", i+1, a.kind, a.err, a.written)
			}
		}
		if (a.err != nil) != wantErr || a.out != want {
			return fmt.Sprintf("call %d (%s): %v, %q, not %q", i+1, a.kind, a.err, a.out, want)
		}
	}
	return ""
}
