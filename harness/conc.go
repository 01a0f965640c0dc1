package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	jc "github.com/neilotoole/jsoncolor"
)

// ---- C18: concurrent and re-entrant use ----

var (
	reentering int32 // callbacks call back into the library
	reentries  int64
	reenterMu  sync.Mutex
	reenterBad []string
)

// deepM is a marshaler that marshals.
type deepM struct{ n int }

func (d deepM) MarshalJSON() ([]byte, error) {
	runtime.Gosched()
	if d.n == 0 {
		return []byte(`"bottom"`), nil
	}
	return jc.Marshal([]interface{}{d.n, deepM{d.n - 1}, map[string]int{"a": d.n, "b": 2}})
}

func deepWant(n int) string {
	if n == 0 {
		return `"bottom"`
	}
	return fmt.Sprintf(`[%d,%s,{"a":%d,"b":2}]`, n, deepWant(n-1), n)
}

// reenter is called from every callback the harness hands to the library.
func reenter() {
	if atomic.LoadInt32(&reentering) == 0 {
		return
	}
	n := int(atomic.AddInt64(&reentries, 1))
	bad := func(f string, a ...interface{}) {
		reenterMu.Lock()
		reenterBad = append(reenterBad, fmt.Sprintf(f, a...))
		reenterMu.Unlock()
	}
	text := strings.Repeat("<", n%40) + fmt.Sprint("n", n)
	esc := strings.Repeat(`\u003c`, n%40) + fmt.Sprint("n", n)
	if n%3 == 0 {
		runtime.Gosched()
	}
	switch n % 8 {
	case 0:
		b, err := jc.Marshal(map[string]interface{}{"z": n, "a": text, "m": []int{n, n}})
		if want := fmt.Sprintf(`{"a":"%s","m":[%d,%d],"z":%d}`, esc, n, n, n); err != nil || string(b) != want {
			bad("inner Marshal: %q, %v, not %q", b, err, want)
		}
	case 1:
		var buf bytes.Buffer
		e := jc.NewEncoder(&buf)
		e.SetEscapeHTML(false)
		e.SetIndent("", " ")
		err := e.Encode(map[string]string{"k": text, "b": "x"})
		if want := fmt.Sprintf("{\n \"b\": \"x\",\n \"k\": \"%s\"\n}\n", text); err != nil || buf.String() != want {
			bad("inner Encode: %q, %v, not %q", buf.String(), err, want)
		}
	case 2:
		var m map[string]interface{}
		err := jc.Unmarshal([]byte(`{"a":"`+esc+`","n":[1,{"x":null}]}`), &m)
		if err != nil || !reflect.DeepEqual(m, map[string]interface{}{"a": text, "n": []interface{}{1.0, map[string]interface{}{"x": nil}}}) {
			bad("inner Unmarshal: %v, %v", m, err)
		}
	case 3:
		b, err := jc.Marshal(deepM{n % 5})
		if err != nil || string(b) != deepWant(n%5) {
			bad("inner nested Marshal: %q, %v", b, err)
		}
	case 4:
		_, err := jc.Marshal(map[string]interface{}{"a": text, "f": func() {}, "z": 1})
		if err == nil {
			bad("inner Marshal of a function succeeds")
		}
	case 5:
		var x []string
		d := jc.NewDecoder(strings.NewReader(`["` + esc + `"] [`))
		if err := d.Decode(&x); err != nil || len(x) != 1 || x[0] != text {
			bad("inner Decode: %v, %v", x, err)
		}
		if err := d.Decode(&x); err != io.ErrUnexpectedEOF { //nolint:errorlint
			bad("inner Decode: %v", err)
		}
	case 6:
		k := 0
		t := jc.NewTokenizer([]byte(`{"a":[1,"` + text + `"]}`))
		for t.Next() {
			k++
		}
		if k != 9 || t.Err != nil {
			bad("inner tokenizer: %d tokens, %v", k, t.Err)
		}
	case 7:
		var s struct {
			A int
			B json.RawMessage
		}
		if r, err := jc.Parse([]byte(`{"a":`+fmt.Sprint(n)+`,"b":[ 1 ]} rest`), &s, 0); err != nil || string(r) != "rest" || s.A != n || string(s.B) != "[ 1 ]" {
			bad("inner Parse: %q, %v, %v", r, err, s)
		}
	}
}

func genC18(g *gen, rec *recorder, n int) {
	bodies := []func(*gen, *recorder, int){genC01, genC02, genC04, genC05, genC05, genC06, genC07, genC07, genC08, genC10, genC11, genC11, genC12, genC13, genC14, genC15, genC16, genC17}
	procs := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(procs)
	for total := 0; total < n; {
		runtime.GOMAXPROCS(g.picki(1, 2, 4, 8, 16))
		atomic.StoreInt32(&reentering, int32(g.picki(0, 1, 1)))
		callers := g.picki(2, 4, 4, 8)
		per := g.picki(2, 5, 10)
		seed := g.Int63()
		var kids []*recorder
		var start, done sync.WaitGroup
		start.Add(1)
		what := ""
		body := 0
		for i := 0; i < callers; i++ {
			// Most callers come in pairs that do the same, on the same new types.
			if i%2 == 0 || g.p(25) {
				seed, body = g.Int63(), g.Intn(len(bodies))
			}
			what += fmt.Sprintf(" %d/%d", body, seed)
			kid := &recorder{kid: rec}
			kids = append(kids, kid)
			done.Add(1)
			go func(s int64, f func(*gen, *recorder, int)) {
				defer done.Done()
				start.Wait()
				f(&gen{rng: &rng{rand.New(rand.NewSource(s))}}, kid, per)
			}(seed, bodies[body])
		}
		rec.begin("concurrently:" + what)
		start.Done()
		fin := make(chan struct{})
		go func() { done.Wait(); close(fin) }()
		for alive := true; alive; {
			select {
			case <-fin:
				alive = false
			case <-time.After(time.Second):
			}
		}
		atomic.StoreInt32(&reentering, 0)
		for _, k := range kids {
			for _, ops := range k.mem {
				rec.trace(ops...)
				total++
			}
		}
		reenterMu.Lock()
		for _, s := range reenterBad {
			rec.trace(M{"k": "check", "ws": A{}, "pn": true, "why": s})
		}
		reenterBad = nil
		reenterMu.Unlock()
	}
}
