package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

// B is a byte string, written as a JSON array of integers (the specification
// has no other notion of text).
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	o := make([]byte, 0, 2+4*len(b))
	o = append(o, '[')
	for i, c := range b {
		if i > 0 {
			o = append(o, ',')
		}
		o = strconv.AppendUint(o, uint64(c), 10)
	}
	return append(o, ']'), nil
}

func (b *B) UnmarshalJSON(d []byte) error {
	var is []int
	if err := json.Unmarshal(d, &is); err != nil {
		return err
	}
	*b = make(B, len(is))
	for i, v := range is {
		(*b)[i] = byte(v)
	}
	return nil
}

// S converts a string to B.
func S(s string) B { return B(s) }

// M is a record.
type M map[string]interface{}

// A is a sequence (never null).
type A []interface{}

func (a A) MarshalJSON() ([]byte, error) {
	if len(a) == 0 {
		return []byte("[]"), nil
	}
	return json.Marshal([]interface{}(a))
}

// recorder writes traces (one JSON line each) and keeps the side file that
// says what is being executed, in case the process dies.
type recorder struct {
	w     *bufio.Writer
	f     *os.File
	side  *os.File
	n     int
	only  int
	tick  chan struct{}
	limit int64
	size  int64

	kid *recorder       // of a concurrent caller: only remembers
	mem [][]interface{} // its traces
}

func newRecorder(dir string, only int) *recorder {
	f, err := os.Create(dir + "/events.ndjson")
	check(err)
	side, err := os.Create(dir + "/current")
	check(err)
	r := &recorder{w: bufio.NewWriterSize(f, 1<<20), f: f, side: side, only: only, tick: make(chan struct{}, 1), limit: 1 << 62}
	go r.watch()
	return r
}

const hangAfter = 60 * time.Second

func (r *recorder) watch() {
	for {
		select {
		case <-r.tick:
		case <-time.After(hangAfter):
			fmt.Fprintln(os.Stderr, "HANG: no progress")
			os.Exit(97)
		}
	}
}

func (r *recorder) alive() {
	if r.kid != nil {
		r.kid.alive()
		return
	}
	select {
	case r.tick <- struct{}{}:
	default:
	}
}

// begin notes what is about to be executed.
func (r *recorder) begin(what string) {
	r.alive()
	if r.kid != nil {
		return
	}
	s := fmt.Sprintf("case %d: %s", r.n+1, what)
	if len(s) > 4000 {
		s = s[:4000]
	}
	b := append([]byte(fmt.Sprintf("%-10d", len(s))), s...)
	r.side.WriteAt(b, 0) //nolint:errcheck
}

// trace records one trace; ops are its steps.
func (r *recorder) trace(ops ...interface{}) {
	if r.kid != nil {
		r.mem = append(r.mem, ops)
		return
	}
	r.n++
	if r.only != 0 && r.n != r.only {
		return
	}
	line, err := json.Marshal(M{"id": r.n, "ops": ops})
	check(err)
	r.size += int64(len(line))
	r.w.Write(line)     //nolint:errcheck
	r.w.WriteByte('\n') //nolint:errcheck
	if r.only != 0 && r.n == r.only {
		r.close()
		os.Exit(0)
	}
}

func (r *recorder) close() {
	r.begin("done")
	check(r.w.Flush())
	check(r.f.Close())
	check(r.side.Truncate(0))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
}

// guard runs f; a panic is reported as its text.
func guard(f func()) (pn string) {
	defer func() {
		if x := recover(); x != nil {
			pn = fmt.Sprint(x)
			if len(pn) > 200 {
				pn = pn[:200]
			}
			if os.Getenv("VH_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
	return ""
}

type rng struct{ *rand.Rand }

func newRng(seed int64) *rng { return &rng{rand.New(rand.NewSource(seed))} }

func (r *rng) p(pct int) bool           { return r.Intn(100) < pct }
func (r *rng) pick(ss ...string) string { return ss[r.Intn(len(ss))] }
func (r *rng) picki(ss ...int) int      { return ss[r.Intn(len(ss))] }
func (r *rng) between(lo, hi int) int   { return lo + r.Intn(hi-lo+1) }
