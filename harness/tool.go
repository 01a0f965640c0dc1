package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/term"
)

// ---- C20: the command ----

// toolRun is one execution of cmd/jc.
type toolRun struct {
	args  []string
	env   []string
	stdin string // "pipe", "file", "null", "dir"
	in    []byte
	out   string // "pipe", "regular", "tty", "full"
	dir   string
	limit bool // nothing can be written to files
}

type toolResult struct {
	rc     int
	out    []byte
	stderr string
}

func (t toolRun) run() toolResult {
	cmd := exec.Command(os.Getenv("VH_JC"), t.args...)
	if t.limit {
		cmd = exec.Command("/bin/sh", append([]string{"-c", `ulimit -f 0; trap '' XFSZ; exec "$0" "$@"`, os.Getenv("VH_JC")}, t.args...)...)
	}
	cmd.Dir = t.dir
	cmd.Env = append([]string{"HOME=" + t.dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}, t.env...)
	var se bytes.Buffer
	cmd.Stderr = &se
	var closers []io.Closer
	defer func() {
		for _, c := range closers {
			c.Close() //nolint:errcheck
		}
	}()
	open := func(name string, flag int) *os.File {
		f, err := os.OpenFile(name, flag, 0o600)
		check(err)
		closers = append(closers, f)
		return f
	}
	switch t.stdin {
	case "pipe":
		cmd.Stdin = bytes.NewReader(t.in)
	case "file":
		check(os.WriteFile(t.dir+"/stdin", t.in, 0o600))
		cmd.Stdin = open(t.dir+"/stdin", os.O_RDONLY)
	case "null":
		cmd.Stdin = open("/dev/null", os.O_RDONLY)
	case "dir":
		cmd.Stdin = open(t.dir, os.O_RDONLY)
	}
	var so bytes.Buffer
	done := make(chan []byte, 1)
	var slave *os.File
	switch t.out {
	case "pipe":
		cmd.Stdout = &so
	case "regular":
		cmd.Stdout = open(t.dir+"/stdout", os.O_CREATE|os.O_TRUNC|os.O_RDWR)
	case "full":
		cmd.Stdout = open("/dev/full", os.O_WRONLY)
	case "tty":
		m, s := openPty()
		_, err := term.MakeRaw(int(s.Fd()))
		check(err)
		closers = append(closers, m)
		cmd.Stdout, slave = s, s
		go func() {
			b, _ := io.ReadAll(m) // ends with EIO once nobody has the other end
			done <- b
		}()
	}
	check(cmd.Start())
	timer := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() }) //nolint:errcheck
	err := cmd.Wait()
	timer.Stop()
	if slave != nil {
		slave.Close() //nolint:errcheck
	}
	r := toolResult{rc: cmd.ProcessState.ExitCode(), stderr: se.String()}
	if _, ok := err.(*exec.ExitError); err != nil && !ok && t.stdin != "pipe" {
		check(err)
	}
	switch t.out {
	case "pipe":
		r.out = so.Bytes()
	case "regular":
		r.out, err = os.ReadFile(t.dir + "/stdout")
		check(err)
	case "tty":
		r.out = <-done
	}
	return r
}

// usage is the text the tool prints after every failure, whatever went wrong.
const usage = `
jc (jsoncolor) is a trivial CLI to demonstrate the neilotoole/jsoncolor package.
It accepts JSON input, and outputs colorized, prettified JSON.
Example Usage:
# Pipe a JSON file, using defaults (colorized and prettified); print to stdout
$ cat testdata/sakila_actor.json | jc
# Read input from a JSON file, print to stdout, DO colorize but DO NOT prettify
$ jc -c -p=false -i ./testdata/sakila_actor.json
# Pipe a JSON input file to jc, outputting to a specified file; and DO NOT prettify
$ cat ./testdata/sakila_actor.json | jc -p=false -o /tmp/out.json`

// message tells if standard error has a line that says more than the usage.
func (r toolResult) message() bool {
	for _, l := range strings.Split(r.stderr, "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.Contains(usage, "\n"+l) {
			return true
		}
	}
	return false
}

func (r toolResult) crashed() bool {
	return r.rc == -1 || strings.Contains(r.stderr, "panic:") || strings.Contains(r.stderr, "fatal error:") || strings.Contains(r.stderr, "goroutine ")
}

func envList(no, force, term string) []string {
	var e []string
	for _, x := range [][2]string{{"NO_COLOR", no}, {"FORCE_COLOR", force}, {"TERM", term}} {
		if x[1] != "(unset)" {
			e = append(e, x[0]+"="+x[1])
		}
	}
	return e
}

// fileBytes is the contents of a file: none, or one byte string.
func fileBytes(name string) A {
	b, err := os.ReadFile(name)
	if err != nil {
		return A{}
	}
	return A{B(b)}
}

// source prepares the input; target the output.  Both return arguments.
func (t *toolRun) source(src string, in []byte) {
	t.in, t.stdin = in, "null"
	switch src {
	case "stdinpipe":
		t.stdin = "pipe"
	case "stdinfile":
		t.stdin = "file"
	case "stdindir":
		t.stdin = "dir"
	case "stdinnull":
	case "iflag":
		check(os.WriteFile(t.dir+"/in.json", in, 0o600))
		t.args = append(t.args, "-i", "in.json")
	case "imissing":
		t.args = append(t.args, "-i", t.dir+"/nowhere/in.json")
	case "idir":
		t.args = append(t.args, "-i", t.dir)
	default:
		check(fmt.Errorf("no source %q", src))
	}
}

// target returns the output file, if any.
func (t *toolRun) target(tgt string, old []byte, abs bool) string {
	t.out = "pipe"
	name := ""
	switch tgt {
	case "pipe", "regular", "tty", "full":
		t.out = tgt
		return ""
	case "onew":
		name = "new.json"
	case "otty": // and there is a terminal, too
		name = "new.json"
		t.out = "tty"
	case "olimit":
		name = "new.json"
		t.limit = true
	case "oold":
		name = "old.json"
		check(os.WriteFile(t.dir+"/"+name, old, 0o600))
	case "olink":
		name = "link.json"
		check(os.WriteFile(t.dir+"/linked.json", old, 0o600))
		check(os.Symlink("linked.json", t.dir+"/"+name))
	case "odirs":
		name = "a/b c/d/new.json"
	case "odir":
		name = "adir"
		check(os.MkdirAll(t.dir+"/adir/full", 0o700))
	case "ounder":
		name = "afile/new.json"
		check(os.WriteFile(t.dir+"/afile", old, 0o600))
	default:
		check(fmt.Errorf("no target %q", tgt))
	}
	arg := name
	if abs {
		arg = filepath.Join(t.dir, name)
	}
	t.args = append(t.args, "-o", arg)
	return filepath.Join(t.dir, name)
}

func flagArg(g *gen, name, v string) []string {
	switch v {
	case "false":
		return []string{g.pick("-", "--") + name + "=" + g.pick("false", "0", "f")}
	case "true":
		return []string{g.pick("-"+name, "--"+name, "-"+name+"=true", "-"+name+"=1")}
	}
	return nil
}

type toolCase struct {
	Run struct {
		In    B      `json:"in"`
		No    string `json:"no"`
		Force string `json:"force"`
		Term  string `json:"term"`
		Rc    int    `json:"rc"`
		Out   B      `json:"out"`
		Msg   bool   `json:"msg"`
		Fb    []B    `json:"fb"`
		Fa    []B    `json:"fa"`
	} `json:"run"`
	Src string `json:"src"`
	Tgt string `json:"tgt"`
	P   string `json:"p"`
	C   string `json:"c"`
}

func scratchDir() (string, func()) {
	d, err := os.MkdirTemp(os.Getenv("VH_SCRATCH"), "run")
	check(err)
	return d, func() { os.RemoveAll(d) } //nolint:errcheck
}

func replayC20(g *gen, line []byte) string {
	var c toolCase
	check(json.Unmarshal(line, &c))
	d, clean := scratchDir()
	defer clean()
	t := toolRun{dir: d, env: envList(c.Run.No, c.Run.Force, c.Run.Term)}
	t.args = append(flagArg(g, "p", c.P), flagArg(g, "c", c.C)...)
	t.source(c.Src, c.Run.In)
	var old []byte
	if len(c.Run.Fb) > 0 {
		old = c.Run.Fb[0]
	}
	file := t.target(c.Tgt, old, g.p(50))
	r := t.run()
	what := fmt.Sprintf("jc %q, input %q: ", t.args, c.Run.In)
	if (r.rc == 0) != (c.Run.Rc == 0) {
		return fmt.Sprintf("%sexit code %d, stderr %q", what, r.rc, r.stderr)
	}
	if r.crashed() {
		return what + "crashed: " + r.stderr
	}
	if c.Run.Msg && !r.message() {
		return what + "failed without an error message"
	}
	if !bytes.Equal(r.out, c.Run.Out) {
		return fmt.Sprintf("%sstandard output %q, not %q", what, r.out, c.Run.Out)
	}
	if file != "" && (c.Run.Rc == 0 || len(c.Run.Fb) > 0) {
		b, err := os.ReadFile(file)
		if err != nil || !bytes.Equal(b, c.Run.Fa[0]) {
			return fmt.Sprintf("%soutput file %q (%v), not %q", what, b, err, c.Run.Fa[0])
		}
	}
	return ""
}

func genC20(g *gen, rec *recorder, n int) {
	for i := 0; i < n; i++ {
		var ops []interface{}
		d, clean := scratchDir()
		prev := ""
		for k := g.picki(1, 1, 1, 2, 3); k > 0; k-- {
			g.fresh(60)
			g.wide = g.picki(0, 0, 10)
			var in string
			switch g.Intn(12) {
			case 0, 1:
				in = g.grammarInput()
			case 2:
				in = g.mutate(g.doc(3))
			case 3:
				in = g.deepDoc(g.picki(3, 9, 30))
			case 4:
				in = g.numberText()
			case 5:
				in = g.doc(2) + g.pick(" ", "\n") + g.pick("", "x", "1", "{}", "]", "\x00", ",")
			case 6: // larger than a pipe's or a reader's buffer
				in = "[" + strings.Repeat(g.pick("[],", "1,", "{\"a\":null},"), g.picki(200, 400, 600)) + g.scalarDoc() + "]"
			case 7: // integers near the limits of the number types
				in = "[" + g.pick("9007199254740993", "-9223372036854775809", "18446744073709551616", "123456789012345678901234567890", "0.1000000000000000055511151231257827", "-0.0", "1.7976931348623157e30", "3.0e-45", "100000000000000000000000") + "]"
			default:
				in = g.ws(40) + g.doc(4) + g.ws(40)
			}
			t := toolRun{dir: d}
			no, force, term := g.pick("(unset)", "(unset)", "", "1"), g.pick("(unset)", "(unset)", "", "1"), g.pick("(unset)", "xterm", "dumb", "xterm-256color")
			t.env = envList(no, force, term)
			fp, fc := g.pick("", "true", "false"), g.pick("", "true", "false")
			t.args = append(flagArg(g, "p", fp), flagArg(g, "c", fc)...)
			rd, dst, wr, chain := true, "stdout", "pipe", false
			file := ""
			var fb A
			if prev != "" && g.p(60) { // the file is rewritten in place
				chain = true
				b, err := os.ReadFile(prev)
				check(err)
				in, file, dst = string(b), prev, "file"
				t.stdin, t.out = "null", "pipe"
				t.args = append(t.args, "-i", prev, "-o", prev)
				fb = fileBytes(file)
			} else {
				src := g.pick("stdinpipe", "stdinfile", "iflag", "stdinpipe", "stdinfile", "iflag", "stdinpipe", "imissing", "idir", "stdinnull", "stdindir")
				rd = src == "stdinpipe" || src == "stdinfile" || src == "iflag"
				t.source(src, []byte(in))
				tgt := g.pick("pipe", "regular", "tty", "onew", "oold", "odirs", "olink", "pipe", "tty", "oold", "otty", "olimit")
				if k > 1 || prev != "" {
					tgt = g.pick("pipe", "tty", "regular", "onew", "onew", "onew")
				}
				file = t.target(tgt, []byte(strings.Repeat("old ", g.picki(1, 300))), g.p(50))
				if file != "" {
					dst = "file"
				} else {
					wr = tgt
				}
				fb = fileBytes(file)
				if tgt == "onew" {
					prev = file
				}
			}
			rec.begin(fmt.Sprintf("jc %q, input %q", t.args, in))
			r := t.run()
			o := M{"k": "run", "in": S(in), "rd": rd, "p": fp != "false", "c": fc != "false", "no": no, "force": force, "term": term,
				"dst": dst, "wr": wr, "can": !t.limit, "rc": r.rc, "out": B(r.out), "msg": r.message(), "pn": r.crashed(), "fb": fb, "fa": A{}}
			if file != "" {
				o["fa"] = fileBytes(file)
			}
			if chain {
				o["chain"] = true
			}
			if prev != "" {
				if _, err := os.Stat(prev); err != nil {
					prev = ""
				}
			}
			ops = append(ops, o)
			if r.rc != 0 {
				break
			}
		}
		clean()
		rec.trace(ops...)
	}
}
