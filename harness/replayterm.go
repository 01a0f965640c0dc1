package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strconv"
	"syscall"

	jc "github.com/neilotoole/jsoncolor"
	"golang.org/x/sys/unix"
	"golang.org/x/term"
)

// ---- C19: states enumerated by EnumTerm.tla ----

type termCase struct {
	No     string `json:"no"`
	Force  string `json:"force"`
	Term   string `json:"term"`
	W      string `json:"w"`
	Closed bool   `json:"closed"`
	Yes    bool   `json:"yes"`
}

// openPty returns both ends of a new pseudo-terminal.
func openPty() (master, slave *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	check(err)
	c, err := m.SyscallConn()
	check(err)
	fd := -1
	var e1, e2 error
	check(c.Control(func(p uintptr) {
		if e1 = unix.IoctlSetPointerInt(int(p), unix.TIOCSPTLCK, 0); e1 != nil {
			return
		}
		r, _, en := syscall.Syscall(syscall.SYS_IOCTL, p, unix.TIOCGPTPEER, unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC)
		if fd = int(r); en != 0 {
			var n int
			if n, e2 = unix.IoctlGetInt(int(p), unix.TIOCGPTN); e2 == nil {
				fd, e2 = unix.Open("/dev/pts/"+strconv.Itoa(n), unix.O_RDWR|unix.O_NOCTTY, 0)
			}
		}
	}))
	check(e1)
	check(e2)
	return m, os.NewFile(uintptr(fd), "pty")
}

type fdWriter struct{ f *os.File }

func (w fdWriter) Write(b []byte) (int, error) { return len(b), nil }
func (w fdWriter) Fd() uintptr                 { return w.f.Fd() }

type embedsFile struct{ *os.File }

func setenv(k, v string) {
	if v == "(unset)" {
		check(os.Unsetenv(k))
		return
	}
	check(os.Setenv(k, v))
}

func replayC19(g *gen, line []byte) string {
	var c termCase
	check(json.Unmarshal(line, &c))
	var toClose []io.Closer
	defer func() {
		for _, x := range toClose {
			x.Close() //nolint:errcheck
		}
	}()
	open := func(name string, flag int) *os.File {
		f, err := os.OpenFile(name, flag, 0o600)
		check(err)
		toClose = append(toClose, f)
		return f
	}
	tty := func() *os.File {
		m, s := openPty()
		toClose = append(toClose, m, s)
		return s
	}
	var w io.Writer
	var f *os.File
	var buf bytes.Buffer
	scratch := os.Getenv("VH_SCRATCH")
	switch c.W {
	case "tty":
		f = tty()
		if !term.IsTerminal(int(f.Fd())) {
			check(fmt.Errorf("the pseudo-terminal is no terminal"))
		}
	case "regular":
		f = open(scratch+"/regular", os.O_CREATE|os.O_RDWR)
	case "pipe", "pipewr":
		r, p, err := os.Pipe()
		check(err)
		toClose = append(toClose, r, p)
		if f = p; c.W == "pipe" {
			f = r
		}
	case "null":
		f = open("/dev/null", os.O_RDWR)
	case "dir":
		f = open(scratch, os.O_RDONLY)
	case "socket":
		p, err := unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM, 0)
		check(err)
		f = os.NewFile(uintptr(p[0]), "/dev/tty")
		toClose = append(toClose, f, os.NewFile(uintptr(p[1]), "/dev/tty"))
	case "nil":
	case "buffer":
		w = &buf
	case "nilbuffer":
		w = (*bytes.Buffer)(nil)
	case "wrapper":
		w = bufio.NewWriter(tty())
	case "fdwriter":
		w = fdWriter{tty()}
	case "embeds":
		w = embedsFile{tty()}
	case "discard":
		w = io.Discard
	case "multi":
		w = io.MultiWriter(tty())
	case "nilfile":
		w = (*os.File)(nil)
	default:
		check(fmt.Errorf("no writer %q", c.W))
	}
	if f != nil {
		w = f
	}
	var ext int64
	if c.W == "regular" {
		fi, err := f.Stat()
		check(err)
		ext = fi.Size()
	}
	setenv("NO_COLOR", c.No)
	setenv("FORCE_COLOR", c.Force)
	setenv("TERM", c.Term)
	if c.Closed {
		if g.p(50) { // it was asked about while open
			jc.IsColorTerminal(w)
		}
		check(f.Close())
		for i := 0; i < 3; i++ { // its number now belongs to a terminal
			tty()
		}
	}
	for i := 0; i < 2; i++ {
		if got := jc.IsColorTerminal(w); got != c.Yes {
			return fmt.Sprintf("question %d answered %v, not %v", i+1, got, c.Yes)
		}
	}
	if buf.Len() != 0 {
		return "asking wrote to the writer"
	}
	if c.W == "regular" && !c.Closed {
		if fi, err := f.Stat(); err != nil || fi.Size() != ext {
			return "asking wrote to the file"
		}
	}
	for k, v := range map[string]string{"NO_COLOR": c.No, "FORCE_COLOR": c.Force, "TERM": c.Term} {
		now, set := os.LookupEnv(k)
		if set != (v != "(unset)") || set && now != v {
			return "asking changed " + k
		}
	}
	return ""
}
