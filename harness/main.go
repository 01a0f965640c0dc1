package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
)

var gens = map[string]func(*gen, *recorder, int){
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06, "C07": genC07, "C08": genC08,
	"C09": genC09, "C10": genC10, "C11": genC11, "C12": genC12, "C13": genC13,
	"C14": genC14, "C15": genC15, "C16": genC16, "C17": genC17, "C18": genC18, "C20": genC20, "C21": genC21, "C22": genC22, "C23": genC23,
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh gen|replay ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	n := fs.Int("n", 100, "number of traces")
	seed := fs.Int64("seed", 1, "seed")
	out := fs.String("out", ".", "output directory")
	only := fs.Int("only", 0, "record only this trace")
	cases := fs.String("cases", "", "cases to replay")
	check(fs.Parse(os.Args[2:]))
	switch os.Args[1] {
	case "gen":
		f := gens[*prop]
		if f == nil {
			check(fmt.Errorf("no generator for %q", *prop))
		}
		rec := newRecorder(*out, *only)
		f(&gen{rng: newRng(*seed)}, rec, *n)
		rec.close()
		fmt.Println(rec.n)
	case "replay":
		replayAll(*prop, *cases, *out, *seed)
	}
}
