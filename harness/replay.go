package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Replays of behaviours that TLC enumerated from the specification: one case
// per line; each returns what was observed that the specification does not
// say ("" if nothing).
var replays = map[string]func(g *gen, line []byte) string{
	"enc": replayEnc, "strip": replayStrip, "entry": replayEntry, "round": replayRound,
	"sess": replaySess, "dec": replayDec, "kept": replayKept, "streamed": replayStreamed, "parsed": replayParsed,
	"C06": replayC06, "C09": replayC09, "C13": replayC13, "C14": replayC14, "C16": replayC16, "C18": replayC18, "C19": replayC19, "C20": replayC20, "C21": replayC21, "C22": replayC22, "why": replayWhy, "html": replayHTML,
	"towerC01": replayTowerStrip, "towerC02": replayTowerStrip, "towerC03": replayTowerLayout, "towerC05": replayTowerEncode, "towerC06": replayTowerRaw,
	"towerC09": replayTowerAccept, "towerC10": replayTowerUntyped, "towerC11": replayTowerTyped, "towerC13": replayTowerStream, "towerC14": replayTowerParse,
	"wideC01": replayWideStrip, "wideC02": replayWideStrip, "wideC03": replayWideLayout, "wideC04": replayWideEncode, "wideC05": replayWideEncode,
	"wideC06": replayWideRaw, "wideC08": replayWideEntry, "wideC09": replayWideAccept, "wideC10": replayWideUntyped, "wideC11": replayWideTyped,
	"wideC12": replayWideField, "wideC13": replayWideStream, "wideC14": replayWideParse, "wideC15": replayWideKept, "wideC16": replayWideTokens,
	"wideC17": replayWideRound, "wideC20": replayWideTool, "wideC22": replayWideText, "wideC23": replayWideWhy,
	"towerC16": replayTowerTokens, "towerC17": replayTowerRound, "towerC22": replayTowerText,
}

func replayAll(prop, cases, out string, seed int64) {
	f := replays[prop]
	if f == nil {
		check(fmt.Errorf("no replay for %q", prop))
	}
	in, err := os.Open(cases)
	check(err)
	res, err := os.Create(out + "/result.ndjson")
	check(err)
	rec := &recorder{}
	rec.side, err = os.Create(out + "/current")
	check(err)

	lines := make(chan []byte, 1024)
	var mu sync.Mutex
	var n, bad, beat int64
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	if prop == "C18" { // interleavings are under the harness's control
		workers = 1
		runtime.GOMAXPROCS(1)
	}
	shuffle := prop == "C19"      // the environment is shared, and history must not matter
	if shuffle || prop == "C21" { // as is the colour library's switch
		workers = 1
	}
	cur := make([]atomic.Value, workers)
	go func() {
		last := int64(-1)
		for {
			time.Sleep(hangAfter)
			b := atomic.LoadInt64(&beat)
			if b == last {
				for i := range cur {
					if s, _ := cur[i].Load().(string); s != "" {
						rec.begin(s)
						fmt.Fprintln(os.Stderr, "HANG: no progress; one of:", s)
					}
				}
				os.Exit(97)
			}
			last = b
		}
	}()
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			g := &gen{rng: newRng(seed*100 + int64(i))}
			for l := range lines {
				cur[i].Store(string(l))
				why := ""
				if pn := guard(func() { why = f(g, l) }); pn != "" {
					why = "panic: " + pn
				}
				cur[i].Store("")
				atomic.AddInt64(&n, 1)
				atomic.AddInt64(&beat, 1)
				if why != "" && atomic.AddInt64(&bad, 1) <= 20 {
					o, err := json.Marshal(M{"case": json.RawMessage(l), "why": why})
					check(err)
					mu.Lock()
					fmt.Fprintf(res, "%s\n", o)
					mu.Unlock()
				}
			}
		}(i)
	}
	var all []string
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		var s string // TLC writes the JSON text as a string literal
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			check(fmt.Errorf("bad case line: %w", err))
		}
		if shuffle {
			all = append(all, s)
			continue
		}
		lines <- []byte(s)
	}
	check(sc.Err())
	for k := int64(0); shuffle && k < 10; k++ {
		newRng(seed*10+k).Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		for _, s := range all {
			lines <- []byte(s)
		}
	}
	close(lines)
	wg.Wait()
	fmt.Fprintf(res, "{\"count\":%d}\n", n)
	check(res.Close())
	check(rec.side.Truncate(0))
}
