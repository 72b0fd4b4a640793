package main

// The conformance harness: replays behaviours of the specifications on the library and
// prints every difference as a line of JSON, then a summary.
//
//	harness session -in FILE -shard I/N -seed S [-cfg C] [-out DIR]
//	harness mc      (the same; exhaustive exploration)
//	harness group, groupmc   (the same for groups)
//	harness replay FILE

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"sync"
	"time"
)

type Report struct {
	Type  string      `json:"type"`
	Kind  string      `json:"kind"`
	Trace string      `json:"trace"`
	Cfg   string      `json:"cfg"`
	Seed  int         `json:"seed"`
	Mism  []Mism      `json:"mism"`
	Tags  []string    `json:"tags"`
	File  string      `json:"file"`
	Body  interface{} `json:"body,omitempty"`
}

type Summary struct {
	Type   string         `json:"type"`
	Traces int            `json:"traces"`
	Steps  int            `json:"steps"`
	Cov    map[string]int `json:"cov"`
	Sample []string       `json:"sample"`
}

var (
	out     = bufio.NewWriter(os.Stdout)
	sum     = Summary{Type: "sum", Cov: map[string]int{}}
	saveDir string
	nReport int
)

func emit(v interface{}) {
	b, err := json.Marshal(v)
	check(err)
	out.Write(b)
	out.WriteByte('\n')
}

// tally counts; conversations may run at the same time.
func tally(traces, steps int, cov string) {
	tallyMu.Lock()
	defer tallyMu.Unlock()
	sum.Traces += traces
	sum.Steps += steps
	if cov != "" {
		sum.Cov[cov]++
	}
}

var tallyMu sync.Mutex

// caseReport reports what is wrong with one input.
func caseReport(kind string, n int, b []byte, seed int, ms []Mism) {
	if len(ms) > 0 {
		report(kind, fmt.Sprint(n), "", seed, ms, nil, caseBody{n, b})
	}
}

const maxReports = 25

// Finding out what a difference depends on takes several runs; the time for it is limited.
var (
	ablations  int
	ablateTime time.Duration
)

func ablated(f func() []string) []string {
	if nReport >= maxReports || ablations >= 12 || ablateTime > 60*time.Second {
		return []string{"unablated"}
	}
	ablations++
	t0 := time.Now()
	defer func() { ablateTime += time.Since(t0) }()
	return f()
}

// report prints differences; the first ones also go to a file from which they can be replayed.
func report(kind, trace, cfg string, seed int, ms []Mism, tags []string, body interface{}) {
	nReport++
	if nReport > maxReports {
		return
	}
	r := Report{Type: "mism", Kind: kind, Trace: trace, Cfg: cfg, Seed: seed, Mism: ms, Tags: tags}
	if saveDir != "" {
		r.File = filepath.Join(saveDir, fmt.Sprintf("%s-%s-%s.json", kind, strings.NewReplacer("/", "_", " ", "").Replace(trace), strings.ReplaceAll(cfg, ",", "+")))
		f := r
		f.Type = "replay"
		f.Body = body
		b, _ := json.Marshal(f)
		os.MkdirAll(saveDir, 0o755)
		os.WriteFile(r.File, b, 0o644)
	}
	emit(r)
}

// lines calls f with the JSON text of every line of this shard.
func lines(path, shard string, f func(n int, b []byte)) {
	var k, of int
	if _, err := fmt.Sscanf(shard, "%d/%d", &k, &of); err != nil {
		k, of = 0, 1
	}
	fh, err := os.Open(path)
	check(err)
	defer fh.Close()
	r := bufio.NewReaderSize(fh, 1<<20)
	n := 0
	for {
		l, err := r.ReadString('\n')
		if strings.HasPrefix(l, `"@@`) {
			if n%of == k {
				var s string
				check(json.Unmarshal([]byte(strings.TrimSpace(l)), &s))
				f(n, []byte(s[2:]))
			}
			n++
		}
		if err != nil {
			break
		}
	}
}

func addCov(c map[string]int) {
	for k, v := range c {
		sum.Cov[k] += v
	}
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "conc" {
		silence()
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness MODE ...")
		os.Exit(2)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	in := fs.String("in", "", "behaviours")
	shard := fs.String("shard", "0/1", "")
	seed := fs.Int("seed", 1, "")
	cfg := fs.String("cfg", "", "replay configuration")
	with := fs.String("with", "", "files of behaviours, as KIND=FILE,...")
	onein := fs.Int("onein", 1, "replay one state in so many")
	fs.StringVar(&saveDir, "out", "", "directory for failing behaviours")
	fs.Parse(os.Args[2:])
	defer out.Flush()
	if f := os.Getenv("HARNESS_PROFILE"); f != "" {
		fh, err := os.Create(f)
		check(err)
		pprof.StartCPUProfile(fh)
		defer pprof.StopCPUProfile()
	}
	switch mode {
	case "session":
		lines(*in, *shard, func(n int, b []byte) { sessionTrace(n, b, *seed, *cfg) })
	case "mc":
		lines(*in, *shard, func(n int, b []byte) {
			if pick(*onein, "edge", *seed, string(b)) == 0 {
				sessionEdges(n, b, *seed, *cfg)
			}
		})
	case "group":
		lines(*in, *shard, func(n int, b []byte) { groupTrace(n, b, *seed, *cfg) })
	case "groupmc":
		lines(*in, *shard, func(n int, b []byte) {
			if pick(*onein, "edge", *seed, string(b)) == 0 {
				groupEdges(n, b, *seed, *cfg)
			}
		})
	case "kex":
		lines(*in, *shard, func(n int, b []byte) { kexTrace(n, b, *seed) })
	case "keygen":
		lines(*in, *shard, func(n int, b []byte) { keygenTrace(n, b, *seed) })
	case "addr":
		lines(*in, "0/1", func(n int, b []byte) { addrTrace(n, b, *seed) })
	case "prov":
		lines(*in, *shard, func(n int, b []byte) { provTrace(n, b, *seed) })
	case "safety":
		lines(*in, *shard, func(n int, b []byte) { safetyTrace(n, b, *seed) })
	case "prim":
		lines(*in, *shard, func(n int, b []byte) { primTrace(n, b, *seed) })
	case "sched":
		lines(*in, *shard, func(n int, b []byte) { schedTrace(n, b, *seed) })
	case "records":
		lines(*in, *shard, func(n int, b []byte) {
			if pick(*onein, "case", *seed, n) == 0 {
				recordsTrace(n, b, *seed)
			}
		})
	case "grecords":
		lines(*in, *shard, func(n int, b []byte) {
			if pick(*onein, "case", *seed, n) == 0 {
				grecordsTrace(n, b, *seed)
			}
		})
	case "values":
		lines(*in, *shard, func(n int, b []byte) { valuesTrace(n, b, *seed) })
	case "sign":
		lines(*in, *shard, func(n int, b []byte) { signTrace(n, b, *seed) })
	case "wire":
		wireSeed = *seed
		lines(*in, *shard, func(n int, b []byte) { wireTrace(n, b, *seed) })
	case "conc":
		concLoad(*with)
		concAll(*in, *shard, *onein, *seed)
	case "instrument":
		instrument(*in, saveDir)
		return
	case "kexgen":
		kexGen(*onein)
		return
	case "replay":
		b, err := os.ReadFile(fs.Arg(0))
		check(err)
		replayFile(b)
	default:
		fmt.Fprintln(os.Stderr, "unknown mode "+mode)
		os.Exit(2)
	}
	emit(sum)
}
