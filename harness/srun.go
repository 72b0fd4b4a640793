package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

// Running behaviours of SessionSys.

func runTrace(t *Trace, cfg Cfg, seed int, keep func(i int, e *Entry) bool) (w *World) {
	return runSession(t, cfg, seed, keep, nil)
}

func runSession(t *Trace, cfg Cfg, seed int, keep func(i int, e *Entry) bool, cv *conversation) (w *World) {
	t.apply(seed)
	seedRandom("session", seed, t.Profile, t.ID, cfg)
	w = newWorld(cfg, cv, t.Idents, seed, t.Profile, t.ID)
	if t.Profile != "edges" && len(t.Log) > 0 && pick(3, "jump", seed, t.Profile, t.ID) == 0 {
		w.jumpAt = pick(len(t.Log), "jump at", seed, t.Profile, t.ID)
	}
	watchFor(func() (string, string, string, int, int, interface{}) {
		return "session", fmt.Sprintf("%s-%d-%d", t.Profile, t.Seed, t.ID), cfg.String(), seed, w.nstep, t
	})
	w.run(t.Log, keep)
	return w
}

// apply chooses the identifiers of the behaviour.
func (t *Trace) apply(seed int) {
	vary("session", seed, t.Profile, t.ID)
	if !t.Varied {
		for _, l := range [][]Entry{t.Log, t.Path, t.Loops, t.Succ} {
			for i := range l {
				l[i].renumber()
			}
		}
		t.Varied = true
	}
}

// watch ends the process when a call does not return.
var (
	watching func() (kind, trace, cfg string, seed, step int, body interface{})
	watch    = time.AfterFunc(time.Hour, func() {
		kind, trace, cfg, seed, step, body := watching()
		nReport = 0
		report(kind, trace, cfg, seed, []Mism{{Class: "hang", Step: step, Detail: "a call did not return"}}, nil, body)
		out.Flush()
		os.Exit(5)
	})
)

// watchFor, patient and watchEnd: conversations that run at the same time are watched otherwise.
func watchFor(f func() (kind, trace, cfg string, seed, step int, body interface{})) {
	if !conc {
		watching = f
	}
}

func patient(turn func()) {
	if conc {
		turn()
	} else {
		watch.Reset(patience)
	}
}

func watchEnd() {
	if !conc {
		watch.Stop()
	}
}

const patience = 45 * time.Second

func (w *World) run(log []Entry, keep func(i int, e *Entry) bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(unknownName); ok && len(w.mism) > 0 {
				return // the behaviour went astray before
			}
			w.bad(w.nstep, "panic:harness", fmt.Sprint(x, " ", string(debug.Stack())))
		}
	}()
	for i := range log {
		if keep == nil || keep(i, &log[i]) {
			if w.rebuilt(&log[i]) {
				w.cov["numbers set forward: rebuilt"]++
				break
			}
			patient(w.turn)
			w.step(i, &log[i])
			w.track(&log[i])
			w.maybeJump(i)
		}
	}
	watchEnd()
}

func sessionTrace(n int, b []byte, seed int, force string) {
	var t Trace
	check(json.Unmarshal(b, &t))
	var cfgs []Cfg
	if force == "all" {
		cfgs = sessionCfgs
	} else if force != "" {
		cfgs = []Cfg{parseCfg(force)}
	} else {
		cfgs = []Cfg{sessionCfgs[pick(len(sessionCfgs), "session cfg", t.ID, t.Seed)]}
	}
	for _, cfg := range cfgs {
		w := runTrace(&t, cfg, seed, nil)
		sum.Traces++
		sum.Steps += len(t.Log)
		addCov(w.cov)
		if len(w.mism) > 0 {
			report("session", fmt.Sprintf("%s-%d-%d", t.Profile, t.Seed, t.ID), cfg.String(), seed, w.mism,
				ablated(func() []string { return ablate(&t, cfg, seed, w.mism[0]) }), t)
		} else if len(sum.Sample) < 2 {
			sum.Sample = append(sum.Sample, sampleOf(&t, cfg))
		}
	}
}

func sampleOf(t *Trace, cfg Cfg) string {
	s := fmt.Sprintf("%s #%d (%s): ", t.Profile, t.ID, cfg)
	for i := range t.Log {
		e := &t.Log[i]
		if i > 7 {
			break
		}
		s += fmt.Sprintf("%s %s>%s m=%d tam=%s ok=%v %s %v; ", e.C.Op, e.C.P, e.C.Q, e.C.M, e.C.Tam, e.OK, e.Why, e.How)
	}
	return s
}

// ablate says what a difference depends on: it is gone without it.
func ablate(t *Trace, cfg Cfg, seed int, m Mism) []string {
	var tags []string
	gone := func(c Cfg, keep func(i int, e *Entry) bool) bool {
		w := runTrace(t, c, seed, keep)
		for _, x := range w.mism {
			if x.Step == m.Step && x.Class == m.Class {
				return false
			}
		}
		return true
	}
	try := func(tag string, applies bool, c Cfg, keep func(i int, e *Entry) bool) {
		if applies && gone(c, keep) {
			tags = append(tags, "needs-"+tag)
		}
	}
	c := cfg
	c.Live = !c.Live
	if cfg.Live {
		try("live", true, c, nil)
	} else {
		try("ser", true, c, nil)
	}
	c = cfg
	c.Reuse = false
	try("reuse", cfg.Reuse, c, nil)
	c = cfg
	c.Long = false
	try("long", cfg.Long, c, nil)
	c = cfg
	c.Proto = !cfg.Proto
	if cfg.Proto {
		try("proto", true, c, nil)
	} else {
		try("json", true, c, nil)
	}
	c = cfg
	c.NilOtk = false
	try("nilotk", cfg.NilOtk, c, nil)
	c = cfg
	c.FromSession = false
	try("fromsession", cfg.FromSession, c, nil)
	c = cfg
	c.Own = false
	try("own", cfg.Own, c, nil)
	plainKeys = true
	try("addr", true, cfg, nil)
	plainKeys = false
	c = cfg
	c.Key = 0
	try("key", cfg.Key != 0, c, nil)
	try("rej", true, cfg, func(i int, e *Entry) bool { return i == m.Step || e.OK })
	third := ""
	if m.Step < len(t.Log) {
		for _, x := range []string{"A", "B", "C"} {
			if x != t.Log[m.Step].C.P && x != t.Log[m.Step].C.Q {
				third = x
			}
		}
	}
	try("third", third != "" && (third == "C" || t.Log[m.Step].C.Q != "-"), cfg, func(i int, e *Entry) bool {
		// what the third party sent to others is needed for the numbers of messages
		return i == m.Step || e.C.P == third && e.C.Op != "dlv" || e.C.P != third && e.C.Q != third ||
			e.C.Op == "enc" || e.C.Op == "bundle" && e.C.P == third
	})
	try("reload", true, cfg, func(i int, e *Entry) bool { return i == m.Step || e.C.Op != "reload" })
	return tags
}

// ---- exhaustive exploration: all the calls in one state

func (e *Eval) clone() *Eval {
	n := newEval()
	for k, v := range e.keys {
		n.keys[k] = v
	}
	for k, v := range e.byPub {
		n.byPub[k] = v
	}
	for k, v := range e.roots {
		n.roots[k] = v
	}
	for k, v := range e.chains {
		c := &chainT{name: v.name, ev: n, cks: append([][]byte{}, v.cks...), mks: map[int]*MK{}}
		for i, m := range v.mks {
			c.mks[i] = m
		}
		n.chains[k] = c
	}
	for k, v := range e.secrets {
		n.secrets[k] = v
	}
	return n
}

func sessionEdges(n int, b []byte, seed int, force string) {
	var t Trace
	check(json.Unmarshal(b, &t))
	t.Profile = "edges"
	t.ID = n
	cfg := sessionCfgs[(n+seed)%len(sessionCfgs)]
	if force != "" {
		cfg = parseCfg(force)
	}
	sort.Slice(t.Succ, func(i, j int) bool { return callKey(&t.Succ[i]) < callKey(&t.Succ[j]) })
	sort.Slice(t.Loops, func(i, j int) bool { return callKey(&t.Loops[i]) < callKey(&t.Loops[j]) })
	t.apply(seed)
	try := func(extra []Entry) {
		x := t
		x.Log = append(append([]Entry{}, t.Path...), extra...)
		w := runTrace(&x, cfg, seed, nil)
		sum.Traces++
		sum.Steps += len(extra)
		if len(w.mism) > 0 {
			report("session", fmt.Sprintf("edges-%d-%d", n, sum.Traces), cfg.String(), seed, w.mism,
				ablated(func() []string { return ablate(&x, cfg, seed, w.mism[0]) }), x)
		}
		for i := range extra {
			e := &extra[i]
			k := e.C.Op
			if e.C.Tam != "none" {
				k += "/" + e.C.Tam
			}
			if e.Why != "" {
				k += "/" + e.Why
			}
			if e.Crash {
				k += "/" + e.C.Crash
			}
			sum.Cov[k]++
		}
	}
	if len(t.Loops) > 0 {
		try(t.Loops)
	}
	for i := range t.Succ {
		try(t.Succ[i : i+1])
	}
	if len(sum.Sample) < 1 && len(t.Succ) > 0 {
		s := t
		s.Log = append(append([]Entry{}, t.Path...), t.Succ[0])
		sum.Sample = append(sum.Sample, sampleOf(&s, cfg))
	}
}

func callKey(e *Entry) string {
	b, _ := json.Marshal(e.C)
	return string(b)
}

func replayFile(b []byte) {
	var r struct {
		Kind string          `json:"kind"`
		Cfg  string          `json:"cfg"`
		Seed int             `json:"seed"`
		Body json.RawMessage `json:"body"`
	}
	check(json.Unmarshal(b, &r))
	saveDir = ""
	switch r.Kind {
	case "session":
		var t Trace
		check(json.Unmarshal(r.Body, &t))
		w := runTrace(&t, parseCfg(r.Cfg), r.Seed, nil)
		sum.Traces++
		sum.Steps += len(t.Log)
		if len(w.mism) > 0 {
			report(r.Kind, "replay", r.Cfg, r.Seed, w.mism, nil, nil)
		}
	case "group":
		var t GTrace
		check(json.Unmarshal(r.Body, &t))
		w := runGroup(&t, parseGCfg(r.Cfg), r.Seed, nil)
		sum.Traces++
		sum.Steps += len(t.Log)
		if len(w.mism) > 0 {
			report(r.Kind, "replay", r.Cfg, r.Seed, w.mism, nil, nil)
		}
	case "kex", "prov", "safety", "sign", "wire", "keygen", "addr", "prim", "conc", "sched", "records", "grecords", "values":
		wireSeed = r.Seed
		var c caseBody
		check(json.Unmarshal(r.Body, &c))
		map[string]func(int, []byte, int){"kex": kexTrace, "prov": provTrace, "safety": safetyTrace, "sign": signTrace, "wire": wireTrace, "keygen": keygenTrace, "addr": addrTrace, "prim": primTrace, "conc": concAgain, "sched": schedTrace, "records": recordsTrace,
			"grecords": grecordsTrace, "values": valuesTrace}[r.Kind](c.N, c.Case, r.Seed)
	default:
		panic("unknown kind " + r.Kind)
	}
}
