package main

// Several conversations at once: the calls of one round of a case of Conc run at the same
// time, each conversation in its own goroutine. Every conversation must go as it goes alone;
// the harness is built with the race detector, whose reports are read by the check.

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"strings"

	"time"

	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

var conc bool // conversations may run at the same time: leave what is global alone

// yields makes a conversation give way at one in so many of the yield points, if there are any.
var yields func(seed, oneIn uint64)

// conversation is one of several that run at the same time; nil for one that is alone.
type conversation struct {
	begin  chan bool // a call may begin
	end    chan bool // it has ended; false: it was the last one
	inside bool
	shared *sharedThings
}

// sharedThings are what the conversations of an application have in common.
type sharedThings struct {
	sers   [2]*serialize.Serializer
	idents map[string]*identity.KeyPair
}

func newShared() *sharedThings {
	s := &sharedThings{sers: [2]*serialize.Serializer{serialize.NewJSONSerializer(), serialize.NewProtoBufSerializer()},
		idents: map[string]*identity.KeyPair{}}
	for _, p := range []string{"A", "B", "C"} {
		id, err := keyhelper.GenerateIdentityKeyPair()
		check(err)
		s.idents[p] = id
	}
	return s
}

// turn ends the call before, if any, and waits until the next one may begin.
func (cv *conversation) turn() {
	if cv == nil || cv.begin == nil {
		return
	}
	if cv.inside {
		cv.end <- true
	}
	cv.inside = <-cv.begin
}

func (cv *conversation) serializer(proto bool) *serialize.Serializer {
	switch {
	case cv != nil && cv.shared != nil && proto:
		return cv.shared.sers[1]
	case cv != nil && cv.shared != nil:
		return cv.shared.sers[0]
	case proto:
		return serialize.NewProtoBufSerializer()
	}
	return serialize.NewJSONSerializer()
}

func (cv *conversation) identity(p string, gen int) *identity.KeyPair {
	if cv != nil && cv.shared != nil && gen == 0 {
		return cv.shared.idents[p]
	}
	id, err := keyhelper.GenerateIdentityKeyPair()
	check(err)
	return id
}

// ---- cases

type concMember struct {
	Kind string            `json:"kind"`
	Cfg  string            `json:"cfg,omitempty"`
	N    int               `json:"n"`
	B    []json.RawMessage `json:"b"` // the behaviour, or several inputs
}

type concCase struct {
	Kinds   []string     `json:"kinds"`
	Pat     [][]int      `json:"pat"`
	Log     string       `json:"log"`
	Share   bool         `json:"share"`
	Members []concMember `json:"members,omitempty"`
}

var concPool = map[string][]json.RawMessage{}

const (
	concKeep  = 400
	concCalls = 8
)

// concLoad reads behaviours and inputs of other specifications.
func concLoad(with string) {
	conc = true
	log.SetOutput(io.Discard)
	for _, w := range strings.Split(with, ",") {
		k, f, _ := strings.Cut(w, "=")
		all := 0
		lines(f, "0/1", func(n int, b []byte) { all++ })
		lines(f, "0/1", func(n int, b []byte) {
			if strings.HasPrefix(string(b), `{"op":"enc`) {
				return // they need the random source for themselves
			}
			if all <= concKeep || pick(all, "pool", n) < concKeep {
				concPool[k] = append(concPool[k], append([]byte{}, b...))
			}
		})
		if len(concPool[k]) == 0 {
			panic("nothing in " + f)
		}
	}
}

// concAll runs the cases of the shard. The first one finds the library unused, as at the start
// of an application; those without a logger of the application's come before the others.
func concAll(in, shard string, onein, seed int) {
	type item struct {
		n int
		b []byte
		c concCase
	}
	var cold []item
	var rest [2][]item
	lines(in, shard, func(n int, b []byte) {
		x := item{n: n, b: append([]byte{}, b...)}
		check(json.Unmarshal(b, &x.c))
		if x.c.Log == "none" && !x.c.Share && len(x.c.Pat[0]) == len(x.c.Kinds) {
			cold = append(cold, x)
		}
		if pick(onein, "conc", seed, n) == 0 {
			k := 0
			if x.c.Log == "own" {
				k = 1
			}
			rest[k] = append(rest[k], x)
		}
	})
	if len(cold) > 0 {
		x := cold[pick(len(cold), "cold", seed, shard)]
		sum.Cov["at once: first use of the library"]++
		concTrace(x.n, x.b, seed)
	}
	for k, l := range rest {
		if k == 1 {
			silence()
		}
		for _, x := range l {
			concTrace(x.n, x.b, seed)
		}
	}
}

// run plays the conversation and says what went wrong.
func (m *concMember) run(cv *conversation, seed int) (ms []Mism, cov map[string]int, calls int) {
	switch m.Kind {
	case "session":
		var t Trace
		check(json.Unmarshal(m.B[0], &t))
		w := runSession(&t, parseCfg(m.Cfg), seed, nil, cv)
		return w.mism, w.cov, len(t.Log)
	case "group":
		var t GTrace
		check(json.Unmarshal(m.B[0], &t))
		w := runGroupIn(&t, parseGCfg(m.Cfg), seed, nil, cv)
		return w.mism, w.cov, len(t.Log)
	}
	f := map[string]func(int, []byte, int) []Mism{"kex": kexCheck, "prov": provCheck, "safety": safetyCheck, "prim": primCheck}[m.Kind]
	for i, b := range m.B {
		cv.turn()
		for _, x := range f(m.N+i, b, seed) {
			x.Step = i
			ms = append(ms, x)
		}
	}
	return ms, nil, 0
}

func concTrace(n int, b []byte, seed int) {
	var c concCase
	check(json.Unmarshal(b, &c))
	for i, k := range c.Kinds {
		m := concMember{Kind: k, N: n}
		p := concPool[k]
		num := 1
		switch k {
		case "session":
			m.Cfg = sessionCfgs[pick(len(sessionCfgs), "conc cfg", n, i, seed)].String()
		case "group":
			m.Cfg = groupCfgs[pick(len(groupCfgs), "conc cfg", n, i, seed)].String()
		default:
			num = concCalls
		}
		for j := 0; j < num; j++ {
			m.B = append(m.B, p[pick(len(p), "conc", n, i, j, seed)])
		}
		c.Members = append(c.Members, m)
	}
	concRun(n, &c, seed, 1)
}

func concAgain(n int, b []byte, seed int) {
	conc = true
	var c concCase
	check(json.Unmarshal(b, &c))
	concRun(n, &c, seed, 30)
}

func concRun(n int, c *concCase, seed, times int) {
	if len(sum.Sample) < 1 {
		sum.Sample = append(sum.Sample, fmt.Sprintf("conversations %v at once, rounds %v, logger %s, shared %v", c.Kinds, c.Pat, c.Log, c.Share))
	}
	body := func() []byte {
		b, err := json.Marshal(c)
		check(err)
		return b
	}
	for ; times > 0; times-- {
		tally(1, 0, fmt.Sprintf("at once: logger %s, shared %v", c.Log, c.Share))
		if yields != nil {
			yields(uint64(pick(1<<30, "yields", n, seed, times)), uint64(1+pick(6, "yield", n, seed)))
		}
		ms, hang := c.together(seed)
		if yields != nil {
			yields(0, 0)
		}
		if hang {
			nReport = 0
			caseReport("conc", n, body(), seed, []Mism{{Class: "hang", Detail: "a call did not return when others ran"}})
			out.Flush()
			os.Exit(5)
		}
		var all []Mism
		for i := range ms {
			if len(ms[i]) == 0 {
				continue
			}
			// is it so alone?
			alone := map[string]bool{}
			for again := 0; again < 2; again++ {
				x, _, _ := c.Members[i].run(&conversation{}, seed)
				for _, m := range x {
					alone[m.Class] = true
				}
			}
			if !alone[ms[i][0].Class] {
				m := ms[i][0]
				m.Class = "conc:" + m.Class
				m.Detail = fmt.Sprintf("conversation %d (%s), which goes well alone: %s", i+1, c.Kinds[i], m.Detail)
				all = append(all, m)
			}
		}
		if len(all) > 0 {
			caseReport("conc", n, body(), seed, all)
			return
		}
	}
}

// together runs the conversations in rounds.
func (c *concCase) together(seed int) (ms [][]Mism, hang bool) {
	var sh *sharedThings
	if c.Share {
		sh = newShared()
	}
	ms = make([][]Mism, len(c.Members))
	cvs := make([]*conversation, len(c.Members))
	live := make([]bool, len(c.Members))
	for i := range c.Members {
		cv := &conversation{begin: make(chan bool), end: make(chan bool), shared: sh}
		cvs[i], live[i] = cv, true
		go func(i int) {
			defer func() {
				if x := recover(); x != nil {
					ms[i] = append(ms[i], Mism{Class: "panic:harness", Detail: fmt.Sprint(x)})
				}
				if !cv.inside {
					<-cv.begin
				}
				cv.end <- false
			}()
			m, cov, calls := c.Members[i].run(cv, seed)
			ms[i] = m
			tally(0, calls, "")
			tallyMu.Lock()
			addCov(cov)
			tallyMu.Unlock()
		}(i)
	}
	left := len(cvs)
	t := time.NewTimer(time.Hour)
	for r := 0; left > 0; r++ {
		t.Reset(2 * patience)
		var now []int
		for _, i := range c.Pat[r%len(c.Pat)] {
			if live[i-1] {
				now = append(now, i-1)
			}
		}
		for _, i := range now {
			select {
			case cvs[i].begin <- true:
			case <-t.C:
				return ms, true
			}
		}
		for _, i := range now {
			select {
			case more := <-cvs[i].end:
				if !more {
					live[i] = false
					left--
				}
			case <-t.C:
				return ms, true
			}
		}
	}
	return ms, false
}
