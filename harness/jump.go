package main

// Long histories: the specification counts messages one by one, and behaviours with billions
// of them cannot be replayed. The library sees such a history only in the numbers of the
// messages. So once in a behaviour, when the receiver is up to date, both ends of a chain
// are set forward: from then on, message i of this chain has number i + by.

import (
	"bytes"
	"strings"

	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

var farNumbers = []int{128, 256, 16384, 1 << 15, 1 << 16, 1<<16 + 5000, 1 << 24, 1 << 31, 1<<32 - 400000}

type jump struct {
	x    string
	dhs  []string
	from int // first number that is shifted
	by   int
}

func dhNames(d [][]string, n int) []string {
	out := make([]string, n)
	for i := range out {
		a := append([]string{}, d[i]...)
		if len(a) == 2 && a[0] > a[1] {
			a[0], a[1] = a[1], a[0]
		}
		out[i] = strings.Join(a, "+")
	}
	return out
}

func (j *jump) is(x []string, dhs [][]string, n int) bool {
	if j == nil || n != len(j.dhs) || n > len(dhs) || strings.Join(x, "|") != j.x {
		return false
	}
	for i, d := range dhNames(dhs, n) {
		if d != j.dhs[i] {
			return false
		}
	}
	return true
}

// ctr is the number of message i of chain n.
func (w *World) ctr(x []string, dhs [][]string, n, i int) int {
	if w.jmp.is(x, dhs, n) && i >= w.jmp.from {
		return i + w.jmp.by
	}
	return i
}

// prevCtr is the number that announces the end of the chain before sending chain n.
func (w *World) prevCtr(x []string, dhs [][]string, n, prev int) int {
	if n < 2 {
		return prev
	}
	return w.ctr(x, dhs, n-2, prev+1) - 1
}

// track remembers the states that the specification prescribes.
func (w *World) track(e *Entry) {
	c := &e.C
	switch c.Op {
	case "delete":
		delete(w.recs, c.P+c.Q)
	case "reinstall":
		for _, q := range []string{"A", "B", "C"} {
			delete(w.recs, c.P+q)
		}
	}
	if len(e.Post) > 0 {
		w.recs[c.P+c.Q] = &e.Post[0].Rec
	}
}

// rebuilt tells if a call builds the chain that was set forward once more, from an old pre-key
// message: what is rebuilt starts with the old numbers.
func (w *World) rebuilt(e *Entry) bool {
	if w.jmp == nil || len(e.Post) == 0 {
		return false
	}
	return w.jumped(&e.Post[0].Rec) > w.jumped(w.recs[e.C.P+e.C.Q])
}

func (w *World) jumped(r *XRec) (n int) {
	if r == nil {
		return
	}
	for _, l := range [][]XState{r.Cur, r.Prevs} {
		for k := range l {
			s := &l[k]
			if w.jmp.is(s.X, s.Dhs, s.Snd.N) {
				n++
			}
			for j := range s.Rcv {
				if w.jmp.is(s.X, s.Dhs, s.Rcv[j].N) {
					n++
				}
			}
		}
	}
	return
}

// maybeJump looks for a chain whose receiver is up to date.
func (w *World) maybeJump(i int) {
	if w.jmp != nil || w.jumpAt < 0 || i < w.jumpAt || w.statesBad || len(w.mism) > 0 {
		return
	}
	type end struct {
		p, q string
		s    *XState
		c    *XChain
	}
	var snd, rcv []end
	for _, p := range []string{"A", "B", "C"} {
		for _, q := range []string{"A", "B", "C"} {
			r := w.recs[p+q]
			if r == nil {
				continue
			}
			for _, l := range [][]XState{r.Cur, r.Prevs} {
				for k := range l {
					s := &l[k]
					snd = append(snd, end{p, q, s, &s.Snd})
					for j := range s.Rcv {
						rcv = append(rcv, end{p, q, s, &s.Rcv[j]})
					}
				}
			}
		}
	}
	for _, a := range snd {
		j := &jump{x: strings.Join(a.s.X, "|"), dhs: dhNames(a.s.Dhs, a.c.N), from: a.c.I}
		if a.c.I < 1 {
			continue
		}
		var to []end
		n := 0
		for _, b := range snd {
			if j.is(b.s.X, b.s.Dhs, b.c.N) {
				n++
			}
		}
		for _, b := range rcv {
			if j.is(b.s.X, b.s.Dhs, b.c.N) {
				to = append(to, b)
			}
		}
		if n != 1 || len(to) != 1 || to[0].c.I != a.c.I || to[0].p == a.p {
			continue
		}
		j.by = farNumbers[pick(len(farNumbers), "jump to", w.seed)] - a.c.I - pick(4, "just before", w.seed)
		if j.by < 0 {
			continue
		}
		key := w.ev.key(a.c.K).ser()
		w.pending = nil
		ok := w.shift(a.p, a.q, a.c.I, j.by, func(s *record.StateStructure) *record.ChainStructure {
			if s.SenderChain != nil && bytes.Equal(s.SenderChain.SenderRatchetKeyPublic, key) {
				return s.SenderChain
			}
			return nil
		}, true) && w.shift(to[0].p, to[0].q, a.c.I, j.by, func(s *record.StateStructure) *record.ChainStructure {
			for _, c := range s.ReceiverChains {
				if c != nil && bytes.Equal(c.SenderRatchetKeyPublic, key) {
					return c
				}
			}
			return nil
		}, false)
		if ok {
			w.jmp = j
			w.cov["numbers set forward"]++
			return
		}
	}
}

// shift changes the number in one stored chain. It does so only if all is as expected; the
// first of two calls just looks.
func (w *World) shift(p, q string, at, by int, find func(*record.StateStructure) *record.ChainStructure, look bool) bool {
	st := w.ps[p].st
	k := addrKey(addrs[q])
	r, err := w.ser.Session.Deserialize(st.sess[k])
	if err != nil {
		return false
	}
	var got []*record.ChainStructure
	for _, s := range append([]*record.StateStructure{r.SessionState}, r.PreviousStates...) {
		if s != nil {
			if c := find(s); c != nil && c.ChainKey != nil {
				got = append(got, c)
			}
		}
	}
	if len(got) != 1 || int(got[0].ChainKey.Index) != at {
		return false
	}
	got[0].ChainKey.Index += uint32(by)
	w.pending = append(w.pending, func() {
		st.sess[k] = w.ser.Session.Serialize(r)
		delete(st.liveSess, k)
		if st.live {
			st.liveSess[k] = st.parse(st.sess[k])
		}
		w.ps[p].snap = st.snapAll()
	})
	if !look {
		for _, f := range w.pending {
			f()
		}
		w.pending = nil
	}
	return true
}

// setForward lets a new sender key begin with a number other than 0.
func (w *GWorld) setForward(e *GEntry, p *GParty, dist bool) {
	id := e.F[0]
	if pick(3, "ahead", w.seed) != 0 || pick(4, "ahead", w.seed, id) == 0 {
		return
	}
	by := farNumbers[pick(len(farNumbers), "ahead by", w.seed, id)] - pick(6, "just before", w.seed, id)
	k := nameKey(skName(e.C.G, e.C.S))
	r, err := w.ser.SenderKeyRecord.Deserialize(p.st.sk[k])
	if err != nil || r == nil || len(r.SenderKeyStates) != 1 || r.SenderKeyStates[0].KeyID != w.ev.ids[id] ||
		r.SenderKeyStates[0].SenderChainKey.Iteration != 0 {
		return
	}
	r.SenderKeyStates[0].SenderChainKey.Iteration = uint32(by)
	if dist {
		d := w.dists[len(w.dists)-1]
		m, err := protocol.NewSenderKeyDistributionMessageFromBytes(append([]byte{}, d.bytes...), w.ser.SenderKeyDistributionMessage)
		if err != nil || m.Iteration() != 0 {
			return
		}
		d.obj = protocol.NewSenderKeyDistributionMessage(m.ID(), uint32(by), m.ChainKey(), m.SignatureKey(), w.ser.SenderKeyDistributionMessage)
		d.bytes = append([]byte{}, d.obj.Serialize()...)
	}
	p.st.sk[k] = w.ser.SenderKeyRecord.Serialize(r)
	delete(p.st.liveSK, k)
	if p.st.live {
		p.st.liveSK[k] = p.st.parseSK(p.st.sk[k])
	}
	w.ahead[id] = by
	w.cov["g:numbers set forward"]++
}
