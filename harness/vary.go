package main

// The specification only tells identifiers apart. Which ones are used is varied here: ids of
// prekeys, registration ids, addresses and names of groups, among them those at the ends of
// their ranges and those that are easily taken for each other.

import (
	"github.com/prospik/libsignal-protocol-go/protocol"
)

type numbering struct{ otk, spk, reg int }

var (
	num       numbering
	plainKeys bool // stores tell addresses apart by name and device
	addrs     map[string]*protocol.SignalAddress
	groupIDs  map[string]string
)

type addrSet struct {
	names [3]string
	devs  [3]uint32
	group [2]string
}

var addrSets = []addrSet{
	{[3]string{"alice", "bob", "bob"}, [3]uint32{1, 1, 2}, [2]string{"group", "group::alice"}},
	{[3]string{"bob1", "bob", "bob"}, [3]uint32{2, 12, 2}, [2]string{"group", "group1"}},
	{[3]string{"a:1", "a", "a"}, [3]uint32{1, 11, 1}, [2]string{"a:1", "a"}},
	{[3]string{"", "0", ":"}, [3]uint32{0, 0, 0}, [2]string{"", "0"}},
	{[3]string{"Bob", "bob", "bob "}, [3]uint32{1, 1, 1}, [2]string{"G", "g"}},
	{[3]string{"eve", "eve", "eve"}, [3]uint32{1, 257, 65537}, [2]string{"x::eve:1", "x"}},
	{[3]string{"zoë", "zoe\u0308", "zo"}, [3]uint32{4294967295, 4294967295, 2147483648}, [2]string{"é", "e\u0301"}},
	{[3]string{"+155501", "+15550", "+1555"}, [3]uint32{1, 11, 11}, [2]string{"10", "1"}},
	{[3]string{"a.b", "a", "a.b.c"}, [3]uint32{1, 1, 1}, [2]string{"a/b", "a"}},
	{[3]string{"carol:1", "carol", "carol:11"}, [3]uint32{10, 110, 0}, [2]string{"group:carol", "group"}},
}

func init() { choose(addrSets[0]) }

func choose(s addrSet) {
	addrs = map[string]*protocol.SignalAddress{}
	for i, p := range []string{"A", "B", "C"} {
		addrs[p] = protocol.NewSignalAddress(s.names[i], s.devs[i])
	}
	groupIDs = map[string]string{"G": s.group[0], "H": s.group[1]}
}

// vary chooses the identifiers of one behaviour.
func vary(parts ...interface{}) {
	if conc {
		return
	}
	k := pick(2*len(addrSets), "addresses", parts)
	if k >= len(addrSets) {
		k = 0
	}
	choose(addrSets[k])
	num = numbering{pick(8, "otk ids", parts), pick(8, "spk ids", parts), pick(6, "reg ids", parts)}
}

// unvary goes back to the plain ones.
func unvary() {
	choose(addrSets[0])
	num = numbering{}
}

func prekeyID(how, i int) int {
	if i < 0 || i == 16777215 {
		return i
	}
	switch how {
	case 1, 2: // 0 is the first one
		if i == 0 {
			return 77777
		}
		return i - 1
	case 3: // the next byte, group of seven bits, or more
		return i + 125
	case 4:
		return i + 65534
	case 5: // beyond the last resort
		return i + 16777215
	case 6:
		return 1<<32 - 1 - i
	}
	return i
}

func otkID(i int) int { return prekeyID(num.otk, i) }
func spkID(i int) int { return prekeyID(num.spk, i) }
func regID(r int) int {
	switch num.reg {
	case 1: // A has 0
		if r == 101 || r == 0 {
			return 0
		}
	case 2:
		return r + 16383
	case 3:
		return r + 1<<31
	case 4:
		return 1<<32 - 1 - r
	}
	return r
}

// renumber replaces the identifiers in a behaviour, once.
func (e *Entry) renumber() {
	c := &e.C
	c.Otk, c.Spk = otkID(c.Otk), spkID(c.Spk)
	switch c.Tam {
	case "eotk":
		c.Arg = otkID(c.Arg)
	case "espk":
		c.Arg = spkID(c.Arg)
	}
	switch c.Op {
	case "addotk":
		e.B = otkID(e.B)
	case "rotate":
		e.B = spkID(e.B)
	}
	for i := range e.Msgs {
		x := &e.Msgs[i].E
		x.Otk, x.Spk, x.Reg = otkID(x.Otk), spkID(x.Spk), regID(x.Reg)
	}
	state := func(s *XState) {
		s.LReg, s.RReg = regID(s.LReg), regID(s.RReg)
		s.Pend.Otk, s.Pend.Spk = otkID(s.Pend.Otk), spkID(s.Pend.Spk)
	}
	for i := range e.Post {
		p := &e.Post[i]
		for j := range p.Otk {
			p.Otk[j] = otkID(p.Otk[j])
		}
		for j := range p.Spk {
			p.Spk[j] = spkID(p.Spk[j])
		}
		for j := range p.Rec.Cur {
			state(&p.Rec.Cur[j])
		}
		for j := range p.Rec.Prevs {
			state(&p.Rec.Prevs[j])
		}
	}
}
