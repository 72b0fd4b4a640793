package main

// Replays the programs of GRecords on sender key records.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grec "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/serialize"
)

type grecState struct {
	ID, It  int
	Ck, Sig string
	Priv    bool
	M       []int
}

type grecOp struct {
	Op, T, Ck, Sig string
	ID, It, M      int
	Yes            bool
}

// grecMk: deriving a message key takes a while, and nothing changes one.
var grecMks = map[string]*ratchet.SenderMessageKey{}

func (v *recEnv) gmk(m int) *ratchet.SenderMessageKey {
	id := fmt.Sprint(m, v.seed)
	if grecMks[id] == nil {
		k, err := ratchet.NewSenderMessageKey(recNum(m), v.bytes(32, fmt.Sprint("g", m)))
		check(err)
		grecMks[id] = k
	}
	return ratchet.NewSenderMessageKeyFromStruct(ratchet.NewStructFromSenderMessageKey(grecMks[id]))
}

func (v *recEnv) sameGmk(g *ratchet.SenderMessageKey, m int) bool {
	w := v.gmk(m)
	return g != nil && g.Iteration() == w.Iteration() && bytes.Equal(g.CipherKey(), w.CipherKey()) &&
		bytes.Equal(g.Iv(), w.Iv()) && bytes.Equal(g.Seed(), w.Seed())
}

func (v *recEnv) gstate(x *grecState) *grec.SenderKeyState {
	var s *grec.SenderKeyState
	if x.Priv {
		s = grec.NewSenderKeyState(recNum(x.ID), recNum(x.It), v.bytes(32, x.Ck), v.ec(x.Sig), v.ser.SenderKeyState)
	} else {
		s = grec.NewSenderKeyStateFromPublicKey(recNum(x.ID), recNum(x.It), v.bytes(32, x.Ck), v.pub(x.Sig), v.ser.SenderKeyState)
	}
	for _, m := range x.M {
		s.AddSenderMessageKey(v.gmk(m))
	}
	return s
}

// grecord puts the states into a record.
func (v *recEnv) grecord(xs []grecState) *grec.SenderKey {
	r := grec.NewSenderKey(v.ser.SenderKeyRecord, v.ser.SenderKeyState)
	for i := range xs {
		x := &xs[i]
		if x.Priv {
			r.SetSenderKeyState(recNum(x.ID), recNum(x.It), v.bytes(32, x.Ck), v.ec(x.Sig))
		} else {
			r.AddSenderKeyState(recNum(x.ID), recNum(x.It), v.bytes(32, x.Ck), v.pub(x.Sig))
		}
		s, err := r.GetSenderKeyStateByID(recNum(x.ID))
		if err != nil {
			return r
		}
		for _, m := range x.M {
			s.AddSenderMessageKey(v.gmk(m))
		}
	}
	return r
}

func (v *recEnv) glook(s *grec.SenderKeyState, x *grecState) string {
	k := s.SigningKey()
	switch {
	case s.KeyID() != recNum(x.ID):
		return "id"
	case s.SenderChainKey().Iteration() != recNum(x.It) || !bytes.Equal(s.SenderChainKey().Seed(), v.bytes(32, x.Ck)):
		return "chain key"
	case k.PublicKey().PublicKey() != v.kp(x.Sig).pub:
		return "signing key"
	case (k.PrivateKey() != nil) != x.Priv:
		return "private signing key"
	}
	if x.Priv {
		if p := k.PrivateKey().Serialize(); !bytes.Equal(p[:], v.kp(x.Sig).priv) {
			return "private signing key"
		}
	}
	has := map[int]bool{}
	for i, m := range x.M {
		if !has[m] && (i < 3 || i >= len(x.M)-3 || i%97 == 0) && !s.HasSenderMessageKey(recNum(m)) {
			return "message key"
		}
		has[m] = true
	}
	for _, m := range []int{0, 1, 2, 4, 7, 2000, 2001, 9999} {
		if s.HasSenderMessageKey(recNum(m)) != has[m] {
			return "message key"
		}
	}
	return ""
}

func (v *recEnv) gstored(s *grec.SenderKeyStateStructure, x *grecState) string {
	if len(s.Keys) != len(x.M) {
		return "number of message keys"
	}
	for i, m := range x.M {
		if (len(x.M) < 10 || i < 3 || i > len(x.M)-3 || i%97 == 0) && !v.sameGmk(ratchet.NewSenderMessageKeyFromStruct(s.Keys[i]), m) {
			return fmt.Sprintf("message key %d", i+1)
		}
	}
	return ""
}

func grecordsTrace(n int, b []byte, seed int) {
	caseReport("grecords", n, b, seed, recBlame(func(save bool) []Mism { return grecordsCheck(n, b, seed, save) }))
}

func grecordsCheck(n int, b []byte, seed int, save bool) (ms []Mism) {
	var c struct {
		Init string
		From []grecState
		Prog []grecOp
		Rec  []grecState
		Det  []grecState
	}
	check(json.Unmarshal(b, &c))
	tally(1, 0, "")
	v := &recEnv{seed, serialize.NewJSONSerializer()}
	if pick(2, "grecords", n, seed) == 0 {
		v.ser = serialize.NewProtoBufSerializer()
	}
	var path []string
	last := "start"
	at := 0
	bad := func(class, f string, a ...interface{}) {
		var tags []string
		if c.Init == "states" || c.Init == "keys" {
			tags = []string{"full"}
		}
		ms = append(ms, Mism{Class: "grec:" + class, Step: at, Tags: tags, Detail: fmt.Sprintf(f, a...) + " in " + c.Init + " after " + strings.Join(path, ", ")})
	}
	var det []*grec.SenderKeyState
	r := guard(func() error {
		rec := v.grecord(c.From)
		for i := range c.Prog {
			op := &c.Prog[i]
			path = append(path, fmt.Sprintf("%s %s %d", op.Op, op.T, op.ID))
			tally(0, 1, "sender key record "+op.Op)
			if !save && (op.Op == "reload" || op.Op == "reloadstate") {
				continue
			}
			at, last = i, op.Op
			var s *grec.SenderKeyState
			var err error
			switch op.T {
			case "det":
				s = det[op.ID-1]
			case "first":
				s, err = rec.SenderKeyState()
			case "id":
				s, err = rec.GetSenderKeyStateByID(recNum(op.ID))
			}
			if err != nil {
				return err
			}
			switch op.Op {
			case "add":
				rec.AddSenderKeyState(recNum(op.ID), recNum(op.It), v.bytes(32, op.Ck), v.pub(op.Sig))
			case "set":
				rec.SetSenderKeyState(recNum(op.ID), recNum(op.It), v.bytes(32, op.Ck), v.ec(op.Sig))
			case "addkey":
				s.AddSenderMessageKey(v.gmk(op.M))
			case "removekey":
				got := s.RemoveSenderMessageKey(recNum(op.M))
				if op.Yes && !v.sameGmk(got, op.M) || !op.Yes && got != nil {
					bad("removekey", "another message key was removed, or none")
				}
			case "chain":
				s.SetSenderChainKey(ratchet.NewSenderChainKey(recNum(op.It), v.bytes(32, op.Ck)))
			case "copy":
				det = append(det, s.Copy())
			case "reloadstate":
				if det[op.ID-1], err = grec.NewSenderKeyStateFromBytes(s.Serialize(), v.ser.SenderKeyState); err != nil {
					return err
				}
			case "reload":
				if rec, err = grec.NewSenderKeyFromBytes(rec.Serialize(), v.ser.SenderKeyRecord, v.ser.SenderKeyState); err != nil {
					return err
				}
			default:
				panic(op.Op)
			}
		}
		last, at = "end", len(c.Prog)
		if rec.IsEmpty() != (len(c.Rec) == 0) {
			bad("empty", "the record is empty: %v", rec.IsEmpty())
		}
		first, err := rec.SenderKeyState()
		if (err == nil) != (len(c.Rec) > 0) {
			bad("first", "first state: %v", err)
			return nil
		}
		st, err := v.ser.SenderKeyRecord.Deserialize(rec.Serialize())
		if err != nil {
			return err
		}
		if len(st.SenderKeyStates) != len(c.Rec) {
			bad("number", "%d states instead of %d", len(st.SenderKeyStates), len(c.Rec))
			return nil
		}
		known := map[int]bool{}
		for i := range c.Rec {
			x := &c.Rec[i]
			known[x.ID] = true
			if len(c.Rec) > 10 && i > 3 && i < len(c.Rec)-3 && i%97 != 0 {
				continue
			}
			s, err := rec.GetSenderKeyStateByID(recNum(x.ID))
			if err != nil || i == 0 && s != first {
				bad("state", "state %d: %v", x.ID, err)
				return nil
			}
			w := v.glook(s, x)
			if w == "" {
				w = v.gstored(st.SenderKeyStates[i], x)
			}
			if w == "" && st.SenderKeyStates[i].KeyID != recNum(x.ID) {
				w = "place"
			}
			if w != "" {
				bad("state", "another %s in state %d", w, x.ID)
				return nil
			}
		}
		for _, id := range []int{0, 1, 2, 3, 4, 5, 6, 10, 11, 2009} {
			if s, err := rec.GetSenderKeyStateByID(recNum(id)); (err == nil) != known[id] || (s != nil) != known[id] {
				bad("found", "state %d is there: %v", id, !known[id])
			}
		}
		for i := range c.Det {
			w := v.glook(det[i], &c.Det[i])
			if w == "" {
				st, err := v.ser.SenderKeyState.Deserialize(det[i].Serialize())
				if err != nil {
					return err
				}
				w = v.gstored(st, &c.Det[i])
			}
			if w != "" {
				bad("copy", "another %s in a copy", w)
			}
		}
		return nil
	})
	if r.pan != "" {
		ms = append(ms, Mism{Class: "panic:grecords", Step: at, Detail: last + ": " + r.pan + " in " + c.Init + " after " + strings.Join(path, ", ")})
	} else if r.err != nil {
		bad(last, "%v", r.err)
	}
	return
}
