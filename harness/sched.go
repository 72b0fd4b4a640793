package main

// Replays the programs of Schedule on the key schedules.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/prospik/libsignal-protocol-go/ecc"
	gratchet "github.com/prospik/libsignal-protocol-go/groups/ratchet"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/root"
	"github.com/prospik/libsignal-protocol-go/keys/session"
	"github.com/prospik/libsignal-protocol-go/ratchet"
)

type schedObj struct {
	T, S string
	R    [][][]string
	I    int
	X    uint32
}

var (
	schedKeys  = map[string]*KP{}
	schedRoots = map[string][]byte{}
)

func schedKey(name string, seed int) *KP {
	id := fmt.Sprint(name, seed)
	tallyMu.Lock()
	defer tallyMu.Unlock()
	if schedKeys[id] == nil {
		schedKeys[id] = newKP("sched", name, seed)
	}
	return schedKeys[id]
}

// schedChain is the root key and the first chain key after the agreements.
func schedChain(r [][][]string, seed int) (rk, ck []byte) {
	id := fmt.Sprint(r, seed)
	tallyMu.Lock()
	d := schedRoots[id]
	tallyMu.Unlock()
	if d == nil {
		d = schedDerive(r, seed)
		tallyMu.Lock()
		schedRoots[id] = d
		tallyMu.Unlock()
	}
	return d[:32], d[32:]
}

func schedDerive(r [][][]string, seed int) []byte {
	var parts [][]byte
	for _, p := range r[0] {
		parts = append(parts, x25519(schedKey(p[0], seed).priv, schedKey(p[1], seed).pub))
	}
	d := x3dhSecret(parts...)
	for _, p := range r[1:] {
		d = hkdf(x25519(schedKey(p[0][0], seed).priv, schedKey(p[0][1], seed).pub), d[:32], []byte("WhisperRatchet"), 64)
	}
	return d
}

// schedWant is what the object must show.
func schedWant(o schedObj, seed int) []interface{} {
	var rk, ck []byte
	if o.S != "" {
		ck = prand(32, "sched", o.S, seed)
	} else {
		rk, ck = schedChain(o.R, seed)
	}
	for i := 0; i < o.I; i++ {
		ck = hmac256(ck, []byte{2})
	}
	switch o.T {
	case "root":
		return []interface{}{rk}
	case "chain", "gchain":
		return []interface{}{ck, o.X}
	case "mk":
		m := mkFromChain(ck)
		return []interface{}{m.cipher, m.mac, m.iv, o.X}
	}
	s := hmac256(ck, []byte{1})
	d := hkdf(s, nil, []byte("WhisperGroup"), 48)
	return []interface{}{d[:16], d[16:], s, o.X}
}

func schedSee(x interface{}) []interface{} {
	cp := func(b []byte) []byte { return append([]byte{}, b...) }
	switch o := x.(type) {
	case session.ChainKeyable:
		if c := o.Current(); !bytes.Equal(c.Key(), o.Key()) || c.Index() != o.Index() {
			return []interface{}{"the current key of the chain is another"}
		}
		return []interface{}{cp(o.Key()), o.Index()}
	case session.RootKeyable:
		return []interface{}{cp(o.Bytes())}
	case *message.Keys:
		return []interface{}{cp(o.CipherKey()), cp(o.MacKey()), cp(o.Iv()), o.Index()}
	case *gratchet.SenderChainKey:
		return []interface{}{cp(o.Seed()), o.Iteration()}
	case *gratchet.SenderMessageKey:
		return []interface{}{cp(o.Iv()), cp(o.CipherKey()), cp(o.Seed()), o.Iteration()}
	}
	panic("object")
}

func schedSender(otk bool, how string, seed int) (*session.KeyPair, error) {
	own := func(n string) *ecc.ECKeyPair { return ecPair(schedKey(n, seed)) }
	pub := func(n string) ecc.ECPublicKeyable { return ecc.NewDjbECPublicKey(schedKey(n, seed).pub) }
	var one ecc.ECPublicKeyable
	if otk {
		one = pub("OB")
	}
	if how == "all" {
		p := ratchet.NewSenderParameters(idPair(schedKey("IA", seed)), own("BA"),
			identity.NewKey(pub("IB")), pub("SB"), pub("R"), one)
		if p.TheirRatchetKey() == nil || p.TheirRatchetKey().PublicKey() != schedKey("R", seed).pub {
			return nil, fmt.Errorf("another ratchet key in the parameters")
		}
		return ratchet.CalculateSenderSession(p)
	}
	p := ratchet.NewEmptySenderParameters()
	if how == "twice" {
		p = ratchet.NewSenderParameters(idPair(schedKey("R", seed)), own("S"), identity.NewKey(pub("OB")), pub("IB"), pub("SB"), pub("R"))
		if _, err := ratchet.CalculateSenderSession(p); err != nil {
			return nil, err
		}
	}
	p.SetTheirOneTimePreKey(one)
	p.SetTheirRatchetKey(pub("R"))
	p.SetTheirSignedPreKey(pub("SB"))
	p.SetTheirIdentityKey(identity.NewKey(pub("IB")))
	p.SetOurBaseKey(own("BA"))
	p.SetOurIdentityKey(idPair(schedKey("IA", seed)))
	k, err := ratchet.CalculateSenderSession(p)
	if err == nil && p.TheirRatchetKey().PublicKey() != schedKey("R", seed).pub {
		err = fmt.Errorf("another ratchet key in the parameters")
	}
	return k, err
}

func schedReceiver(otk bool, how string, seed int) (*session.KeyPair, error) {
	own := func(n string) *ecc.ECKeyPair { return ecPair(schedKey(n, seed)) }
	pub := func(n string) ecc.ECPublicKeyable { return ecc.NewDjbECPublicKey(schedKey(n, seed).pub) }
	var one *ecc.ECKeyPair
	if otk {
		one = own("OB")
	}
	if how == "all" {
		p := ratchet.NewReceiverParameters(idPair(schedKey("IB", seed)), own("SB"),
			one, own("R"), pub("BA"), identity.NewKey(pub("IA")))
		if p.OurRatchetKey() == nil || p.OurRatchetKey().PublicKey().PublicKey() != schedKey("R", seed).pub {
			return nil, fmt.Errorf("another ratchet key in the parameters")
		}
		return ratchet.CalculateReceiverSession(p)
	}
	p := ratchet.NewEmptyReceiverParameters()
	if how == "twice" {
		p = ratchet.NewReceiverParameters(idPair(schedKey("R", seed)), own("S"), own("IB"), own("R"), pub("OB"), identity.NewKey(pub("SB")))
		if _, err := ratchet.CalculateReceiverSession(p); err != nil {
			return nil, err
		}
	}
	p.SetTheirIdentityKey(identity.NewKey(pub("IA")))
	p.SetTheirBaseKey(pub("BA"))
	p.SetOurOneTimePreKey(one)
	p.SetOurRatchetKey(own("SB"))
	p.SetOurSignedPreKey(own("SB"))
	p.SetOurIdentityKeyPair(idPair(schedKey("IB", seed)))
	k, err := ratchet.CalculateReceiverSession(p)
	if err == nil && p.OurRatchetKey().PublicKey().PublicKey() != schedKey("SB", seed).pub {
		err = fmt.Errorf("another ratchet key in the parameters")
	}
	return k, err
}

func schedTrace(n int, b []byte, seed int) { caseReport("sched", n, b, seed, schedCheck(n, b, seed)) }

func schedCheck(n int, b []byte, seed int) (ms []Mism) {
	var c struct {
		Prog []struct {
			Op, How string
			O, P    int
		}
		Heap []schedObj
	}
	check(json.Unmarshal(b, &c))
	tally(1, 0, "")
	var path []string
	bad := func(i int, class, f string, a ...interface{}) {
		ms = append(ms, Mism{Class: class, Step: i, Detail: fmt.Sprintf(f, a...) + " after " + strings.Join(path, ", ")})
	}
	var heap []interface{}
	var seen [][]interface{}
	for i, op := range c.Prog {
		path = append(path, strings.TrimSpace(fmt.Sprintf("%s %d %s", op.Op, op.O, op.How)))
		tally(0, 1, "key schedule "+op.Op)
		var made []interface{}
		set := -1
		r := guard(func() error {
			switch op.Op {
			case "sender", "receiver":
				f := schedSender
				if op.Op == "receiver" {
					f = schedReceiver
				}
				k, err := f(op.P == 1, op.How, seed)
				if err != nil {
					return err
				}
				made = append(made, k.RootKey, k.ChainKey)
			case "step":
				k, err := heap[op.O-1].(session.RootKeyable).CreateChain(ecc.NewDjbECPublicKey(schedKey(op.How[1:], seed).pub), ecPair(schedKey(op.How[:1], seed)))
				if err != nil {
					return err
				}
				made = append(made, k.RootKey, k.ChainKey)
			case "begin":
				made = append(made, gratchet.NewSenderChainKey(uint32(op.P), prand(32, "sched", op.How, seed)))
			case "next":
				if k, ok := heap[op.O-1].(session.ChainKeyable); ok {
					made = append(made, k.NextKey())
				} else {
					made = append(made, heap[op.O-1].(*gratchet.SenderChainKey).Next())
				}
			case "message":
				if k, ok := heap[op.O-1].(session.ChainKeyable); ok {
					made = append(made, k.MessageKeys())
				} else {
					k, err := heap[op.O-1].(*gratchet.SenderChainKey).SenderMessageKey()
					if err != nil {
						return err
					}
					made = append(made, k)
				}
			case "copy":
				switch o := heap[op.O-1].(type) {
				case session.ChainKeyable:
					made = append(made, chain.NewKeyFromStruct(chain.NewStructFromKey(o.Current()), kdf.DeriveSecrets))
				case session.RootKeyable:
					made = append(made, root.NewKey(kdf.DeriveSecrets, o.Bytes()))
				case *message.Keys:
					made = append(made, message.NewKeysFromStruct(message.NewStructFromKeys(o)))
				case *gratchet.SenderChainKey:
					made = append(made, gratchet.NewSenderChainKeyFromStruct(gratchet.NewStructFromSenderChainKey(o)))
				case *gratchet.SenderMessageKey:
					made = append(made, gratchet.NewSenderMessageKeyFromStruct(gratchet.NewStructFromSenderMessageKey(o)))
				}
			case "set":
				set = op.O - 1
				from, to := heap[op.P-1].(session.ChainKeyable).Current(), heap[set].(session.ChainKeyable).Current()
				to.SetIndex(from.Index() + 3)
				to.SetKey(from.Key())
			}
			return nil
		})
		kind := "sched:"
		if len(heap) > 0 && op.O > 0 {
			kind += c.Heap[op.O-1].T
		} else {
			kind += op.Op
		}
		if r.pan != "" {
			bad(i, "panic:sched", "%s", r.pan)
			return
		} else if r.err != nil {
			bad(i, kind, "%v", r.err)
			return
		}
		heap = append(heap, made...)
		for k, o := range heap {
			s := schedSee(o)
			if k >= len(seen) {
				seen = append(seen, s)
			} else if k == set {
				seen[k] = s
			} else if !reflect.DeepEqual(s, seen[k]) {
				bad(i, "sched:changed:"+c.Heap[k].T, "value %d (%s) has changed", k+1, c.Heap[k].T)
				return
			}
		}
	}
	if len(heap) != len(c.Heap) {
		bad(len(c.Prog), "sched:count", "%d values instead of %d", len(heap), len(c.Heap))
		return
	}
	for k, o := range c.Heap {
		if w := schedWant(o, seed); !reflect.DeepEqual(w, seen[k]) {
			bad(len(c.Prog), "sched:"+o.T, "value %d (%s) is %x instead of %x", k+1, o.T, seen[k], w)
			return
		}
	}
	return
}
