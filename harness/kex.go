package main

// Replays the behaviours of Kex: two parties that agree on a session from exchanged keys.
// The base keys of a behaviour are pairs with the relation it asks for (kexpairs.json, made
// by "harness kexgen").

import (
	"bytes"
	crand "crypto/rand"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"runtime"
	"sort"
	"sync"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/ratchet"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

//go:embed kexpairs.json
var kexPairsJSON []byte

// caseBody is what is needed to replay one case of the smaller specifications.
type caseBody struct {
	N    int             `json:"n"`
	Case json.RawMessage `json:"case"`
}

type kexRel struct {
	Pre   int  `json:"pre"`
	ALess bool `json:"aless"`
	Lo    int  `json:"lo"`
	Le    bool `json:"le"`
}

// class names a relation regardless of which of the two keys is the smaller one.
func (r kexRel) class() string { return fmt.Sprintf("%d/%d/%v", r.Pre, r.Lo, r.Le) }

type kexCase struct {
	Rel  kexRel `json:"rel"`
	One  bool   `json:"one"`
	Init string `json:"init"`
	Ops  []struct{ Op, P string }
	X3DH map[string][][]string `json:"x3dh"`
}

// relation of two public keys of which a is the smaller one.
func kexClass(a, b [32]byte) string {
	i := 0
	for i < 32 && a[i] == b[i] {
		i++
	}
	if i == 32 {
		return "same"
	}
	lo := int(a[i]>>7) + int(b[i]>>7)
	return kexRel{Pre: i, Lo: lo, Le: bytes.Compare(reversed(a[:]), reversed(b[:])) < 0}.class()
}

func clamp(p []byte) []byte {
	p[0] &= 248
	p[31] = p[31]&127 | 64
	return p
}

// kexGen looks for pairs of keys of every class among many keys.
func kexGen(n int) {
	type key struct {
		pub  [32]byte
		seed [8]byte
	}
	expand := func(s [8]byte) []byte { return clamp(prand(32, "kexgen", hex.EncodeToString(s[:]))) }
	keys := make([]key, n)
	var wg sync.WaitGroup
	w := runtime.NumCPU()
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < n; i += w {
				crand.Read(keys[i].seed[:])
				keys[i].pub = pubOf(expand(keys[i].seed))
			}
		}(k)
	}
	wg.Wait()
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i].pub[:], keys[j].pub[:]) < 0 })
	out := map[string][][2]string{}
	add := func(i, j int) {
		c := kexClass(keys[i].pub, keys[j].pub)
		if len(out[c]) < 3 {
			out[c] = append(out[c], [2]string{hex.EncodeToString(expand(keys[i].seed)), hex.EncodeToString(expand(keys[j].seed))})
		}
	}
	for i := range keys {
		for d := 1; d < n-i; d = d*2 + pick(3, i, d) {
			add(i, i+d)
			if bits.Len(uint(d)) > 22 {
				break
			}
		}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.Stdout.Write(b)
}

func ecPair(k *KP) *ecc.ECKeyPair {
	var p [32]byte
	copy(p[:], k.priv)
	return ecc.NewECKeyPair(ecc.NewDjbECPublicKey(k.pub), ecc.NewDjbECPrivateKey(p))
}

func idPair(k *KP) *identity.KeyPair {
	e := ecPair(k)
	return identity.NewKeyPair(identity.NewKey(e.PublicKey()), e.PrivateKey())
}

func newKP(parts ...interface{}) *KP {
	p := clamp(prand(32, parts...))
	return &KP{p, pubOf(p)}
}

// kexBase chooses base keys of the two parties with the relation.
func kexBase(r kexRel, n, seed int) (a, b *KP) {
	if r.Pre == 31 {
		a = newKP("kexbase", n, seed)
		b = &KP{a.priv, a.pub}
		b.pub[31] |= 0x80
	} else {
		var all map[string][][2]string
		check(json.Unmarshal(kexPairsJSON, &all))
		l := all[r.class()]
		if len(l) == 0 {
			panic("no keys of class " + r.class())
		}
		x := l[pick(len(l), "kexpair", n, seed)]
		k := [2]*KP{}
		for i := range k {
			p, err := hex.DecodeString(x[i])
			check(err)
			k[i] = &KP{p, pubOf(p)}
		}
		a, b = k[0], k[1]
	}
	if !r.ALess {
		a, b = b, a
	}
	return
}

type kexParty struct {
	id, base, rat *KP
	seq           uint32
	state         *record.State
	rec           *record.Session
	ser           *serialize.Serializer
	root, chain   []byte
}

// someState is a complete session state with arbitrary keys.
func someState(ser *serialize.Serializer, parts ...interface{}) *record.State {
	k := func(what string) *KP { return newKP(append(parts, what)...) }
	rk := k("ratchet")
	s, err := record.NewStateFromStructure(&record.StateStructure{
		LocalIdentityPublic: k("local").ser(), RemoteIdentityPublic: k("remote").ser(),
		LocalRegistrationID: 7, RemoteRegistrationID: 9, PreviousCounter: 3,
		RootKey: prand(32, append(parts, "root")...), SenderBaseKey: k("base").ser(),
		SenderChain: &record.ChainStructure{SenderRatchetKeyPublic: rk.ser(), SenderRatchetKeyPrivate: rk.priv,
			ChainKey: &chain.KeyStructure{Key: prand(32, append(parts, "chain")...), Index: 4}},
		SessionVersion: 3,
	}, ser.State)
	check(err)
	return s
}

func kexTrace(n int, b []byte, seed int) { caseReport("kex", n, b, seed, kexCheck(n, b, seed)) }

func kexCheck(n int, b []byte, seed int) (ms []Mism) {
	var c kexCase
	check(json.Unmarshal(b, &c))
	tally(1, 0, "")
	seedRandom("kex", n, seed)
	bad := func(step int, class, f string, a ...interface{}) {
		ms = append(ms, Mism{Class: class, Step: step, Detail: fmt.Sprintf(f, a...)})
	}
	P := map[string]*kexParty{}
	ev := newEval()
	ba, bb := kexBase(c.Rel, n, seed)
	ev.bind("BA", ba)
	ev.bind("BB", bb)
	for _, p := range []string{"A", "B"} {
		x := &kexParty{id: newKP("kexid", p, n, seed), rat: newKP("kexrat", p, n, seed), base: ev.keys["B"+p],
			seq: uint32(pick(1<<30, "kexseq", p, n, seed)) << uint(pick(3, p, n))}
		x.ser = serialize.NewJSONSerializer()
		if pick(2, "kexser", p, n, seed) == 0 {
			x.ser = serialize.NewProtoBufSerializer()
		}
		if c.One {
			if p == "B" {
				x.id = P["A"].id
			}
			ev.keys["I"] = x.id
		} else {
			ev.bind("I"+p, x.id)
		}
		P[p] = x
	}
	x3dh := map[string][]byte{}
	for i, t := range c.X3DH {
		var parts [][]byte
		for _, d := range t {
			parts = append(parts, ev.dh(d[0], d[len(d)-1]))
		}
		x3dh[i] = x3dhSecret(parts...)
	}
	role := map[string]string{}
	for i, op := range c.Ops {
		p, o := P[op.P], P["A"]
		if op.P == "A" {
			o = P["B"]
		}
		tally(0, 1, "kex "+op.Op)
		r := guard(func() error {
			switch op.Op {
			case "begin":
				p.rec = record.NewSession(p.ser.Session, p.ser.State)
				if pick(3, "kexfresh", op.P, n, seed) == 0 {
					p.rec.SetState(someState(p.ser, n, op.P, seed))
				}
				p.rec.SessionState().SetPendingKeyExchange(p.seq, ecPair(p.base), ecPair(p.rat), idPair(p.id))
			case "reload":
				if pick(4, "kexstate", op.P, n, seed) == 0 {
					s, err := record.NewStateFromBytes(p.rec.SessionState().Serialize(), p.ser.State)
					if err != nil {
						return err
					}
					p.rec.SetState(s)
					break
				}
				rec, err := record.NewSessionFromBytes(p.rec.Serialize(), p.ser.Session, p.ser.State)
				if err != nil {
					return err
				}
				p.rec = rec
			case "finish":
				s := p.rec.SessionState()
				if !s.HasPendingKeyExchange() {
					bad(i, "kex:persist", "the pending key exchange is gone")
					return nil
				}
				if g := s.PendingKeyExchangeSequence(); g != p.seq {
					bad(i, "kex:persist", "sequence %d instead of %d", g, p.seq)
				}
				same := func(what string, g *ecc.ECKeyPair, w *KP) {
					pub, priv := g.PublicKey().PublicKey(), g.PrivateKey().Serialize()
					if pub != w.pub || !bytes.Equal(priv[:], w.priv) {
						bad(i, "kex:persist", "another %s key pair", what)
					}
				}
				base, rat, id := s.PendingKeyExchangeBaseKeyPair(), s.PendingKeyExchangeRatchetKeyPair(), s.PendingKeyExchangeIdentityKeyPair()
				same("base", base, p.base)
				same("ratchet", rat, p.rat)
				same("identity", ecc.NewECKeyPair(id.PublicKey().PublicKey(), id.PrivateKey()), p.id)
				if len(ms) > 0 {
					return nil
				}
				par := &ratchet.SymmetricParameters{OurBaseKey: base, OurRatchetKey: rat, OurIdentityKeyPair: id,
					TheirBaseKey: ecc.NewDjbECPublicKey(o.base.pub), TheirRatchetKey: ecc.NewDjbECPublicKey(o.rat.pub),
					TheirIdentityKey: identity.NewKey(ecc.NewDjbECPublicKey(o.id.pub))}
				for again := 0; again < 2; again++ {
					k, err := ratchet.CalculateSymmetricSession(par)
					if err != nil {
						return err
					}
					p.root, p.chain = k.RootKey.Bytes(), k.ChainKey.Key()
					if k.ChainKey.Index() != 0 {
						bad(i, "kex:x3dh", "chain key with index %d", k.ChainKey.Index())
					}
					got := append(append([]byte{}, p.root...), p.chain...)
					role[op.P] = ""
					for _, who := range []string{"A", "B"} {
						if role[op.P] == "" && bytes.Equal(got, x3dh[who]) {
							role[op.P] = who
						}
					}
					if role[op.P] == "" {
						bad(i, "kex:x3dh", "the keys are not those of X3DH for either role, or not of this exchange (%s)", c.Rel.class())
					}
					if role[op.P] != "" && !bytes.Equal(got, x3dh[c.Init]) {
						bad(i, "kex:role", "%s takes %s for the initiator, whose base key is the larger one (%s)", op.P, role[op.P], c.Rel.class())
					}
					same("base (after use)", base, p.base)
					same("ratchet (after use)", rat, p.rat)
					same("identity (after use)", ecc.NewECKeyPair(id.PublicKey().PublicKey(), id.PrivateKey()), p.id)
					if par.TheirBaseKey.PublicKey() != o.base.pub || par.TheirIdentityKey.PublicKey().PublicKey() != o.id.pub {
						bad(i, "kex:x3dh", "the parameters were changed")
					}
				}
			}
			return nil
		})
		if r.pan != "" {
			bad(i, "panic:kex "+op.Op, "%s", r.pan)
		} else if r.err != nil {
			bad(i, map[bool]string{true: "kex:persist", false: "kex:x3dh"}[op.Op == "reload"], "%s failed: %v", op.Op, r.err)
		}
		if len(ms) > 0 {
			break
		}
	}
	if len(ms) == 0 && role["A"] != role["B"] {
		bad(len(c.Ops), "kex:agree", "A takes %s for the initiator, B takes %s (%s)", role["A"], role["B"], c.Rel.class())
	}
	return
}
