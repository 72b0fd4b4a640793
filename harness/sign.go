package main

// Replays the cases of Sign on the signature functions of ecc.

import (
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"

	"github.com/RadicalApp/complete"
	"github.com/prospik/libsignal-protocol-go/ecc"
)

type signedMsg struct{ Len, Var, Z int }

type signCase struct {
	Kb     int    `json:"kb"`
	Rng    string `json:"rng"`
	Signed []signedMsg
	Query  struct {
		Sig int
		Op  string
		At  int
	}
	Ok bool
}

type failing struct{}

func (failing) Read(p []byte) (int, error) { return 0, errors.New("no randomness") }

// orderL is the order of the base point.
var orderL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

var signKeys = map[string]*KP{}

// signKey is a key whose Edwards form has the given sign bit. Some are scalars at the edges.
func signKey(kb, n, seed int) *KP {
	id := fmt.Sprint(kb, n, seed)
	if k := signKeys[id]; k != nil {
		return k
	}
	for i := 0; ; i++ {
		p := prand(32, "signkey", n, seed, i)
		switch pick(24, "signkeykind", n, seed) {
		case 0:
			p = bytes.Repeat([]byte{0}, 32)
			p[1], p[2] = byte(n+i), byte((n+i)>>8)
		case 1:
			p = bytes.Repeat([]byte{0xff}, 32)
			p[1], p[2] = byte(n+i), byte((n+i)>>8)
		}
		clamp(p)
		k := &KP{p, pubOf(p)}
		if edSign(p) == byte(kb)<<7 {
			signKeys[id] = k
			return k
		}
	}
}

func newMsg(m signedMsg, n, seed int) []byte {
	b := prand(m.Len, "signmsg", m.Len, n, seed)
	if m.Var == 1 {
		b[pick(m.Len, "signvar", n, seed)] ^= 1 << pick(8, "signvarbit", n, seed)
	}
	return b
}

type completion struct{ ch chan interface{} }

func (c *completion) OnSuccess(r *complete.Result) { c.ch <- *r }
func (c *completion) OnFailure(s string)           { c.ch <- errors.New(s) }

func signTrace(n int, b []byte, seed int) {
	var c signCase
	check(json.Unmarshal(b, &c))
	sum.Traces++
	q := c.Query
	sum.Cov["verify "+q.Op]++
	var ms []Mism
	bad := func(class, f string, a ...interface{}) {
		ms = append(ms, Mism{Class: class, Detail: fmt.Sprintf(f, a...) + fmt.Sprintf(" [%+v]", c)})
	}
	// single bits are tried on the same signature, which is made once
	kn := n / 64
	if q.Op == "key-bit" || q.Op == "sig-bit" || q.Op == "msg-bit" {
		kn = -1
	}
	k := signKey(c.Kb, kn, seed)
	async := pick(8, "async", n, seed) == 0
	defer func(r interface{ Read([]byte) (int, error) }) { crand.Reader = r }(crand.Reader)
	var sigs [][]byte
	var msgs [][]byte
	for i, m := range c.Signed {
		switch c.Rng {
		case "good":
			seedRandom("sign", kn, seed, i)
		case "stuck":
			seedRandom("sign", kn, seed)
		case "zero":
			crand.Reader = zeros{}
		case "fail":
			crand.Reader = failing{}
		}
		msg := newMsg(m, kn, seed)
		buf := append(append([]byte{}, msg...), 0xAA, 0xBB)
		var sig [64]byte
		sum.Steps++
		r := guard(func() error {
			if async {
				cm := &completion{make(chan interface{}, 1)}
				ecc.CalculateSignatureAsync(ecPair(k).PrivateKey(), buf[:len(msg)], cm)
				switch x := (<-cm.ch).(type) {
				case complete.Result:
					sig = x.Data.([64]byte)
				case error:
					return x
				}
				return nil
			}
			sig = ecc.CalculateSignature(ecPair(k).PrivateKey(), buf[:len(msg)])
			return nil
		})
		switch {
		case r.pan != "":
			bad("panic:sign", "%s", r.pan)
		case r.err != nil:
			bad("sign:reject", "%v", r.err)
		case !sigValid(k.pub, msg, sig[:]):
			bad("sign:invalid", "a signature of %d bytes does not verify", len(msg))
		case !bytes.Equal(buf, append(append([]byte{}, msg...), 0xAA, 0xBB)):
			bad("sign:alias", "the message was changed")
		}
		for j := range sigs {
			if !bytes.Equal(msgs[j], msg) && bytes.Equal(sigs[j][:32], sig[:32]) {
				bad("sign:nonce", "two messages were signed with the same nonce")
			}
		}
		sigs, msgs = append(sigs, append([]byte{}, sig[:]...)), append(msgs, msg)
	}
	sig, msg, pub := append([]byte{}, sigs[q.Sig-1]...), msgs[q.Sig-1], k.pub
	osig, omsg := sigs[len(sigs)-1], msgs[len(sigs)-1]
	if q.Sig == len(sigs) {
		osig, omsg = sigs[0], msgs[0]
	}
	addL := func(t int64) {
		s := new(big.Int).SetBytes(reversed(append(append([]byte{}, sig[32:63]...), sig[63]&127)))
		s.Add(s, new(big.Int).Mul(orderL, big.NewInt(t)))
		o := make([]byte, 32)
		s.FillBytes(o)
		top := sig[63] & 128
		copy(sig[32:], reversed(o))
		sig[63] |= top
	}
	switch q.Op {
	case "otherkey":
		pub = newKP("otherkey", n, seed, q.At).pub
		if q.At == 1 {
			pub = [32]byte{9}
		}
		if q.At == 2 { // the key with the other sign has the same Montgomery form: take 2k
			d := new(big.Int).SetBytes(reversed(k.priv))
			d.Lsh(d, 1).Mod(d, orderL)
			pub = montOfScalar(d)
		}
	case "otherkey-bit":
		p := append([]byte{}, k.priv...)
		p[5] ^= 1
		pub = pubOf(p)
	case "key-bit":
		pub[q.At/8] ^= 1 << (q.At % 8)
	case "msg-bit":
		msg = append([]byte{}, msg...)
		msg[q.At/8] ^= 1 << (q.At % 8)
	case "msg-append":
		msg = append(append([]byte{}, msg...), 0)
	case "msg-prepend":
		msg = append([]byte{0}, msg...)
	case "msg-drop":
		msg = msg[:len(msg)-1]
	case "msg-empty":
		msg = nil
	case "msg-other":
		msg = omsg
	case "sig-bit":
		sig[q.At/8] ^= 1 << (q.At % 8)
	case "sig-SplusL":
		addL(1)
	case "sig-S2plusL":
		addL(3)
	case "sig-zero":
		sig = make([]byte, 64)
	case "sig-zeroS":
		copy(sig[32:], make([]byte, 32))
	case "sig-zeroR":
		copy(sig[:32], append([]byte{1}, make([]byte, 31)...))
	case "sig-mixR":
		copy(sig[:32], osig[:32])
	case "sig-mixS":
		copy(sig[32:], osig[32:])
	case "sig-negR":
		sig[31] ^= 0x80
	case "sig-signbit":
		sig[63] ^= 0x80
	}
	if len(ms) == 0 {
		var s [64]byte
		copy(s[:], sig)
		var ok bool
		sum.Steps++
		r := guard(func() error {
			key := ecc.NewDjbECPublicKey(pub)
			if async {
				cm := &completion{make(chan interface{}, 1)}
				ecc.VerifySignatureAsync(key, msg, s, cm)
				x := <-cm.ch
				if _, failed := x.(error); !failed {
					res := x.(complete.Result)
					ok = res.Data.(bool)
				}
				return nil
			}
			ok = ecc.VerifySignature(key, msg, s)
			if ok2 := ecc.VerifySignature(key, msg, s); ok2 != ok {
				bad("sign:again", "verifying twice gives %v and %v", ok, ok2)
			}
			return nil
		})
		// with the same message, key and nonce twice the mixtures are the signature itself
		want := c.Ok
		if bytes.Equal(msg, msgs[q.Sig-1]) && bytes.Equal(sig, sigs[q.Sig-1]) && pub == k.pub {
			want = true
		}
		switch {
		case r.pan != "":
			bad("panic:verify", "%s", r.pan)
		case want && !ok:
			bad("verify:reject", "a genuine signature does not verify")
		case !want && ok:
			bad("verify:accept:"+q.Op, "accepted")
		}
		if c.Ok != sigValid(pub, msg, sig) && c.Ok != want {
			bad("sign:oracle", "the specification disagrees with the reference")
		}
	}
	if len(ms) > 0 {
		report("sign", fmt.Sprint(n), "", seed, ms, nil, caseBody{n, b})
	}
}
