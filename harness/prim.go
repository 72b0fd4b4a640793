package main

// Replays the cases of Prim on the primitives.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	crand "crypto/rand"
	"encoding/json"
	"fmt"

	lcipher "github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
)

// arg is an argument in memory of its own, with room behind it that must not be touched.
type arg struct{ mem, was []byte }

func newArg(b []byte) *arg {
	if b == nil {
		return &arg{}
	}
	m := append(append([]byte{}, b...), bytes.Repeat([]byte{0xa5}, 40)...)
	return &arg{m[:len(b):len(m)], append([]byte{}, m...)}
}

func (a *arg) touched() bool {
	return a.mem != nil && !bytes.Equal(a.mem[:cap(a.mem)], a.was)
}

// Points of small order on the curve and its twist, reduced.
var lowOrder = [7]string{
	"\x00",
	"\x01",
	"\xe0\xeb\x7a\x7c\x3b\x41\xb8\xae\x16\x56\xe3\xfa\xf1\x9f\xc4\x6a\xda\x09\x8d\xeb\x9c\x32\xb1\xfd\x86\x62\x05\x16\x5f\x49\xb8\x00",
	"\x5f\x9c\x95\xbc\xa3\x50\x8c\x24\xb1\xd0\xb1\x55\x9c\x83\xef\x5b\x04\x44\x5c\xc4\x58\x1c\x8e\x86\xd8\x22\x4e\xdd\xd0\x9f\x11\x57",
	"\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
	"\xed\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
	"\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f",
}

func primKey(k, seed int) (p [32]byte) {
	switch k {
	case 1:
	case 2:
		copy(p[:], bytes.Repeat([]byte{255}, 32))
	default:
		copy(p[:], prand(32, "prim", k, seed))
	}
	return
}

func primTrace(n int, b []byte, seed int) { caseReport("prim", n, b, seed, primCheck(n, b, seed)) }

func primCheck(n int, b []byte, seed int) (ms []Mism) {
	var c struct {
		Op         string            `json:"op"`
		A          []json.RawMessage `json:"a"`
		Ok         bool              `json:"ok"`
		Text, Data []int
	}
	check(json.Unmarshal(b, &c))
	num := func(i int) (x int) { check(json.Unmarshal(c.A[i], &x)); return }
	str := func(i int) (x string) { check(json.Unmarshal(c.A[i], &x)); return }
	is := func(i int) (x bool) { check(json.Unmarshal(c.A[i], &x)); return }
	conv := func(x []int) []byte {
		out := make([]byte, len(x))
		for i := range x {
			out[i] = byte(x[i])
		}
		return out
	}
	tally(1, 0, "")
	bad := func(class, f string, a ...interface{}) {
		ms = append(ms, Mism{Class: "prim:" + class, Detail: fmt.Sprintf(f, a...) + " in " + string(b[:min(len(b), 120)])})
	}
	rnd := func(l int, what string) []byte { return prand(l, "prim", what, n, seed) }
	var args []*arg
	give := func(x []byte) []byte {
		a := newArg(x)
		args = append(args, a)
		return a.mem
	}
	// run calls the library and compares whether it succeeds.
	var got []byte
	run := func(f func() ([]byte, error)) bool {
		got = nil
		tally(0, 1, "")
		r := guard(func() (err error) { got, err = f(); return })
		switch {
		case r.pan != "":
			ms = append(ms, Mism{Class: "panic:prim", Detail: r.pan})
			return false
		case r.ok() != c.Ok:
			bad(c.Op, "error %v", r.err)
			return false
		case r.err != nil && len(got) > 0:
			bad(c.Op, "a result and an error")
		}
		return r.ok()
	}
	what := c.Op
	if what == "enc" || what == "dec" || what == "ragged" {
		what += " " + str(1)
	}
	tally(0, 0, fmt.Sprintf("primitive %s %v", what, c.Ok))
	switch c.Op {
	case "enc", "encfail":
		key, iv, text := rnd(num(2), "key"), rnd(16, "iv"), conv(c.Text)
		t := &tape{src: seedRandom("prim", n, seed), left: -1, size: n % 7}
		if c.Op == "encfail" {
			t.left = num(4)
		}
		crand.Reader = t
		given := iv
		if c.Op == "encfail" || !is(4) {
			given = nil
		}
		f := lcipher.EncryptCbc
		if str(1) == "plain" {
			f = lcipher.Encrypt
		}
		var prev []byte
		for i := 0; i < 2; i++ {
			mark := len(t.out)
			if t.left >= 0 {
				t.left = num(4)
			}
			if !run(func() ([]byte, error) { return f(give(given), give(key), give(text)) }) {
				break
			}
			want := []byte{}
			if given == nil {
				if len(t.out)-mark < 16 || !bytes.HasPrefix(got, t.out[mark:mark+16]) {
					bad("iv", "the initialization vector is not fresh")
					break
				}
				iv = got[:16]
				want = append(want, iv...)
				if bytes.Equal(prev, got) {
					bad("iv", "the same initialization vector twice")
				}
			}
			want = append(want, cbcEncrypt(key, iv, text)...)
			if !bytes.Equal(got, want) {
				bad("enc", "%x instead of %x", got, want)
			}
			prev = append([]byte{}, got...)
			// and back
			g := lcipher.DecryptCbc
			if str(1) == "plain" {
				g = lcipher.Decrypt
			}
			c.Ok = true
			if run(func() ([]byte, error) { return g(give(given), give(key), give(prev)) }) && !bytes.Equal(got, text) {
				bad("dec", "%x instead of %x", got, text)
			}
		}
		seedRandom("prim", n, seed)
	case "dec", "ragged":
		key, iv, data := rnd(num(2), "key"), rnd(16, "iv"), conv(c.Data)
		ct := data
		if c.Op == "dec" {
			if k, err := aes.NewCipher(key); err == nil {
				ct = make([]byte, len(data))
				cipher.NewCBCEncrypter(k, iv).CryptBlocks(ct, data)
			}
		}
		given := iv
		if !is(4) {
			given = nil
			if c.Op == "dec" && num(3) > 0 {
				ct = append(append([]byte{}, iv...), ct...)
			}
		}
		f := lcipher.DecryptCbc
		if str(1) == "plain" {
			f = lcipher.Decrypt
		}
		if run(func() ([]byte, error) { return f(give(given), give(key), give(ct)) }) && !bytes.Equal(got, conv(c.Text)) {
			bad("dec", "%x instead of %x", got, conv(c.Text))
		}
	case "hkdf":
		mk := func(l int, what string) []byte {
			if l < 0 {
				return nil
			}
			return rnd(l, what)
		}
		ikm, salt, info, l := mk(num(1), "ikm"), mk(num(2), "salt"), mk(num(3), "info"), num(4)
		if run(func() ([]byte, error) { return kdf.DeriveSecrets(give(ikm), give(salt), give(info), l) }) {
			if len(got) != l {
				bad("hkdf", "%d bytes", len(got))
			} else if !bytes.Equal(got, hkdf(ikm, salt, info, l)) {
				bad("hkdf", "%x", got[:min(32, l)])
			}
		}
	case "agree", "low":
		x := primKey(num(1), seed)
		y := primKey(num(2), seed)
		var p [32]byte
		if c.Op == "low" {
			copy(p[:], lowOrder[num(2)])
		} else {
			p = pubOf(y[:])
		}
		want := x25519(x[:], p)
		if c.Op == "low" && !bytes.Equal(want, make([]byte, 32)) {
			panic("not of low order")
		}
		if is(3) {
			p[31] |= 128
		}
		var s [32]byte
		q, z := p, x
		run(func() ([]byte, error) { s = kdf.CalculateSharedSecret(q, z); return s[:], nil })
		if !bytes.Equal(s[:], want) {
			bad("agree", "%x instead of %x", s, want)
		}
		if c.Op == "agree" {
			run(func() ([]byte, error) { s = kdf.CalculateSharedSecret(pubOf(x[:]), y); return s[:], nil })
			if !bytes.Equal(s[:], want) {
				bad("agree", "does not commute")
			}
		}
	case "pair":
		k := primKey(num(2), seed)
		in := append(append([]byte{}, k[:]...), rnd(40, "more")...)[:num(1)]
		var kp *ecc.ECKeyPair
		if run(func() ([]byte, error) { kp = ecc.CreateKeyPair(give(in)); return nil, nil }) {
			var want [32]byte
			copy(want[:], in)
			want[0] &= 248
			want[31] = want[31]&127 | 64
			if kp.PrivateKey().Serialize() != want {
				bad("pair", "private key %x instead of %x", kp.PrivateKey().Serialize(), want)
			}
			if kp.PublicKey().PublicKey() != pubOf(want[:]) {
				bad("pair", "the public key does not belong to the private one")
			}
			primPoint(kp.PublicKey(), pubOf(want[:]), bad)
		}
	case "point":
		l, off := num(1), num(2)
		in := rnd(l, "point")
		if off >= 0 && off < l {
			in[off] = byte(num(3))
		}
		var p ecc.ECPublicKeyable
		if run(func() (_ []byte, err error) { p, err = ecc.DecodePoint(give(in), off); return nil, err }) {
			var want [32]byte
			copy(want[:], in[off+1:])
			primPoint(p, want, bad)
		} else if p != nil {
			bad("point", "a point and an error")
		}
	case "split":
		var in []byte
		if num(1) >= 0 {
			in = rnd(num(1), "split")
		}
		var parts [][]byte
		if run(func() (_ []byte, err error) {
			parts, err = bytehelper.SplitThree(give(in), num(2), num(3), num(4))
			return nil, err
		}) {
			l := []int{num(2), num(3), num(4)}
			at := 0
			for i, k := range l {
				if len(parts) != 3 || !bytes.Equal(parts[i], in[at:at+k]) {
					bad("split", "part %d", i)
					break
				}
				at += k
			}
			// parts are copies
			for _, p := range parts {
				for i := range p {
					p[i] ^= 1
				}
			}
		}
	}
	for _, a := range args {
		if a.touched() {
			bad("alias", "%s changed its arguments", c.Op)
			break
		}
	}
	return
}

// primPoint compares all views of a public key.
func primPoint(p ecc.ECPublicKeyable, want [32]byte, bad func(class, f string, a ...interface{})) {
	ser := append([]byte{5}, want[:]...)
	same := func(q ecc.ECPublicKeyable) bool {
		return q.PublicKey() == want && bytes.Equal(q.Serialize(), ser) && q.Type() == 5
	}
	id := identity.NewKeyFromBytes(want, 0)
	switch back, err := ecc.DecodePoint(p.Serialize(), 0); {
	case !same(p):
		bad("point", "%x instead of %x", p.Serialize(), ser)
	case err != nil || !same(back):
		bad("point", "does not come back: %v", err)
	case !same(id.PublicKey()) || !bytes.Equal(id.Serialize(), ser) || !bytes.Equal(identity.NewKey(p).Serialize(), ser) ||
		identity.NewKey(p).Fingerprint() != fmt.Sprintf("%x", ser):
		bad("point", "identity key")
	}
	// what is handed out can be changed without harm
	b := p.Serialize()
	b[0], b[5] = 77, b[5]^1
	if !same(p) {
		bad("point", "changes with its serialization")
	}
}
