package main

// Independent evaluation of the symbolic terms of the specification: X3DH, the
// double ratchet and the sender key schedule, from the standard library only.

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"
)

type KP struct {
	priv []byte // nil if only the public half is known
	pub  [32]byte
}

func (k *KP) ser() []byte { return append([]byte{5}, k.pub[:]...) }

func hmac256(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func hkdf(ikm, salt, info []byte, n int) []byte {
	if salt == nil {
		salt = make([]byte, 32)
	}
	prk := hmac256(salt, ikm)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = hmac256(prk, t, info, []byte{i})
		out = append(out, t...)
	}
	return out[:n]
}

func x25519(priv []byte, pub [32]byte) []byte {
	sk, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	pk, err := ecdh.X25519().NewPublicKey(pub[:])
	if err != nil {
		panic(err)
	}
	s, err := sk.ECDH(pk)
	if err != nil {
		return make([]byte, 32)
	}
	return s
}

func pubOf(priv []byte) (p [32]byte) {
	sk, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	copy(p[:], sk.PublicKey().Bytes())
	return
}

func cbcEncrypt(key, iv, pt []byte) []byte {
	pad := 16 - len(pt)%16
	b := append([]byte{}, pt...)
	for i := 0; i < pad; i++ {
		b = append(b, byte(pad))
	}
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(b, b)
	return b
}

// Message keys of a 1:1 session.
type MK struct {
	cipher, mac, iv []byte
}

func mkFromChain(ck []byte) *MK {
	d := hkdf(hmac256(ck, []byte{1}), nil, []byte("WhisperMessageKeys"), 80)
	return &MK{d[:32], d[32:64], d[64:80]}
}

// A chain that is derived as far as it was needed.
type chainT struct {
	name string
	ev   *Eval
	cks  [][]byte
	mks  map[int]*MK
}

func (c *chainT) ck(i int) []byte {
	for len(c.cks) <= i {
		c.cks = append(c.cks, hmac256(c.cks[len(c.cks)-1], []byte{2}))
		c.ev.secrets[string(c.cks[len(c.cks)-1])] = fmt.Sprintf("chain key %d of %s", len(c.cks)-1, c.name)
	}
	return c.cks[i]
}

func (c *chainT) mk(i int) *MK {
	m := c.mks[i]
	if m == nil {
		m = mkFromChain(c.ck(i))
		c.mks[i] = m
		what := fmt.Sprintf("message key %d of %s", i, c.name)
		c.ev.secrets[string(m.cipher)] = what
		c.ev.secrets[string(m.mac)] = what
	}
	return m
}

// Eval evaluates terms; keys maps the names of the specification to key pairs.
type Eval struct {
	keys    map[string]*KP
	byPub   map[[32]byte]string
	roots   map[string][]byte
	chains  map[string]*chainT
	secrets map[string]string // bytes of a secret -> what it is
}

func newEval() *Eval {
	return &Eval{keys: map[string]*KP{}, byPub: map[[32]byte]string{},
		roots: map[string][]byte{}, chains: map[string]*chainT{}, secrets: map[string]string{}}
}

func (e *Eval) bind(name string, kp *KP) {
	e.note(name, kp)
	e.keys[name] = kp
	e.byPub[kp.pub] = name
}

func (e *Eval) note(name string, kp *KP) {
	if kp.priv != nil {
		e.secrets[string(kp.priv)] = "private key " + name
	}
}

// bindFresh binds a key the library made; false if the key is not fresh.
func (e *Eval) bindFresh(name string, kp *KP) bool {
	e.note(name, kp)
	old, dup := e.byPub[kp.pub]
	e.keys[name] = kp
	if !dup {
		e.byPub[kp.pub] = name
	}
	return !dup || old == name
}

type unknownName string

func (e *Eval) key(n string) *KP {
	k := e.keys[n]
	if k == nil {
		panic(unknownName(n))
	}
	return k
}

func (e *Eval) dh(a, b string) []byte {
	ka, kb := e.key(a), e.key(b)
	if ka.priv != nil {
		return x25519(ka.priv, kb.pub)
	}
	if kb.priv != nil {
		return x25519(kb.priv, ka.pub)
	}
	panic(unknownName(a + "*" + b))
}

func prefixKey(x []string, dhs [][]string, n int) string {
	var sb strings.Builder
	for _, s := range x {
		sb.WriteString(s)
		sb.WriteByte('|')
	}
	for _, p := range dhs[:n] {
		q := append([]string{}, p...)
		sort.Strings(q)
		sb.WriteByte('/')
		sb.WriteString(strings.Join(q, "+"))
	}
	return sb.String()
}

// x3dh computes root and chain from a master secret term.
func x3dhSecret(parts ...[]byte) []byte {
	ms := make([]byte, 32)
	for i := range ms {
		ms[i] = 0xff
	}
	for _, p := range parts {
		ms = append(ms, p...)
	}
	return hkdf(ms, nil, []byte("WhisperText"), 64)
}

// root returns the root key after n agreements and makes the chain of that number.
func (e *Eval) root(x []string, dhs [][]string, n int) []byte {
	k := prefixKey(x, dhs, n)
	if r, ok := e.roots[k]; ok {
		return r
	}
	var d []byte
	if n == 0 {
		parts := [][]byte{e.dh(x[0], x[3]), e.dh(x[1], x[2]), e.dh(x[1], x[3])}
		if x[4] != "-" {
			parts = append(parts, e.dh(x[1], x[4]))
		}
		d = x3dhSecret(parts...)
	} else {
		prev := e.root(x, dhs, n-1)
		p := dhs[n-1]
		d = hkdf(e.dh(p[0], p[len(p)-1]), prev, []byte("WhisperRatchet"), 64)
	}
	e.roots[k] = d[:32]
	e.chains[k] = &chainT{name: k, ev: e, cks: [][]byte{d[32:]}, mks: map[int]*MK{}}
	e.secrets[string(d[:32])] = "root key " + k
	e.secrets[string(d[32:])] = "chain key 0 of " + k
	return d[:32]
}

func (e *Eval) chain(x []string, dhs [][]string, n int) *chainT {
	e.root(x, dhs, n)
	return e.chains[prefixKey(x, dhs, n)]
}
