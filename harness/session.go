package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// ---- behaviours of the specification

type Call struct {
	Op, P, Q, Src string
	Otk, Spk, N   int
	Keep          []int
	M             int
	Tam           string
	Arg           int
	K, Crash      string
}

func (c *Call) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&c.Op, &c.P, &c.Q, &c.Src, &c.Otk, &c.Spk, &c.N,
		&c.Keep, &c.M, &c.Tam, &c.Arg, &c.K, &c.Crash})
}
func (c Call) MarshalJSON() ([]byte, error) {
	k := c.Keep
	if k == nil {
		k = []int{}
	}
	return json.Marshal([]interface{}{c.Op, c.P, c.Q, c.Src, c.Otk, c.Spk, c.N, k, c.M, c.Tam, c.Arg, c.K, c.Crash})
}

type XEnv struct {
	Has   bool   `json:"has"`
	Ver   int    `json:"ver"`
	Reg   int    `json:"reg"`
	Otk   int    `json:"otk"`
	Spk   int    `json:"spk"`
	Base  string `json:"base"`
	Ident string `json:"ident"`
}

type XW struct {
	Ver  int        `json:"ver"`
	RK   string     `json:"rk"`
	I    int        `json:"i"`
	Prev int        `json:"prev"`
	Body int        `json:"body"`
	X    []string   `json:"x"`
	Dhs  [][]string `json:"dhs"`
	LI   string     `json:"li"`
	RI   string     `json:"ri"`
}

type XMsg struct {
	E XEnv `json:"e"`
	W XW   `json:"w"`
}

type XChain struct {
	K  string `json:"k"`
	N  int    `json:"n"`
	I  int    `json:"i"`
	Lo []int  `json:"lo,omitempty"`
	Hi []int  `json:"hi,omitempty"`
}

func (c *XChain) skipped() map[int]bool {
	m := map[int]bool{}
	lo, hi := append([]int{}, c.Lo...), append([]int{}, c.Hi...)
	sort.Ints(lo)
	sort.Ints(hi)
	for j := range lo {
		for i := lo[j]; i <= hi[j]; i++ {
			m[i] = true
		}
	}
	return m
}

type XPend struct {
	Has  bool   `json:"has"`
	Otk  int    `json:"otk"`
	Spk  int    `json:"spk"`
	Base string `json:"base"`
}

type XState struct {
	X    []string   `json:"x"`
	Dhs  [][]string `json:"dhs"`
	Snd  XChain     `json:"snd"`
	Rcv  []XChain   `json:"rcv"`
	Pend XPend      `json:"pend"`
	Prev int        `json:"prev"`
	LI   string     `json:"li"`
	RI   string     `json:"ri"`
	LReg int        `json:"lreg"`
	RReg int        `json:"rreg"`
	Base string     `json:"base"`
}

type XRec struct {
	Has   bool     `json:"has"`
	Cur   []XState `json:"cur"`
	Prevs []XState `json:"prevs"`
}

type XPost struct {
	Rec XRec   `json:"rec"`
	Pin string `json:"pin"`
	Otk []int  `json:"otk"`
	Spk []int  `json:"spk"`
}

type Entry struct {
	C     Call     `json:"c"`
	OK    bool     `json:"ok"`
	Why   string   `json:"why"`
	How   []string `json:"how"`
	Crash bool     `json:"crash"`
	F     []string `json:"f"`
	B     int      `json:"b"`
	Msgs  []XMsg   `json:"msgs"`
	Post  []XPost  `json:"post"`
}

type Trace struct {
	Kind    string  `json:"kind,omitempty"`
	Profile string  `json:"profile"`
	ID      int     `json:"id"`
	Seed    int     `json:"seed"`
	Log     []Entry `json:"log"`
	Varied  bool    `json:"varied,omitempty"`
	// the identity keys at the start: linked devices have the same
	Idents map[string]string `json:"idents,omitempty"`
	// exhaustive exploration
	Path  []Entry `json:"path"`
	Loops []Entry `json:"loops"`
	Succ  []Entry `json:"succ"`
}

// ---- configurations of the replay

type Cfg struct {
	Live, Proto, Reuse, Long, NilOtk, FromSession, Own bool
	Key                                                int // 0: plain calls, 1: with keys, 2: mixed
}

func (c Cfg) String() string {
	s := []string{}
	add := func(b bool, t, f string) {
		if b {
			s = append(s, t)
		} else if f != "" {
			s = append(s, f)
		}
	}
	add(c.Live, "live", "ser")
	add(c.Proto, "proto", "json")
	add(c.Reuse, "reuse", "")
	add(c.Long, "long", "")
	add(c.NilOtk, "nilotk", "")
	add(c.FromSession, "fromsession", "")
	add(c.Own, "own", "")
	s = append(s, fmt.Sprintf("key%d", c.Key))
	return strings.Join(s, ",")
}

func parseCfg(s string) Cfg {
	c := Cfg{}
	for _, w := range strings.Split(s, ",") {
		switch w {
		case "live":
			c.Live = true
		case "proto":
			c.Proto = true
		case "reuse":
			c.Reuse = true
		case "long":
			c.Long = true
		case "nilotk":
			c.NilOtk = true
		case "fromsession":
			c.FromSession = true
		case "own":
			c.Own = true
		case "key1":
			c.Key = 1
		case "key2":
			c.Key = 2
		}
	}
	return c
}

var sessionCfgs = []Cfg{
	{Key: 2},
	{Live: true, Proto: true, Long: true, Reuse: true, Key: 1},
	{Proto: true, Reuse: true, NilOtk: true, Key: 2},
	{Live: true, NilOtk: true, Key: 0},
	{Long: true, Reuse: true, FromSession: true, Key: 2},
	{Live: true, Proto: true, FromSession: true, Key: 2},
	{Own: true, Proto: true, Reuse: true},
	{Own: true, Live: true, Long: true},
}

// ---- the real system

type pubSpk struct {
	pub ecc.ECPublicKeyable
	sig [64]byte
}

type PartyR struct {
	name    string
	addr    *protocol.SignalAddress
	st      *Store
	ident   string // name of its identity key
	pubs    map[int]pubSpk
	pubo    map[int]ecc.ECPublicKeyable
	ciphers map[string]*session.Cipher
	snap    *Snap
}

type NetMsg struct {
	from, to string
	body     int
	bytes    []byte
	w        *Wire
	e        *EnvWire
	plain    *protocol.SignalMessage
	pre      *protocol.PreKeySignalMessage
	x        *XMsg
	keys     map[string]*message.Keys // by receiving party
	got      map[string]bool          // accepted by party|address
}

type World struct {
	cfg       Cfg
	seed      []interface{}
	ev        *Eval
	ser       *serialize.Serializer
	ps        map[string]*PartyR
	net       []*NetMsg
	used      map[string]int // rk|ctr -> body, of messages handed out
	mism      []Mism
	cov       map[string]int
	nstep     int
	statesBad bool // after the first difference in stored states
	sigs      map[string][64]byte
	crashes   int
	now       *Entry
	recs      map[string]*XRec // what the specification says is stored, by party and peer
	jmp       *jump
	jumpAt    int
	pending   []func()
	*conversation
}

func regOf(p string, gen int) uint32 {
	return map[string]uint32{"A": 101, "B": 202, "C": 303}[p] + uint32(1000*gen)
}

func kpOf(pub ecc.ECPublicKeyable, priv ecc.ECPrivateKeyable) *KP {
	k := &KP{pub: pub.PublicKey()}
	if priv != nil {
		p := priv.Serialize()
		k.priv = p[:]
	}
	return k
}

func newWorld(cfg Cfg, cv *conversation, idents map[string]string, seed ...interface{}) *World {
	w := &World{cfg: cfg, seed: seed, ev: newEval(), ps: map[string]*PartyR{},
		used: map[string]int{}, cov: map[string]int{}, sigs: map[string][64]byte{}, recs: map[string]*XRec{}, jumpAt: -1, conversation: cv}
	w.ser = cv.serializer(cfg.Proto)
	for _, n := range []string{"zI", "zS", "z0"} {
		priv := prand(32, "attacker", n, seed)
		priv[0] &= 248
		priv[31] = priv[31]&127 | 64
		w.ev.bind(n, &KP{priv: priv, pub: pubOf(priv)})
	}
	for _, p := range []string{"A", "B", "C"} {
		ident := "i" + p + "0"
		if n := idents[p]; n != "" {
			ident = n
		}
		w.install(p, 0, ident, "s"+p+"1", []string{"o" + p + "1", "o" + p + "2"}, "o"+p+"0")
	}
	return w
}

func (w *World) install(p string, gen int, ident, spk string, otks []string, last string) {
	var id *identity.KeyPair
	for _, o := range w.ps {
		if o.ident == ident {
			id = o.st.ident
		}
	}
	if id == nil {
		id = w.identity(p, gen)
		w.bindNew(ident, kpOf(id.PublicKey().PublicKey(), id.PrivateKey()))
	}
	pr := &PartyR{name: p, addr: addrs[p], ident: ident, pubs: map[int]pubSpk{},
		pubo: map[int]ecc.ECPublicKeyable{}, ciphers: map[string]*session.Cipher{}}
	pr.st = newStore(id, uint32(regID(int(regOf(p, gen)))), w.cfg.Live, w.ser)
	w.ps[p] = pr
	w.addSpk(p, spkID(1), spk)
	if num.otk != 0 {
		for i, n := range otks {
			w.addOtk(p, w.preKey(otkID(i+1)), n)
		}
	} else if len(otks) > 0 {
		ks, err := keyhelper.GeneratePreKeys(1, len(otks), w.ser.PreKeyRecord)
		check(err)
		for i, n := range otks {
			w.addOtk(p, ks[i], n)
			if id := ks[i].ID(); id.IsEmpty || id.Value != uint32(i+1) {
				w.bad(0, "prekeyid", fmt.Sprintf("prekey %d has id %v", i+1, id))
			}
		}
	}
	if last != "" {
		k, err := keyhelper.GenerateLastResortKey(w.ser.PreKeyRecord)
		check(err)
		w.addOtk(p, k, last)
		if id := k.ID(); id.IsEmpty || id.Value != 16777215 {
			w.bad(0, "lastresort", fmt.Sprintf("the last resort prekey has id %v", id))
		}
	}
	pr.snap = pr.st.snapAll()
}

func (w *World) bindNew(n string, k *KP) {
	if !w.ev.bindFresh(n, k) {
		w.bad(w.nstep, "fresh-key", "generated key "+n+" was used before as "+w.ev.byPub[k.pub])
	}
}

func (w *World) addSpk(p string, id int, name string) {
	pr := w.ps[p]
	s, err := keyhelper.GenerateSignedPreKey(pr.st.ident, uint32(id), w.ser.SignedPreKeyRecord)
	check(err)
	w.bindNew(name, kpOf(s.KeyPair().PublicKey(), s.KeyPair().PrivateKey()))
	pr.st.StoreSignedPreKey(uint32(id), s)
	pr.pubs[id] = pubSpk{s.KeyPair().PublicKey(), s.Signature()}
	// what a server would be given after a reload is the same
	r, err := record.NewSignedPreKeyFromBytes(s.Serialize(), w.ser.SignedPreKeyRecord)
	if err != nil || r.ID() != s.ID() || r.Timestamp() != s.Timestamp() || r.Signature() != s.Signature() ||
		r.KeyPair().PublicKey().PublicKey() != s.KeyPair().PublicKey().PublicKey() ||
		r.KeyPair().PrivateKey().Serialize() != s.KeyPair().PrivateKey().Serialize() {
		w.bad(w.nstep, "persist:prekey", "a signed prekey changes when it is saved and loaded")
	}
}

func (w *World) preKey(id int) *record.PreKey {
	if id >= 1 && id < 1000 {
		ks, err := keyhelper.GeneratePreKeys(id, id, w.ser.PreKeyRecord)
		check(err)
		return ks[0]
	}
	k, err := ecc.GenerateKeyPair()
	check(err)
	return record.NewPreKey(uint32(id), k, w.ser.PreKeyRecord)
}

func (w *World) addOtk(p string, k *record.PreKey, name string) {
	pr := w.ps[p]
	w.bindNew(name, kpOf(k.KeyPair().PublicKey(), k.KeyPair().PrivateKey()))
	id := k.ID().Value
	pr.st.StorePreKey(id, k)
	pr.pubo[int(id)] = k.KeyPair().PublicKey()
	r, err := record.NewPreKeyFromBytes(k.Serialize(), w.ser.PreKeyRecord)
	if err != nil || r.ID().IsEmpty || r.ID().Value != id ||
		r.KeyPair().PublicKey().PublicKey() != k.KeyPair().PublicKey().PublicKey() ||
		r.KeyPair().PrivateKey().Serialize() != k.KeyPair().PrivateKey().Serialize() {
		w.bad(w.nstep, "persist:prekey", "a prekey changes when it is saved and loaded")
	}
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func (w *World) bad(step int, class, detail string, tags ...string) {
	if len(w.mism) < 40 {
		if w.crashes > 0 {
			tags = append(tags, "crash")
		}
		if w.now != nil && w.now.Crash {
			tags = append(tags, "crashed")
		}
		w.mism = append(w.mism, Mism{class, step, detail, tags})
	}
}

func (w *World) cipher(p *PartyR, q string) *session.Cipher {
	if c := p.ciphers[q]; c != nil && w.cfg.Long {
		return c
	}
	b := session.NewBuilderFromSignal(p.st, addrs[q], p.st.ser)
	if w.cfg.Own {
		b = session.NewBuilder(p.st, p.st, p.st, p.st, addrs[q], p.st.ser)
	}
	c := session.NewCipher(b, addrs[q])
	p.ciphers[q] = c
	return c
}

// plainCipher may be one without a builder: good for everything but handshakes.
func (w *World) plainCipher(p *PartyR, q string) *session.Cipher {
	if w.cfg.FromSession {
		return session.NewCipherFromSession(addrs[q], p.st, p.st, p.st, p.st.ser.PreKeySignalMessage, p.st.ser.SignalMessage)
	}
	return w.cipher(p, q)
}

var bodyLens = []int{0, 1, 15, 16, 17, 31, 32, 33, 48, 100, 255, 256, 1000}

func (w *World) body(b int, burst bool) []byte {
	n := bodyLens[pick(len(bodyLens), "len", w.seed, b)]
	if !burst && pick(60, "big", w.seed, b) == 0 {
		n = 65521 + b%40
	}
	if !burst && pick(700, "huge", w.seed, b) == 0 {
		n = 1<<20 + b%40
	}
	out := prand(n, "body", w.seed, b)
	if n > 0 && b%3 == 0 { // looks like padding
		out[n-1] = byte(1 + b%16)
	}
	return out
}

func identKey(pub [32]byte) *identity.Key { return identity.NewKey(ecc.NewDjbECPublicKey(pub)) }

// ---- steps

func (w *World) step(i int, e *Entry) {
	w.nstep = i
	w.now = e
	c := &e.C
	p := w.ps[c.P]
	full := e.C.Op
	if e.Why != "" {
		full += "/" + e.Why
	}
	if c.Tam != "none" {
		full += "/" + c.Tam
	}
	if e.Crash {
		full += "/" + c.Crash
	}
	w.cov[full]++
	p.st.begin(crashOf(e))
	p.st.storeErr = ""
	switch c.Op {
	case "bundle":
		w.doBundle(i, e, p)
	case "enc":
		w.doEnc(i, e, p)
	case "dlv":
		w.doDlv(i, e, p)
	case "reload":
		p.st.restart()
		p.ciphers = map[string]*session.Cipher{}
		w.noEffect(i, p, "reload")
	case "reinstall":
		w.install(c.P, e.B, e.F[0], e.F[1], e.F[2:3], "")
		p = w.ps[c.P]
		for _, m := range w.net {
			for _, q := range []string{"A", "B", "C"} {
				delete(m.got, c.P+q)
			}
			delete(m.keys, c.P)
		}
	case "accept":
		if c.K == "-" { // forgotten
			delete(p.st.pins, addrKey(addrs[c.Q]))
		} else {
			p.st.pins[addrKey(addrs[c.Q])] = w.ev.key(c.K).ser()
		}
	case "delete":
		p.st.DeleteSession(addrs[c.Q])
		for _, m := range w.net {
			delete(m.got, c.P+c.Q)
		}
	case "archive":
		rec := p.st.LoadSession(addrs[c.Q])
		r := guard(func() error {
			rec.ArchiveCurrentState()
			p.st.StoreSession(addrs[c.Q], rec)
			return nil
		})
		if w.settle(i, e, p, r, "archive") {
			w.checkPost(i, e, p)
		}
	case "rotate":
		w.addSpk(c.P, e.B, e.F[0])
	case "rmspk":
		p.st.RemoveSignedPreKey(uint32(c.Spk))
	case "addotk":
		w.addOtk(c.P, w.preKey(e.B), e.F[0])
	case "again":
		w.doAgain(i, e, p)
	default:
		panic("unknown call " + c.Op)
	}
	if p.st.storeErr != "" {
		w.bad(i, "persist:load", "a stored record cannot be loaded: "+p.st.storeErr)
	}
	p.snap = p.st.snapAll()
}

func crashOf(e *Entry) string {
	if e.Crash {
		return e.C.Crash
	}
	return ""
}

func (w *World) noEffect(i int, p *PartyR, tag string) {
	now := p.st.snapAll()
	if d := diffMaps(p.snap.sess, now.sess); d != nil {
		w.bad(i, "noeffect:session", fmt.Sprintf("a failed or neutral call (%s) changed sessions %q", tag, d), tag)
	}
	if d := diffMaps(p.snap.pins, now.pins); d != nil {
		w.bad(i, "noeffect:pin", fmt.Sprintf("a failed or neutral call (%s) changed identities %q", tag, d), tag)
	}
	if d := diffMaps(p.snap.otk, now.otk); d != nil {
		w.bad(i, "noeffect:otk", fmt.Sprintf("a failed or neutral call (%s) changed prekeys %q", tag, d), tag)
	}
	if d := diffMaps(p.snap.spk, now.spk); d != nil {
		w.bad(i, "noeffect:spk", fmt.Sprintf("a failed or neutral call (%s) changed signed prekeys %q", tag, d), tag)
	}
}

// isolated checks that only q's things changed, and otk only as allowed.
func (w *World) isolated(i int, p *PartyR, q string) {
	now := p.st.snapAll()
	k := addrKey(addrs[q])
	for _, d := range append(diffMaps(p.snap.sess, now.sess), diffMaps(p.snap.pins, now.pins)...) {
		if d != k {
			w.bad(i, "isolation", fmt.Sprintf("a call for %q changed what is stored for %q", k, d))
		}
	}
	for t := range p.st.touched {
		if t != k {
			w.bad(i, "isolation", fmt.Sprintf("a call for %q used the store under %q", k, t))
		}
	}
	if d := diffMaps(p.snap.spk, now.spk); d != nil {
		w.bad(i, "otk", fmt.Sprintf("signed prekeys changed: %q", d))
	}
}

// settle judges the result of a call against the expectation; true if it went as expected.
func (w *World) settle(i int, e *Entry, p *PartyR, r result, what string, tags ...string) bool {
	c := &e.C
	if r.pan != "" {
		cl := "panic:" + what
		if e.OK {
			tags = append(tags, "genuine")
		}
		w.bad(i, cl, fmt.Sprintf("%s panicked: %s", c.Op, r.pan), tags...)
		p.st.crash = ""
		w.noEffect(i, p, "panic")
		return false
	}
	if e.Crash && !r.crashed {
		w.bad(i, "crash:nohit", fmt.Sprintf("%s did not reach the write %s", c.Op, c.Crash), append(tags, c.Crash[:3])...)
		return false
	}
	if r.crashed {
		w.crashes++
		p.st.restart()
		p.ciphers = map[string]*session.Cipher{}
		if len(e.Post) == 1 { // the order of the writes of session and identity is free
			w.syncPin(p, c.Q, e.Post[0].Pin)
		} else {
			w.syncPin(p, c.Q, "?")
		}
		return true
	}
	if e.OK != (r.err == nil) {
		if e.OK {
			w.bad(i, "reject:"+what, fmt.Sprintf("%s was refused: %v", c.Op, r.err), tags...)
		} else {
			w.bad(i, "accept:"+what+":"+e.Why, fmt.Sprintf("%s (%s) was accepted, expected: %s", c.Op, c.Tam, e.Why), tags...)
		}
	}
	if r.err != nil {
		w.noEffect(i, p, "failed")
	} else {
		w.isolated(i, p, c.Q)
	}
	return e.OK == (r.err == nil)
}

func (w *World) syncPin(p *PartyR, q, want string) {
	k := addrKey(addrs[q])
	if want == "?" {
		return
	}
	if want == "-" {
		if _, ok := p.snap.pins[k]; !ok {
			delete(p.st.pins, k)
		}
		return
	}
	b := w.ev.key(want).ser()
	old := p.snap.pins[k]
	// either the old or the new one is fine; follow the specification from here
	if old == nil || bytes.Equal(old, b) {
		p.st.pins[k] = b
	}
}

// ---- bundles

func (w *World) doBundle(i int, e *Entry, p *PartyR) {
	c := &e.C
	src := w.ps[c.Src]
	var spk, otk ecc.ECPublicKeyable
	var sig [64]byte
	ident := identKey(w.ev.key(src.ident).pub)
	if c.Spk != -1 {
		spk, sig = src.pubs[c.Spk].pub, src.pubs[c.Spk].sig
	}
	switch c.Tam {
	case "sig":
		k := pick(512, "sig", w.seed, i)
		switch pick(4, "sigkind", w.seed, i) {
		case 0:
			sig = [64]byte{}
		default:
			sig[k/8] ^= 1 << (k % 8)
			if k == 511 { // the sign of the public point is part of the signature
				sig[0] ^= 1
			}
		}
	case "key":
		spk = ecc.NewDjbECPublicKey(w.ev.key("zS").pub)
	case "ident":
		ident = identKey(w.ev.key("zI").pub)
	case "own":
		ident = identKey(w.ev.key("zI").pub)
		spk = ecc.NewDjbECPublicKey(w.ev.key("zS").pub)
		var priv [32]byte
		copy(priv[:], w.ev.key("zI").priv)
		sig = ecc.CalculateSignature(ecc.NewDjbECPrivateKey(priv), spk.Serialize())
	}
	otkOpt := optional.NewEmptyUint32()
	if w.cfg.NilOtk {
		otkOpt = nil
	}
	if c.Otk != -1 {
		otkOpt = optional.NewOptionalUint32(uint32(c.Otk))
		otk = src.pubo[c.Otk]
		if c.Tam == "own" {
			otk = ecc.NewDjbECPublicKey(w.ev.key("z0").pub)
		}
	}
	spk0 := uint32(0)
	if c.Spk != -1 {
		spk0 = uint32(c.Spk)
	}
	b := prekey.NewBundle(src.st.reg, src.addr.DeviceID(), otkOpt, spk0, otk, spk, sig, ident)
	r := guard(func() error {
		return session.NewBuilderFromSignal(p.st, addrs[c.Q], p.st.ser).ProcessBundle(b)
	})
	good := w.settle(i, e, p, r, "bundle", c.Tam)
	if len(e.F) == 2 && p.st.stored != nil && p.st.stored.SessionState != nil {
		st := p.st.stored.SessionState
		w.bindBase(e.F[0], st)
		w.bindRatchet(e.F[1], st)
	}
	if good {
		w.checkPost(i, e, p)
	}
}

func (w *World) bindBase(n string, st *record.StateStructure) {
	if len(st.SenderBaseKey) != 33 {
		return
	}
	k := &KP{}
	copy(k.pub[:], st.SenderBaseKey[1:])
	w.bindNew(n, k)
}

func (w *World) bindRatchet(n string, st *record.StateStructure) {
	if st.SenderChain == nil || len(st.SenderChain.SenderRatchetKeyPublic) != 33 {
		return
	}
	k := &KP{}
	copy(k.pub[:], st.SenderChain.SenderRatchetKeyPublic[1:])
	if len(st.SenderChain.SenderRatchetKeyPrivate) == 32 {
		k.priv = append([]byte{}, st.SenderChain.SenderRatchetKeyPrivate...)
	}
	w.bindNew(n, k)
}

// ---- encryption

func (w *World) doEnc(i int, e *Entry, p *PartyR) {
	c := &e.C
	keep := map[int]int{}
	for j, o := range c.Keep {
		keep[o] = j
	}
	for o := 0; o < c.N; o++ {
		body := w.body(e.B+o, c.N > 40)
		buf := make([]byte, len(body)+40)
		copy(buf, body)
		for j := len(body); j < len(buf); j++ {
			buf[j] = 0xA5
		}
		orig := append([]byte{}, buf...)
		p.st.hot = c.N > 40 && o > 0 && o < c.N-1
		if c.N > 40 && o == c.N-1 {
			p.st.cool()
		}
		var m protocol.CiphertextMessage
		r := guard(func() error {
			var err error
			m, err = w.plainCipher(p, c.Q).Encrypt(buf[:len(body)])
			return err
		})
		if !bytes.Equal(buf, orig) {
			w.bad(i, "alias", "Encrypt wrote into the caller's memory")
		}
		if !w.settleEnc(i, e, p, r, o) {
			p.st.cool()
			return
		}
		if r.ok() {
			w.sent(i, e, p, m, e.B+o, body, keep, o)
		}
		if c.N > 1 {
			p.st.touched = map[string]bool{}
		}
	}
	if e.OK {
		w.checkPost(i, e, p)
	}
}

func (w *World) settleEnc(i int, e *Entry, p *PartyR, r result, o int) bool {
	if e.C.N == 1 || r.pan != "" || r.err != nil {
		return w.settle(i, e, p, r, "enc")
	}
	if !e.OK {
		w.bad(i, "accept:enc:"+e.Why, "encrypting was accepted")
		return false
	}
	return true
}

// sent looks at a message the library produced.
func (w *World) sent(i int, e *Entry, p *PartyR, m protocol.CiphertextMessage, b int, body []byte, keep map[int]int, o int) {
	pre, isPre := m.(*protocol.PreKeySignalMessage)
	plain, isPlain := m.(*protocol.SignalMessage)
	if isPre {
		plain = pre.WhisperMessage()
	} else if !isPlain {
		w.bad(i, "wire:type", fmt.Sprintf("Encrypt returned a %T", m))
		return
	}
	j, kept := keep[o]
	if !kept && e.C.N > 40 {
		// lost on the way; only its number matters
		k := fmt.Sprintf("%x|%d", plain.SenderRatchetKey().PublicKey(), plain.Counter())
		w.useKey(i, k, b)
		return
	}
	n := &NetMsg{from: e.C.P, to: e.C.Q, body: b, bytes: append([]byte{}, m.Serialize()...),
		keys: map[string]*message.Keys{}, got: map[string]bool{}}
	var err error
	if isPre {
		n.e, err = decEnv(n.bytes, w.cfg.Proto)
		if err == nil {
			n.w, err = decWire(n.e.Msg, w.cfg.Proto)
		}
	} else {
		n.w, err = decWire(n.bytes, w.cfg.Proto)
	}
	if err != nil {
		w.bad(i, "wire:encoding", "a message is not well formed: "+err.Error())
		n.w = &Wire{}
	}
	if w.cfg.Reuse {
		n.plain, n.pre = plain, pre
	}
	w.useKey(i, fmt.Sprintf("%x|%d", n.w.RK, n.w.Ctr), b)
	if kept {
		w.net = append(w.net, n)
		if j < len(e.Msgs) {
			n.x = &e.Msgs[j]
			w.checkWire(i, n, body)
		}
		w.checkGetters(i, n, plain, pre)
	}
}

func (w *World) useKey(i int, k string, b int) {
	if old, ok := w.used[k]; ok {
		w.bad(i, "keyreuse", fmt.Sprintf("messages %d and %d have the same ratchet key and counter", old, b))
	}
	w.used[k] = b
}

func (w *World) try(f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(unknownName); !ok {
				panic(x)
			}
		}
	}()
	f()
}

func (w *World) mac(x *XW, wr *Wire, mk *MK) []byte {
	return hmac256(mk.mac, w.ev.key(x.LI).ser(), w.ev.key(x.RI).ser(), wr.signedBody(w.cfg.Proto))[:8]
}

func (w *World) checkWire(i int, n *NetMsg, body []byte) {
	x := &n.x.W
	xe := &n.x.E
	if xe.Has != (n.e != nil) {
		w.bad(i, "wire:env", fmt.Sprintf("handshake data in the message: %v, expected: %v", n.e != nil, xe.Has))
	}
	w.try(func() {
		if xe.Has && n.e != nil {
			got := n.e
			if got.Ver != xe.Ver || got.Reg != uint32(xe.Reg) || got.Spk != uint32(xe.Spk) ||
				(got.Otk == nil) != (xe.Otk == -1) || (got.Otk != nil && int(*got.Otk) != xe.Otk) ||
				!bytes.Equal(got.Base, w.ev.key(xe.Base).ser()) || !bytes.Equal(got.Ident, w.ev.key(xe.Ident).ser()) {
				w.bad(i, "wire:env", fmt.Sprintf("handshake data %+v, expected %+v", got, xe))
			}
		}
	})
	if n.w.Ver != x.Ver {
		w.bad(i, "wire:ver", fmt.Sprintf("version %d, expected %d", n.w.Ver, x.Ver))
	}
	if want := w.ctr(x.X, x.Dhs, len(x.Dhs), x.I); int(n.w.Ctr) != want {
		w.bad(i, "wire:ctr", fmt.Sprintf("counter %d, expected %d", n.w.Ctr, want))
	}
	if want := w.prevCtr(x.X, x.Dhs, len(x.Dhs), x.Prev); int(n.w.Prev) != want {
		w.bad(i, "wire:prev", fmt.Sprintf("previous counter %d, expected %d", n.w.Prev, want))
	}
	w.try(func() {
		if !bytes.Equal(n.w.RK, w.ev.key(x.RK).ser()) {
			w.bad(i, "wire:rk", "the ratchet key is not "+x.RK)
		}
	})
	w.try(func() {
		mk := w.ev.chain(x.X, x.Dhs, len(x.Dhs)).mk(x.I)
		if !bytes.Equal(n.w.CT, cbcEncrypt(mk.cipher, mk.iv, body)) {
			w.bad(i, "wire:ct", "the ciphertext is not that of the prescribed message key")
		}
		if !bytes.Equal(n.w.Mac, w.mac(x, n.w, mk)) {
			w.bad(i, "wire:mac", "the authentication code is not the prescribed one")
		}
	})
}

// checkGetters compares the object with its bytes.
func (w *World) checkGetters(i int, n *NetMsg, plain *protocol.SignalMessage, pre *protocol.PreKeySignalMessage) {
	wr := n.w
	if plain.MessageVersion() != wr.Ver || plain.Counter() != wr.Ctr || !bytes.Equal(plain.Body(), wr.CT) ||
		!bytes.Equal(plain.SenderRatchetKey().Serialize(), wr.RK) {
		w.bad(i, "wire:object", "the fields of a message are not those of its bytes")
	}
	if pre == nil {
		return
	}
	e := n.e
	id := pre.PreKeyID()
	if pre.MessageVersion() != e.Ver || pre.RegistrationID() != e.Reg || pre.SignedPreKeyID() != e.Spk ||
		!bytes.Equal(pre.BaseKey().Serialize(), e.Base) || !bytes.Equal(pre.IdentityKey().Serialize(), e.Ident) ||
		(id == nil || id.IsEmpty) != (e.Otk == nil) || (e.Otk != nil && id != nil && id.Value != *e.Otk) {
		w.bad(i, "wire:object", "the fields of a handshake are not those of its bytes")
	}
}

// ---- decryption

// undecryptable makes a ciphertext that has no plaintext under the key of a message: it is empty,
// is not made of whole blocks, or its padding is none. It is nil if the key is not known.
func (w *World) undecryptable(i int, x *XW) (ct []byte) {
	defer func() {
		if recover() != nil {
			ct = nil
		}
	}()
	mk := w.ev.chain(x.X, x.Dhs, len(x.Dhs)).mk(x.I)
	switch k := pick(6, "undecryptable", w.seed, i); k {
	case 0:
		return []byte{}
	case 1:
		return prand(15, "undecryptable bytes", w.seed, i)
	case 2:
		return prand(33, "undecryptable bytes", w.seed, i)
	default:
		pt := prand(32, "undecryptable bytes", w.seed, i)
		pt[31] = []byte{0, 17, 255, 33}[pick(4, "padding", w.seed, i)]
		return cbcEncrypt(mk.cipher, mk.iv, pt)[:32]
	}
}

// tamper makes the bytes to be delivered.
func (w *World) tamper(i int, c *Call) (b []byte, pre bool) {
	n := w.net[c.M-1]
	if c.Tam == "none" {
		return n.bytes, n.e != nil
	}
	wr := *n.w
	var env *EnvWire
	if n.e != nil {
		x := *n.e
		env = &x
	}
	var o *NetMsg
	if c.Arg >= 1 && c.Arg <= len(w.net) {
		o = w.net[c.Arg-1]
	}
	r := func(n int, what string) int { return pick(n, what, w.seed, i) }
	badVer := func() int { return []int{2, 2, 2, 1, 4}[r(5, "ver")] }
	switch c.Tam {
	case "ver":
		wr.Ver = badVer()
		if x := n.x; x != nil && r(2, "insider") == 0 { // the sender itself uses another version
			w.try(func() { wr.Mac = w.mac(&x.W, &wr, w.ev.chain(x.W.X, x.W.Dhs, len(x.W.Dhs)).mk(x.W.I)) })
		}
	case "rk":
		wr.RK = w.ev.key(c.K).ser()
	case "ctr":
		wr.Ctr = uint32(c.Arg)
		if x := n.x; x != nil {
			wr.Ctr = uint32(w.ctr(x.W.X, x.W.Dhs, len(x.W.Dhs), c.Arg))
		}
		if w.now != nil && w.now.Why == "future" && r(2, "far") == 0 {
			if far := []int64{0xffffffff, 0x80000000, int64(wr.Ctr) + 0x7fffff00, 0xf0000000}[r(4, "how far")]; far > int64(wr.Ctr) && far < 1<<32 {
				wr.Ctr = uint32(far)
			}
		}
	case "prev":
		wr.Prev = uint32(c.Arg)
	case "body":
		if x := n.x; x != nil && r(3, "insider") == 0 {
			// The modifying party knows the message key: the authentication code is right and
			// only the ciphertext can give the modification away.
			if ct := w.undecryptable(i, &x.W); ct != nil {
				wr.CT = ct
				wr.Mac = w.mac(&x.W, &wr, w.ev.chain(x.W.X, x.W.Dhs, len(x.W.Dhs)).mk(x.W.I))
				break
			}
		}
		ct := append([]byte{}, wr.CT...)
		switch k := r(8, "body"); {
		case k == 0:
			ct = append(ct, prand(16, "tail", w.seed, i)...)
		case k == 1 && len(ct) > 16:
			ct = ct[:len(ct)-16]
		case k == 2:
			ct = ct[:len(ct)-1]
		case k == 3:
			ct = []byte{}
		default:
			j := r(len(ct)*8, "bit")
			ct[j/8] ^= 1 << (j % 8)
		}
		wr.CT = ct
	case "obody":
		wr.CT = o.w.CT
	case "mac":
		mac := append([]byte{}, wr.Mac...)
		switch k := r(8, "mac"); {
		case k == 0 && !w.cfg.Proto:
			mac = mac[:r(8, "len")]
		case k == 1 && !w.cfg.Proto:
			mac = append(mac, 0)
		case k == 2:
			mac = make([]byte, 8)
		default:
			j := r(64, "bit")
			mac[j/8] ^= 1 << (j % 8)
		}
		wr.Mac = mac
	case "omac":
		wr.Mac = o.w.Mac
	case "ever":
		env.Ver = badVer()
	case "eotk":
		env.Otk = nil
		if c.Arg != -1 {
			v := uint32(c.Arg)
			env.Otk = &v
		}
	case "espk":
		env.Spk = uint32(c.Arg)
	case "ebase":
		env.Base = w.ev.key(c.K).ser()
	case "eident":
		env.Ident = w.ev.key(c.K).ser()
	case "strip":
		env = nil
	case "wrap":
		env = nil
		if o.e != nil {
			x := *o.e
			env = &x
		}
	case "forge":
		env = &EnvWire{Ver: 3, Reg: uint32(regID(7)), Spk: uint32(c.Spk), Base: w.ev.key("z0").ser(), Ident: w.ev.key(c.K).ser()}
		if c.Otk != -1 {
			v := uint32(c.Otk)
			env.Otk = &v
		}
	default:
		panic("unknown modification " + c.Tam)
	}
	if env == nil {
		return wr.enc(w.cfg.Proto), false
	}
	env.Msg = wr.enc(w.cfg.Proto)
	return env.enc(w.cfg.Proto), true
}

// own decrypts as an application does that keeps the record itself: what the message does to
// the record is stored if it is genuine and from a trusted identity.
func (w *World) own(i int, p *PartyR, q string, pm *protocol.PreKeySignalMessage, sm *protocol.SignalMessage) (pt []byte, keys *message.Keys, err error) {
	a := addrs[q]
	if pm == nil && !p.st.ContainsSession(a) {
		return nil, nil, fmt.Errorf("no session")
	}
	rec := p.st.LoadSession(a).Copy()
	used := optional.NewEmptyUint32()
	if pm != nil {
		b := session.NewBuilder(p.st, p.st, p.st, p.st, a, p.st.ser)
		if used, err = b.Process(rec, pm); err != nil {
			return nil, nil, err
		}
		sm = pm.WhisperMessage()
	}
	before := rec.Serialize()
	ci := w.cipher(p, q)
	if pt, keys, err = ci.DecryptWithRecord(rec, sm); err != nil {
		if !bytes.Equal(before, rec.Serialize()) {
			w.bad(i, "noeffect:record", "a refused message changed the record it was to be decrypted with")
		}
		for _, s := range append([]*record.State{rec.SessionState()}, rec.PreviousSessionStates()...) {
			if s == nil {
				continue
			}
			if _, _, serr := ci.DecryptWithState(s, sm); serr == nil {
				w.bad(i, "noeffect:record", "a message that the record refused is accepted by one of its states")
			}
		}
		if !bytes.Equal(before, rec.Serialize()) {
			w.bad(i, "noeffect:record", "a refused message changed the state it was to be decrypted with")
		}
		return nil, nil, err
	}
	s := rec.SessionState()
	if pm != nil && !bytes.Equal(s.SenderBaseKey(), pm.BaseKey().Serialize()) {
		return nil, nil, fmt.Errorf("a handshake around a message of another session")
	}
	if !p.st.IsTrustedIdentity(a, s.RemoteIdentityKey()) {
		return nil, nil, fmt.Errorf("untrusted")
	}
	p.st.SaveIdentity(a, s.RemoteIdentityKey())
	p.st.StoreSession(a, rec)
	if !used.IsEmpty {
		p.st.RemovePreKey(used.Value)
	}
	return pt, keys, nil
}

func (w *World) doDlv(i int, e *Entry, p *PartyR) {
	c := &e.C
	n := w.net[c.M-1]
	b, pre := w.tamper(i, c)
	in := append([]byte{}, b...)
	var pm *protocol.PreKeySignalMessage
	var sm *protocol.SignalMessage
	reused := false
	var pt []byte
	var keys *message.Keys
	withKey := w.cfg.Key == 1 || (w.cfg.Key == 2 && pick(2, "key", w.seed, i) == 0)
	if e.Why == "keep" {
		withKey = true
	}
	if pre && w.cfg.FromSession && !e.Crash && pick(3, "nobuilder", w.seed, i) == 0 {
		// a cipher without a builder cannot take handshakes, but must survive them
		r := guard(func() error {
			m, err := protocol.NewPreKeySignalMessageFromBytes(append([]byte{}, b...), p.st.ser.PreKeySignalMessage, p.st.ser.SignalMessage)
			if err != nil {
				return err
			}
			_, err = w.plainCipher(p, c.Q).DecryptMessage(m)
			return err
		})
		if r.pan != "" {
			w.bad(i, "panic:nobuilder", "a handshake on a cipher without a builder panicked: "+r.pan)
		}
		w.noEffect(i, p, "nobuilder")
	}
	r := guard(func() error {
		var err error
		if pre {
			if c.Tam == "none" && w.cfg.Reuse && n.pre != nil {
				pm, reused = n.pre, true
			} else if pm, err = protocol.NewPreKeySignalMessageFromBytes(in, p.st.ser.PreKeySignalMessage, p.st.ser.SignalMessage); err != nil {
				return err
			}
			if w.cfg.Own {
				pt, keys, err = w.own(i, p, c.Q, pm, nil)
				return err
			}
			ci := w.cipher(p, c.Q)
			if withKey {
				pt, keys, err = ci.DecryptMessageReturnKey(pm)
			} else {
				pt, err = ci.DecryptMessage(pm)
			}
			return err
		}
		if c.Tam == "none" && w.cfg.Reuse && n.plain != nil {
			sm, reused = n.plain, true
		} else if sm, err = protocol.NewSignalMessageFromBytes(in, p.st.ser.SignalMessage); err != nil {
			return err
		}
		if w.cfg.Own {
			pt, keys, err = w.own(i, p, c.Q, nil, sm)
			return err
		}
		ci := w.plainCipher(p, c.Q)
		if withKey {
			pt, keys, err = ci.DecryptAndGetKey(sm)
		} else {
			pt, err = ci.Decrypt(sm)
		}
		return err
	})
	if !bytes.Equal(in, b) {
		w.bad(i, "alias", "decrypting changed the received bytes")
	}
	if c.Tam == "none" {
		var re []byte
		if pm != nil {
			re = pm.Serialize()
		} else if sm != nil {
			re = sm.Serialize()
		}
		if re != nil && !bytes.Equal(re, n.bytes) {
			cl := "wire:roundtrip"
			if reused {
				cl = "alias"
			}
			w.bad(i, cl, "a message object does not serialize to the bytes it was made of after decryption")
		}
	}
	what := "msg"
	var tags []string
	genuine := c.Tam == "none" && n.to == c.P && n.from == c.Q
	gk := c.P + c.Q
	if pre {
		tags = append(tags, "pre")
		if n.e != nil && n.e.Otk == nil {
			tags = append(tags, "nootk")
		}
	}
	tags = append(tags, e.How...)
	switch {
	case c.Tam != "none":
		tags = append(tags, "tam:"+c.Tam)
		if genuine = w.sameWhisper(c.Tam) && n.to == c.P && n.from == c.Q; genuine {
			tags = append(tags, "envelope")
		}
	case c.P == n.from:
		tags = append(tags, "reflected")
	case !genuine:
		tags = append(tags, "redirected")
	}
	if genuine && n.got[gk] {
		tags = append(tags, "replay")
	} else if genuine {
		tags = append(tags, "first")
	}
	if reused {
		tags = append(tags, "reused")
	}
	if genuine {
		tags = append(tags, "genuine")
	} else {
		tags = append(tags, "foreign")
	}
	good := w.settle(i, e, p, r, what, tags...)
	if len(e.F) == 1 && r.ok() && p.st.stored != nil && p.st.stored.SessionState != nil {
		w.bindRatchet(e.F[0], p.st.stored.SessionState)
	}
	if (r.ok() || r.crashed) && p.st.sess[addrKey(addrs[c.Q])] != nil {
		if r.crashed && len(e.F) == 1 && p.st.stored != nil {
			w.bindRatchet(e.F[0], p.st.stored.SessionState)
		}
		if genuine && !(r.crashed && c.Crash == "rec-") {
			n.got[gk] = true
		}
	}
	if r.ok() {
		if want := w.body(n.body, false); !bytes.Equal(pt, want) && !bytes.Equal(pt, w.body(n.body, true)) {
			w.bad(i, "plaintext", fmt.Sprintf("a message of %d bytes was decrypted to %d other bytes", len(want), len(pt)), tags...)
		}
		if withKey {
			if keys == nil {
				w.bad(i, "again", "no message keys were returned")
			} else {
				n.keys[c.P] = keys
				if n.x != nil {
					w.try(func() {
						mk := w.ev.chain(n.x.W.X, n.x.W.Dhs, len(n.x.W.Dhs)).mk(n.x.W.I)
						if !bytes.Equal(mk.cipher, keys.CipherKey()) || !bytes.Equal(mk.iv, keys.Iv()) || !bytes.Equal(mk.mac, keys.MacKey()) {
							w.bad(i, "again", "the returned message keys are not those of the message")
						}
					})
				}
			}
		}
		// the message itself works again with the same key from here on
	}
	if good && (e.OK || e.Crash) {
		w.checkPost(i, e, p)
	}
}

func (w *World) sameWhisper(tam string) bool {
	switch tam {
	case "ever", "eotk", "espk", "ebase", "eident", "strip", "wrap", "forge":
		return true
	}
	return false
}

func (w *World) doAgain(i int, e *Entry, p *PartyR) {
	c := &e.C
	n := w.net[c.M-1]
	k := n.keys[c.P]
	if k == nil {
		return // this configuration did not ask for the key
	}
	var pt []byte
	r := guard(func() error {
		sm := n.plain
		if sm == nil {
			var err error
			if n.e != nil {
				pm, err := protocol.NewPreKeySignalMessageFromBytes(n.bytes, p.st.ser.PreKeySignalMessage, p.st.ser.SignalMessage)
				if err != nil {
					return err
				}
				sm = pm.WhisperMessage()
			} else if sm, err = protocol.NewSignalMessageFromBytes(n.bytes, p.st.ser.SignalMessage); err != nil {
				return err
			}
		}
		var err error
		pt, err = w.plainCipher(p, n.from).DecryptWithKey(sm, k)
		return err
	})
	if !r.ok() {
		w.bad(i, "again", fmt.Sprintf("the saved message key no longer decrypts its message: %v %s", r.err, r.pan))
	} else if !bytes.Equal(pt, w.body(n.body, false)) && !bytes.Equal(pt, w.body(n.body, true)) {
		w.bad(i, "again", "the saved message key decrypts its message to something else")
	}
	w.noEffect(i, p, "again")
}

// ---- stored state

type diff struct{ class, detail string }

func (w *World) checkPost(i int, e *Entry, p *PartyR) {
	if len(e.Post) == 0 || w.statesBad {
		return
	}
	x := &e.Post[0]
	q := addrs[e.C.Q]
	k := addrKey(q)
	var ds []diff
	add := func(cl, f string, a ...interface{}) { ds = append(ds, diff{cl, fmt.Sprintf(f, a...)}) }

	w.try(func() {
		pin := p.st.pins[k]
		if x.Pin == "-" && pin != nil || x.Pin != "-" && !bytes.Equal(pin, w.ev.key(x.Pin).ser()) {
			add("pin", "remembered identity %x, expected %s", pin, x.Pin)
		}
	})
	if got, want := fmt.Sprint(sortedIDs(p.st.prekeys)), fmt.Sprint(sorted(x.Otk)); got != want {
		add("otk", "one-time prekeys %s, expected %s", got, want)
	}
	if got, want := fmt.Sprint(sortedIDs(p.st.signed)), fmt.Sprint(sorted(x.Spk)); got != want {
		add("otk", "signed prekeys %s, expected %s", got, want)
	}

	img := p.st.image(k)
	var rec *record.SessionStructure
	if img != nil {
		var err error
		rec, err = p.st.ser.Session.Deserialize(img)
		if err != nil {
			add("persist:load", "the stored session cannot be decoded: %v", err)
		}
	}
	if rec == nil {
		rec = &record.SessionStructure{}
	}
	dr := w.diffRec(&x.Rec, rec)
	// is it the stored form that differs, or the state itself?
	if len(dr) > 0 && p.st.stored != nil && len(w.diffRec(&x.Rec, p.st.stored)) == 0 {
		for j := range dr {
			dr[j].class = "persist:session"
		}
	}
	ds = append(ds, dr...)
	if img != nil && (len(img) < 60000 || i%8 == 0) {
		w.checkReload(i, p, img)
		if len(dr) == 0 {
			w.checkErased(i, &x.Rec, img)
		}
	}
	for _, d := range ds {
		w.bad(i, d.class, d.detail, e.C.Op)
	}
	if len(ds) > 0 {
		w.statesBad = true
		if img != nil && len(dr) > 0 {
			w.checkErased(i, &x.Rec, img)
		}
	}
}

func sorted(a []int) []int {
	b := append([]int{}, a...)
	sort.Ints(b)
	return b
}

func norm(v interface{}) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		for k := range t {
			n := norm(t[k])
			if n == nil {
				delete(t, k)
			} else {
				t[k] = n
			}
		}
		return t
	case []interface{}:
		if len(t) == 0 {
			return nil
		}
		for j := range t {
			t[j] = norm(t[j])
		}
		return t
	case string:
		if t == "" {
			return nil
		}
	}
	return v
}

func normJSON(v interface{}) string {
	b, err := json.Marshal(v)
	check(err)
	var x interface{}
	check(json.Unmarshal(b, &x))
	b, err = json.Marshal(norm(x))
	check(err)
	return string(b)
}

// checkReload: loading and saving again is the identity.
func (w *World) checkReload(i int, p *PartyR, img []byte) {
	r, err := record.NewSessionFromBytes(img, w.ser.Session, w.ser.State)
	if err != nil {
		w.bad(i, "persist:load", "the stored session cannot be loaded: "+err.Error())
		return
	}
	a, err1 := w.ser.Session.Deserialize(img)
	b, err2 := w.ser.Session.Deserialize(r.Serialize())
	if err1 != nil || err2 != nil || normJSON(a) != normJSON(b) {
		w.bad(i, "persist:session", "a session changes when it is saved and loaded")
	}
	if p.st.stored != nil && bytes.Equal(img, w.ser.Session.Serialize(p.st.stored)) && normJSON(a) != normJSON(p.st.stored) {
		w.bad(i, "persist:session", "the serialized session is not the one that was stored")
	}
	// a single state on its own, too
	s := r.SessionState()
	if s.HasSenderChain() {
		t, err := record.NewStateFromBytes(s.Serialize(), w.ser.State)
		if err != nil || !bytes.Equal(t.Serialize(), s.Serialize()) {
			w.bad(i, "persist:session", "a session state changes when it is saved and loaded")
		}
	}
}

// checkErased: the stored record contains no other secret than those that belong there.
func (w *World) checkErased(i int, x *XRec, img []byte) {
	allowed := map[string]bool{}
	ok := true
	sts := append(append([]XState{}, x.Cur...), x.Prevs...)
	w.try(func() {
		ok = false
		for j := range sts {
			s := &sts[j]
			allowed[string(w.ev.root(s.X, s.Dhs, len(s.Dhs)))] = true
			allowed[string(w.ev.chain(s.X, s.Dhs, s.Snd.N).ck(s.Snd.I))] = true
			if k := w.ev.key(s.Snd.K); k.priv != nil {
				allowed[string(k.priv)] = true
			}
			for _, r := range s.Rcv {
				c := w.ev.chain(s.X, s.Dhs, r.N)
				allowed[string(c.ck(r.I))] = true
				for n := range r.skipped() {
					mk := c.mk(n)
					allowed[string(mk.cipher)] = true
					allowed[string(mk.mac)] = true
				}
			}
		}
		ok = true
	})
	if !ok {
		return
	}
	var v interface{}
	if json.Unmarshal(img, &v) != nil {
		for j := 0; j+32 <= len(img); j++ {
			b := img[j : j+32]
			if what, is := w.ev.secrets[string(b)]; is && !allowed[string(b)] {
				w.bad(i, "erasure", "the stored session still contains "+what)
			}
		}
		return
	}
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch t := v.(type) {
		case map[string]interface{}:
			for _, u := range t {
				walk(u)
			}
		case []interface{}:
			for _, u := range t {
				walk(u)
			}
		case string:
			b, err := base64.StdEncoding.DecodeString(t)
			if err != nil || len(b) < 32 {
				return
			}
			if what, is := w.ev.secrets[string(b)]; is && !allowed[string(b)] {
				w.bad(i, "erasure", "the stored session still contains "+what)
			}
		}
	}
	walk(v)
}

func (w *World) diffRec(x *XRec, r *record.SessionStructure) (ds []diff) {
	if r == nil {
		r = &record.SessionStructure{}
	}
	has := r.SessionState != nil && r.SessionState.SenderChain != nil
	if has != x.Has {
		return []diff{{"state:current", fmt.Sprintf("has a current session: %v, expected: %v", has, x.Has)}}
	}
	if has {
		ds = append(ds, w.diffState("current session", &x.Cur[0], r.SessionState)...)
	}
	if len(r.PreviousStates) != len(x.Prevs) {
		cl := "state:prevs-"
		if len(r.PreviousStates) > len(x.Prevs) {
			cl = "state:prevs+"
		}
		ds = append(ds, diff{cl, fmt.Sprintf("%d archived sessions, expected %d", len(r.PreviousStates), len(x.Prevs))})
		return
	}
	w.try(func() {
		left := map[string]*record.StateStructure{}
		for _, s := range r.PreviousStates {
			if s == nil {
				continue
			}
			left[string(s.SenderBaseKey)+string(s.RootKey)] = s
		}
		for j := range x.Prevs {
			s := &x.Prevs[j]
			k := string(w.ev.key(s.Base).ser())
			var found *record.StateStructure
			exact := k + string(w.ev.root(s.X, s.Dhs, len(s.Dhs)))
			if f := left[exact]; f != nil {
				found = f
				delete(left, exact)
			} else {
				for kk, f := range left {
					if strings.HasPrefix(kk, k) {
						found = f
						delete(left, kk)
						break
					}
				}
			}
			if found == nil {
				ds = append(ds, diff{"state:prevs-", "the session with base key " + s.Base + " is not archived"})
				return
			}
			ds = append(ds, w.diffState("archived session "+s.Base, s, found)...)
		}
	})
	return
}

func (w *World) diffState(where string, x *XState, s *record.StateStructure) (ds []diff) {
	add := func(cl, f string, a ...interface{}) {
		ds = append(ds, diff{cl, where + ": " + fmt.Sprintf(f, a...)})
	}
	w.try(func() {
		if !bytes.Equal(s.LocalIdentityPublic, w.ev.key(x.LI).ser()) || !bytes.Equal(s.RemoteIdentityPublic, w.ev.key(x.RI).ser()) {
			add("state:ident", "identities differ")
		}
	})
	if s.LocalRegistrationID != uint32(x.LReg) || s.RemoteRegistrationID != uint32(x.RReg) {
		add("state:reg", "registration ids %d, %d, expected %d, %d", s.LocalRegistrationID, s.RemoteRegistrationID, x.LReg, x.RReg)
	}
	if s.SessionVersion != 3 {
		add("state:version", "version %d", s.SessionVersion)
	}
	if want := w.prevCtr(x.X, x.Dhs, x.Snd.N, x.Prev); int(s.PreviousCounter) != want {
		add("state:prevctr", "previous counter %d, expected %d", s.PreviousCounter, want)
	}
	if s.PendingKeyExchange != nil {
		add("state:pend", "a pending key exchange")
	}
	w.try(func() {
		if !bytes.Equal(s.SenderBaseKey, w.ev.key(x.Base).ser()) {
			add("state:base", "base key is not %s", x.Base)
		}
	})
	w.try(func() {
		if !bytes.Equal(s.RootKey, w.ev.root(x.X, x.Dhs, len(x.Dhs))) {
			add("state:root", "root key is not that after %d agreements", len(x.Dhs))
		}
	})
	pp := s.PendingPreKey
	if (pp != nil) != x.Pend.Has {
		add("state:pend", "pending handshake: %v, expected: %v", pp != nil, x.Pend.Has)
	} else if pp != nil {
		w.try(func() {
			has := pp.PreKeyID != nil && !pp.PreKeyID.IsEmpty
			if has != (x.Pend.Otk != -1) || has && pp.PreKeyID.Value != uint32(x.Pend.Otk) ||
				pp.SignedPreKeyID != uint32(x.Pend.Spk) || !bytes.Equal(pp.BaseKey, w.ev.key(x.Pend.Base).ser()) {
				add("state:pend", "pending handshake %+v, expected %+v", pp, x.Pend)
			}
		})
	}
	sc := s.SenderChain
	if sc == nil || sc.ChainKey == nil {
		add("state:current", "no sending chain")
		return
	}
	next := w.ctr(x.X, x.Dhs, x.Snd.N, x.Snd.I)
	if int(sc.ChainKey.Index) != next {
		add("state:sndidx", "next message number %d, expected %d", sc.ChainKey.Index, next)
	}
	w.try(func() {
		k := w.ev.key(x.Snd.K)
		if !bytes.Equal(sc.SenderRatchetKeyPublic, k.ser()) || k.priv != nil && !bytes.Equal(sc.SenderRatchetKeyPrivate, k.priv) {
			add("state:sndkey", "own ratchet key is not %s", x.Snd.K)
		} else if len(sc.SenderRatchetKeyPrivate) == 32 && pubOf(sc.SenderRatchetKeyPrivate) != k.pub {
			add("state:sndkey", "own ratchet key pair does not fit together")
		}
	})
	w.try(func() {
		if int(sc.ChainKey.Index) == next && !bytes.Equal(sc.ChainKey.Key, w.ev.chain(x.X, x.Dhs, x.Snd.N).ck(x.Snd.I)) {
			add("state:sndchain", "sending chain key is not that after %d agreements and %d messages", x.Snd.N, x.Snd.I)
		}
	})
	if len(sc.MessageKeys) > 0 {
		add("state:skipped+", "message keys in the sending chain")
	}
	w.try(func() {
		left := map[string]*record.ChainStructure{}
		for _, c := range s.ReceiverChains {
			if c == nil || c.ChainKey == nil {
				add("state:rcvset", "empty receiving chain")
				return
			}
			left[string(c.SenderRatchetKeyPublic)] = c
		}
		if len(s.ReceiverChains) != len(x.Rcv) {
			cl := "state:rcvset-"
			if len(s.ReceiverChains) > len(x.Rcv) {
				cl = "state:rcvset+"
			}
			add(cl, "%d receiving chains, expected %d", len(s.ReceiverChains), len(x.Rcv))
			return
		}
		for j := range x.Rcv {
			xc := &x.Rcv[j]
			c := left[string(w.ev.key(xc.K).ser())]
			if c == nil {
				add("state:rcvset", "no receiving chain for %s", xc.K)
				continue
			}
			w.diffChain(add, x, xc, c)
		}
	})
	return
}

func (w *World) diffChain(add func(cl, f string, a ...interface{}), x *XState, xc *XChain, c *record.ChainStructure) {
	if len(c.SenderRatchetKeyPrivate) > 0 && !bytes.Equal(c.SenderRatchetKeyPrivate, make([]byte, len(c.SenderRatchetKeyPrivate))) {
		add("state:rcvset", "a private key in the receiving chain %s", xc.K)
	}
	ch := w.ev.chain(x.X, x.Dhs, xc.N)
	if next := w.ctr(x.X, x.Dhs, xc.N, xc.I); int(c.ChainKey.Index) != next {
		add("state:rcvidx", "receiving chain %s at %d, expected %d", xc.K, c.ChainKey.Index, next)
	} else if !bytes.Equal(c.ChainKey.Key, ch.ck(xc.I)) {
		add("state:rcvchain", "receiving chain key of %s is not that after %d agreements and %d messages", xc.K, xc.N, xc.I)
	}
	want := map[int]bool{}
	idx := map[int]int{}
	for n := range xc.skipped() {
		k := w.ctr(x.X, x.Dhs, xc.N, n)
		want[k], idx[k] = true, n
	}
	extra, missing, wrong := 0, 0, 0
	seen := map[int]bool{}
	for _, m := range c.MessageKeys {
		if m == nil {
			extra++
			continue
		}
		n := int(m.Index)
		if !want[n] || seen[n] {
			extra++
			continue
		}
		seen[n] = true
		mk := ch.mk(idx[n])
		if !bytes.Equal(m.CipherKey, mk.cipher) || !bytes.Equal(m.MacKey, mk.mac) || !bytes.Equal(m.IV, mk.iv) {
			wrong++
		}
	}
	missing = len(want) - len(seen)
	if extra > 0 {
		add("state:skipped+", "%d message keys of chain %s that should not be there (of %d)", extra, xc.K, len(c.MessageKeys))
	}
	if missing > 0 {
		add("state:skipped-", "%d of %d skipped message keys of chain %s are missing", missing, len(want), xc.K)
	}
	if wrong > 0 {
		add("state:skippedkey", "%d skipped message keys of chain %s are wrong", wrong, xc.K)
	}
}
