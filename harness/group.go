package main

// Replay of behaviours of GroupSys on the library.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grec "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
)

// ---- behaviours

type GCall struct {
	Op, P, G, S string
	D, N        int
	Keep        []int
	M           int
	Tam         string
	Arg         int
	K, Crash    string
}

func (c *GCall) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&c.Op, &c.P, &c.G, &c.S, &c.D, &c.N, &c.Keep, &c.M, &c.Tam, &c.Arg, &c.K, &c.Crash})
}
func (c GCall) MarshalJSON() ([]byte, error) {
	k := c.Keep
	if k == nil {
		k = []int{}
	}
	return json.Marshal([]interface{}{c.Op, c.P, c.G, c.S, c.D, c.N, k, c.M, c.Tam, c.Arg, c.K, c.Crash})
}

type GXMsg struct {
	Ver  int    `json:"ver"`
	ID   string `json:"id"`
	I    int    `json:"i"`
	K    string `json:"k"`
	CI   int    `json:"ci"`
	Body int    `json:"body"`
	By   string `json:"by"`
}

type GXDist struct {
	ID  string `json:"id"`
	K   string `json:"k"`
	I   int    `json:"i"`
	Sig string `json:"sig"`
}

type GXState struct {
	ID  string `json:"id"`
	K   string `json:"k"`
	I   int    `json:"i"`
	Sig string `json:"sig"`
	Own bool   `json:"own"`
	Lo  []int  `json:"lo"`
	Hi  []int  `json:"hi"`
}

type GXRec struct {
	N  int `json:"n"`
	St []struct {
		At int     `json:"at"`
		St GXState `json:"st"`
	} `json:"st"`
}

type GEntry struct {
	C     GCall    `json:"c"`
	OK    bool     `json:"ok"`
	Why   string   `json:"why"`
	How   []string `json:"how"`
	Crash bool     `json:"crash"`
	F     []string `json:"f"`
	B     int      `json:"b"`
	Msgs  []GXMsg  `json:"msgs"`
	Dist  []GXDist `json:"dist"`
	Post  []GXRec  `json:"post"`
}

type GTrace struct {
	Profile string   `json:"profile"`
	ID      int      `json:"id"`
	Seed    int      `json:"seed"`
	Log     []GEntry `json:"log"`
	Path    []GEntry `json:"path"`
	Loops   []GEntry `json:"loops"`
	Succ    []GEntry `json:"succ"`
}

type GCfg struct{ Live, Proto, Reuse, Long, Empty bool }

func (c GCfg) String() string {
	s := []string{"ser", "json"}
	if c.Live {
		s[0] = "live"
	}
	if c.Proto {
		s[1] = "proto"
	}
	if c.Reuse {
		s = append(s, "reuse")
	}
	if c.Long {
		s = append(s, "long")
	}
	if c.Empty {
		s = append(s, "empty")
	}
	return strings.Join(s, ",")
}

func parseGCfg(s string) (c GCfg) {
	for _, w := range strings.Split(s, ",") {
		switch w {
		case "live":
			c.Live = true
		case "proto":
			c.Proto = true
		case "reuse":
			c.Reuse = true
		case "long":
			c.Long = true
		case "empty":
			c.Empty = true
		}
	}
	return
}

var groupCfgs = []GCfg{
	{Empty: true},
	{Live: true, Proto: true, Reuse: true, Long: true},
	{Proto: true, Reuse: true},
	{Live: true, Empty: true},
	{Live: true, Reuse: true, Long: true, Empty: true},
	{Proto: true, Long: true, Empty: true},
}

// ---- the sender key schedule

type gkey struct{ seed, iv, cipher []byte }

type gchain struct {
	name string
	ev   *GEval
	cks  [][]byte
	mks  map[int]*gkey
}

func (c *gchain) ck(i int) []byte {
	for len(c.cks) <= i {
		c.cks = append(c.cks, hmac256(c.cks[len(c.cks)-1], []byte{2}))
		c.ev.secrets[string(c.cks[len(c.cks)-1])] = fmt.Sprintf("chain key %d of %s", len(c.cks)-1, c.name)
	}
	return c.cks[i]
}

func (c *gchain) mk(i int) *gkey {
	m := c.mks[i]
	if m == nil {
		seed := hmac256(c.ck(i), []byte{1})
		d := hkdf(seed, nil, []byte("WhisperGroup"), 48)
		m = &gkey{seed, d[:16], d[16:48]}
		c.mks[i] = m
		what := fmt.Sprintf("message key %d of %s", i, c.name)
		c.ev.secrets[string(seed)] = what
		c.ev.secrets[string(m.cipher)] = what
	}
	return m
}

type GEval struct {
	ids     map[string]uint32
	chains  map[string]*gchain
	sigs    map[string]*KP
	byID    map[uint32]string
	secrets map[string]string
}

func (e *GEval) id(n string) uint32 {
	v, ok := e.ids[n]
	if !ok {
		panic(unknownName(n))
	}
	return v
}

func (e *GEval) chain(n string) *gchain {
	c := e.chains[n]
	if c == nil {
		panic(unknownName(n))
	}
	return c
}

func (e *GEval) sig(n string) *KP {
	k := e.sigs[n]
	if k == nil {
		panic(unknownName(n))
	}
	return k
}

// ---- the real system

type GParty struct {
	name    string
	st      *Store
	ciphers map[string]*groups.GroupCipher
	snap    map[string][]byte
}

type GNet struct {
	g, s  string
	body  int
	bytes []byte
	w     *GroupWire
	obj   *protocol.SenderKeyMessage
	x     *GXMsg
	got   map[string]bool
}

type GDistR struct {
	g, s  string
	bytes []byte
	obj   *protocol.SenderKeyDistributionMessage
}

type GWorld struct {
	cfg       GCfg
	seed      []interface{}
	ev        *GEval
	ser       *serialize.Serializer
	ps        map[string]*GParty
	net       []*GNet
	dists     []*GDistR
	used      map[string]int
	mism      []Mism
	cov       map[string]int
	statesBad bool
	crashes   int
	now       *GEntry
	nstep     int
	dupIDs    int
	stop      bool
	*conversation
	ahead map[string]int // by how much the numbers of a sender key are set forward
}

func groupName(g string) string { return groupIDs[g] }

func skName(g, s string) *protocol.SenderKeyName {
	return protocol.NewSenderKeyName(groupName(g), addrs[s])
}

func newGWorld(cfg GCfg, cv *conversation, seed ...interface{}) *GWorld {
	w := &GWorld{conversation: cv, cfg: cfg, seed: seed, ps: map[string]*GParty{}, used: map[string]int{}, cov: map[string]int{}, ahead: map[string]int{}}
	w.ev = &GEval{map[string]uint32{}, map[string]*gchain{}, map[string]*KP{}, map[uint32]string{}, map[string]string{}}
	w.ser = cv.serializer(cfg.Proto)
	priv := prand(32, "attacker", seed)
	priv[0] &= 248
	priv[31] = priv[31]&127 | 64
	w.ev.sigs["zG"] = &KP{priv, pubOf(priv)}
	for _, p := range []string{"A", "B", "C"} {
		id := w.identity(p, 0)
		x := &GParty{name: p, st: newStore(id, regOf(p, 0), cfg.Live, w.ser), ciphers: map[string]*groups.GroupCipher{}}
		x.st.emptySK = cfg.Empty
		w.ps[p] = x
	}
	return w
}

func (w *GWorld) bad(i int, class, detail string, tags ...string) {
	if len(w.mism) < 40 {
		if w.crashes > 0 {
			tags = append(tags, "crash")
		}
		if w.now != nil && w.now.Crash {
			tags = append(tags, "crashed")
		}
		w.mism = append(w.mism, Mism{class, i, detail, tags})
	}
}

func (w *GWorld) builder(p *GParty) *groups.SessionBuilder {
	return groups.NewGroupSessionBuilder(p.st, p.st.ser)
}

func (w *GWorld) cipher(p *GParty, g, s string) *groups.GroupCipher {
	if c := p.ciphers[g+s]; c != nil && w.cfg.Long {
		return c
	}
	c := groups.NewGroupCipher(w.builder(p), skName(g, s), p.st)
	p.ciphers[g+s] = c
	return c
}

func (w *GWorld) body(b int) []byte {
	n := bodyLens[pick(len(bodyLens), "len", w.seed, b)]
	if pick(80, "big", w.seed, b) == 0 {
		n = 65521 + b%40
	}
	if pick(900, "huge", w.seed, b) == 0 {
		n = 1<<20 + b%40
	}
	out := prand(n, "body", w.seed, b)
	if n > 0 && b%3 == 0 {
		out[n-1] = byte(1 + b%16)
	}
	return out
}

func (w *GWorld) step(i int, e *GEntry) {
	w.nstep, w.now = i, e
	c := &e.C
	p := w.ps[c.P]
	full := "g:" + c.Op
	if e.Why != "" {
		full += "/" + e.Why
	}
	if c.Tam != "none" {
		full += "/" + c.Tam
	}
	if e.Crash {
		full += "/" + c.Crash
	}
	w.cov[full]++
	crash := ""
	if e.Crash {
		crash = c.Crash
	}
	p.st.begin(crash)
	p.st.storeErr = ""
	if p.snap == nil {
		p.snap = p.st.snapAll().sk
	}
	switch c.Op {
	case "create":
		w.doCreate(i, e, p)
	case "process":
		w.doProcess(i, e, p)
	case "enc":
		w.doEnc(i, e, p)
	case "dlv":
		w.doDlv(i, e, p)
	case "spin":
		w.doSpin(i, e, p)
	case "reset":
		p.st.deleteSK(nameKey(skName(c.G, c.S)))
		for _, m := range w.net {
			delete(m.got, c.P+c.G+c.S)
		}
	case "reload":
		p.st.restart()
		p.ciphers = map[string]*groups.GroupCipher{}
		w.noEffect(i, p, "reload")
	default:
		panic("unknown call " + c.Op)
	}
	if p.st.storeErr != "" {
		w.bad(i, "persist:load", "a stored record cannot be loaded: "+p.st.storeErr)
	}
	p.snap = p.st.snapAll().sk
}

func (w *GWorld) noEffect(i int, p *GParty, tag string) {
	if d := diffMaps(p.snap, p.st.snapAll().sk); d != nil {
		w.bad(i, "noeffect:senderkey", fmt.Sprintf("a failed or neutral call (%s) changed sender keys %q", tag, d), tag)
	}
}

func (w *GWorld) isolated(i int, p *GParty, k string) {
	for _, d := range diffMaps(p.snap, p.st.snapAll().sk) {
		if d != k {
			w.bad(i, "isolation", fmt.Sprintf("a call for %q changed what is stored for %q", k, d))
		}
	}
	for t := range p.st.touched {
		if t != k {
			w.bad(i, "isolation", fmt.Sprintf("a call for %q used the store under %q", k, t))
		}
	}
}

func (w *GWorld) settle(i int, e *GEntry, p *GParty, r result, what string, tags ...string) bool {
	c := &e.C
	if r.pan != "" {
		if e.OK {
			tags = append(tags, "genuine")
		}
		w.bad(i, "panic:"+what, fmt.Sprintf("%s panicked: %s", c.Op, r.pan), tags...)
		p.st.crash = ""
		w.noEffect(i, p, "panic")
		return false
	}
	if e.Crash && !r.crashed {
		w.bad(i, "crash:nohit", fmt.Sprintf("%s did not reach the write %s", c.Op, c.Crash), tags...)
		return false
	}
	if r.crashed {
		w.crashes++
		p.st.restart()
		p.ciphers = map[string]*groups.GroupCipher{}
		return true
	}
	if e.OK != (r.err == nil) {
		if e.OK {
			w.bad(i, "reject:"+what, fmt.Sprintf("%s was refused: %v", c.Op, r.err), tags...)
		} else {
			w.bad(i, "accept:"+what+":"+e.Why, fmt.Sprintf("%s (%s) was accepted, expected: %s", c.Op, c.Tam, e.Why), tags...)
		}
	}
	if r.err != nil {
		w.noEffect(i, p, "failed")
	} else {
		w.isolated(i, p, nameKey(skName(c.G, c.S)))
	}
	return e.OK == (r.err == nil)
}

// bind gives the keys of a new sender key their names.
func (w *GWorld) bind(i int, f []string, s *grec.SenderKeyStructure) {
	if s == nil || len(s.SenderKeyStates) != 1 {
		w.bad(i, "state:states", "a new sender key is not alone in its record")
		return
	}
	st := s.SenderKeyStates[0]
	if st.SenderChainKey == nil || len(st.SigningKeyPublic) != 33 || len(st.SigningKeyPrivate) != 32 {
		w.bad(i, "state:sig", "a new sender key has no chain or no complete signing key")
		return
	}
	if st.SenderChainKey.Iteration != 0 || len(st.SenderChainKey.ChainKey) != 32 {
		w.bad(i, "state:iter", fmt.Sprintf("a new sender key starts at %d with a chain key of %d bytes",
			st.SenderChainKey.Iteration, len(st.SenderChainKey.ChainKey)))
	}
	k := &KP{priv: append([]byte{}, st.SigningKeyPrivate...)}
	copy(k.pub[:], st.SigningKeyPublic[1:])
	if pubOf(k.priv) != k.pub {
		w.bad(i, "state:sig", "the signing key pair does not fit together")
	}
	if old, dup := w.ev.byID[st.KeyID]; dup {
		w.dupIDs++
		// key ids are random; among thousands two may be the same
		if w.dupIDs > 1 || len(w.ev.byID) < 300 {
			w.bad(i, "fresh-key", "a new sender key has the key id of "+old)
		}
		w.stop = true
	}
	w.ev.ids[f[0]] = st.KeyID
	w.ev.byID[st.KeyID] = f[0]
	ck := append([]byte{}, st.SenderChainKey.ChainKey...)
	if old, dup := w.ev.secrets[string(ck)]; dup {
		w.bad(i, "fresh-key", "a new chain key is "+old)
	}
	w.ev.secrets[string(ck)] = "chain key 0 of " + f[1]
	w.ev.chains[f[1]] = &gchain{f[1], w.ev, [][]byte{ck}, map[int]*gkey{}}
	if old, dup := w.ev.secrets[string(k.priv)]; dup {
		w.bad(i, "fresh-key", "a new signing key is "+old)
	}
	w.ev.secrets[string(k.priv)] = "private signing key " + f[2]
	w.ev.sigs[f[2]] = k
}

func (w *GWorld) doCreate(i int, e *GEntry, p *GParty) {
	c := &e.C
	var d *protocol.SenderKeyDistributionMessage
	r := guard(func() (err error) {
		d, err = w.builder(p).Create(skName(c.G, c.S))
		return
	})
	good := w.settle(i, e, p, r, "create")
	if len(e.F) == 3 {
		if p.st.storedSK == nil {
			w.bad(i, "state:states", "a new sender key was not stored")
		} else {
			w.bind(i, e.F, p.st.storedSK)
		}
	}
	if r.ok() && d != nil && len(e.Dist) == 1 {
		w.gotDist(i, e, d, &e.Dist[0])
	}
	if good {
		w.checkPost(i, e, p)
	}
	if good && len(e.F) == 3 && !w.statesBad && len(w.mism) == 0 {
		w.setForward(e, p, r.ok() && len(e.Dist) == 1)
	}
}

func (w *GWorld) try(f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(unknownName); !ok {
				panic(x)
			}
		}
	}()
	f()
}

func (w *GWorld) gotDist(i int, e *GEntry, d *protocol.SenderKeyDistributionMessage, x *GXDist) {
	r := &GDistR{g: e.C.G, s: e.C.S, bytes: append([]byte{}, d.Serialize()...), obj: d}
	w.dists = append(w.dists, r)
	n, err := decDist(r.bytes, w.cfg.Proto)
	if err != nil {
		w.bad(i, "wire:encoding", "a distribution message is not well formed: "+err.Error(), "dist")
		return
	}
	w.try(func() {
		if n.Ver != 3 || n.ID != w.ev.id(x.ID) || int(n.Iter) != x.I+w.ahead[x.ID] {
			w.bad(i, "dist", fmt.Sprintf("version %d, id %d, iteration %d distributed, expected %s at %d", n.Ver, n.ID, n.Iter, x.ID, x.I+w.ahead[x.ID]))
		}
		if !bytes.Equal(n.Chain, w.ev.chain(x.K).ck(x.I)) {
			w.bad(i, "dist:chain", "the distributed chain key is not the current one")
		}
		if !bytes.Equal(n.Key, w.ev.sig(x.Sig).ser()) {
			w.bad(i, "dist", "the distributed signing key is another one")
		}
	})
	m, err := protocol.NewSenderKeyDistributionMessageFromBytes(append([]byte{}, r.bytes...), w.ser.SenderKeyDistributionMessage)
	if err != nil || !bytes.Equal(m.Serialize(), r.bytes) {
		w.bad(i, "wire:roundtrip", "a distribution message does not survive encoding", "dist")
	} else if m.ID() != n.ID || m.Iteration() != n.Iter || !bytes.Equal(m.ChainKey(), n.Chain) ||
		!bytes.Equal(m.SignatureKey().Serialize(), n.Key) || d.ID() != n.ID || d.Iteration() != n.Iter ||
		!bytes.Equal(d.ChainKey(), n.Chain) || !bytes.Equal(d.SignatureKey().Serialize(), n.Key) {
		w.bad(i, "wire:object", "the fields of a distribution message are not those of its bytes", "dist")
	}
}

func (w *GWorld) doProcess(i int, e *GEntry, p *GParty) {
	c := &e.C
	d := w.dists[c.D-1]
	r := guard(func() error {
		m := d.obj
		if !w.cfg.Reuse || m == nil {
			var err error
			m, err = protocol.NewSenderKeyDistributionMessageFromBytes(append([]byte{}, d.bytes...), p.st.ser.SenderKeyDistributionMessage)
			if err != nil {
				return err
			}
		}
		w.builder(p).Process(skName(c.G, c.S), m)
		return nil
	})
	if w.cfg.Reuse && d.obj != nil && !bytes.Equal(d.obj.Serialize(), d.bytes) {
		w.bad(i, "alias", "a distribution message object changed")
	}
	if w.settle(i, e, p, r, "process", e.How...) {
		w.checkPost(i, e, p)
	}
}

func (w *GWorld) doSpin(i int, e *GEntry, p *GParty) {
	c := &e.C
	s := w.ps[c.S]
	s.st.begin("")
	k := nameKey(skName(c.G, c.S))
	p.st.hot = true
	r := guard(func() error {
		for j := 0; j < c.N && !w.stop; j++ {
			s.st.deleteSK(k)
			d, err := w.builder(s).Create(skName(c.G, c.S))
			if err != nil {
				return err
			}
			n := fmt.Sprint(e.B + j)
			w.bind(i, []string{"d" + c.S + n, "k" + c.S + n, "g" + c.S + n}, s.st.storedSK)
			if j == c.N-1 {
				w.gotDist(i, e, d, &e.Dist[0])
			}
			m, err := protocol.NewSenderKeyDistributionMessageFromBytes(d.Serialize(), p.st.ser.SenderKeyDistributionMessage)
			if err != nil {
				return err
			}
			w.builder(p).Process(skName(c.G, c.S), m)
		}
		return nil
	})
	p.st.cool()
	if w.stop {
		return
	}
	s.snap = s.st.snapAll().sk
	if w.settle(i, e, p, r, "process", "rotated", "spin") {
		w.checkPost(i, e, p)
	}
}

// ---- encryption

func (w *GWorld) doEnc(i int, e *GEntry, p *GParty) {
	c := &e.C
	keep := map[int]int{}
	for j, o := range c.Keep {
		keep[o] = j
	}
	for o := 0; o < c.N; o++ {
		body := w.body(e.B + o)
		_, kept := keep[o]
		if !kept {
			body = body[:len(body)%50]
		}
		buf := make([]byte, len(body)+40)
		copy(buf, body)
		for j := len(body); j < len(buf); j++ {
			buf[j] = 0xA5
		}
		orig := append([]byte{}, buf...)
		var m protocol.CiphertextMessage
		r := guard(func() (err error) {
			m, err = w.cipher(p, c.G, c.S).Encrypt(buf[:len(body)])
			return
		})
		if !bytes.Equal(buf, orig) {
			w.bad(i, "alias", "Encrypt wrote into the caller's memory")
		}
		if c.N == 1 || !r.ok() || !e.OK {
			if !w.settle(i, e, p, r, "enc") || !r.ok() {
				if r.crashed {
					w.checkPost(i, e, p)
				}
				return
			}
		}
		w.sent(i, e, m, e.B+o, body, kept, keep[o])
	}
	if e.OK {
		w.checkPost(i, e, p)
	}
}

func (w *GWorld) sent(i int, e *GEntry, m protocol.CiphertextMessage, b int, body []byte, kept bool, j int) {
	sm, ok := m.(*protocol.SenderKeyMessage)
	if !ok {
		w.bad(i, "wire:type", fmt.Sprintf("Encrypt returned a %T", m))
		return
	}
	k := fmt.Sprintf("%d|%d", sm.KeyID(), sm.Iteration())
	if old, ok := w.used[k]; ok {
		w.bad(i, "keyreuse", fmt.Sprintf("messages %d and %d have the same key id and iteration", old, b))
	}
	w.used[k] = b
	if !kept {
		return
	}
	n := &GNet{g: e.C.G, s: e.C.S, body: b, bytes: append([]byte{}, sm.SignedSerialize()...), got: map[string]bool{}}
	w.net = append(w.net, n)
	var err error
	n.w, err = decGroup(n.bytes, w.cfg.Proto)
	if err != nil {
		w.bad(i, "wire:encoding", "a message is not well formed: "+err.Error())
		n.w = &GroupWire{}
	}
	if w.cfg.Reuse {
		n.obj = sm
	}
	g := n.w
	if sm.KeyID() != g.ID || sm.Iteration() != g.Iter || sm.Version() != g.Ver || !bytes.Equal(sm.Ciphertext(), g.CT) {
		w.bad(i, "wire:object", "the fields of a message are not those of its bytes")
	}
	if j >= len(e.Msgs) {
		return
	}
	n.x = &e.Msgs[j]
	x := n.x
	w.try(func() {
		if int(g.Ver) != x.Ver {
			w.bad(i, "wire:ver", fmt.Sprintf("version %d, expected %d", g.Ver, x.Ver))
		}
		if g.ID != w.ev.id(x.ID) {
			w.bad(i, "wire:id", fmt.Sprintf("key id %d is not %s", g.ID, x.ID))
		}
		if want := x.I + w.ahead[x.ID]; int(g.Iter) != want {
			w.bad(i, "wire:iter", fmt.Sprintf("iteration %d, expected %d", g.Iter, want))
		}
		mk := w.ev.chain(x.K).mk(x.CI)
		if !bytes.Equal(g.CT, cbcEncrypt(mk.cipher, mk.iv, body)) {
			w.bad(i, "wire:ct", "the ciphertext is not that of the prescribed message key")
		}
		if !sigValid(w.ev.sig(x.By).pub, g.signedBody(w.cfg.Proto), g.Sig) {
			w.bad(i, "wire:sig", "the signature is not one of the distributed signing key over the message")
		}
	})
}

// ---- decryption

func (w *GWorld) sign(k string, g *GroupWire) []byte {
	var priv [32]byte
	copy(priv[:], w.ev.sig(k).priv)
	s := ecc.CalculateSignature(ecc.NewDjbECPrivateKey(priv), g.signedBody(w.cfg.Proto))
	return s[:]
}

func (w *GWorld) tamper(i int, e *GEntry) []byte {
	c := &e.C
	n := w.net[c.M-1]
	if c.Tam == "none" {
		return n.bytes
	}
	g := *n.w
	r := func(n int, what string) int { return pick(n, what, w.seed, i) }
	ahead := 0
	if n.x != nil {
		ahead = w.ahead[n.x.ID]
	}
	var o *GNet
	if c.Arg >= 1 && c.Arg <= len(w.net) {
		o = w.net[c.Arg-1]
	}
	switch c.Tam {
	case "ver":
		g.Ver = []uint32{2, 2, 2, 1, 4, 15}[r(6, "ver")]
		// The sender itself uses another version. Version 2 is none that a sender makes, but
		// one that may be read.
		if n.x != nil && r(2, "signed anew") == 0 {
			g.Ver = []uint32{1, 1, 4, 15}[r(4, "ver anew")]
			g.Sig = w.sign(n.x.By, &g)
		}
	case "id":
		if c.K == "dZ" {
			g.ID = ^g.ID
			for w.ev.byID[g.ID] != "" {
				g.ID++
			}
		} else {
			g.ID = w.ev.id(c.K)
		}
	case "iter":
		g.Iter = uint32(c.Arg + ahead)
	case "ct":
		ct := append([]byte{}, g.CT...)
		switch k := r(8, "ct"); {
		case k == 0:
			ct = append(ct, prand(16, "tail", w.seed, i)...)
		case k == 1 && len(ct) > 16:
			ct = ct[:len(ct)-16]
		case k == 2:
			ct = ct[:len(ct)-1]
		case k == 3:
			ct = []byte{}
		default:
			j := r(len(ct)*8, "bit")
			ct[j/8] ^= 1 << (j % 8)
		}
		g.CT = ct
	case "oct":
		g.CT = o.w.CT
	case "sig":
		s := append([]byte{}, g.Sig...)
		switch k := r(8, "sig"); {
		case k == 0 && !w.cfg.Proto:
			s = s[:r(56, "len")]
		case k == 1:
			s = make([]byte, 64)
		case k == 2 && !w.cfg.Proto:
			s = nil
		case k == 3: // a valid signature by this party, of something else
			h := g
			h.Iter++
			h.CT = prand(16, "x", w.seed, i)
			if n.x != nil {
				s = w.sign(n.x.By, &h)
			}
		default:
			j := r(512, "bit")
			s[j/8] ^= 1 << (j % 8)
		}
		g.Sig = s
	case "osig":
		g.Sig = o.w.Sig
	case "forge":
		g.Iter = uint32(c.Arg + ahead)
		mk := w.ev.chain(n.x.K).mk(c.Arg)
		g.CT = cbcEncrypt(mk.cipher, mk.iv, prand(r(40, "forged"), "forged", w.seed, i))
		g.Sig = w.sign(c.K, &g)
	case "junk":
		g.Iter = uint32(c.Arg + ahead)
		if e.Why == "future" && r(3, "far") == 0 {
			if far := []int64{0xffffffff, 0x80000000, int64(g.Iter) + 0x7fffff00}[r(3, "how far")]; far > int64(g.Iter) && far < 1<<32 {
				g.Iter = uint32(far)
			}
		}
		ch := w.ev.chain(n.x.K)
		switch r(5, "junk") {
		case 0:
			g.CT = []byte{}
		case 1:
			g.CT = prand(15, "junk", w.seed, i)
		case 2:
			g.CT = prand(33, "junk", w.seed, i)
		default: // whole blocks, but the padding is none
			mk := ch.mk(c.Arg)
			pt := prand(32, "junk", w.seed, i)
			pt[31] = []byte{0, 17, 255, 33}[r(4, "pad")]
			g.CT = cbcEncrypt(mk.cipher, mk.iv, pt)[:32]
		}
		g.Sig = w.sign(n.x.By, &g)
	default:
		panic("unknown modification " + c.Tam)
	}
	return g.enc(w.cfg.Proto)
}

func (w *GWorld) doDlv(i int, e *GEntry, p *GParty) {
	c := &e.C
	n := w.net[c.M-1]
	b := w.tamper(i, e)
	in := append([]byte{}, b...)
	var m *protocol.SenderKeyMessage
	var pt []byte
	reused := false
	r := guard(func() (err error) {
		if c.Tam == "none" && w.cfg.Reuse && n.obj != nil {
			m, reused = n.obj, true
		} else if m, err = protocol.NewSenderKeyMessageFromBytes(in, p.st.ser.SenderKeyMessage); err != nil {
			return err
		}
		pt, err = w.cipher(p, c.G, c.S).Decrypt(m)
		return err
	})
	if !bytes.Equal(in, b) {
		w.bad(i, "alias", "decrypting changed the received bytes")
	}
	if c.Tam == "none" && m != nil && !bytes.Equal(m.SignedSerialize(), n.bytes) {
		cl := "wire:roundtrip"
		if reused {
			cl = "alias"
		}
		w.bad(i, cl, "a message object does not serialize to the bytes it was made of after decryption")
	}
	tags := append([]string{}, e.How...)
	home := c.G == n.g && c.S == n.s
	genuine := c.Tam == "none" && home
	gk := c.P + c.G + c.S
	switch {
	case c.Tam != "none":
		tags = append(tags, "tam:"+c.Tam, "foreign")
	case !home:
		tags = append(tags, "redirected", "foreign")
	default:
		tags = append(tags, "genuine")
		if n.got[gk] {
			tags = append(tags, "replay")
		} else {
			tags = append(tags, "first")
		}
		if c.P == c.S {
			tags = append(tags, "own")
		}
	}
	if reused {
		tags = append(tags, "reused")
	}
	good := w.settle(i, e, p, r, "msg", tags...)
	if (r.ok() || r.crashed && c.Crash != "rec-") && genuine {
		n.got[gk] = true
	}
	if r.ok() {
		if want := w.body(n.body); !bytes.Equal(pt, want) {
			w.bad(i, "plaintext", fmt.Sprintf("a message of %d bytes was decrypted to %d other bytes", len(want), len(pt)), tags...)
		}
	}
	if good && (e.OK || e.Crash) {
		w.checkPost(i, e, p)
	}
}

// ---- stored state

func (w *GWorld) checkPost(i int, e *GEntry, p *GParty) {
	if len(e.Post) == 0 || w.statesBad {
		return
	}
	x := &e.Post[0]
	k := nameKey(skName(e.C.G, e.C.S))
	img := p.st.imageSK(k)
	rec := &grec.SenderKeyStructure{}
	if img != nil {
		r, err := w.ser.SenderKeyRecord.Deserialize(img)
		if err != nil || r == nil {
			w.bad(i, "persist:load", fmt.Sprintf("the stored sender key cannot be decoded: %v", err))
			w.statesBad = true
			return
		}
		rec = r
	}
	ds := w.diffRec(x, rec)
	if len(ds) > 0 && p.st.storedSK != nil && len(w.diffRec(x, p.st.storedSK)) == 0 {
		for j := range ds {
			ds[j].class = "persist:senderkey"
		}
	}
	if img != nil && len(ds) == 0 {
		if len(img) < 60000 || i%8 == 0 {
			w.checkReload(i, p, img)
		}
		w.checkErased(i, x, img)
	}
	for _, d := range ds {
		w.bad(i, d.class, d.detail, append([]string{e.C.Op}, e.How...)...)
	}
	if len(ds) > 0 {
		w.statesBad = true
		w.checkErased(i, x, img)
	}
}

func (w *GWorld) checkReload(i int, p *GParty, img []byte) {
	r, err := grec.NewSenderKeyFromBytes(img, w.ser.SenderKeyRecord, w.ser.SenderKeyState)
	if err != nil {
		w.bad(i, "persist:load", "the stored sender key cannot be loaded: "+err.Error())
		return
	}
	if b := r.Serialize(); !bytes.Equal(b, img) {
		x, e1 := w.ser.SenderKeyRecord.Deserialize(img)
		y, e2 := w.ser.SenderKeyRecord.Deserialize(b)
		if e1 != nil || e2 != nil || normJSON(x) != normJSON(y) {
			w.bad(i, "persist:senderkey", "a sender key changes when it is saved and loaded")
		}
	}
	if p.st.storedSK != nil && bytes.Equal(img, w.ser.SenderKeyRecord.Serialize(p.st.storedSK)) {
		x, err := w.ser.SenderKeyRecord.Deserialize(img)
		if err != nil || normJSON(x) != normJSON(p.st.storedSK) {
			w.bad(i, "persist:senderkey", "the serialized sender key is not the one that was stored")
		}
	}
	if s, err := r.SenderKeyState(); err == nil {
		b := s.Serialize()
		t, err := grec.NewSenderKeyStateFromBytes(b, w.ser.SenderKeyState)
		if err != nil || !bytes.Equal(t.Serialize(), b) || t.KeyID() != s.KeyID() {
			w.bad(i, "persist:senderkey", "a sender key state changes when it is saved and loaded")
		}
	}
}

func (w *GWorld) diffRec(x *GXRec, r *grec.SenderKeyStructure) (ds []diff) {
	add := func(cl, f string, a ...interface{}) { ds = append(ds, diff{cl, fmt.Sprintf(f, a...)}) }
	if len(r.SenderKeyStates) != x.N {
		cl := "state:states-"
		if len(r.SenderKeyStates) > x.N {
			cl = "state:states+"
		}
		add(cl, "%d key states, expected %d", len(r.SenderKeyStates), x.N)
	}
	byID := map[uint32]*grec.SenderKeyStateStructure{}
	for _, s := range r.SenderKeyStates {
		if s == nil {
			add("state:states", "empty key state")
			return
		}
		if byID[s.KeyID] == nil {
			byID[s.KeyID] = s
		}
	}
	for j := range x.St {
		xs := &x.St[j].St
		w.try(func() {
			s := byID[w.ev.id(xs.ID)]
			if s == nil {
				add("state:states-", "no state for key id %s", xs.ID)
				return
			}
			ch := w.ev.chain(xs.K)
			if s.SenderChainKey == nil {
				add("state:chain", "no chain key for %s", xs.ID)
				return
			}
			ahead := w.ahead[xs.ID]
			if int(s.SenderChainKey.Iteration) != xs.I+ahead {
				add("state:iter", "chain of %s at %d, expected %d", xs.ID, s.SenderChainKey.Iteration, xs.I+ahead)
			} else if !bytes.Equal(s.SenderChainKey.ChainKey, ch.ck(xs.I)) {
				add("state:chain", "chain key of %s is not that after %d messages", xs.ID, xs.I)
			}
			sk := w.ev.sig(xs.Sig)
			if !bytes.Equal(s.SigningKeyPublic, sk.ser()) {
				add("state:sig", "signing key of %s is another one", xs.ID)
			}
			if own := len(s.SigningKeyPrivate) > 0; own != xs.Own {
				add("state:own", "private signing key of %s: %v, expected: %v", xs.ID, own, xs.Own)
			} else if own && !bytes.Equal(s.SigningKeyPrivate, sk.priv) {
				add("state:sig", "private signing key of %s is another one", xs.ID)
			}
			want := (&XChain{Lo: xs.Lo, Hi: xs.Hi}).skipped()
			seen := map[int]*ratchet.SenderMessageKeyStructure{}
			extra, wrong := 0, 0
			for _, m := range s.Keys {
				if m == nil || !want[int(m.Iteration)-ahead] || seen[int(m.Iteration)] != nil {
					extra++
					continue
				}
				seen[int(m.Iteration)] = m
				mk := ch.mk(int(m.Iteration) - ahead)
				if !bytes.Equal(m.IV, mk.iv) || !bytes.Equal(m.CipherKey, mk.cipher) || len(m.Seed) > 0 && !bytes.Equal(m.Seed, mk.seed) {
					wrong++
				}
			}
			if extra > 0 {
				add("state:skipped+", "%d message keys of %s that should not be there (of %d)", extra, xs.ID, len(s.Keys))
			}
			if len(seen) < len(want) {
				add("state:skipped-", "%d of %d skipped message keys of %s are missing", len(want)-len(seen), len(want), xs.ID)
			}
			if wrong > 0 {
				add("state:skippedkey", "%d skipped message keys of %s are wrong", wrong, xs.ID)
			}
		})
	}
	return
}

// checkErased: no other secrets than those that belong into the record.
func (w *GWorld) checkErased(i int, x *GXRec, img []byte) {
	if img == nil || x.N != len(x.St) {
		return
	}
	allowed := map[string]bool{}
	ok := false
	w.try(func() {
		for j := range x.St {
			s := &x.St[j].St
			ch := w.ev.chain(s.K)
			allowed[string(ch.ck(s.I))] = true
			if s.Own {
				allowed[string(w.ev.sig(s.Sig).priv)] = true
			}
			for n := range (&XChain{Lo: s.Lo, Hi: s.Hi}).skipped() {
				mk := ch.mk(n)
				allowed[string(mk.seed)] = true
				allowed[string(mk.cipher)] = true
			}
		}
		ok = true
	})
	if !ok {
		return
	}
	scanSecrets(img, w.ev.secrets, allowed, func(what string) {
		w.bad(i, "erasure", "the stored sender key still contains "+what)
	})
}

// scanSecrets looks for secrets in stored bytes.
func scanSecrets(img []byte, secrets map[string]string, allowed map[string]bool, found func(what string)) {
	look := func(b []byte) {
		if what, is := secrets[string(b)]; is && !allowed[string(b)] {
			found(what)
		}
	}
	var v interface{}
	if json.Unmarshal(img, &v) != nil {
		for j := 0; j+32 <= len(img); j++ {
			look(img[j : j+32])
		}
		return
	}
	var walk func(v interface{})
	walk = func(v interface{}) {
		switch t := v.(type) {
		case map[string]interface{}:
			for _, u := range t {
				walk(u)
			}
		case []interface{}:
			for _, u := range t {
				walk(u)
			}
		case string:
			if b, err := base64.StdEncoding.DecodeString(t); err == nil {
				look(b)
			}
		}
	}
	walk(v)
}

// ---- running

func runGroup(t *GTrace, cfg GCfg, seed int, keep func(i int, e *GEntry) bool) (w *GWorld) {
	return runGroupIn(t, cfg, seed, keep, nil)
}

func runGroupIn(t *GTrace, cfg GCfg, seed int, keep func(i int, e *GEntry) bool, cv *conversation) (w *GWorld) {
	vary("group", seed, t.Profile, t.ID)
	seedRandom("group", seed, t.Profile, t.ID, cfg)
	w = newGWorld(cfg, cv, seed, t.Profile, t.ID)
	watchFor(func() (string, string, string, int, int, interface{}) {
		return "group", fmt.Sprintf("%s-%d-%d", t.Profile, t.Seed, t.ID), cfg.String(), seed, w.nstep, t
	})
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(unknownName); ok && len(w.mism) > 0 {
				return
			}
			w.bad(w.nstep, "panic:harness", fmt.Sprint(x, " ", string(debug.Stack())))
		}
	}()
	for i := range t.Log {
		if w.stop {
			w.cov["g:idcollision"]++
			break
		}
		if keep == nil || keep(i, &t.Log[i]) {
			patient(w.turn)
			w.step(i, &t.Log[i])
		}
	}
	watchEnd()
	return w
}

func groupTrace(n int, b []byte, seed int, force string) {
	var t GTrace
	check(json.Unmarshal(b, &t))
	cfgs := []GCfg{groupCfgs[pick(len(groupCfgs), "group cfg", t.ID, t.Seed)]}
	if force == "all" {
		cfgs = groupCfgs
	} else if force != "" {
		cfgs = []GCfg{parseGCfg(force)}
	}
	for _, cfg := range cfgs {
		w := runGroup(&t, cfg, seed, nil)
		sum.Traces++
		sum.Steps += len(t.Log)
		addCov(w.cov)
		if len(w.mism) > 0 {
			report("group", fmt.Sprintf("%s-%d-%d", t.Profile, t.Seed, t.ID), cfg.String(), seed, w.mism,
				ablated(func() []string { return ablateGroup(&t, cfg, seed, w.mism[0]) }), t)
		} else if len(sum.Sample) < 2 {
			s := fmt.Sprintf("%s #%d (%s): ", t.Profile, t.ID, cfg)
			for i := range t.Log {
				if e := &t.Log[i]; i < 8 {
					s += fmt.Sprintf("%s %s/%s of %s m=%d d=%d tam=%s ok=%v %s; ", e.C.Op, e.C.P, e.C.G, e.C.S, e.C.M, e.C.D, e.C.Tam, e.OK, e.Why)
				}
			}
			sum.Sample = append(sum.Sample, s)
		}
	}
}

func ablateGroup(t *GTrace, cfg GCfg, seed int, m Mism) []string {
	var tags []string
	try := func(tag string, applies bool, c GCfg, keep func(i int, e *GEntry) bool) {
		if !applies {
			return
		}
		w := runGroup(t, c, seed, keep)
		for _, x := range w.mism {
			if x.Step == m.Step && x.Class == m.Class {
				return
			}
		}
		tags = append(tags, "needs-"+tag)
	}
	c := cfg
	c.Live = !c.Live
	if cfg.Live {
		try("live", true, c, nil)
	} else {
		try("ser", true, c, nil)
	}
	c = cfg
	c.Reuse = false
	try("reuse", cfg.Reuse, c, nil)
	c = cfg
	c.Long = false
	try("long", cfg.Long, c, nil)
	plainKeys = true
	try("addr", true, cfg, nil)
	plainKeys = false
	c = cfg
	c.Empty = !c.Empty
	try("empty", true, c, nil)
	c = cfg
	c.Proto = !cfg.Proto
	if cfg.Proto {
		try("proto", true, c, nil)
	} else {
		try("json", true, c, nil)
	}
	if m.Step >= len(t.Log) {
		return tags
	}
	at := &t.Log[m.Step].C
	try("rej", true, cfg, func(i int, e *GEntry) bool { return i == m.Step || e.OK })
	try("reload", true, cfg, func(i int, e *GEntry) bool { return i == m.Step || e.C.Op != "reload" })
	try("repeat", true, cfg, func(i int, e *GEntry) bool {
		return i == m.Step || e.C.Op != "process" || !strings.Contains(strings.Join(e.How, " "), "repeat")
	})
	// deliveries of others, or for other senders and groups
	try("third", true, cfg, func(i int, e *GEntry) bool {
		return i == m.Step || e.C.P == at.P && e.C.G == at.G && e.C.S == at.S || e.C.Op != "dlv"
	})
	return tags
}

func groupEdges(n int, b []byte, seed int, force string) {
	var t GTrace
	check(json.Unmarshal(b, &t))
	t.Profile, t.ID = "edges", n
	cfg := groupCfgs[(n+seed)%len(groupCfgs)]
	if force != "" {
		cfg = parseGCfg(force)
	}
	key := func(e *GEntry) string {
		b, _ := json.Marshal(e.C)
		return string(b)
	}
	sort.Slice(t.Succ, func(i, j int) bool { return key(&t.Succ[i]) < key(&t.Succ[j]) })
	sort.Slice(t.Loops, func(i, j int) bool { return key(&t.Loops[i]) < key(&t.Loops[j]) })
	try := func(extra []GEntry) {
		x := t
		x.Path, x.Succ, x.Loops = nil, nil, nil
		x.Log = append(append([]GEntry{}, t.Path...), extra...)
		w := runGroup(&x, cfg, seed, nil)
		sum.Traces++
		sum.Steps += len(extra)
		if len(w.mism) > 0 {
			report("group", fmt.Sprintf("edges-%d-%d", n, sum.Traces), cfg.String(), seed, w.mism,
				ablated(func() []string { return ablateGroup(&x, cfg, seed, w.mism[0]) }), x)
		}
		for i := range extra {
			e := &extra[i]
			k := "g:" + e.C.Op
			if e.C.Tam != "none" {
				k += "/" + e.C.Tam
			}
			if e.Why != "" {
				k += "/" + e.Why
			}
			if e.Crash {
				k += "/" + e.C.Crash
			}
			sum.Cov[k]++
		}
	}
	if len(t.Loops) > 0 {
		try(t.Loops)
	}
	for i := range t.Succ {
		try(t.Succ[i : i+1])
	}
}
