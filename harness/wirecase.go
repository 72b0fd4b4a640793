package main

// Replays the cases of Wire: inputs that deviate from genuine ones, at receivers in
// different situations.

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	grec "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

type wireDev struct {
	F string `json:"f"`
	T string `json:"t"`
	H string `json:"h"`
}

type wireCase struct {
	Kind   string    `json:"kind"`
	Enc    string    `json:"enc"`
	Place  string    `json:"place"`
	Dev    []wireDev `json:"dev"`
	Whole  string    `json:"whole"`
	At     int       `json:"at"`
	Result string    `json:"result"`
}

// clone is an independent copy of a store.
func (s *Store) clone(live bool) *Store {
	base := *s.ser
	base.Session, base.SenderKeyRecord = s.capt.in, s.captSK.in
	n := newStore(s.ident, s.reg, live, &base)
	n.emptySK = s.emptySK
	for k, v := range s.sess {
		n.sess[k] = v
	}
	for k, v := range s.pins {
		n.pins[k] = v
	}
	for k, v := range s.prekeys {
		n.prekeys[k] = v
	}
	for k, v := range s.signed {
		n.signed[k] = v
	}
	for k, v := range s.sk {
		n.sk[k] = v
	}
	n.restart()
	return n
}

// A situation: a receiver, what is genuine there, and another input of the same kind.
type wireScene struct {
	st                     *Store
	from                   string
	in, other, next, kindX []byte
	want, nextWant         []byte
	handshakeNext          bool
	bundle                 *prekey.Bundle
	after                  [][]byte // genuine messages for a record that was loaded
}

type wireWorld struct {
	ser    *serialize.Serializer
	proto  bool
	scenes map[string]*wireScene // kind/place
}

var wireWorlds = map[string]*wireWorld{}

type wireParty struct {
	st   *Store
	addr *protocol.SignalAddress
	spk  *record.SignedPreKey
	otk  []*record.PreKey
}

func (w *wireWorld) party(name string, reg, spk, otk uint32) *wireParty {
	id, err := keyhelper.GenerateIdentityKeyPair()
	check(err)
	p := &wireParty{st: newStore(id, reg, false, w.ser), addr: addrs[name]}
	p.spk, err = keyhelper.GenerateSignedPreKey(id, spk, w.ser.SignedPreKeyRecord)
	check(err)
	p.st.StoreSignedPreKey(spk, p.spk)
	p.otk, err = keyhelper.GeneratePreKeys(int(otk), int(otk)+3, w.ser.PreKeyRecord)
	check(err)
	for _, k := range p.otk {
		p.st.StorePreKey(k.ID().Value, k)
	}
	return p
}

func (p *wireParty) bundle(otk int) *prekey.Bundle {
	return prekey.NewBundle(p.st.reg, p.addr.DeviceID(), p.otk[otk].ID(), p.spk.ID(), p.otk[otk].KeyPair().PublicKey(),
		p.spk.KeyPair().PublicKey(), p.spk.Signature(), p.st.ident.PublicKey())
}

func (s *Store) session(q string) (*session.Builder, *session.Cipher) {
	b := session.NewBuilderFromSignal(s, addrs[q], s.ser)
	return b, session.NewCipher(b, addrs[q])
}

func (p *wireParty) process(q string, b *prekey.Bundle) {
	x, _ := p.st.session(q)
	check(x.ProcessBundle(b))
}

func (p *wireParty) send(q string, body []byte) []byte {
	_, c := p.st.session(q)
	m, err := c.Encrypt(body)
	check(err)
	return m.Serialize()
}

func (s *Store) receive(q string, pre bool, b []byte) (pt []byte, err error) {
	_, c := s.session(q)
	if pre {
		m, err := protocol.NewPreKeySignalMessageFromBytes(b, s.ser.PreKeySignalMessage, s.ser.SignalMessage)
		if err != nil {
			return nil, err
		}
		return c.DecryptMessage(m)
	}
	m, err := protocol.NewSignalMessageFromBytes(b, s.ser.SignalMessage)
	if err != nil {
		return nil, err
	}
	return c.Decrypt(m)
}

func (s *Store) groupCipher(q string) (*groups.SessionBuilder, *groups.GroupCipher) {
	b := groups.NewGroupSessionBuilder(s, s.ser)
	return b, groups.NewGroupCipher(b, skName("G", q), s)
}

func (s *Store) receiveGroup(q string, b []byte) ([]byte, error) {
	_, c := s.groupCipher(q)
	m, err := protocol.NewSenderKeyMessageFromBytes(b, s.ser.SenderKeyMessage)
	if err != nil {
		return nil, err
	}
	return c.Decrypt(m)
}

func (s *Store) takeDist(q string, b []byte) error {
	d, err := protocol.NewSenderKeyDistributionMessageFromBytes(b, s.ser.SenderKeyDistributionMessage)
	if err != nil {
		return err
	}
	bu, _ := s.groupCipher(q)
	bu.Process(skName("G", q), d)
	return nil
}

func wireBody(i int, seed int) []byte { return prand(20+7*i, "wirebody", i, seed) }

func newWireWorld(enc string, seed int) *wireWorld {
	seedRandom("wireworld", enc, seed)
	w := &wireWorld{ser: serialize.NewJSONSerializer(), proto: enc == "proto", scenes: map[string]*wireScene{}}
	if w.proto {
		w.ser = serialize.NewProtoBufSerializer()
	}
	body := func(i int) []byte { return wireBody(i, seed) }
	got := func(s *Store, q string, pre bool, b []byte, i int) {
		pt, err := s.receive(q, pre, b)
		check(err)
		if !bytes.Equal(pt, body(i)) {
			panic("wire world: another plaintext")
		}
	}
	a, b, c := w.party("A", 101, 31, 41), w.party("B", 202, 7, 21), w.party("C", 303, 9, 51)
	fresh := b.st.clone(false)
	a.process("B", b.bundle(0))
	m0, m1, m2 := a.send("B", body(0)), a.send("B", body(1)), a.send("B", body(2))
	a.process("C", c.bundle(0))
	toC := a.send("C", body(8))
	c.process("B", b.bundle(1))
	fromC := c.send("B", body(9))

	pre := func(place string, st *Store) *wireScene {
		s := &wireScene{st: st, from: "A", in: m1, other: toC, next: m2, want: body(1), nextWant: body(2), handshakeNext: true}
		w.scenes["pre/"+place] = s
		return s
	}
	pre("fresh", fresh)
	pre("live", fresh)
	x := fresh.clone(false)
	delete(x.prekeys, 21)
	pre("noprekeys", x)
	x = fresh.clone(false)
	delete(x.signed, 7)
	pre("nosigned", x)
	got(b.st, "A", true, m0, 0)
	pre("session", b.st.clone(false))
	x = b.st.clone(false)
	archive(x, "A")
	pre("archived", x)

	got(b.st, "A", true, m1, 1)
	r0, r1 := b.send("A", body(10)), b.send("A", body(11))
	got(a.st, "B", false, r1, 11)
	m3, m4, m5 := a.send("B", body(3)), a.send("B", body(4)), a.send("B", body(5))
	_ = r0
	got(b.st, "A", false, m3, 3)
	got(b.st, "C", true, fromC, 9)
	r2 := b.send("C", body(12))
	got(c.st, "B", false, r2, 12)
	fromC2 := c.send("B", body(13))
	msg := func(place string, st *Store) {
		w.scenes["msg/"+place] = &wireScene{st: st, from: "A", in: m4, other: fromC2, next: m5, want: body(4), nextWant: body(5)}
	}
	msg("session", b.st.clone(false))
	msg("live", b.st.clone(false))
	msg("none", fresh)
	x = b.st.clone(false)
	archive(x, "A")
	msg("archived", x)
	x = b.st.clone(false)
	x.sess[addrKey(addrs["A"])] = x.sess[addrKey(addrs["C"])]
	x.pins[addrKey(addrs["A"])] = x.pins[addrKey(addrs["C"])]
	msg("othersession", x)
	x = fresh.clone(false)
	(&wireParty{st: x}).process("A", a.bundle(1))
	msg("pending", x)

	// a record with everything in it
	y := b.st.clone(false)
	got(y, "A", false, m5, 5) // m4 is skipped
	p1, p2 := w.structure(y.sess[addrKey(addrs["A"])]), w.structure(b.st.sess[addrKey(addrs["C"])])
	p3 := w.structure(y.sess[addrKey(addrs["A"])])
	for _, st := range []*record.StateStructure{p1.SessionState, p2.SessionState, p3.SessionState} {
		// the chain with the skipped key comes first
		for i, ch := range st.ReceiverChains {
			if len(ch.MessageKeys) > 0 {
				st.ReceiverChains[0], st.ReceiverChains[i] = ch, st.ReceiverChains[0]
			}
		}
		if len(st.ReceiverChains[0].MessageKeys) == 0 {
			st.ReceiverChains[0].MessageKeys = append(st.ReceiverChains[0].MessageKeys,
				&message.KeysStructure{CipherKey: prand(32, 1), MacKey: prand(32, 2), IV: prand(16, 3), Index: 2})
		}
		st.ReceiverChains[0].SenderRatchetKeyPrivate = prand(32, 4)
		st.NeedsRefresh = true
		k := newKP("wirepend", seed)
		st.PendingPreKey = &record.PendingPreKeyStructure{PreKeyID: optional.NewOptionalUint32(41), SignedPreKeyID: 31, BaseKey: k.ser()}
		st.PendingKeyExchange = &record.PendingKeyExchangeStructure{Sequence: 5,
			LocalBaseKeyPublic: k.pub[:], LocalBaseKeyPrivate: k.priv, LocalRatchetKeyPublic: k.pub[:], LocalRatchetKeyPrivate: k.priv,
			LocalIdentityKeyPublic: k.pub[:], LocalIdentityKeyPrivate: k.priv}
	}
	mustJSON := func(v interface{}) []byte { b, err := json.Marshal(v); check(err); return b }
	full := &record.SessionStructure{SessionState: p1.SessionState, PreviousStates: []*record.StateStructure{p2.SessionState}}
	otherRec := &record.SessionStructure{SessionState: p2.SessionState, PreviousStates: []*record.StateStructure{p3.SessionState}}
	m6 := a.send("B", body(6))
	after := [][]byte{m4, m6}
	skJSON := []byte(nil) // set below
	rec := func(kind string, st *Store, in, other []byte) *wireScene {
		s := &wireScene{st: st, from: "A", in: in, other: other, bundle: a.bundle(2), after: after}
		w.scenes[kind+"/-"] = s
		return s
	}

	// groups
	groupDist := func(p *wireParty, name string) []byte {
		bu, _ := p.st.groupCipher(name)
		d, err := bu.Create(skName("G", name))
		check(err)
		return d.Serialize()
	}
	gsend := func(p *wireParty, name string, i int) []byte {
		_, g := p.st.groupCipher(name)
		m, err := g.Encrypt(body(i))
		check(err)
		return m.(*protocol.SenderKeyMessage).SignedSerialize()
	}
	blank := b.st.clone(false)
	blank.sess = map[string][]byte{}
	dA0, dC := groupDist(a, "A"), groupDist(c, "C")
	g0, g1, g2, g3 := gsend(a, "A", 0), gsend(a, "A", 1), gsend(a, "A", 2), gsend(a, "A", 3)
	gC, _ := gsend(c, "C", 4), gsend(c, "C", 5)
	dA := groupDist(a, "A") // the same key, further on
	g4, g5 := gsend(a, "A", 6), gsend(a, "A", 7)
	member := blank.clone(false)
	check(member.takeDist("A", dA0))
	pt, err := member.receiveGroup("A", g0)
	check(err)
	if !bytes.Equal(pt, body(0)) {
		panic("wire world: another plaintext")
	}
	otherM := blank.clone(false)
	check(otherM.takeDist("C", dC))
	gmsg := func(place string, st *Store) {
		w.scenes["gmsg/"+place] = &wireScene{st: st, from: "A", in: g1, other: gC, next: g2, want: body(1), nextWant: body(2)}
	}
	gmsg("member", member)
	gmsg("live", member)
	gmsg("none", blank)
	e := blank.clone(false)
	e.emptySK = true
	gmsg("emptyrecord", e)
	gmsg("othermember", otherM)
	self := blank.clone(false)
	bp := &wireParty{st: self}
	groupDist(bp, "A") // a key of its own under the same name
	gmsg("self", self)
	dist := func(place string, st *Store) {
		w.scenes["dist/"+place] = &wireScene{st: st, from: "A", in: dA, other: dC, next: g4, want: nil, nextWant: body(6)}
	}
	dist("none", blank)
	dist("live", blank)
	dist("emptyrecord", e)
	dist("member", member)

	// sender key records: the key owner's, with a skipped key of it
	z := blank.clone(false)
	check(z.takeDist("A", dA0))
	_, err = z.receiveGroup("A", g3)
	check(err)
	var own, seen grec.SenderKeyStructure
	check(json.Unmarshal(a.st.sk[nameKey(skName("G", "A"))], &own))
	check(json.Unmarshal(z.sk[nameKey(skName("G", "A"))], &seen))
	seen.SenderKeyStates[0].SigningKeyPrivate = own.SenderKeyStates[0].SigningKeyPrivate
	var cs grec.SenderKeyStructure
	check(json.Unmarshal(c.st.sk[nameKey(skName("G", "C"))], &cs))
	skJSON = mustJSON(&seen)
	s := rec("senderkey", blank, skJSON, mustJSON(&cs))
	s.kindX = mustJSON(full)
	s.after = [][]byte{g1, g5}
	s = rec("senderstate", blank, mustJSON(seen.SenderKeyStates[0]), mustJSON(cs.SenderKeyStates[0]))
	s.kindX, s.after = skJSON, [][]byte{g1, g5}
	s = rec("session", blank, mustJSON(full), mustJSON(otherRec))
	s.kindX = skJSON
	s = rec("state", blank, mustJSON(full.SessionState), mustJSON(otherRec.SessionState))
	s.kindX = mustJSON(full)
	s = rec("prekey", fresh, b.otk[0].Serialize(), b.otk[1].Serialize())
	s.kindX, s.after = b.spk.Serialize(), [][]byte{m0}
	s = rec("signedprekey", fresh, b.spk.Serialize(), a.spk.Serialize())
	s.kindX, s.after = b.otk[0].Serialize(), [][]byte{m0}
	for _, sc := range w.scenes {
		if sc.kindX == nil {
			sc.kindX = m4
		}
	}
	for k, sc := range w.scenes {
		switch strings.Split(k, "/")[0] {
		case "msg":
			sc.kindX = m0
		case "gmsg":
			sc.kindX = dA
		case "dist":
			sc.kindX = g1
		}
	}
	return w
}

func archive(s *Store, q string) {
	r := s.LoadSession(addrs[q])
	r.ArchiveCurrentState()
	s.StoreSession(addrs[q], r)
}

func (w *wireWorld) structure(b []byte) *record.SessionStructure {
	st, err := w.ser.Session.Deserialize(b)
	check(err)
	return st
}

// ---- deviations

func devBytes(v []byte, how string, salt ...interface{}) []byte {
	o := append([]byte{}, v...)
	switch how {
	case "empty":
		return []byte{}
	case "one":
		return []byte{5}
	case "huge":
		return append(o, make([]byte, 1<<20)...)
	case "short":
		return o[:len(o)-1]
	case "long":
		return append(o, byte(pick(256, salt...)))
	case "type":
		o[0] = []byte{0, 1, 4, 6, 0x85, 0xff}[pick(6, salt...)]
	case "flip":
		// not the first byte, which is a type in points, nor bits that do not count in keys
		i := 1 + pick(len(o)-2, salt...)
		if i == 1 {
			i++
		}
		o[i] ^= 1 << pick(7, "bit", fmt.Sprint(salt...))
	}
	return o
}

func devNumber(v uint64, t, how string) (string, uint64) {
	switch how {
	case "other":
		if t == "int" {
			return strconv.FormatUint(v+7, 10), v + 7
		}
		return strconv.FormatUint((v+1)&0xffffffff, 10), (v + 1) & 0xffffffff
	case "max":
		return "4294967295", 4294967295
	case "over":
		return strconv.FormatUint(v+1<<32, 10), v + 1<<32
	case "negative":
		return "-1", ^uint64(0)
	case "zero":
		return "0", 0
	case "two":
		return "2", 2
	case "four":
		return "4", 4
	case "high":
		return "1073741827", 15
	}
	panic("deviation " + how)
}

func jsonDeviate(b []byte, kind string, d wireDev, salt ...interface{}) []byte {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var top interface{}
	check(dec.Decode(&top))
	path := strings.Split(d.F, ".")
	if kind == "pre" && d.F == "PreKeyID" && d.H != "absent" && d.H != "null" && d.H != "retype" {
		path = append(path, "Value")
	}
	var walk func(x interface{}, path []string) interface{}
	walk = func(x interface{}, path []string) interface{} {
		k := path[0]
		var old interface{}
		idx := -1
		switch m := x.(type) {
		case map[string]interface{}:
			v, ok := m[k]
			if !ok && len(path) > 1 {
				return x
			}
			old = v
		case []interface{}:
			idx, _ = strconv.Atoi(k)
			if idx >= len(m) {
				return x
			}
			old = m[idx]
		default:
			return x // gone with another deviation
		}
		var nu interface{}
		gone := false
		if len(path) > 1 {
			nu = walk(old, path[1:])
		} else {
			nu, gone = jsonValue(old, d, salt...)
		}
		switch m := x.(type) {
		case map[string]interface{}:
			if gone {
				delete(m, k)
			} else {
				m[k] = nu
			}
		case []interface{}:
			if gone {
				return append(m[:idx], m[idx+1:]...)
			}
			m[idx] = nu
		}
		return x
	}
	top = walk(top, path)
	out, err := json.Marshal(top)
	check(err)
	return out
}

func jsonValue(old interface{}, d wireDev, salt ...interface{}) (interface{}, bool) {
	switch d.H {
	case "absent":
		return nil, true
	case "null":
		return nil, false
	case "emptied":
		if d.T == "list" {
			return []interface{}{}, false
		}
		return map[string]interface{}{}, false
	case "hole":
		l, _ := old.([]interface{})
		if len(l) == 0 {
			return []interface{}{nil}, false
		}
		l[0] = nil
		return l, false
	case "retype":
		switch d.T {
		case "struct", "list":
			return "text", false
		case "u32", "int", "bool", "ver":
			return "3", false
		}
		return []interface{}{json.Number("7"), map[string]interface{}{}, true}[pick(3, salt...)], false
	}
	switch d.T {
	case "u32", "int", "ver":
		var v uint64
		if n, ok := old.(json.Number); ok {
			v, _ = strconv.ParseUint(string(n), 10, 64)
		}
		s, _ := devNumber(v, d.T, d.H)
		return json.Number(s), false
	}
	str, _ := old.(string)
	v, err := base64.StdEncoding.DecodeString(str)
	check(err)
	if len(v) == 0 {
		return old, false
	}
	return base64.StdEncoding.EncodeToString(devBytes(v, d.H, salt...)), false
}

var protoNumber = map[string]map[string]int{
	"msg":  {"RatchetKey": 1, "Counter": 2, "PreviousCounter": 3, "CipherText": 4},
	"pre":  {"PreKeyID": 1, "BaseKey": 2, "IdentityKey": 3, "Message": 4, "RegistrationID": 5, "SignedPreKeyID": 6},
	"gmsg": {"ID": 1, "Iteration": 2, "CipherText": 3},
	"dist": {"ID": 1, "Iteration": 2, "ChainKey": 3, "SigningKey": 4},
}

func codeLen(kind string) int { return map[string]int{"msg": 8, "gmsg": 64}[kind] }

func protoDeviate(in []byte, kind string, devs []wireDev, salt ...interface{}) []byte {
	cl := codeLen(kind)
	ver, code := []byte{in[0]}, in[len(in)-cl:]
	fs, err := pparse(in[1 : len(in)-cl])
	check(err)
	var raw [16][]byte
	for _, f := range fs {
		if f.by {
			raw[f.n] = pbytes(nil, f.n, append([]byte{}, f.b...))
		} else {
			raw[f.n] = pvar(nil, f.n, f.v)
		}
	}
	for i, d := range devs {
		sl := append([]interface{}{i}, salt...)
		if d.T == "ver" {
			switch d.H {
			case "absent":
				ver = nil
			case "null":
				ver = []byte{0}
			case "retype":
				ver = []byte{0x13}
			case "negative":
				ver = []byte{0xb3}
			default:
				_, v := devNumber(3, "ver", d.H)
				ver = []byte{verByte(int(v))}
			}
			continue
		}
		if d.T == "code" {
			switch d.H {
			case "absent", "null", "empty":
				code = nil
			case "one":
				code = code[:1]
			case "retype":
				code = bytes.Repeat([]byte{0}, cl)
			default:
				code = devBytes(code, d.H, sl...)
			}
			continue
		}
		n := protoNumber[kind][d.F]
		var f *pfield
		for j := range fs {
			if fs[j].n == n {
				f = &fs[j]
			}
		}
		switch {
		case d.H == "absent":
			raw[n] = nil
		case d.H == "retype" && f.by:
			raw[n] = pvar(nil, n, 7)
		case d.H == "retype":
			raw[n] = pbytes(nil, n, []byte{7})
		case f.by && d.H == "null":
			raw[n] = pbytes(nil, n, []byte{})
		case f.by:
			raw[n] = pbytes(nil, n, devBytes(f.b, d.H, sl...))
		case d.H == "null":
			raw[n] = pvar(nil, n, 0)
		default:
			_, v := devNumber(f.v, d.T, d.H)
			raw[n] = pvar(nil, n, v)
		}
	}
	out := append([]byte{}, ver...)
	for _, r := range raw {
		out = append(out, r...)
	}
	return append(out, code...)
}

// The field that is made huge.
var hugeField = map[string]string{"msg": "RatchetKey", "pre": "BaseKey", "gmsg": "CipherText", "dist": "SigningKey",
	"session": "SessionState.RootKey", "state": "RootKey", "senderkey": "SenderKeyStates.0.Keys.0.IV",
	"senderstate": "Keys.0.IV", "prekey": "PrivateKey", "signedprekey": "PrivateKey"}

func wireInput(c *wireCase, s *wireScene, proto bool, n, seed int) []byte {
	in := append([]byte{}, s.in...)
	isProto := proto && codeKind(c.Kind)
	garbage := func(k int) []byte { return prand(k, "garbage", n, seed) }
	switch c.Whole {
	case "none":
		if isProto {
			if len(c.Dev) == 0 {
				return in
			}
			return protoDeviate(in, c.Kind, c.Dev, n, seed)
		}
		for i := range c.Dev {
			// inner parts first, so that they are still there
			in = jsonDeviate(in, c.Kind, c.Dev[len(c.Dev)-1-i], i, n, seed)
		}
		return in
	case "empty":
		return []byte{}
	case "null":
		return []byte("null")
	case "emptystruct":
		return []byte("{}")
	case "list":
		return []byte("[]")
	case "garbage":
		return garbage(8)
	case "garbage1":
		return garbage(1)
	case "garbage9":
		return garbage(9)
	case "garbage64":
		return append([]byte{'3'}, garbage(64)...)
	case "garbage200":
		return append([]byte{'3'}, garbage(200)...)
	case "verbyte":
		return []byte{'3'}
	case "zeros":
		return make([]byte, 100)
	case "ff":
		return bytes.Repeat([]byte{0xff}, 100)
	case "deep":
		if isProto {
			return append([]byte{'3'}, bytes.Repeat([]byte{0x7b}, 200000)...)
		}
		return []byte(`{"X":` + strings.Repeat(`[`, 200000) + strings.Repeat(`]`, 200000) + `}`)
	case "hugelen":
		if isProto {
			b := []byte{'3', 0x22}
			b = binary.AppendUvarint(b, []uint64{1<<31 - 1, 1 << 31, 1<<63 - 1, 1<<64 - 1}[pick(4, n, seed)])
			return append(b, garbage(100)...)
		}
		return jsonDeviate(in, c.Kind, wireDev{F: hugeField[c.Kind], T: "point", H: "huge"}, n, seed)
	case "unknown":
		if isProto {
			cl := codeLen(c.Kind)
			body, code := in[:len(in)-cl], in[len(in)-cl:]
			return append(pbytes(pvar(append([]byte{}, body...), 99, 5), 98, []byte("x")), code...)
		}
		return append([]byte(`{"Unknown":{"x":[1,"2",null]},"unknown":-1e999,`), in[1:]...)
	case "dup":
		if isProto {
			cl := codeLen(c.Kind)
			fs, err := pparse(in[1 : len(in)-cl])
			check(err)
			f := fs[pick(len(fs), n, seed)]
			x := pvar(nil, f.n, f.v+1)
			if f.by {
				x = pbytes(nil, f.n, f.b)
			}
			return append(append(append([]byte{}, in[:len(in)-cl]...), x...), in[len(in)-cl:]...)
		}
		var m map[string]json.RawMessage
		check(json.Unmarshal(in, &m))
		out := []byte("{")
		for k := range m {
			out = append(out, []byte(`"`+strings.ToLower(k)+`":null,"`+k+`":null,`)...)
		}
		return append(out, in[1:]...)
	case "nul":
		return append([]byte{0}, in...)
	case "othermsg":
		return append([]byte{}, s.other...)
	case "otherkind":
		return append([]byte{}, s.kindX...)
	case "append":
		return append(in, '}')
	case "cut":
		return in[:len(in)*c.At/60]
	case "flipat":
		k := len(in)*8*c.At/60 + pick(len(in)*8/60, n, seed)
		in[k/8] ^= 1 << (k % 8)
		return in
	}
	panic("whole " + c.Whole)
}

func codeKind(kind string) bool {
	return kind == "msg" || kind == "pre" || kind == "gmsg" || kind == "dist"
}

func wireTrace(n int, b []byte, seed int) {
	var c wireCase
	check(json.Unmarshal(b, &c))
	sum.Traces++
	unvary()
	w := wireWorlds[c.Enc]
	if w == nil {
		w = newWireWorld(c.Enc, seed)
		wireWorlds[c.Enc] = w
	}
	seedRandom("wire", n, seed)
	s := w.scenes[c.Kind+"/"+c.Place]
	in := wireInput(&c, s, w.proto, n, seed)
	var ms []Mism
	bad := func(class, f string, a ...interface{}) {
		d := fmt.Sprintf(f, a...) + fmt.Sprintf(" [%s %s at %s: %v %s", c.Enc, c.Kind, c.Place, c.Dev, c.Whole)
		if c.Whole == "cut" || c.Whole == "flipat" {
			d += fmt.Sprintf(" %d/60", c.At)
		}
		ms = append(ms, Mism{Class: class, Detail: d + "]", Tags: []string{c.Kind}})
	}
	sum.Cov["input "+c.Kind+" "+c.Result]++
	if codeKind(c.Kind) {
		w.message(&c, s, in, bad)
	} else {
		w.record(&c, s, in, bad)
	}
	if len(ms) > 0 {
		report("wire", fmt.Sprint(n), "", seed, ms, nil, caseBody{n, b})
	}
}

type badFunc func(class, f string, a ...interface{})

func (w *wireWorld) message(c *wireCase, s *wireScene, in []byte, bad badFunc) {
	st := s.st.clone(c.Place == "live")
	before := st.snapAll()
	arg := append([]byte{}, in...)
	feed := func(b []byte) (pt []byte, r result) {
		sum.Steps++
		r = guard(func() (err error) {
			switch c.Kind {
			case "dist":
				err = st.takeDist(s.from, b)
			case "gmsg":
				pt, err = st.receiveGroup(s.from, b)
			default:
				pt, err = st.receive(s.from, c.Kind == "pre", b)
			}
			return
		})
		return
	}
	pt, r := feed(arg)
	changed := func() []string {
		a := st.snapAll()
		var out []string
		for i, m := range []map[string][]byte{before.sess, before.pins, before.otk, before.spk, before.sk} {
			if d := diffMaps(m, []map[string][]byte{a.sess, a.pins, a.otk, a.spk, a.sk}[i]); len(d) > 0 {
				out = append(out, []string{"session", "identity", "prekey", "signed prekey", "sender key"}[i])
			}
		}
		return out
	}
	if !bytes.Equal(arg, in) {
		bad("wire:input", "the input was changed")
	}
	if r.pan != "" {
		bad("panic:wire", "%s", r.pan)
		return
	}
	if r.err == nil {
		if c.Result == "refused" {
			bad("wire:accept:"+c.Kind, "accepted")
			return
		}
		if c.Kind != "dist" && !bytes.Equal(pt, s.want) {
			bad("wire:text:"+c.Kind, "%d other bytes came out", len(pt))
		}
		if ch := changed(); len(ch) == 0 && !(c.Kind == "dist" && c.Place == "member") {
			bad("wire:noeffect", "accepted without any effect")
		}
	} else {
		if c.Result == "taken" {
			bad("wire:reject:"+c.Kind, "%v", r.err)
			return
		}
		if len(pt) > 0 {
			bad("wire:leak", "an error, but also a text")
		}
		if ch := changed(); len(ch) > 0 {
			bad("wire:effect:"+c.Kind, "refused (%v), but it changed: %s", r.err, strings.Join(ch, ", "))
		}
	}
	// The genuine one is still taken, or refused as before.
	if pt2, r2 := feed(append([]byte{}, s.in...)); r2.pan != "" {
		bad("panic:wire", "afterwards: %s", r2.pan)
	} else if r.err != nil && w.welcome(c) && r2.err != nil {
		bad("wire:spoilt:"+c.Kind, "afterwards the genuine one is refused: %v", r2.err)
	} else if r.err == nil && c.Kind != "dist" && r2.err == nil {
		bad("wire:twice:"+c.Kind, "taken twice")
	} else if r2.err == nil && c.Kind != "dist" && !bytes.Equal(pt2, s.want) {
		bad("wire:text:"+c.Kind, "afterwards other bytes came out")
	} else if !w.welcome(c) && r2.err == nil && c.Place != "self" {
		bad("wire:accept:"+c.Kind, "afterwards the genuine one is accepted, too")
	}
	if c.Kind == "pre" && r.err == nil {
		// another encoding of the same base key: the handshake will not be recognised again
		e, err := decEnv(in, w.proto)
		g, _ := decEnv(s.in, w.proto)
		if err != nil || !bytes.Equal(e.Base, g.Base) {
			return
		}
	}
	// What follows it goes on.
	if w.welcome(c) && (c.Kind != "dist" || c.Result == "taken" || r.err != nil) {
		var pt []byte
		r := guard(func() (err error) {
			if c.Kind == "dist" || c.Kind == "gmsg" {
				pt, err = st.receiveGroup(s.from, append([]byte{}, s.next...))
			} else {
				pt, err = st.receive(s.from, s.handshakeNext, append([]byte{}, s.next...))
			}
			return
		})
		if r.pan != "" {
			bad("panic:wire", "next message: %s", r.pan)
		} else if r.err != nil {
			bad("wire:spoilt:"+c.Kind, "the next message is refused: %v", r.err)
		} else if !bytes.Equal(pt, s.nextWant) {
			bad("wire:text:"+c.Kind, "other bytes came out of the next message")
		}
	}
}

func (w *wireWorld) welcome(c *wireCase) bool {
	switch c.Place {
	case "none", "othersession", "pending", "noprekeys", "nosigned", "othermember", "self":
		return c.Kind == "dist"
	case "emptyrecord":
		return c.Kind == "dist"
	}
	return true
}

// use calls everything that works on a stored record; only panics count.
func (w *wireWorld) use(what string, bad badFunc, f func() error) result {
	sum.Steps++
	r := guard(f)
	if r.pan != "" {
		bad("panic:wire", "%s: %s", what, r.pan)
	}
	return r
}

func (w *wireWorld) record(c *wireCase, s *wireScene, in []byte, bad badFunc) {
	arg := append([]byte{}, in...)
	st := s.st.clone(false)
	var load func(b []byte) (interface{}, error)
	var save func(x interface{}) []byte
	switch c.Kind {
	case "session":
		load = func(b []byte) (interface{}, error) { return record.NewSessionFromBytes(b, w.ser.Session, w.ser.State) }
		save = func(x interface{}) []byte { return x.(*record.Session).Serialize() }
	case "state":
		load = func(b []byte) (interface{}, error) { return record.NewStateFromBytes(b, w.ser.State) }
		save = func(x interface{}) []byte { return x.(*record.State).Serialize() }
	case "senderkey":
		load = func(b []byte) (interface{}, error) {
			return grec.NewSenderKeyFromBytes(b, w.ser.SenderKeyRecord, w.ser.SenderKeyState)
		}
		save = func(x interface{}) []byte { return x.(*grec.SenderKey).Serialize() }
	case "senderstate":
		load = func(b []byte) (interface{}, error) { return grec.NewSenderKeyStateFromBytes(b, w.ser.SenderKeyState) }
		save = func(x interface{}) []byte { return x.(*grec.SenderKeyState).Serialize() }
	case "prekey":
		load = func(b []byte) (interface{}, error) { return record.NewPreKeyFromBytes(b, w.ser.PreKeyRecord) }
		save = func(x interface{}) []byte { return x.(*record.PreKey).Serialize() }
	case "signedprekey":
		load = func(b []byte) (interface{}, error) {
			return record.NewSignedPreKeyFromBytes(b, w.ser.SignedPreKeyRecord)
		}
		save = func(x interface{}) []byte { return x.(*record.SignedPreKey).Serialize() }
	}
	var x interface{}
	sum.Steps++
	r := guard(func() (err error) { x, err = load(arg); return })
	if !bytes.Equal(arg, in) {
		bad("wire:input", "the input was changed")
	}
	switch {
	case r.pan != "":
		bad("panic:wire", "%s", r.pan)
		return
	case r.err != nil && c.Result == "taken":
		bad("wire:reject:"+c.Kind, "%v", r.err)
		return
	case r.err == nil && c.Result == "refused":
		bad("wire:accept:"+c.Kind, "accepted")
		return
	case r.err != nil:
		if x != nil && !isNil(x) {
			bad("wire:leak", "an error, but also a record")
		}
		return
	case isNil(x):
		bad("wire:leak", "neither an error nor a record")
		return
	}
	var img []byte
	if w.use("Serialize", bad, func() error { img = save(x); return nil }).pan != "" {
		return
	}
	if c.Result == "taken" && normJSON2(img) != normJSON2(in) {
		bad("wire:reload", "loaded and saved, a record is another one: %.900s instead of %.900s", normJSON2(img), normJSON2(in))
	}
	// it can be loaded again, and is the same then
	r = w.use("load again", bad, func() error {
		y, err := load(img)
		if err != nil {
			return err
		}
		if z := save(y); !bytes.Equal(z, img) {
			return fmt.Errorf("it changes from %.600s to %.600s", img, z)
		}
		return nil
	})
	if r.err != nil {
		bad("wire:reload", "what was accepted cannot be saved and loaded again: %v", r.err)
	}
	k := addrKey(addrs[s.from])
	good := c.Result == "taken"
	switch c.Kind {
	case "session", "state":
		fill := func() {
			rec, ok := x.(*record.Session)
			if !ok {
				rec = record.NewSessionFromState(x.(*record.State), w.ser.Session)
			}
			st.sess = map[string][]byte{k: rec.Serialize()}
		}
		for i, m := range s.after {
			if w.use("store", bad, func() error { fill(); return nil }).pan != "" {
				return
			}
			var pt []byte
			r := w.use("Decrypt", bad, func() (err error) { pt, err = st.receive(s.from, false, append([]byte{}, m...)); return })
			if good && (r.err != nil || !bytes.Equal(pt, wireBody([]int{4, 6}[i], wireSeed))) {
				bad("wire:reject:"+c.Kind, "a message for the loaded session was not decrypted: %v", r.err)
			}
		}
		fill()
		_, ci := st.session(s.from)
		r := w.use("Encrypt", bad, func() (err error) { _, err = ci.Encrypt([]byte("text")); return })
		if good && r.err != nil {
			bad("wire:reject:"+c.Kind, "the loaded session cannot encrypt: %v", r.err)
		}
		fill()
		w.use("ProcessBundle", bad, func() error {
			bu, _ := st.session(s.from)
			if err := bu.ProcessBundle(s.bundle); err != nil {
				return err
			}
			_, err := st.receive(s.from, false, append([]byte{}, s.after[0]...))
			return err
		})
		w.use("archive", bad, func() error {
			rec := st.parse(st.sess[k])
			rec.ArchiveCurrentState()
			rec.Serialize()
			return nil
		})
	case "senderkey", "senderstate":
		if y, ok := x.(*grec.SenderKeyState); ok {
			w.use("state", bad, func() error {
				y.KeyID()
				y.SigningKey()
				y.SenderChainKey()
				y.HasSenderMessageKey(1)
				y.RemoveSenderMessageKey(1)
				return nil
			})
			img = append(append([]byte(`{"SenderKeyStates":[`), img...), []byte("]}")...)
		}
		key := nameKey(skName("G", s.from))
		for i, m := range s.after {
			st.sk = map[string][]byte{key: img}
			var pt []byte
			r := w.use("Decrypt", bad, func() (err error) { pt, err = st.receiveGroup(s.from, append([]byte{}, m...)); return })
			if good && (r.err != nil || !bytes.Equal(pt, wireBody([]int{1, 7}[i], wireSeed))) {
				bad("wire:reject:"+c.Kind, "a message for the loaded sender key was not decrypted: %v", r.err)
			}
		}
		for _, op := range []string{"Encrypt", "Create", "Process"} {
			st.sk = map[string][]byte{key: img}
			bu, g := st.groupCipher(s.from)
			r := w.use(op, bad, func() (err error) {
				switch op {
				case "Encrypt":
					_, err = g.Encrypt([]byte("text"))
				case "Create":
					_, err = bu.Create(skName("G", s.from))
				default:
					err = st.takeDist(s.from, append([]byte{}, w.scenes["dist/none"].in...))
				}
				return
			})
			if good && r.err != nil {
				bad("wire:reject:"+c.Kind, "%s: %v", op, r.err)
			}
		}
	case "prekey":
		p := x.(*record.PreKey)
		w.use("prekey", bad, func() error {
			p.ID()
			p.KeyPair().PublicKey().Serialize()
			p.KeyPair().PrivateKey().Serialize()
			return nil
		})
		st.prekeys[21] = in
		w.use("DecryptMessage", bad, func() error { _, err := st.receive("A", true, append([]byte{}, s.after[0]...)); return err })
	case "signedprekey":
		p := x.(*record.SignedPreKey)
		w.use("signed prekey", bad, func() error {
			p.ID()
			p.Timestamp()
			sg := p.Signature()
			ecc.VerifySignature(st.ident.PublicKey().PublicKey(), p.KeyPair().PublicKey().Serialize(), sg)
			p.KeyPair().PrivateKey().Serialize()
			return nil
		})
		st.signed[7] = in
		w.use("DecryptMessage", bad, func() error { _, err := st.receive("A", true, append([]byte{}, s.after[0]...)); return err })
	}
}

var wireSeed int

func isNil(x interface{}) bool {
	v := reflect.ValueOf(x)
	return !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil()
}

// normJSON2 is a document without differences in order.
func normJSON2(b []byte) string {
	var x interface{}
	if json.Unmarshal(b, &x) != nil {
		return string(b)
	}
	o, _ := json.Marshal(x)
	return string(o)
}
