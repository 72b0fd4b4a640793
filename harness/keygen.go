package main

// Replays the behaviours of Keygen: everything the library reads from the random source is
// recorded, the source can end, and keys are looked for in what was read.

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"

	"github.com/RadicalApp/complete"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// tape is a random source that remembers what it gave.
type tape struct {
	src  io.Reader
	size int // at most so much at once, 0 for everything
	left int // -1 for unlimited
	out  []byte
}

type tapeEnded struct{}

func (t *tape) Read(p []byte) (int, error) {
	if t.left == 0 {
		// crypto/rand.Read ends the process when the source fails
		pcs := make([]uintptr, 16)
		fs := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
		for {
			f, more := fs.Next()
			if f.Function == "crypto/rand.Read" {
				panic(tapeEnded{})
			}
			if !more {
				break
			}
		}
		return 0, errors.New("the random source failed")
	}
	if t.size > 0 && len(p) > t.size {
		p = p[:t.size]
	}
	if t.left > 0 {
		if len(p) > t.left {
			p = p[:t.left]
		}
		t.left -= len(p)
	}
	n, _ := t.src.Read(p)
	t.out = append(t.out, p[:n]...)
	return n, nil
}

type kgStep struct {
	Op   string
	Cut  int
	Keys int
	Sess struct {
		Cur     string
		Arch    int
		Ratchet int
	}
	Group bool
}

type kgWorld struct {
	ser   *serialize.Serializer
	a, b  *wireParty
	t     *tape
	peer  io.Reader
	used  [][2]int // intervals of the tape that keys are made of
	from  int      // start of the current call
	bad   func(class, f string, x ...interface{})
	input interface{} // of the call that failed
	nid   uint32
	gname *protocol.SenderKeyName
}

// asPeer runs f with the peer's randomness.
func (w *kgWorld) asPeer(f func()) {
	old := crand.Reader
	crand.Reader = w.peer
	defer func() { crand.Reader = old }()
	f()
}

// made checks that a key was made in the current call, from bytes of its own.
func (w *kgWorld) made(what string, ok func(b []byte) bool) {
	var at []int
	for i := w.from; i+32 <= len(w.t.out); i++ {
		at = append(at, i)
	}
	// usually keys are read one after another
	sort.SliceStable(at, func(i, j int) bool { return (at[i]-w.from)%32 == 0 && (at[j]-w.from)%32 != 0 })
	for _, i := range at {
		if !ok(append([]byte{}, w.t.out[i:i+32]...)) {
			continue
		}
		for _, u := range w.used {
			if i < u[1] && u[0] < i+32 {
				w.bad("keygen:shared", "%s shares bytes with another key", what)
				return
			}
		}
		w.used = append(w.used, [2]int{i, i + 32})
		return
	}
	w.bad("keygen:source", "%s does not consist of the randomness read for it (%d bytes)", what, len(w.t.out)-w.from)
}

func (w *kgWorld) madePriv(what string, priv, pub []byte) {
	w.made(what, func(b []byte) bool { return bytes.Equal(clamp(b), priv) })
	if p := pubOf(priv); !bytes.Equal(p[:], pub) {
		w.bad("keygen:public", "%s: the public key does not belong to the private key", what)
	}
}

func (w *kgWorld) madePair(what string, k *ecc.ECKeyPair) {
	priv, pub := k.PrivateKey().Serialize(), k.PublicKey().PublicKey()
	w.madePriv(what, priv[:], pub[:])
}

type structView struct {
	has         bool
	priv, pub   []byte
	base        []byte
	pending     bool
	previous    int
	unreadables string
}

func viewOf(s *Store, q string) *structView {
	img := s.image(addrKey(addrs[q]))
	if img == nil {
		return &structView{}
	}
	x, err := s.ser.Session.Deserialize(img)
	if err != nil || x.SessionState == nil {
		return &structView{unreadables: fmt.Sprint(err)}
	}
	v := &structView{has: true, previous: len(x.PreviousStates), pending: x.SessionState.PendingPreKey != nil, base: x.SessionState.SenderBaseKey}
	if c := x.SessionState.SenderChain; c != nil {
		v.priv, v.pub = c.SenderRatchetKeyPrivate, c.SenderRatchetKeyPublic
	}
	return v
}

// prepare makes the input of a call; it uses the peer's randomness.
func (w *kgWorld) prepare(op string) (in interface{}) {
	w.asPeer(func() {
		switch op {
		case "bundle":
			w.nid++
			ks, err := keyhelper.GeneratePreKeys(int(w.nid), int(w.nid), w.ser.PreKeyRecord)
			check(err)
			w.b.st.StorePreKey(w.nid, ks[0])
			in = prekey.NewBundle(w.b.st.reg, w.b.addr.DeviceID(), ks[0].ID(), w.b.spk.ID(), ks[0].KeyPair().PublicKey(),
				w.b.spk.KeyPair().PublicKey(), w.b.spk.Signature(), w.b.st.ident.PublicKey())
		case "contact":
			w.nid++
			ks, err := keyhelper.GeneratePreKeys(int(w.nid), int(w.nid), w.ser.PreKeyRecord)
			check(err)
			w.a.st.StorePreKey(w.nid, ks[0])
			w.b.process("A", prekey.NewBundle(w.a.st.reg, w.a.addr.DeviceID(), ks[0].ID(), w.a.spk.ID(), ks[0].KeyPair().PublicKey(),
				w.a.spk.KeyPair().PublicKey(), w.a.spk.Signature(), w.a.st.ident.PublicKey()))
			in = kgMsg{true, w.b.send("A", []byte("contact")), "contact"}
		case "answer":
			v := viewOf(w.a.st, "B")
			m := w.a.send("B", []byte("question"))
			if pt, err := w.b.st.receive("A", v.pending, m); err != nil || string(pt) != "question" {
				w.bad("keygen:talk", "the peer cannot read a message: %v", err)
			}
			in = w.fromPeer("answer")
		case "more":
			in = w.fromPeer("more")
		}
	})
	return in
}

type kgMsg struct {
	pre  bool
	b    []byte
	text string
}

func (w *kgWorld) fromPeer(text string) kgMsg {
	pre := viewOf(w.b.st, "A").pending
	return kgMsg{pre, w.b.send("A", []byte(text)), text}
}

func keygenTrace(n int, b []byte, seed int) {
	var c struct {
		Size int
		Log  []kgStep
	}
	check(json.Unmarshal(b, &c))
	sum.Traces++
	unvary()
	how := pick(4, "keygen", n, seed)
	live, proto := how&1 == 0, how&2 == 0
	var ms []Mism
	step := 0
	w := &kgWorld{nid: 1}
	w.bad = func(class, f string, x ...interface{}) {
		ms = append(ms, Mism{Class: class, Step: step, Detail: fmt.Sprintf("%s (%v): ", c.Log[step].Op, c.Log[step].Cut) + fmt.Sprintf(f, x...)})
	}
	w.peer = seedRandom("keygen peer", n, seed)
	ww := &wireWorld{ser: serialize.NewJSONSerializer()}
	if proto {
		ww.ser = serialize.NewProtoBufSerializer()
	}
	w.ser = ww.ser
	w.a, w.b = ww.party("A", 1, 1, 1), ww.party("B", 2, 1, 1)
	w.a.st.live = live
	w.nid = 10
	w.gname = skName("G", "A")
	w.t = &tape{src: seedRandom("keygen tape", n, seed), size: c.Size, left: -1}
	crand.Reader = w.t
	for i := range c.Log {
		step = i
		s := &c.Log[i]
		sum.Steps++
		if i == 0 || c.Log[i-1].Cut == -1 || c.Log[i-1].Op != s.Op {
			w.input = w.prepare(s.Op)
		}
		before := w.a.st.snapAll()
		old := viewOf(w.a.st, "B")
		oldSign := w.signing()
		w.from = len(w.t.out)
		w.t.left = s.Cut
		var results func()
		r := guard(func() (err error) {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(tapeEnded); !ok {
						panic(x)
					}
					err = errors.New("the process ends")
				}
			}()
			results, err = w.call(s)
			return err
		})
		w.t.left = -1
		if r.pan != "" {
			w.bad("panic:keygen", "%s", r.pan)
			break
		}
		if s.Cut != -1 {
			sum.Cov["keygen cut "+s.Op]++
			if r.err == nil {
				w.bad("keygen:accept", "no error, although the source ended after %d bytes", s.Cut)
			}
			if now := w.a.st.snapAll(); len(diffMaps(before.sess, now.sess))+len(diffMaps(before.pins, now.pins))+
				len(diffMaps(before.otk, now.otk))+len(diffMaps(before.spk, now.spk))+len(diffMaps(before.sk, now.sk)) > 0 {
				w.bad("keygen:effect", "a call without randomness changed what is stored: sessions %q, identities %q, prekeys %q, groups %q",
					diffMaps(before.sess, now.sess), diffMaps(before.pins, now.pins), diffMaps(before.otk, now.otk), diffMaps(before.sk, now.sk))
			}
		} else {
			sum.Cov["keygen "+s.Op]++
			if r.err != nil {
				w.bad("keygen:reject", "%v", r.err)
				break
			}
			if results != nil {
				results()
			}
		}
		if len(ms) > 0 {
			break
		}
		// the session
		v := viewOf(w.a.st, "B")
		if v.has != (s.Sess.Cur != "none") || v.has && (v.pending != (s.Sess.Cur == "opened") || v.previous != s.Sess.Arch) {
			w.bad("keygen:state", "a session with %d earlier states, unacknowledged %v; expected %s with %d", v.previous, v.pending, s.Sess.Cur, s.Sess.Arch)
			break
		}
		if v.has {
			if s.Keys > 0 {
				w.madePriv("the ratchet key", v.priv, v.pub[1:])
			} else if !bytes.Equal(v.priv, old.priv) {
				w.bad("keygen:state", "the ratchet key was replaced")
			}
			if s.Op == "bundle" && s.Keys > 0 {
				w.made("the base key", func(b []byte) bool { p := pubOf(clamp(b)); return bytes.Equal(p[:], v.base[1:]) })
			}
		}
		if sg := w.signing(); (sg != nil) != s.Group {
			w.bad("keygen:group", "has a group key: %v, expected %v", sg != nil, s.Group)
		} else if s.Op != "create" && !bytes.Equal(sg, oldSign) {
			w.bad("keygen:group", "the group's signing key was replaced")
		}
		if len(ms) > 0 {
			break
		}
	}
	if len(ms) == 0 {
		w.epilogue(&c.Log[len(c.Log)-1])
	}
	if len(ms) > 0 {
		report("keygen", fmt.Sprint(n), "", seed, ms, nil, caseBody{n, b})
	} else if len(sum.Sample) < 1 {
		sum.Sample = append(sum.Sample, string(b))
	}
}

// signing is the private signing key of the group.
func (w *kgWorld) signing() []byte {
	img := w.a.st.imageSK(nameKey(w.gname))
	if img == nil {
		return nil
	}
	x, err := w.a.st.ser.SenderKeyRecord.Deserialize(img)
	if err != nil || len(x.SenderKeyStates) == 0 {
		return nil
	}
	return x.SenderKeyStates[0].SigningKeyPrivate
}

// call makes the call of a step; what it returns looks at the results.
func (w *kgWorld) call(s *kgStep) (func(), error) {
	switch s.Op {
	case "pair", "signing":
		f := ecc.GenerateKeyPair
		if s.Op == "signing" {
			f = keyhelper.GenerateSenderSigningKey
		}
		k, err := f()
		return func() { w.madePair("the key", k) }, err
	case "senderkey":
		k := keyhelper.GenerateSenderKey()
		return func() { w.made("the chain key", func(b []byte) bool { return bytes.Equal(b, k) }) }, nil
	case "regid", "keyid":
		f := keyhelper.GenerateRegistrationID
		if s.Op == "keyid" {
			f = keyhelper.GenerateSenderKeyID
		}
		id := f()
		return func() {
			for i := w.from; i+4 <= len(w.t.out); i++ {
				if b := w.t.out[i:]; binary.LittleEndian.Uint32(b) == id || binary.BigEndian.Uint32(b) == id {
					return
				}
			}
			w.bad("keygen:source", "id %d does not consist of the randomness read for it", id)
		}, nil
	case "identity", "identityAsync":
		var id *identity.KeyPair
		var err error
		if s.Op == "identity" {
			id, err = keyhelper.GenerateIdentityKeyPair()
		} else {
			done := make(chan struct{}, 2)
			keyhelper.GenerateIdentityKeyPairAsync(complete.NewCompletion(func(r *complete.Result) {
				id, _ = r.Data.(*identity.KeyPair)
				done <- struct{}{}
			}, func(m string) {
				err = errors.New(m)
				done <- struct{}{}
			}))
			<-done
		}
		if err == nil && id == nil {
			return nil, errors.New("no identity key pair")
		}
		return func() {
			priv, pub := id.PrivateKey().Serialize(), id.PublicKey().PublicKey().PublicKey()
			w.madePriv("the identity key", priv[:], pub[:])
		}, err
	case "signed":
		id := uint32(pick(1<<31, "signed id", len(w.t.out)))
		k, err := keyhelper.GenerateSignedPreKey(w.a.st.ident, id, w.ser.SignedPreKeyRecord)
		return func() {
			w.madePair("the signed prekey", k.KeyPair())
			sig := k.Signature()
			if k.ID() != id || !sigValid(w.a.st.ident.PublicKey().PublicKey().PublicKey(), k.KeyPair().PublicKey().Serialize(), sig[:]) {
				w.bad("keygen:record", "signed prekey %d instead of %d, or its signature is wrong", k.ID(), id)
			}
		}, err
	case "lastresort":
		k, err := keyhelper.GenerateLastResortKey(w.ser.PreKeyRecord)
		return func() {
			w.madePair("the last resort prekey", k.KeyPair())
			if k.ID().IsEmpty || k.ID().Value != 16777215 {
				w.bad("keygen:record", "the last resort prekey has id %v", k.ID())
			}
		}, err
	case "prekeys0", "prekeys3":
		count := int(s.Op[7] - '0')
		ks, err := keyhelper.GeneratePreKeys(1, count, w.ser.PreKeyRecord)
		return func() {
			if len(ks) != count {
				w.bad("keygen:record", "%d prekeys instead of %d", len(ks), count)
			}
			for i, k := range ks {
				w.madePair("a prekey", k.KeyPair())
				if k.ID().IsEmpty || k.ID().Value != uint32(i+1) {
					w.bad("keygen:record", "prekey %d has id %v", i+1, k.ID())
				}
			}
		}, err
	case "bundle":
		return nil, session.NewBuilderFromSignal(w.a.st, addrs["B"], w.a.st.ser).ProcessBundle(w.input.(*prekey.Bundle))
	case "contact", "answer", "more":
		m := w.input.(kgMsg)
		pt, err := w.a.st.receive("B", m.pre, m.b)
		return func() {
			if string(pt) != m.text {
				w.bad("keygen:talk", "got %q instead of %q", pt, m.text)
			}
		}, err
	case "send":
		_, c := w.a.st.session("B")
		_, err := c.Encrypt([]byte("lost"))
		return nil, err
	case "create", "again":
		d, err := groups.NewGroupSessionBuilder(w.a.st, w.a.st.ser).Create(w.gname)
		return func() {
			pub := d.SignatureKey().PublicKey()
			if p := pubOf(w.signing()); p != pub {
				w.bad("keygen:public", "the distributed signature key is not that of the sender")
			}
			if s.Op == "create" {
				w.madePriv("the signing key", w.signing(), pub[:])
				w.made("the chain key", func(b []byte) bool { return bytes.Equal(b, d.ChainKey()) })
			}
			var e error
			w.asPeer(func() { e = w.join(d) })
			if e != nil {
				w.bad("keygen:talk", "%v", e)
			}
		}, err
	case "gsend":
		m, err := groups.NewGroupCipher(groups.NewGroupSessionBuilder(w.a.st, w.a.st.ser), w.gname, w.a.st).Encrypt([]byte("to all"))
		return func() {
			var e error
			w.asPeer(func() { e = w.groupRead(m.(*protocol.SenderKeyMessage)) })
			if e != nil {
				w.bad("keygen:talk", "%v", e)
			}
		}, err
	}
	panic("unknown call " + s.Op)
}

func (w *kgWorld) join(d *protocol.SenderKeyDistributionMessage) error {
	x, err := protocol.NewSenderKeyDistributionMessageFromBytes(d.Serialize(), w.ser.SenderKeyDistributionMessage)
	if err == nil {
		groups.NewGroupSessionBuilder(w.b.st, w.b.st.ser).Process(w.gname, x)
	}
	return err
}

func (w *kgWorld) groupRead(m *protocol.SenderKeyMessage) error {
	x, err := protocol.NewSenderKeyMessageFromBytes(m.SignedSerialize(), w.ser.SenderKeyMessage)
	if err != nil {
		return err
	}
	pt, err := groups.NewGroupCipher(groups.NewGroupSessionBuilder(w.b.st, w.b.st.ser), w.gname, w.b.st).Decrypt(x)
	if err == nil && string(pt) != "to all" {
		err = fmt.Errorf("the peer got %q", pt)
	}
	return err
}

// epilogue: after everything, the party still talks to its peer.
func (w *kgWorld) epilogue(last *kgStep) {
	if last.Sess.Cur == "none" {
		return
	}
	for i := 0; i < 2; i++ {
		w.asPeer(func() {
			m := w.prepare("answer").(kgMsg)
			pt, err := w.a.st.receive("B", m.pre, m.b)
			if err != nil || string(pt) != m.text {
				w.bad("keygen:talk", "the conversation does not go on: %v", err)
			}
		})
	}
}
