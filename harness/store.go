package main

// Stores of a party. What is written is kept as bytes (the disk); with live stores the
// library also works on the very objects it stored before, as the in-memory stores of the
// repository's tests do. Writes can be interrupted by a crash.

import (
	"bytes"
	"sort"
	"strconv"

	grec "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

type crashSignal struct{}

// capSession remembers what was handed to the serializer.
type capSession struct {
	in   record.SessionSerializer
	last *record.SessionStructure
}

func (c *capSession) Serialize(s *record.SessionStructure) []byte {
	c.last = s
	return c.in.Serialize(s)
}
func (c *capSession) Deserialize(b []byte) (*record.SessionStructure, error) {
	return c.in.Deserialize(b)
}

// capSender does the same for sender key records.
type capSender struct {
	in   grec.SenderKeySerializer
	last *grec.SenderKeyStructure
}

func (c *capSender) Serialize(s *grec.SenderKeyStructure) []byte {
	c.last = s
	return c.in.Serialize(s)
}
func (c *capSender) Deserialize(b []byte) (*grec.SenderKeyStructure, error) {
	return c.in.Deserialize(b)
}

type Store struct {
	ident *identity.KeyPair
	reg   uint32
	live  bool
	hot   bool // keep records as objects for a while and write them later
	ser   *serialize.Serializer
	capt  *capSession

	sess     map[string][]byte
	liveSess map[string]*record.Session
	pins     map[string][]byte
	prekeys  map[uint32][]byte
	livePre  map[uint32]*record.PreKey
	signed   map[uint32][]byte
	liveSpk  map[uint32]*record.SignedPreKey
	sk       map[string][]byte
	liveSK   map[string]*grec.SenderKey
	dirtySK  map[string]bool
	emptySK  bool // an unknown sender key is an empty record instead of none
	captSK   *capSender
	storedSK *grec.SenderKeyStructure

	crash    string
	stored   *record.SessionStructure // captured by the last StoreSession
	events   []string
	touched  map[string]bool // addresses used in the current call
	hotDirty map[string]bool
	storeErr string
}

// addrKey is where a store keeps what belongs to an address: applications use its text.
func addrKey(a *protocol.SignalAddress) string {
	if !plainKeys {
		return a.String()
	}
	return a.Name() + "\x00" + strconv.FormatUint(uint64(a.DeviceID()), 10)
}

func newStore(ident *identity.KeyPair, reg uint32, live bool, ser *serialize.Serializer) *Store {
	s := &Store{ident: ident, reg: reg, live: live}
	c := *ser
	s.capt = &capSession{in: ser.Session}
	c.Session = s.capt
	s.captSK = &capSender{in: ser.SenderKeyRecord}
	c.SenderKeyRecord = s.captSK
	s.sk = map[string][]byte{}
	s.liveSK = map[string]*grec.SenderKey{}
	s.dirtySK = map[string]bool{}
	s.ser = &c
	s.sess = map[string][]byte{}
	s.liveSess = map[string]*record.Session{}
	s.pins = map[string][]byte{}
	s.prekeys = map[uint32][]byte{}
	s.livePre = map[uint32]*record.PreKey{}
	s.signed = map[uint32][]byte{}
	s.liveSpk = map[uint32]*record.SignedPreKey{}
	s.hotDirty = map[string]bool{}
	s.begin("")
	return s
}

func (s *Store) begin(crash string) {
	s.crash = crash
	s.events = nil
	s.stored = nil
	s.storedSK = nil
	s.touched = map[string]bool{}
}

func (s *Store) touch(a *protocol.SignalAddress) { s.touched[addrKey(a)] = true }

// --- identities

func (s *Store) GetIdentityKeyPair() *identity.KeyPair { return s.ident }
func (s *Store) GetLocalRegistrationId() uint32        { return s.reg }
func (s *Store) SaveIdentity(a *protocol.SignalAddress, k *identity.Key) {
	s.touch(a)
	s.events = append(s.events, "pin")
	s.pins[addrKey(a)] = append([]byte{}, k.Serialize()...)
}
func (s *Store) IsTrustedIdentity(a *protocol.SignalAddress, k *identity.Key) bool {
	s.touch(a)
	p := s.pins[addrKey(a)]
	return p == nil || bytes.Equal(p, k.Serialize())
}

// --- prekeys

func (s *Store) LoadPreKey(id uint32) *record.PreKey {
	b := s.prekeys[id]
	if b == nil {
		return nil
	}
	if s.live {
		return s.livePre[id]
	}
	p, err := record.NewPreKeyFromBytes(b, s.ser.PreKeyRecord)
	if err != nil {
		s.storeErr = "prekey: " + err.Error()
		return nil
	}
	return p
}
func (s *Store) StorePreKey(id uint32, p *record.PreKey) {
	s.prekeys[id] = p.Serialize()
	s.livePre[id] = p
}
func (s *Store) ContainsPreKey(id uint32) bool { return s.prekeys[id] != nil }
func (s *Store) RemovePreKey(id uint32) {
	if s.crash == "otk-" {
		panic(crashSignal{})
	}
	s.events = append(s.events, "rmotk")
	delete(s.prekeys, id)
	delete(s.livePre, id)
	if s.crash == "otk+" {
		panic(crashSignal{})
	}
}

// --- signed prekeys

func (s *Store) LoadSignedPreKey(id uint32) *record.SignedPreKey {
	b := s.signed[id]
	if b == nil {
		return nil
	}
	if s.live {
		return s.liveSpk[id]
	}
	p, err := record.NewSignedPreKeyFromBytes(b, s.ser.SignedPreKeyRecord)
	if err != nil {
		s.storeErr = "signed prekey: " + err.Error()
		return nil
	}
	return p
}
func (s *Store) LoadSignedPreKeys() []*record.SignedPreKey {
	var out []*record.SignedPreKey
	for id := range s.signed {
		out = append(out, s.LoadSignedPreKey(id))
	}
	return out
}
func (s *Store) StoreSignedPreKey(id uint32, p *record.SignedPreKey) {
	s.signed[id] = p.Serialize()
	s.liveSpk[id] = p
}
func (s *Store) ContainsSignedPreKey(id uint32) bool { return s.signed[id] != nil }
func (s *Store) RemoveSignedPreKey(id uint32) {
	s.events = append(s.events, "rmspk")
	delete(s.signed, id)
	delete(s.liveSpk, id)
}

// --- sessions

func (s *Store) fresh() *record.Session { return record.NewSession(s.ser.Session, s.ser.State) }

func (s *Store) LoadSession(a *protocol.SignalAddress) *record.Session {
	s.touch(a)
	k := addrKey(a)
	if s.live || s.hot {
		r := s.liveSess[k]
		if r == nil {
			r = s.parse(s.sess[k])
			s.liveSess[k] = r
		}
		return r
	}
	return s.parse(s.sess[k])
}

func (s *Store) parse(b []byte) *record.Session {
	if b == nil {
		return s.fresh()
	}
	r, err := record.NewSessionFromBytes(b, s.ser.Session, s.ser.State)
	if err != nil {
		s.storeErr = "session: " + err.Error()
		return s.fresh()
	}
	return r
}

func (s *Store) StoreSession(a *protocol.SignalAddress, r *record.Session) {
	s.touch(a)
	k := addrKey(a)
	if s.hot {
		s.liveSess[k] = r
		s.hotDirty[k] = true
		return
	}
	b := r.Serialize()
	s.stored = s.capt.last
	if s.crash == "rec-" {
		panic(crashSignal{})
	}
	s.events = append(s.events, "rec")
	s.sess[k] = b
	if s.live {
		s.liveSess[k] = r
	}
	if s.crash == "rec+" {
		panic(crashSignal{})
	}
}

// cool writes what was held back and ends the hot phase.
func (s *Store) cool() {
	s.hot = false
	for k := range s.dirtySK {
		s.sk[k] = s.liveSK[k].Serialize()
		s.storedSK = s.captSK.last
	}
	s.dirtySK = map[string]bool{}
	if !s.live {
		s.liveSK = map[string]*grec.SenderKey{}
	}
	for k := range s.hotDirty {
		s.sess[k] = s.liveSess[k].Serialize()
		s.stored = s.capt.last
	}
	s.hotDirty = map[string]bool{}
	if !s.live {
		s.liveSess = map[string]*record.Session{}
	}
}

func (s *Store) ContainsSession(a *protocol.SignalAddress) bool {
	s.touch(a)
	if s.live {
		return s.liveSess[addrKey(a)] != nil
	}
	return s.sess[addrKey(a)] != nil
}
func (s *Store) DeleteSession(a *protocol.SignalAddress) {
	delete(s.sess, addrKey(a))
	delete(s.liveSess, addrKey(a))
	s.events = append(s.events, "delete")
}
func (s *Store) DeleteAllSessions() {
	s.sess = map[string][]byte{}
	s.liveSess = map[string]*record.Session{}
	s.events = append(s.events, "delete")
}
func (s *Store) GetSubDeviceSessions(name string) []uint32 {
	var out []uint32
	for k := range s.sess {
		for _, a := range addrs {
			if a.Name() == name && addrKey(a) == k {
				out = append(out, a.DeviceID())
			}
		}
	}
	return out
}

// --- sender keys

func nameKey(n *protocol.SenderKeyName) string { return n.GroupID() + "\x00" + addrKey(n.Sender()) }

func (s *Store) parseSK(b []byte) *grec.SenderKey {
	if b == nil {
		if s.emptySK {
			return grec.NewSenderKey(s.ser.SenderKeyRecord, s.ser.SenderKeyState)
		}
		return nil
	}
	r, err := grec.NewSenderKeyFromBytes(b, s.ser.SenderKeyRecord, s.ser.SenderKeyState)
	if err != nil {
		s.storeErr = "sender key: " + err.Error()
		return nil
	}
	return r
}

func (s *Store) LoadSenderKey(n *protocol.SenderKeyName) *grec.SenderKey {
	k := nameKey(n)
	s.touched[k] = true
	if s.live || s.hot {
		if r := s.liveSK[k]; r != nil {
			return r
		}
		if s.sk[k] != nil {
			s.liveSK[k] = s.parseSK(s.sk[k])
			return s.liveSK[k]
		}
	}
	return s.parseSK(s.sk[k])
}

func (s *Store) StoreSenderKey(n *protocol.SenderKeyName, r *grec.SenderKey) {
	k := nameKey(n)
	s.touched[k] = true
	if s.hot {
		s.liveSK[k] = r
		s.dirtySK[k] = true
		return
	}
	b := r.Serialize()
	s.storedSK = s.captSK.last
	s.checkStates(r, s.storedSK)
	if s.crash == "rec-" {
		panic(crashSignal{})
	}
	s.events = append(s.events, "rec")
	s.sk[k] = b
	if s.live {
		s.liveSK[k] = r
	}
	if s.crash == "rec+" {
		panic(crashSignal{})
	}
}

// checkStates serializes the states of a sender key one by one.
func (s *Store) checkStates(r *grec.SenderKey, x *grec.SenderKeyStructure) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(error); ok {
				s.storeErr = "a sender key state cannot be serialized"
				return
			}
			panic(e)
		}
	}()
	if x == nil || len(x.SenderKeyStates) > 8 {
		return
	}
	last := s.captSK.last
	for _, y := range x.SenderKeyStates {
		if y == nil || len(y.Keys) > 50 {
			continue
		}
		t, err := r.GetSenderKeyStateByID(y.KeyID)
		if err != nil {
			continue
		}
		z, err := s.ser.SenderKeyState.Deserialize(t.Serialize())
		if err != nil || z == nil || z.KeyID != y.KeyID {
			s.storeErr = "a sender key state does not survive encoding"
		} else if first := firstState(x, y.KeyID); normJSON(z) != normJSON(first) {
			s.storeErr = "a sender key state changes when it is encoded"
		}
	}
	s.captSK.last = last
}

func firstState(x *grec.SenderKeyStructure, id uint32) *grec.SenderKeyStateStructure {
	for _, y := range x.SenderKeyStates {
		if y != nil && y.KeyID == id {
			return y
		}
	}
	return nil
}

func (s *Store) deleteSK(k string) {
	delete(s.sk, k)
	delete(s.liveSK, k)
	delete(s.dirtySK, k)
}

// imageSK is a sender key record as bytes: the live object if there is one.
func (s *Store) imageSK(k string) []byte {
	if s.live {
		if r := s.liveSK[k]; r != nil {
			return r.Serialize()
		}
	}
	return s.sk[k]
}

// restart forgets all live objects, as a new process does.
func (s *Store) restart() {
	s.hot = false
	s.liveSess = map[string]*record.Session{}
	s.hotDirty = map[string]bool{}
	s.livePre = map[uint32]*record.PreKey{}
	s.liveSpk = map[uint32]*record.SignedPreKey{}
	s.liveSK = map[string]*grec.SenderKey{}
	s.dirtySK = map[string]bool{}
	if !s.live {
		return
	}
	for k, b := range s.sk {
		if r := s.parseSK(b); r != nil {
			s.liveSK[k] = r
		}
	}
	for k, b := range s.sess {
		s.liveSess[k] = s.parse(b)
	}
	for id, b := range s.prekeys {
		p, err := record.NewPreKeyFromBytes(b, s.ser.PreKeyRecord)
		if err != nil {
			s.storeErr = "prekey: " + err.Error()
			continue
		}
		s.livePre[id] = p
	}
	for id, b := range s.signed {
		p, err := record.NewSignedPreKeyFromBytes(b, s.ser.SignedPreKeyRecord)
		if err != nil {
			s.storeErr = "signed prekey: " + err.Error()
			continue
		}
		s.liveSpk[id] = p
	}
}

// image is the record at an address as bytes: the live object if there is one.
func (s *Store) image(k string) []byte {
	if s.live {
		if r := s.liveSess[k]; r != nil {
			b := r.Serialize()
			if s.sess[k] == nil && isFreshImage(b, s) {
				return nil
			}
			return b
		}
	}
	return s.sess[k]
}

func isFreshImage(b []byte, s *Store) bool { return bytes.Equal(b, s.fresh().Serialize()) }

type Snap struct {
	sess, pins, otk, spk, sk map[string][]byte
}

// snapAll is everything a party has stored; addresses in keys only.
func (s *Store) snapAll() *Snap {
	n := &Snap{map[string][]byte{}, map[string][]byte{}, map[string][]byte{}, map[string][]byte{}, map[string][]byte{}}
	for k := range s.sk {
		if b := s.imageSK(k); b != nil {
			n.sk[k] = b
		}
	}
	ks := map[string]bool{}
	for k := range s.sess {
		ks[k] = true
	}
	for k := range s.liveSess {
		ks[k] = true
	}
	for k := range ks {
		if b := s.image(k); b != nil {
			n.sess[k] = b
		}
	}
	for k, v := range s.pins {
		n.pins[k] = v
	}
	for id, b := range s.prekeys {
		n.otk[strconv.Itoa(int(id))] = b
	}
	for id, b := range s.signed {
		n.spk[strconv.Itoa(int(id))] = b
	}
	return n
}

func diffMaps(a, b map[string][]byte) []string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok || !bytes.Equal(v, w) {
			out = append(out, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func sortedIDs(m map[uint32][]byte) []int {
	var out []int
	for id := range m {
		out = append(out, int(id))
	}
	sort.Ints(out)
	return out
}
