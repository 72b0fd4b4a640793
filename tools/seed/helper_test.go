package tests

// Helper of the demonstrations: a party whose stores keep serialized records only.

import (
	"testing"

	"github.com/prospik/libsignal-protocol-go/groups"
	groupRecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

type dIdentity struct {
	own    *identity.KeyPair
	reg    uint32
	pinned map[string]string
}

func (s *dIdentity) GetIdentityKeyPair() *identity.KeyPair { return s.own }
func (s *dIdentity) GetLocalRegistrationId() uint32        { return s.reg }
func (s *dIdentity) SaveIdentity(a *protocol.SignalAddress, k *identity.Key) {
	s.pinned[a.String()] = k.Fingerprint()
}
func (s *dIdentity) IsTrustedIdentity(a *protocol.SignalAddress, k *identity.Key) bool {
	p, ok := s.pinned[a.String()]
	return !ok || p == k.Fingerprint()
}

type dSessions struct {
	ser  *serialize.Serializer
	recs map[string][]byte
}

func (s *dSessions) LoadSession(a *protocol.SignalAddress) *record.Session {
	b, ok := s.recs[a.String()]
	if !ok {
		return record.NewSession(s.ser.Session, s.ser.State)
	}
	r, err := record.NewSessionFromBytes(b, s.ser.Session, s.ser.State)
	if err != nil {
		panic(err)
	}
	return r
}
func (s *dSessions) StoreSession(a *protocol.SignalAddress, r *record.Session) {
	s.recs[a.String()] = append([]byte{}, r.Serialize()...)
}
func (s *dSessions) GetSubDeviceSessions(string) []uint32 { return nil }
func (s *dSessions) ContainsSession(a *protocol.SignalAddress) bool {
	_, ok := s.recs[a.String()]
	return ok
}
func (s *dSessions) DeleteSession(a *protocol.SignalAddress) { delete(s.recs, a.String()) }
func (s *dSessions) DeleteAllSessions()                      { s.recs = map[string][]byte{} }

type dParty struct {
	ser    *serialize.Serializer
	addr   *protocol.SignalAddress
	id     *dIdentity
	sess   *dSessions
	pre    *InMemoryPreKey
	signed *InMemorySignedPreKey
	spk    *record.SignedPreKey
	nextID uint32
}

func newDParty(name string, device uint32, ser *serialize.Serializer) *dParty {
	p := &dParty{ser: ser, addr: protocol.NewSignalAddress(name, device), pre: NewInMemoryPreKey(), signed: NewInMemorySignedPreKey(), nextID: 1}
	own, _ := keyhelper.GenerateIdentityKeyPair()
	p.id = &dIdentity{own, keyhelper.GenerateRegistrationID(), map[string]string{}}
	p.sess = &dSessions{ser, map[string][]byte{}}
	p.newSigned(1)
	return p
}

func (p *dParty) newSigned(id uint32) {
	p.spk, _ = keyhelper.GenerateSignedPreKey(p.id.own, id, p.ser.SignedPreKeyRecord)
	p.signed.StoreSignedPreKey(id, p.spk)
}

// bundle publishes a bundle, with a new one-time prekey if asked to.
func (p *dParty) bundle(oneTime bool) *prekey.Bundle {
	if !oneTime {
		return prekey.NewBundle(p.id.reg, p.addr.DeviceID(), optional.NewEmptyUint32(), p.spk.ID(), nil,
			p.spk.KeyPair().PublicKey(), p.spk.Signature(), p.id.own.PublicKey())
	}
	keys, _ := keyhelper.GeneratePreKeys(int(p.nextID), int(p.nextID), p.ser.PreKeyRecord)
	p.nextID++
	p.pre.StorePreKey(keys[0].ID().Value, keys[0])
	return prekey.NewBundle(p.id.reg, p.addr.DeviceID(), keys[0].ID(), p.spk.ID(), keys[0].KeyPair().PublicKey(),
		p.spk.KeyPair().PublicKey(), p.spk.Signature(), p.id.own.PublicKey())
}

func (p *dParty) builder(q *dParty) *session.Builder {
	return session.NewBuilder(p.sess, p.pre, p.signed, p.id, q.addr, p.ser)
}
func (p *dParty) cipher(q *dParty) *session.Cipher { return session.NewCipher(p.builder(q), q.addr) }

type dWire struct {
	prekey bool
	bytes  []byte
}

func (p *dParty) send(t *testing.T, q *dParty, text string) dWire {
	t.Helper()
	m, err := p.cipher(q).Encrypt([]byte(text))
	if err != nil {
		t.Fatal("encrypt:", err)
	}
	return dWire{m.Type() == protocol.PREKEY_TYPE, append([]byte{}, m.Serialize()...)}
}

func (p *dParty) recv(q *dParty, w dWire) (string, error) {
	if w.prekey {
		m, err := protocol.NewPreKeySignalMessageFromBytes(append([]byte{}, w.bytes...), p.ser.PreKeySignalMessage, p.ser.SignalMessage)
		if err != nil {
			return "", err
		}
		b, err := p.cipher(q).DecryptMessage(m)
		return string(b), err
	}
	m, err := protocol.NewSignalMessageFromBytes(append([]byte{}, w.bytes...), p.ser.SignalMessage)
	if err != nil {
		return "", err
	}
	b, err := p.cipher(q).Decrypt(m)
	return string(b), err
}

// must decrypts and insists on the text.
func (p *dParty) must(t *testing.T, q *dParty, w dWire, text string) {
	t.Helper()
	s, err := p.recv(q, w)
	if err != nil || s != text {
		t.Fatalf("got %q, %v instead of %q", s, err, text)
	}
}

// refuse insists on the message being refused.
func (p *dParty) refuse(t *testing.T, q *dParty, w dWire) {
	t.Helper()
	if s, err := p.recv(q, w); err == nil {
		t.Fatalf("accepted as %q", s)
	}
}

// link establishes a session in which both have answered.
func link(t *testing.T, a, b *dParty) {
	t.Helper()
	if err := a.builder(b).ProcessBundle(b.bundle(true)); err != nil {
		t.Fatal(err)
	}
	b.must(t, a, a.send(t, b, "hello"), "hello")
	a.must(t, b, b.send(t, a, "hi"), "hi")
	b.must(t, a, a.send(t, b, "ok"), "ok")
}

// dSenderKeys keeps serialized sender key records.
type dSenderKeys struct {
	ser  *serialize.Serializer
	recs map[string][]byte
}

func newDSenderKeys(ser *serialize.Serializer) *dSenderKeys {
	return &dSenderKeys{ser, map[string][]byte{}}
}
func dName(n *protocol.SenderKeyName) string { return n.GroupID() + "|" + n.Sender().String() }
func (s *dSenderKeys) StoreSenderKey(n *protocol.SenderKeyName, r *groupRecord.SenderKey) {
	s.recs[dName(n)] = append([]byte{}, r.Serialize()...)
}
func (s *dSenderKeys) LoadSenderKey(n *protocol.SenderKeyName) *groupRecord.SenderKey {
	b, ok := s.recs[dName(n)]
	if !ok {
		return nil
	}
	r, err := groupRecord.NewSenderKeyFromBytes(b, s.ser.SenderKeyRecord, s.ser.SenderKeyState)
	if err != nil {
		panic(err)
	}
	return r
}

// dMember is a member of groups.
type dMember struct {
	ser  *serialize.Serializer
	addr *protocol.SignalAddress
	keys *dSenderKeys
}

func newDMember(name string, device uint32, ser *serialize.Serializer) *dMember {
	return &dMember{ser, protocol.NewSignalAddress(name, device), newDSenderKeys(ser)}
}

func (m *dMember) builder() *groups.SessionBuilder {
	return groups.NewGroupSessionBuilder(m.keys, m.ser)
}

// share returns the distribution message of a member's sender key.
func (m *dMember) share(t *testing.T, group string) []byte {
	t.Helper()
	d, err := m.builder().Create(protocol.NewSenderKeyName(group, m.addr))
	if err != nil {
		t.Fatal(err)
	}
	return append([]byte{}, d.Serialize()...)
}

// renew forgets the member's own sender key.
func (m *dMember) renew(group string) {
	delete(m.keys.recs, dName(protocol.NewSenderKeyName(group, m.addr)))
}

func (m *dMember) learn(t *testing.T, group string, from *dMember, dist []byte) {
	t.Helper()
	d, err := protocol.NewSenderKeyDistributionMessageFromBytes(append([]byte{}, dist...), m.ser.SenderKeyDistributionMessage)
	if err != nil {
		t.Fatal(err)
	}
	m.builder().Process(protocol.NewSenderKeyName(group, from.addr), d)
}

func (m *dMember) send(t *testing.T, group, text string) []byte {
	t.Helper()
	c, err := groups.NewGroupCipher(m.builder(), protocol.NewSenderKeyName(group, m.addr), m.keys).Encrypt([]byte(text))
	if err != nil {
		t.Fatal(err)
	}
	return append([]byte{}, c.(*protocol.SenderKeyMessage).SignedSerialize()...)
}

func (m *dMember) recv(group string, from *dMember, b []byte) (string, error) {
	s, err := protocol.NewSenderKeyMessageFromBytes(append([]byte{}, b...), m.ser.SenderKeyMessage)
	if err != nil {
		return "", err
	}
	pt, err := groups.NewGroupCipher(m.builder(), protocol.NewSenderKeyName(group, from.addr), m.keys).Decrypt(s)
	return string(pt), err
}

func (m *dMember) must(t *testing.T, group string, from *dMember, b []byte, text string) {
	t.Helper()
	if s, err := m.recv(group, from, b); err != nil || s != text {
		t.Fatalf("got %q, %v instead of %q", s, err, text)
	}
}

func (m *dMember) refuse(t *testing.T, group string, from *dMember, b []byte) {
	t.Helper()
	if s, err := m.recv(group, from, b); err == nil {
		t.Fatalf("accepted as %q", s)
	}
}
