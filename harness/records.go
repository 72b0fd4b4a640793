package main

// Replays the programs of Records on session records.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/root"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

type recChain struct {
	K, C string
	N    int
	M    []int
}

type recState struct {
	Ver                  int
	Base, Lid, Rid, Root string
	Lreg, Rreg, Pctr     int
	Snd, Rcv             []recChain
	Pend                 []struct {
		Otk, Spk int
		Base     string
	}
	Kex []int
}

type recRecord struct {
	Cur   recState
	Prevs []recState
	Fresh bool
}

type recOp struct {
	Op, A, B   string
	R, T, N, M int
}

// recNum is the number that a number of the specification stands for.
func recNum(n int) uint32 {
	switch n {
	case 2:
		return 1 << 31
	case 3:
		return 1<<32 - 1
	case 9999:
		return 1<<32 - 2
	}
	return uint32(n)
}

type recEnv struct {
	seed int
	ser  *serialize.Serializer
}

func (v *recEnv) kp(name string) *KP            { return schedKey("record "+name, v.seed) }
func (v *recEnv) ec(name string) *ecc.ECKeyPair { return ecPair(v.kp(name)) }
func (v *recEnv) pub(name string) ecc.ECPublicKeyable {
	return ecc.NewDjbECPublicKey(v.kp(name).pub)
}
func (v *recEnv) id(name string) *identity.Key { return identity.NewKey(v.pub(name)) }
func (v *recEnv) bytes(n int, name string) []byte {
	return prand(n, "record", name, v.seed)
}
func (v *recEnv) ck(c string, n int) *chain.Key {
	return chain.NewKey(kdf.DeriveSecrets, v.bytes(32, c), recNum(n))
}
func (v *recEnv) mk(m int) *message.Keys {
	return message.NewKeys(v.bytes(32, fmt.Sprint("c", m)), v.bytes(32, fmt.Sprint("m", m)), v.bytes(16, fmt.Sprint("i", m)), recNum(m))
}
func (v *recEnv) root(name string) *root.Key {
	return root.NewKey(kdf.DeriveSecrets, v.bytes(32, name))
}
func recOtk(n int) *optional.Uint32 {
	if n < 0 {
		return optional.NewEmptyUint32()
	}
	return optional.NewOptionalUint32(recNum(n))
}

func (v *recEnv) num(s *record.State, f string, n int) {
	switch f {
	case "ver":
		s.SetVersion(n)
	case "lreg":
		s.SetLocalRegistrationID(recNum(n))
	case "rreg":
		s.SetRemoteRegistrationID(recNum(n))
	case "pctr":
		s.SetPreviousCounter(recNum(n))
	}
}

func (v *recEnv) key(s *record.State, f, a string) {
	switch f {
	case "lid":
		s.SetLocalIdentityKey(v.id(a))
	case "rid":
		s.SetRemoteIdentityKey(v.id(a))
	case "base":
		s.SetSenderBaseKey(v.pub(a).Serialize())
	case "root":
		s.SetRootKey(v.root(a))
	}
}

func (v *recEnv) fill(s *record.State, b string) {
	s.SetVersion(3)
	s.SetLocalIdentityKey(v.id("l"))
	s.SetRemoteIdentityKey(v.id("r"))
	s.SetSenderBaseKey(v.pub(b).Serialize())
	s.SetRootKey(v.root("o"))
	s.SetLocalRegistrationID(recNum(1))
	s.SetRemoteRegistrationID(recNum(3))
	s.SetSenderChain(v.ec("s"), v.ck("c", 0))
}

func (v *recEnv) kex(s *record.State, n int) {
	s.SetPendingKeyExchange(recNum(n), v.ec("x1"), v.ec("x2"), idPair(v.kp("x3")))
}

// state puts everything into a new state.
func (v *recEnv) state(x *recState) *record.State {
	s := record.NewState(v.ser.State)
	if len(x.Snd) > 0 {
		v.fill(s, x.Base)
		v.num(s, "pctr", x.Pctr)
	}
	for _, c := range x.Rcv {
		s.AddReceiverChain(v.pub(c.K), v.ck(c.C, c.N))
		for _, m := range c.M {
			s.SetMessageKeys(v.pub(c.K), v.mk(m))
		}
	}
	for _, p := range x.Pend {
		s.SetUnacknowledgedPreKeyMessage(recOtk(p.Otk), recNum(p.Spk), v.pub(p.Base))
	}
	for _, n := range x.Kex {
		v.kex(s, n)
	}
	return s
}

func (v *recEnv) record(x *recRecord) *record.Session {
	if x.Fresh {
		return record.NewSession(v.ser.Session, v.ser.State)
	}
	all := append([]recState{x.Cur}, x.Prevs...)
	r := record.NewSessionFromState(v.state(&all[len(all)-1]), v.ser.Session)
	for i := len(all) - 2; i >= 0; i-- {
		r.PromoteState(v.state(&all[i]))
	}
	return r
}

func (v *recEnv) do(r *record.Session, op *recOp) (removed *message.Keys, err error) {
	s := r.SessionState()
	if op.T > 0 && op.Op != "promote" && op.Op != "drop" {
		s = r.PreviousSessionStates()[op.T-1]
	}
	switch op.Op {
	case "num":
		v.num(s, op.A, op.N)
	case "key":
		v.key(s, op.A, op.B)
	case "fill":
		v.fill(s, op.A)
	case "sender":
		s.SetSenderChain(v.ec(op.A), v.ck(op.B, op.N))
	case "senderkey":
		s.SetSenderChainKey(v.ck(op.B, op.N))
	case "addchain":
		s.AddReceiverChain(v.pub(op.A), v.ck(op.B, op.N))
	case "chainkey":
		s.SetReceiverChainKey(v.pub(op.A), v.ck(op.B, op.N))
	case "addkey":
		s.SetMessageKeys(v.pub(op.A), v.mk(op.M))
	case "removekey":
		removed = s.RemoveMessageKeys(v.pub(op.A), recNum(op.M))
	case "pend":
		s.SetUnacknowledgedPreKeyMessage(recOtk(op.N), 0, v.pub(op.A))
	case "clear":
		s.ClearUnackPreKeyMessage()
	case "kex":
		v.kex(s, op.N)
	case "archive":
		r.ArchiveCurrentState()
	case "promote":
		p := r.PreviousSessionStates()[op.T-1]
		r.RemovePreviousState(op.T - 1)
		r.PromoteState(p)
	case "drop":
		r.RemovePreviousState(op.T - 1)
	case "setstate":
		n := record.NewState(v.ser.State)
		v.fill(n, op.A)
		r.SetState(n)
	default:
		panic(op.Op)
	}
	return
}

func (v *recEnv) sameMk(m *message.Keys, n int) bool {
	w := v.mk(n)
	return m != nil && m.Index() == w.Index() && bytes.Equal(m.CipherKey(), w.CipherKey()) &&
		bytes.Equal(m.MacKey(), w.MacKey()) && bytes.Equal(m.Iv(), w.Iv())
}

// look compares what a state shows.
func (v *recEnv) look(s *record.State, x *recState) string {
	id := func(k *identity.Key, name string) bool {
		if k == nil || name == "" {
			return k == nil && name == ""
		}
		return k.PublicKey().PublicKey() == v.kp(name).pub
	}
	base := []byte(nil)
	if x.Base != "" {
		base = v.kp(x.Base).ser()
	}
	switch {
	case s.Version() != x.Ver:
		return "version"
	case !bytes.Equal(s.SenderBaseKey(), base):
		return "base key"
	case !id(s.LocalIdentityKey(), x.Lid) || !id(s.RemoteIdentityKey(), x.Rid):
		return "identity key"
	case s.LocalRegistrationID() != recNum(x.Lreg) || s.RemoteRegistrationID() != recNum(x.Rreg):
		return "registration id"
	case s.PreviousCounter() != recNum(x.Pctr):
		return "previous counter"
	case x.Root != "" && !bytes.Equal(s.RootKey().Bytes(), v.bytes(32, x.Root)):
		return "root key"
	case s.HasSenderChain() != (len(x.Snd) > 0):
		return "sending chain"
	case s.HasUnacknowledgedPreKeyMessage() != (len(x.Pend) > 0):
		return "unacknowledged prekey message"
	case s.HasPendingKeyExchange() != (len(x.Kex) > 0):
		return "pending key exchange"
	}
	for _, c := range x.Snd {
		k, w := s.SenderRatchetKeyPair(), v.kp(c.K)
		if p := k.PrivateKey().Serialize(); k.PublicKey().PublicKey() != w.pub || !bytes.Equal(p[:], w.priv) || s.SenderRatchetKey().PublicKey() != w.pub {
			return "sending ratchet key"
		}
		if g := s.SenderChainKey(); g.Index() != recNum(c.N) || !bytes.Equal(g.Key(), v.bytes(32, c.C)) {
			return "sending chain key"
		}
	}
	seen := map[string]bool{}
	for _, c := range x.Rcv {
		if seen[c.K] {
			continue
		}
		seen[c.K] = true
		if !s.HasReceiverChain(v.pub(c.K)) {
			return "receiving chain"
		}
		if g := s.ReceiverChainKey(v.pub(c.K)); g == nil || g.Index() != recNum(c.N) || !bytes.Equal(g.Key(), v.bytes(32, c.C)) {
			return "receiving chain key"
		}
		has := map[int]bool{}
		for i, m := range c.M {
			if !has[m] && (i < 3 || i >= len(c.M)-3 || i%97 == 0) && !s.HasMessageKeys(v.pub(c.K), recNum(m)) {
				return "message key"
			}
			has[m] = true
		}
		for _, m := range []int{0, 1, 2, 4, 7, 2000, 2001, 9999} {
			if s.HasMessageKeys(v.pub(c.K), recNum(m)) != has[m] {
				return "message key"
			}
		}
	}
	for _, k := range []string{"k1", "k2", "k3", "k6", "k7", "k9", "s"} {
		if !seen[k] && (s.HasReceiverChain(v.pub(k)) || s.ReceiverChainKey(v.pub(k)) != nil || s.HasMessageKeys(v.pub(k), 2)) {
			return "receiving chain that is not there"
		}
	}
	for _, p := range x.Pend {
		it, err := s.UnackPreKeyMessageItems()
		if err != nil || !reflect.DeepEqual(it.PreKeyID(), recOtk(p.Otk)) || it.SignedPreKeyID() != recNum(p.Spk) || it.BaseKey().PublicKey() != v.kp(p.Base).pub {
			return "unacknowledged prekey message"
		}
	}
	for _, n := range x.Kex {
		same := func(k *ecc.ECKeyPair, name string) bool {
			p := k.PrivateKey().Serialize()
			return k.PublicKey().PublicKey() == v.kp(name).pub && bytes.Equal(p[:], v.kp(name).priv)
		}
		i := s.PendingKeyExchangeIdentityKeyPair()
		if s.PendingKeyExchangeSequence() != recNum(n) || !same(s.PendingKeyExchangeBaseKeyPair(), "x1") ||
			!same(s.PendingKeyExchangeRatchetKeyPair(), "x2") || !same(ecc.NewECKeyPair(i.PublicKey().PublicKey(), i.PrivateKey()), "x3") {
			return "pending key exchange"
		}
	}
	return ""
}

// stored compares the lists of a state with what would be stored.
func (v *recEnv) stored(s *record.StateStructure, x *recState) string {
	if s == nil {
		return "state"
	}
	if len(s.ReceiverChains) != len(x.Rcv) {
		return "number of receiving chains"
	}
	for i, c := range x.Rcv {
		g := s.ReceiverChains[i]
		if !bytes.Equal(g.SenderRatchetKeyPublic, v.kp(c.K).ser()) || len(g.SenderRatchetKeyPrivate) > 0 ||
			g.ChainKey.Index != recNum(c.N) || !bytes.Equal(g.ChainKey.Key, v.bytes(32, c.C)) {
			return fmt.Sprintf("stored receiving chain %d", i+1)
		}
		if len(g.MessageKeys) != len(c.M) {
			return fmt.Sprintf("number of message keys of chain %d", i+1)
		}
		for j, m := range c.M {
			if (len(c.M) < 10 || j < 3 || j > len(c.M)-3 || j%97 == 0) && !v.sameMk(message.NewKeysFromStruct(g.MessageKeys[j]), m) {
				return fmt.Sprintf("message key %d of chain %d", j+1, i+1)
			}
		}
	}
	return ""
}

func recordsTrace(n int, b []byte, seed int) {
	caseReport("records", n, b, seed, recBlame(func(save bool) []Mism { return recordsCheck(n, b, seed, save) }))
}

// recBlame finds out whether a difference is there without saving and loading, too.
func recBlame(f func(save bool) []Mism) []Mism {
	ms := f(true)
	if len(ms) > 0 && len(f(false)) == 0 {
		for i := range ms {
			ms[i].Tags = append(ms[i].Tags, "needs-reload")
		}
	}
	return ms
}

func recordsCheck(n int, b []byte, seed int, save bool) (ms []Mism) {
	var c struct {
		Init string
		From []recRecord
		Prog []recOp
		Heap []recRecord
	}
	check(json.Unmarshal(b, &c))
	tally(1, 0, "")
	v := &recEnv{seed, serialize.NewJSONSerializer()}
	if pick(2, "records", n, seed) == 0 {
		v.ser = serialize.NewProtoBufSerializer()
	}
	var path []string
	bad := func(i int, class, f string, a ...interface{}) {
		var tags []string
		if c.Init == "chains" || c.Init == "arch" {
			tags = []string{"full"}
		}
		ms = append(ms, Mism{Class: class, Step: i, Tags: tags, Detail: fmt.Sprintf(f, a...) + " in " + c.Init + " after " + strings.Join(path, ", ")})
	}
	var heap []*record.Session
	var lists [][2][]*record.State // lists handed out, and what was in them
	last := "start"
	at := 0
	r := guard(func() error {
		heap = append(heap, v.record(&c.From[0]))
		for i := range c.Prog {
			for _, h := range heap {
				l := h.PreviousSessionStates()
				lists = append(lists, [2][]*record.State{l, append([]*record.State{}, l...)})
			}
			op := &c.Prog[i]
			path = append(path, strings.TrimSpace(fmt.Sprintf("%s %d/%d %s %s", op.Op, op.R, op.T, op.A, op.B)))
			tally(0, 1, "record "+op.Op)
			at, last = i, op.Op
			switch op.Op {
			case "copy":
				heap = append(heap, heap[op.R-1].Copy())
			case "reload":
				if !save {
					continue
				}
				s, err := record.NewSessionFromBytes(heap[op.R-1].Serialize(), v.ser.Session, v.ser.State)
				if err != nil {
					return err
				}
				heap[op.R-1] = s
			default:
				got, err := v.do(heap[op.R-1], op)
				if err != nil {
					return err
				}
				if op.Op == "removekey" && (op.B == "yes" && !v.sameMk(got, op.M) || op.B == "no" && got != nil) {
					bad(i, "rec:removekey", "another message key was removed, or none")
				}
			}
		}
		last, at = "end", len(c.Prog)
		for _, l := range lists {
			for j := range l[1] {
				if l[0][j] != l[1][j] {
					bad(at, "rec:list", "a list of archived states that was handed out before is another now")
					return nil
				}
			}
		}
		for k := range c.Heap {
			x, h := &c.Heap[k], heap[k]
			if h.IsFresh() != (x.Fresh && len(x.Cur.Snd) == 0) {
				bad(at, "rec:fresh", "record %d is fresh: %v", k+1, h.IsFresh())
			}
			if w := v.look(h.SessionState(), &x.Cur); w != "" {
				bad(at, "rec:state", "record %d: another %s", k+1, w)
				return nil
			}
			if len(h.PreviousSessionStates()) != len(x.Prevs) {
				bad(at, "rec:archive", "record %d: %d archived states instead of %d", k+1, len(h.PreviousSessionStates()), len(x.Prevs))
				return nil
			}
			for j := range x.Prevs {
				if w := v.look(h.PreviousSessionStates()[j], &x.Prevs[j]); w != "" {
					bad(at, "rec:archive", "record %d: another %s in archived state %d", k+1, w, j+1)
					return nil
				}
			}
			all := append([]recState{x.Cur}, x.Prevs...)
			for _, base := range []string{"b", "b2", "b3", "b4", "x"} {
				for _, ver := range []int{2, 3} {
					want := false
					for j := range all {
						want = want || all[j].Ver == ver && all[j].Base == base
					}
					if h.HasSessionState(ver, v.kp(base).ser()) != want {
						bad(at, "rec:has", "record %d has a state of version %d and base %s: %v", k+1, ver, base, !want)
						return nil
					}
				}
			}
			complete := true
			for _, s := range all {
				complete = complete && (len(s.Snd) == 0 || s.Lid != "" && s.Rid != "" && s.Base != "" && s.Root != "")
			}
			if !complete {
				continue
			}
			st, err := v.ser.Session.Deserialize(h.Serialize())
			if err != nil {
				return err
			}
			if len(x.Cur.Snd) > 0 {
				if w := v.stored(st.SessionState, &x.Cur); w != "" {
					bad(at, "rec:stored", "record %d: another %s", k+1, w)
				}
			}
			for j := range x.Prevs {
				if w := v.stored(st.PreviousStates[j], &x.Prevs[j]); w != "" {
					bad(at, "rec:stored", "record %d: another %s in archived state %d", k+1, w, j+1)
					return nil
				}
			}
		}
		return nil
	})
	if r.pan != "" {
		bad(at, "panic:records", "%s: %s", last, r.pan)
	} else if r.err != nil {
		bad(at, "rec:"+last, "%v", r.err)
	}
	return
}
