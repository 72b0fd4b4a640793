package main

// Replays Values: single values, made from parts, saved and loaded.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"reflect"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

var valueTimes = []int64{0, 1, -1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, 1 << 32,
	1<<53 + 1, math.MaxInt64, math.MinInt64, 1605848400123}

var valueNames = []string{"", "alice", "+1:2", "g\x00\xff", "длинное имя", ":"}

func valuesTrace(n int, b []byte, seed int) {
	caseReport("values", n, b, seed, recBlame(func(save bool) []Mism { return valuesCheck(n, b, seed, save) }))
}

func valuesCheck(n int, b []byte, seed int, save bool) (ms []Mism) {
	var c struct {
		Kind    string
		Made    []int
		Value   []int
		Reloads int
	}
	check(json.Unmarshal(b, &c))
	tally(1, c.Reloads, "value "+c.Kind)
	if !save {
		c.Reloads = 0
	}
	for i, ser := range []*serialize.Serializer{serialize.NewJSONSerializer(), serialize.NewProtoBufSerializer()} {
		v := &recEnv{seed + n, ser}
		r := guard(func() error { return v.value(c.Kind, c.Made, c.Value, c.Reloads) })
		name := []string{"JSON", "protobuf"}[i]
		if r.pan != "" {
			ms = append(ms, Mism{Class: "panic:values", Detail: fmt.Sprintf("%s %v, %s: %s", c.Kind, c.Made, name, r.pan)})
		} else if r.err != nil {
			ms = append(ms, Mism{Class: "value:" + c.Kind, Detail: fmt.Sprintf("%s of %v, loaded %d times (%s): %v", c.Kind, c.Made, c.Reloads, name, r.err)})
		}
	}
	return
}

// parts reports the first part that is another one.
func parts(xs ...interface{}) error {
	for i := 0; i < len(xs); i += 3 {
		if !reflect.DeepEqual(xs[i+1], xs[i+2]) {
			return fmt.Errorf("%v is %v instead of %v", xs[i], xs[i+1], xs[i+2])
		}
	}
	return nil
}

func (v *recEnv) samePair(k *ecc.ECKeyPair, name string) error {
	w := v.kp(name)
	a, b := k.PrivateKey().Serialize(), k.PrivateKey().(*ecc.DjbECPrivateKey).PrivateKey()
	return parts("public key", k.PublicKey().PublicKey(), w.pub, "encoded public key", k.PublicKey().Serialize(), w.ser(),
		"private key", a[:], []byte(w.priv), "private key", b[:], []byte(w.priv),
		"type of the public key", k.PublicKey().Type(), 5, "type of the private key", k.PrivateKey().Type(), 5)
}

func (v *recEnv) value(kind string, made, want []int, reloads int) (err error) {
	num := func(xs []int, i int) uint32 { return recNum(xs[i]) }
	var sig [64]byte
	copy(sig[:], v.bytes(64, "signature"))
	switch kind {
	case "prekey":
		p := record.NewPreKey(num(made, 0), v.ec("p"), v.ser.PreKeyRecord)
		for i := 0; i < reloads; i++ {
			if p, err = record.NewPreKeyFromBytes(p.Serialize(), v.ser.PreKeyRecord); err != nil {
				return
			}
		}
		if err = parts("id", p.ID(), optional.NewOptionalUint32(num(want, 0))); err != nil {
			return
		}
		return v.samePair(p.KeyPair(), "p")
	case "signed":
		p := record.NewSignedPreKey(num(made, 0), valueTimes[made[1]], v.ec("s"), sig, v.ser.SignedPreKeyRecord)
		for i := 0; i < reloads; i++ {
			if p, err = record.NewSignedPreKeyFromBytes(p.Serialize(), v.ser.SignedPreKeyRecord); err != nil {
				return
			}
		}
		if err = parts("id", p.ID(), num(want, 0), "timestamp", p.Timestamp(), valueTimes[want[1]], "signature", p.Signature(), sig); err != nil {
			return
		}
		return v.samePair(p.KeyPair(), "s")
	case "bundle":
		var otk ecc.ECPublicKeyable
		if made[2] >= 0 {
			otk = v.pub("p")
		}
		p := prekey.NewBundle(num(made, 0), num(made, 1), recOtk(made[2]), num(made, 3), otk, v.pub("s"), sig, v.id("i"))
		if want[2] >= 0 {
			if err = parts("prekey", p.PreKey().PublicKey(), v.kp("p").pub); err != nil {
				return
			}
		} else if p.PreKey() != nil {
			return fmt.Errorf("there is a prekey")
		}
		return parts("registration id", p.RegistrationID(), num(want, 0), "device id", p.DeviceID(), num(want, 1),
			"prekey id", p.PreKeyID(), recOtk(want[2]), "signed prekey id", p.SignedPreKeyID(), num(want, 3),
			"signed prekey", p.SignedPreKey().PublicKey(), v.kp("s").pub, "signature", p.SignedPreKeySignature(), sig,
			"identity key", p.IdentityKey().PublicKey().PublicKey(), v.kp("i").pub)
	case "msg", "premsg":
		ctr, prev, size := uint32(7), uint32(1), 33
		if kind == "msg" {
			ctr, prev, size = num(made, 0), num(made, 1), made[2]
		}
		var m *protocol.SignalMessage
		if m, err = protocol.NewSignalMessage(3, ctr, prev, v.bytes(32, "mac"), v.pub("k"), v.bytes(size, "text"), v.id("i"), v.id("j"),
			v.ser.SignalMessage); err != nil {
			return
		}
		if kind == "premsg" {
			var p *protocol.PreKeySignalMessage
			if p, err = protocol.NewPreKeySignalMessage(3, num(made, 0), recOtk(made[1]), num(made, 2), v.pub("b"), v.id("i"), m,
				v.ser.PreKeySignalMessage, v.ser.SignalMessage); err != nil {
				return
			}
			for i := 0; i < reloads; i++ {
				if p, err = protocol.NewPreKeySignalMessageFromBytes(p.Serialize(), v.ser.PreKeySignalMessage, v.ser.SignalMessage); err != nil {
					return
				}
			}
			if err = parts("version", p.MessageVersion(), 3, "registration id", p.RegistrationID(), num(want, 0), "prekey id", p.PreKeyID(), recOtk(want[1]),
				"signed prekey id", p.SignedPreKeyID(), num(want, 2), "base key", p.BaseKey().PublicKey(), v.kp("b").pub,
				"identity key", p.IdentityKey().PublicKey().PublicKey(), v.kp("i").pub, "type", p.Type(), uint32(3),
				"message", p.WhisperMessage().Serialize(), m.Serialize()); err != nil {
				return
			}
			m = p.WhisperMessage()
		} else {
			for i := 0; i < reloads; i++ {
				if m, err = protocol.NewSignalMessageFromBytes(m.Serialize(), v.ser.SignalMessage); err != nil {
					return
				}
			}
			ctr, prev, size = num(want, 0), num(want, 1), want[2]
		}
		s := m.Structure()
		if err = parts("version", m.MessageVersion(), 3, "counter", m.Counter(), ctr, "ratchet key", m.SenderRatchetKey().PublicKey(), v.kp("k").pub,
			"text", m.Body(), v.bytes(size, "text"), "type", m.Type(), uint32(2),
			"stored counter", s.Counter, ctr, "previous counter", s.PreviousCounter, prev, "stored ratchet key", s.RatchetKey, v.kp("k").ser(),
			"stored text", s.CipherText, v.bytes(size, "text"), "stored version", s.Version, 3, "length of the mac", len(s.Mac), 8); err != nil {
			return
		}
		if err = m.VerifyMac(3, v.id("i"), v.id("j"), v.bytes(32, "mac")); err != nil {
			return
		}
		if m.VerifyMac(3, v.id("j"), v.id("i"), v.bytes(32, "mac")) == nil || m.VerifyMac(3, v.id("i"), v.id("k"), v.bytes(32, "mac")) == nil ||
			m.VerifyMac(3, v.id("i"), v.id("j"), v.bytes(32, "mac2")) == nil {
			return fmt.Errorf("the mac fits other keys")
		}
		return nil
	case "gmsg":
		m := protocol.NewSenderKeyMessage(num(made, 0), num(made, 1), v.bytes(made[2], "text"), v.ec("g").PrivateKey(), v.ser.SenderKeyMessage)
		for i := 0; i < reloads; i++ {
			if m, err = protocol.NewSenderKeyMessageFromBytes(m.SignedSerialize(), v.ser.SenderKeyMessage); err != nil {
				return
			}
		}
		if !ecc.VerifySignature(v.pub("g"), m.Serialize(), m.Signature()) {
			return fmt.Errorf("the signature does not fit")
		}
		if ecc.VerifySignature(v.pub("h"), m.Serialize(), m.Signature()) {
			return fmt.Errorf("the signature fits another key")
		}
		return parts("key id", m.KeyID(), num(want, 0), "iteration", m.Iteration(), num(want, 1), "text", m.Ciphertext(), v.bytes(want[2], "text"),
			"version", m.Version(), uint32(3), "type", m.Type(), uint32(4))
	case "dist":
		m := protocol.NewSenderKeyDistributionMessage(num(made, 0), num(made, 1), v.bytes(32, "chain"), v.pub("g"), v.ser.SenderKeyDistributionMessage)
		for i := 0; i < reloads; i++ {
			if m, err = protocol.NewSenderKeyDistributionMessageFromBytes(m.Serialize(), v.ser.SenderKeyDistributionMessage); err != nil {
				return
			}
		}
		return parts("key id", m.ID(), num(want, 0), "iteration", m.Iteration(), num(want, 1), "chain key", m.ChainKey(), v.bytes(32, "chain"),
			"signing key", m.SignatureKey().PublicKey(), v.kp("g").pub, "type", m.Type(), uint32(5))
	case "addr":
		a := protocol.NewSignalAddress(valueNames[made[0]], num(made, 1))
		return parts("name", a.Name(), valueNames[want[0]], "device", a.DeviceID(), num(want, 1),
			"text", a.String(), fmt.Sprintf("%s:%d", valueNames[want[0]], num(want, 1)))
	case "sender":
		a := protocol.NewSenderKeyName(valueNames[made[0]], protocol.NewSignalAddress(valueNames[made[1]], num(made, 2)))
		return parts("group", a.GroupID(), valueNames[want[0]], "name", a.Sender().Name(), valueNames[want[1]], "device", a.Sender().DeviceID(), num(want, 2))
	case "pair":
		name := fmt.Sprint("pair", made[0])
		k := v.ec(name)
		if err = v.samePair(k, name); err != nil {
			return
		}
		if err = v.samePair(ecc.CreateKeyPair(append([]byte(nil), v.kp(name).priv...)), name); err != nil {
			return
		}
		i := idPair(v.kp(name))
		if err = v.samePair(ecc.NewECKeyPair(i.PublicKey().PublicKey(), i.PrivateKey()), name); err != nil {
			return
		}
		if !bytes.Equal(i.PublicKey().Serialize(), v.kp(name).ser()) {
			return fmt.Errorf("another encoding of the identity key")
		}
		return parts("fingerprint", i.PublicKey().Fingerprint(), hex.EncodeToString(v.kp(name).ser()))
	case "number":
		o := recOtk(made[0])
		if want[0] < 0 {
			return parts("empty", o.IsEmpty, true)
		}
		return parts("empty", o.IsEmpty, false, "value", o.Value, num(want, 0))
	}
	panic(kind)
}
