package main

// Independent encoding and decoding of messages, for both serializers.

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
)

// The fields of a message; nil pointers and slices are absent.
type Wire struct {
	Ver       int
	RK        []byte
	Ctr, Prev uint32
	CT        []byte
	Mac       []byte
}

type EnvWire struct {
	Ver   int
	Reg   uint32
	Otk   *uint32
	Spk   uint32
	Base  []byte
	Ident []byte
	Msg   []byte
}

type optU32 struct {
	Value   uint32
	IsEmpty bool
}

type jsonMsg struct {
	RatchetKey      []byte
	Counter         uint32
	PreviousCounter uint32
	CipherText      []byte
	Version         int
	Mac             []byte
}

type jsonEnv struct {
	RegistrationID uint32
	PreKeyID       *optU32
	SignedPreKeyID uint32
	BaseKey        []byte
	IdentityKey    []byte
	Message        []byte
	Version        int
}

type jsonGroupMsg struct {
	ID         uint32
	Iteration  uint32
	CipherText []byte
	Version    uint32
	Signature  []byte
}

type jsonDist struct {
	ID         uint32
	Iteration  uint32
	ChainKey   []byte
	SigningKey []byte
	Version    uint32
}

// ---- protocol buffers (proto2)

func pvar(b []byte, field int, v uint64) []byte {
	b = binary.AppendUvarint(b, uint64(field)<<3)
	return binary.AppendUvarint(b, v)
}

func pbytes(b []byte, field int, v []byte) []byte {
	if v == nil {
		return b
	}
	b = binary.AppendUvarint(b, uint64(field)<<3|2)
	b = binary.AppendUvarint(b, uint64(len(v)))
	return append(b, v...)
}

type pfield struct {
	n  int
	v  uint64
	b  []byte
	by bool
}

func pparse(b []byte) ([]pfield, error) {
	var out []pfield
	for len(b) > 0 {
		tag, k := binary.Uvarint(b)
		if k <= 0 {
			return nil, errors.New("bad tag")
		}
		b = b[k:]
		switch tag & 7 {
		case 0:
			v, k := binary.Uvarint(b)
			if k <= 0 {
				return nil, errors.New("bad varint")
			}
			b = b[k:]
			out = append(out, pfield{n: int(tag >> 3), v: v})
		case 2:
			l, k := binary.Uvarint(b)
			if k <= 0 || uint64(len(b)-k) < l {
				return nil, errors.New("bad length")
			}
			out = append(out, pfield{n: int(tag >> 3), b: b[k : k+int(l)], by: true})
			b = b[k+int(l):]
		default:
			return nil, fmt.Errorf("wire type %d", tag&7)
		}
	}
	return out, nil
}

func verByte(v int) byte {
	if v == 3 {
		return '3'
	}
	return byte(v<<4 | 3)
}

// signedBody is what the authentication code covers after the identities: the version in
// decimal and the message without version and code.
func (w *Wire) signedBody(proto bool) []byte {
	out := []byte(fmt.Sprint(w.Ver))
	if proto {
		return append(out, w.fields()...)
	}
	j, _ := json.Marshal(jsonMsg{RatchetKey: w.RK, Counter: w.Ctr, PreviousCounter: w.Prev, CipherText: w.CT})
	return append(out, j...)
}

func (w *Wire) fields() []byte {
	b := pbytes(nil, 1, w.RK)
	b = pvar(b, 2, uint64(w.Ctr))
	b = pvar(b, 3, uint64(w.Prev))
	return pbytes(b, 4, w.CT)
}

func (w *Wire) enc(proto bool) []byte {
	if proto {
		b := append([]byte{verByte(w.Ver)}, w.fields()...)
		return append(b, w.Mac...)
	}
	j, _ := json.Marshal(jsonMsg{w.RK, w.Ctr, w.Prev, w.CT, w.Ver, w.Mac})
	return j
}

func decWire(b []byte, proto bool) (*Wire, error) {
	if !proto {
		var j jsonMsg
		if err := json.Unmarshal(b, &j); err != nil {
			return nil, err
		}
		return &Wire{j.Version, j.RatchetKey, j.Counter, j.PreviousCounter, j.CipherText, j.Mac}, nil
	}
	if len(b) < 9 {
		return nil, errors.New("short")
	}
	fs, err := pparse(b[1 : len(b)-8])
	if err != nil {
		return nil, err
	}
	w := &Wire{Ver: int(b[0] >> 4), Mac: b[len(b)-8:]}
	seen := map[int]bool{}
	for _, f := range fs {
		seen[f.n] = true
		switch f.n {
		case 1:
			w.RK = f.b
		case 2:
			w.Ctr = uint32(f.v)
		case 3:
			w.Prev = uint32(f.v)
		case 4:
			w.CT = f.b
		default:
			return nil, fmt.Errorf("field %d", f.n)
		}
	}
	for i := 1; i <= 4; i++ {
		if !seen[i] {
			return nil, fmt.Errorf("field %d is missing", i)
		}
	}
	return w, nil
}

func (e *EnvWire) enc(proto bool) []byte {
	if proto {
		b := []byte{verByte(e.Ver)}
		if e.Otk != nil {
			b = pvar(b, 1, uint64(*e.Otk))
		}
		b = pbytes(b, 2, e.Base)
		b = pbytes(b, 3, e.Ident)
		b = pbytes(b, 4, e.Msg)
		b = pvar(b, 5, uint64(e.Reg))
		return pvar(b, 6, uint64(e.Spk))
	}
	j := jsonEnv{e.Reg, &optU32{0, true}, e.Spk, e.Base, e.Ident, e.Msg, e.Ver}
	if e.Otk != nil {
		j.PreKeyID = &optU32{*e.Otk, false}
	}
	b, _ := json.Marshal(j)
	return b
}

func decEnv(b []byte, proto bool) (*EnvWire, error) {
	if !proto {
		var j jsonEnv
		if err := json.Unmarshal(b, &j); err != nil {
			return nil, err
		}
		e := &EnvWire{Ver: j.Version, Reg: j.RegistrationID, Spk: j.SignedPreKeyID,
			Base: j.BaseKey, Ident: j.IdentityKey, Msg: j.Message}
		if j.PreKeyID != nil && !j.PreKeyID.IsEmpty {
			e.Otk = &j.PreKeyID.Value
		}
		return e, nil
	}
	if len(b) < 1 {
		return nil, errors.New("short")
	}
	fs, err := pparse(b[1:])
	if err != nil {
		return nil, err
	}
	e := &EnvWire{Ver: int(b[0] >> 4)}
	for _, f := range fs {
		switch f.n {
		case 1:
			v := uint32(f.v)
			e.Otk = &v
		case 2:
			e.Base = f.b
		case 3:
			e.Ident = f.b
		case 4:
			e.Msg = f.b
		case 5:
			e.Reg = uint32(f.v)
		case 6:
			e.Spk = uint32(f.v)
		default:
			return nil, fmt.Errorf("field %d", f.n)
		}
	}
	return e, nil
}

// ---- group messages

type GroupWire struct {
	Ver      uint32
	ID, Iter uint32
	CT       []byte
	Sig      []byte
}

type DistWire struct {
	Ver      uint32
	ID, Iter uint32
	Chain    []byte
	Key      []byte
}

// signedBody is what the signature covers.
func (w *GroupWire) signedBody(proto bool) []byte {
	x := *w
	x.Sig = nil
	return x.enc(proto)
}

func (w *GroupWire) enc(proto bool) []byte {
	if proto {
		b := pvar([]byte{verByte(int(w.Ver))}, 1, uint64(w.ID))
		b = pvar(b, 2, uint64(w.Iter))
		b = pbytes(b, 3, w.CT)
		return append(b, w.Sig...)
	}
	j, _ := json.Marshal(jsonGroupMsg{w.ID, w.Iter, w.CT, w.Ver, w.Sig})
	return j
}

func decGroup(b []byte, proto bool) (*GroupWire, error) {
	if !proto {
		var j jsonGroupMsg
		if err := json.Unmarshal(b, &j); err != nil {
			return nil, err
		}
		return &GroupWire{j.Version, j.ID, j.Iteration, j.CipherText, j.Signature}, nil
	}
	if len(b) < 65 {
		return nil, errors.New("short")
	}
	fs, err := pparse(b[1 : len(b)-64])
	if err != nil {
		return nil, err
	}
	w := &GroupWire{Ver: uint32(b[0] >> 4), Sig: b[len(b)-64:]}
	seen := 0
	for _, f := range fs {
		seen |= 1 << f.n
		switch f.n {
		case 1:
			w.ID = uint32(f.v)
		case 2:
			w.Iter = uint32(f.v)
		case 3:
			w.CT = f.b
		default:
			return nil, fmt.Errorf("field %d", f.n)
		}
	}
	if seen != 2+4+8 {
		return nil, errors.New("missing field")
	}
	return w, nil
}

func (d *DistWire) enc(proto bool) []byte {
	if proto {
		b := pvar([]byte{verByte(int(d.Ver))}, 1, uint64(d.ID))
		b = pvar(b, 2, uint64(d.Iter))
		b = pbytes(b, 3, d.Chain)
		return pbytes(b, 4, d.Key)
	}
	j, _ := json.Marshal(jsonDist{d.ID, d.Iter, d.Chain, d.Key, d.Ver})
	return j
}

func decDist(b []byte, proto bool) (*DistWire, error) {
	if !proto {
		var j jsonDist
		if err := json.Unmarshal(b, &j); err != nil {
			return nil, err
		}
		return &DistWire{j.Version, j.ID, j.Iteration, j.ChainKey, j.SigningKey}, nil
	}
	if len(b) < 1 {
		return nil, errors.New("short")
	}
	fs, err := pparse(b[1:])
	if err != nil {
		return nil, err
	}
	d := &DistWire{Ver: uint32(b[0] >> 4)}
	for _, f := range fs {
		switch f.n {
		case 1:
			d.ID = uint32(f.v)
		case 2:
			d.Iter = uint32(f.v)
		case 3:
			d.Chain = f.b
		case 4:
			d.Key = f.b
		default:
			return nil, fmt.Errorf("field %d", f.n)
		}
	}
	return d, nil
}
