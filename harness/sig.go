package main

// Independent verification of XEdDSA signatures: the Montgomery key is converted to its
// Edwards form and the standard library verifies.

import (
	"crypto/ed25519"
	"math/big"
)

var fieldP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))

func reversed(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

// edPub is the Edwards key with the given sign of a Montgomery key, nil if there is none.
func edPub(pub [32]byte, sign byte) []byte {
	u := append([]byte{}, pub[:]...)
	u[31] &= 127
	x := new(big.Int).SetBytes(reversed(u))
	x.Mod(x, fieldP)
	one := big.NewInt(1)
	den := new(big.Int).Add(x, one)
	den.Mod(den, fieldP)
	if den.Sign() == 0 {
		return nil
	}
	y := new(big.Int).Sub(x, one)
	y.Mul(y, new(big.Int).ModInverse(den, fieldP))
	y.Mod(y, fieldP)
	b := make([]byte, 32)
	y.FillBytes(b)
	b = reversed(b)
	b[31] |= sign & 0x80
	return b
}

func sigValid(pub [32]byte, msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	a := edPub(pub, sig[63])
	if a == nil {
		return false
	}
	s := append([]byte{}, sig...)
	s[63] &= 127
	return ed25519.Verify(a, msg, s)
}

// Points of the Edwards curve, in projective coordinates (x = X/Z, y = Y/Z).
type edPoint struct{ x, y, z *big.Int }

var (
	edD    = fmul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), fieldP))
	edBase = func() edPoint {
		y := fmul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), fieldP))
		x, _ := new(big.Int).SetString("15112221349535400772501151409588531511454012693041857206046113283949847762202", 10)
		return edPoint{x, y, big.NewInt(1)}
	}()
)

func fmul(a, b *big.Int) *big.Int {
	r := new(big.Int).Mul(a, b)
	return r.Mod(r, fieldP)
}

func edAdd(p, q edPoint) edPoint {
	a := fmul(p.z, q.z)
	b := fmul(a, a)
	c := fmul(p.x, q.x)
	d := fmul(p.y, q.y)
	e := fmul(edD, fmul(c, d))
	f := new(big.Int).Sub(b, e)
	g := new(big.Int).Add(b, e)
	h := fmul(new(big.Int).Add(p.x, p.y), new(big.Int).Add(q.x, q.y))
	h.Sub(h, c).Sub(h, d)
	return edPoint{fmul(fmul(a, f), h), fmul(fmul(a, g), new(big.Int).Add(d, c)), fmul(f, g)}
}

// edMul is a multiple of the base point, as affine coordinates.
func edMul(k *big.Int) (x, y *big.Int) {
	r := edPoint{big.NewInt(0), big.NewInt(1), big.NewInt(1)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, edBase)
		}
	}
	zi := new(big.Int).ModInverse(r.z, fieldP)
	return fmul(r.x, zi), fmul(r.y, zi)
}

// edSign is the sign bit of the Edwards form of a private key's public key.
func edSign(priv []byte) byte {
	x, _ := edMul(new(big.Int).SetBytes(reversed(priv)))
	return byte(x.Bit(0)) << 7
}

// montOfScalar is the Montgomery form of a multiple of the base point.
func montOfScalar(k *big.Int) (out [32]byte) {
	_, y := edMul(k)
	one := big.NewInt(1)
	u := fmul(new(big.Int).Add(one, y), new(big.Int).ModInverse(new(big.Int).Mod(new(big.Int).Sub(one, y), fieldP), fieldP))
	b := make([]byte, 32)
	u.FillBytes(b)
	copy(out[:], reversed(b))
	return
}
