package main

// The reference model: plain affine arithmetic on math/big, nothing from the library.

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
)

var (
	rCurve = btcec.S256()
	rN     = rCurve.N
	rP     = rCurve.P
	rGen   = RP{rCurve.Gx, rCurve.Gy}
	rHgen  = mustRP("037bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59")
)

// RP is an affine point; the identity has X == nil.
type RP struct{ X, Y *big.Int }

func mustRP(s string) RP {
	b, _ := hex.DecodeString(s)
	p, err := rParse(b)
	if err != nil {
		panic(err)
	}
	return p
}

func (p RP) inf() bool { return p.X == nil }

func (p RP) eq(q RP) bool {
	if p.inf() || q.inf() {
		return p.inf() && q.inf()
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func (p RP) bytes() []byte {
	out := make([]byte, 33)
	if p.inf() {
		return out
	}
	out[0] = 2 + byte(p.Y.Bit(0))
	p.X.FillBytes(out[1:])
	return out
}

func rParse(b []byte) (RP, error) {
	if len(b) != 33 {
		return RP{}, errors.New("length")
	}
	if bytes.Equal(b, make([]byte, 33)) {
		return RP{}, nil
	}
	if b[0] != 2 && b[0] != 3 {
		return RP{}, errors.New("tag")
	}
	x := new(big.Int).SetBytes(b[1:])
	if x.Cmp(rP) >= 0 {
		return RP{}, errors.New("range")
	}
	y := rY(x)
	if y == nil {
		return RP{}, errors.New("off the curve")
	}
	if byte(y.Bit(0)) != b[0]&1 {
		y.Sub(rP, y)
	}
	return RP{x, y}, nil
}

func rY(x *big.Int) *big.Int {
	t := new(big.Int).Exp(x, big.NewInt(3), rP)
	t.Add(t, big.NewInt(7))
	t.Mod(t, rP)
	return new(big.Int).ModSqrt(t, rP)
}

func rAdd(p, q RP) RP {
	if p.inf() {
		return q
	}
	if q.inf() {
		return p
	}
	if p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) != 0 {
		return RP{}
	}
	x, y := rCurve.Add(p.X, p.Y, q.X, q.Y)
	return RP{x, y}
}

func rNeg(p RP) RP {
	if p.inf() {
		return p
	}
	return RP{p.X, new(big.Int).Sub(rP, p.Y)}
}

func rMul(p RP, k *big.Int) RP {
	k = mod(k)
	if p.inf() || k.Sign() == 0 {
		return RP{}
	}
	x, y := rCurve.ScalarMult(p.X, p.Y, k.Bytes())
	if x.Sign() == 0 && y.Sign() == 0 {
		return RP{}
	}
	return RP{x, y}
}

func rMulG(k *big.Int) RP {
	k = mod(k)
	if k.Sign() == 0 {
		return RP{}
	}
	x, y := rCurve.ScalarBaseMult(k.Bytes())
	return RP{x, y}
}

func rPed(v, m *big.Int) RP { return rAdd(rMulG(v), rMul(rHgen, m)) }

func mod(k *big.Int) *big.Int { return new(big.Int).Mod(k, rN) }
func addm(a, b *big.Int) *big.Int {
	t := new(big.Int).Add(a, b)
	return t.Mod(t, rN)
}
func subm(a, b *big.Int) *big.Int {
	t := new(big.Int).Sub(a, b)
	return t.Mod(t, rN)
}
func mulm(a, b *big.Int) *big.Int {
	t := new(big.Int).Mul(a, b)
	return t.Mod(t, rN)
}
func negm(a *big.Int) *big.Int { return mod(new(big.Int).Neg(a)) }
func invm(a *big.Int) *big.Int { return new(big.Int).ModInverse(mod(a), rN) }

// X coordinate of a node index.
func xOf(i int) *big.Int { return new(big.Int).Add(new(big.Int).SetUint64(uint64(i)), big.NewInt(1)) }

type rPoly []*big.Int

func (p rPoly) at(x *big.Int) *big.Int {
	r := new(big.Int)
	for i := len(p) - 1; i >= 0; i-- {
		r.Mul(r, x)
		r.Add(r, p[i])
		r.Mod(r, rN)
	}
	return r
}

// mulLinear is p times (X - x).
func (p rPoly) mulLinear(x *big.Int) rPoly {
	r := make(rPoly, len(p)+1)
	for i := range r {
		r[i] = new(big.Int)
	}
	for i, c := range p {
		r[i+1].Add(r[i+1], c)
		r[i].Sub(r[i], new(big.Int).Mul(c, x))
	}
	for i := range r {
		r[i].Mod(r[i], rN)
	}
	return r
}

// rEval evaluates a commitment at node index i.
func rEval(points []RP, i int) RP {
	r := RP{}
	x := xOf(i)
	for j := len(points) - 1; j >= 0; j-- {
		r = rAdd(rMul(r, x), points[j])
	}
	return r
}

// rLagrange gives the coefficients that evaluate at x a polynomial known at the x coordinates of
// the node indices.
func rLagrange(idx []int, x *big.Int) []*big.Int {
	out := make([]*big.Int, len(idx))
	for i := range idx {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range idx {
			if j != i {
				num = mulm(num, subm(x, xOf(idx[j])))
				den = mulm(den, subm(xOf(idx[i]), xOf(idx[j])))
			}
		}
		out[i] = mulm(num, invm(den))
	}
	return out
}

func rInterp(idx []int, ys []*big.Int, x *big.Int) *big.Int {
	r := new(big.Int)
	for i, l := range rLagrange(idx, x) {
		r = addm(r, mulm(l, ys[i]))
	}
	return r
}

func rInterpPt(idx []int, ys []RP, x *big.Int) RP {
	r := RP{}
	for i, l := range rLagrange(idx, x) {
		r = rAdd(r, rMul(ys[i], l))
	}
	return r
}

// rTweak is BIP32 CKDpub along a path from a zero chain key.
func rTweak(pk RP, path [][]byte) (tweak *big.Int, chain []byte, child RP) {
	chain = make([]byte, 32)
	tweak = new(big.Int)
	child = pk
	for _, idx := range path {
		m := hmac.New(sha512.New, chain)
		m.Write(child.bytes())
		m.Write(idx)
		o := m.Sum(nil)
		k := mod(new(big.Int).SetBytes(o[:32]))
		tweak = addm(tweak, k)
		child = rAdd(child, rMulG(k))
		chain = o[32:]
	}
	return
}

// rECDSA verifies a signature on a hash.
func rECDSA(pk RP, hash []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(rN) >= 0 || s.Cmp(rN) >= 0 || pk.inf() {
		return false
	}
	if len(hash) > 32 {
		hash = hash[:32]
	}
	e := new(big.Int).SetBytes(hash)
	si := invm(s)
	q := rAdd(rMulG(mulm(e, si)), rMul(pk, mulm(r, si)))
	return !q.inf() && mod(q.X).Cmp(r) == 0
}

func rHigh(s *big.Int) bool { return s.Cmp(new(big.Int).Rsh(rN, 1)) > 0 }
