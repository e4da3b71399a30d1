package main

// What a Byzantine dealer or complainer can compute: dealings from any witness, proofs made by hand,
// and proofs of false statements that would pass if the challenge left out one of its inputs.

import (
	"fmt"
	"math/big"
	"reflect"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/zk"
)

func setScalar(x interface{}, name string, nth int, v *big.Int) bool {
	f, ok := fieldLike(x, name, tScalar, nth)
	if ok {
		f.Set(reflect.ValueOf(SC(v)))
	}
	return ok
}

// challengeOf calls the instance's hash; the shape of its result may change, so it goes by reflection.
func challengeOf(inst interface{}, args ...interface{}) (c *big.Int, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	m := reflect.ValueOf(inst).MethodByName("HashToChallenge")
	if !m.IsValid() {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i := range args {
		in[i] = reflect.ValueOf(args[i])
	}
	for _, o := range m.Call(in) {
		if s, is := o.Interface().(Scalar); is {
			return BI(s), true
		}
	}
	return nil, false
}

func mkDLog(c, z *big.Int) *zk.ProofOfDLogEquivalence {
	p := &zk.ProofOfDLogEquivalence{}
	setScalar(p, "challenge", 0, c)
	setScalar(p, "response", 1, z)
	return p
}

// dlogForgery tries to prove that gx and hx have one logarithm when they do not. know is the
// logarithm the forger knows of gx (nil: none). It returns hx (given or found) and the proof.
// omit names the hash input the verifier is hoped to leave out.
func (w *World) dlogForgery(key, omit string, g, h, gx RP, know *big.Int, ad []byte) (hx RP, pf *zk.ProofOfDLogEquivalence, ok bool) {
	y, r := w.RndNZ(key+"y"), w.RndNZ(key+"r")
	dummy := rMulG(w.RndNZ(key + "d"))
	hash := func(hx, c1, c2 RP, ad []byte) (*big.Int, bool) {
		inst, err := zk.ProofOfDLogEquivalenceIns.FromCommitments(PT(g), PT(h), PT(gx), PT(hx))
		if err != nil {
			return nil, false
		}
		return challengeOf(inst, PT(c1), PT(c2), ad)
	}
	switch omit {
	case "commitment1":
		hx = rMul(h, y)
		c, o := hash(hx, dummy, rMul(h, r), ad)
		if !o {
			return
		}
		return hx, mkDLog(c, addm(mulm(y, c), r)), true
	case "commitment2":
		if know == nil {
			return
		}
		hx = rMul(h, y)
		c, o := hash(hx, rMulG(r), dummy, ad)
		if !o {
			return
		}
		return hx, mkDLog(c, addm(mulm(know, c), r)), true
	case "both commitments":
		hx = rMul(h, y)
		c, o := hash(hx, dummy, dummy, ad)
		if !o {
			return
		}
		return hx, mkDLog(c, r), true
	case "instance_h_x":
		if know == nil {
			return
		}
		k := rMul(h, w.RndNZ(key+"k"))
		c, o := hash(dummy, rMulG(r), k, ad)
		if !o || c.Sign() == 0 {
			return
		}
		z := addm(mulm(know, c), r)
		hx = rMul(rAdd(rMul(h, z), rNeg(k)), invm(c))
		return hx, mkDLog(c, z), true
	}
	return
}

var dlogOmits = []string{"commitment1", "commitment2", "both commitments", "instance_h_x"}

// Dealt is a dealing under construction by a Byzantine dealer that knows its polynomials.
type Dealt struct {
	v, m rPoly // m nil: simple
	pts  []RP
}

func (d *Dealt) commit() poly.PolynomialCommitment { return mkCommit(d.pts, d.m != nil) }

func (w *World) dealt(key string, t int, c *big.Int, masked bool, mc *big.Int) *Dealt {
	d := &Dealt{v: w.RPoly(key+"/v", t, c)}
	if masked {
		d.m = w.RPoly(key+"/m", t, mc)
	}
	d.pts = commitPts(d.v, d.m)
	return d
}

// encrypt encrypts arbitrary shares with a valid proof of possession.
func encryptShares(sd []byte, vs, ms []*big.Int, keys []Keys, dealer int, ad []byte) (mega.MEGaCiphertext, error) {
	if ms == nil {
		pt := make([]curve.EccScalar, len(vs))
		for i := range vs {
			pt[i] = SC(vs[i])
		}
		c, err := mega.EncryptCiphertextSingle(seedOf(sd), pt, pks(keys), NI(dealer), ad)
		if err != nil {
			return nil, err
		}
		return c, nil
	}
	pt := make([][2]curve.EccScalar, len(vs))
	for i := range vs {
		pt[i] = [2]curve.EccScalar{SC(vs[i]), SC(ms[i])}
	}
	c, err := mega.EncryptCiphertextPair(seedOf(sd), pt, pks(keys), NI(dealer), ad)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (d *Dealt) shares(n int) (vs, ms []*big.Int) {
	for i := 0; i < n; i++ {
		vs = append(vs, d.v.at(xOf(i)))
		if d.m != nil {
			ms = append(ms, d.m.at(xOf(i)))
		}
	}
	return
}

func (w *World) encryptDealt(key string, d *Dealt, keys []Keys, dealer int, ad []byte) mega.MEGaCiphertext {
	vs, ms := d.shares(len(keys))
	c, err := encryptShares(w.Bytes("enc:"+key, 32), vs, ms, keys, dealer, ad)
	w.Need(err, "encryption")
	return c
}

// eqForgery proves that a (a commitment to s, m) and b = g^s' hide one value though s' != s.
func (w *World) eqForgery(key, omit string, s, m *big.Int, ad []byte) (s2 *big.Int, pf dealings.ZkProof, ok bool) {
	a := rPed(s, m)
	hash := func(b, com RP) (*big.Int, bool) {
		return challengeOf(zk.ProofOfEqualOpeningsIns.FromCommitments(PT(a), PT(b)), PT(com), ad)
	}
	mk := func(c, z *big.Int) dealings.ZkProof {
		p := &zk.ProofOfEqualOpenings{}
		setScalar(p, "challenge", 0, c)
		setScalar(p, "response", 1, z)
		return &dealings.MaskedResharingProof{ProofOfEqualOpenings: p}
	}
	dummy := rMulG(w.RndNZ(key + "d"))
	switch omit {
	case "commitment":
		s2 = addm(s, w.RndNZ(key+"delta"))
		c, o := hash(rMulG(s2), dummy)
		if !o {
			return
		}
		return s2, mk(c, w.RndNZ(key+"z")), true
	case "instance_b":
		k1, k2 := w.RndNZ(key+"k1"), w.RndNZ(key+"k2")
		c, o := hash(dummy, rPed(k1, k2))
		if !o || c.Sign() == 0 {
			return
		}
		return addm(s, mulm(k1, invm(c))), mk(c, addm(mulm(c, m), k2)), true
	}
	return
}

var eqOmits = []string{"commitment", "instance_b"}

// productForgery proves that a commitment hides l*r though it does not; it returns what it hides.
func (w *World) productForgery(key, omit string, l, r, rm *big.Int, ad []byte) (p, pm *big.Int, pf dealings.ZkProof, ok bool) {
	lc, rc := rMulG(l), rPed(r, rm)
	hash := func(pc, c1, c2 RP) (*big.Int, bool) {
		return challengeOf(zk.ProofOfProductIns.FromCommitments(PT(lc), PT(rc), PT(pc)), PT(c1), PT(c2), ad)
	}
	mk := func(c, z1, z2 *big.Int) dealings.ZkProof {
		x := &zk.ProofOfProduct{}
		setScalar(x, "challenge", 0, c)
		setScalar(x, "response1", 1, z1)
		setScalar(x, "response2", 2, z2)
		return &dealings.ProductProof{ProofOfProduct: x}
	}
	dummy := rMulG(w.RndNZ(key + "d"))
	r1, r2 := w.RndNZ(key+"r1"), w.RndNZ(key+"r2")
	switch omit {
	case "commitment1": // pretend l is something else
		l2 := addm(l, w.RndNZ(key+"delta"))
		p, pm = mulm(l2, r), w.RndNZ(key+"pm")
		c2 := rAdd(rMul(rc, r1), rMul(rHgen, r2))
		c, o := hash(rPed(p, pm), dummy, c2)
		if !o {
			return
		}
		z2 := addm(mulm(subm(pm, mulm(l2, rm)), c), r2)
		return p, pm, mk(c, addm(mulm(l2, c), r1), z2), r.Sign() != 0
	case "commitment2":
		p, pm = w.RndNZ(key+"p"), w.RndNZ(key+"pm")
		c, o := hash(rPed(p, pm), rMulG(r1), dummy)
		if !o {
			return
		}
		return p, pm, mk(c, addm(mulm(l, c), r1), r2), true
	case "both commitments":
		p, pm = w.RndNZ(key+"p"), w.RndNZ(key+"pm")
		c, o := hash(rPed(p, pm), dummy, dummy)
		if !o {
			return
		}
		return p, pm, mk(c, r1, r2), true
	case "instance_product":
		k1, k2 := w.RndNZ(key+"k1"), w.RndNZ(key+"k2")
		c, o := hash(dummy, rMulG(r1), rPed(k1, k2))
		if !o || c.Sign() == 0 {
			return
		}
		z1, z2 := addm(mulm(l, c), r1), r2
		ci := invm(c)
		p = mulm(subm(mulm(z1, r), k1), ci)
		pm = mulm(subm(addm(mulm(z1, rm), z2), k2), ci)
		return p, pm, mk(c, z1, z2), true
	}
	return
}

var productOmits = []string{"commitment1", "commitment2", "both commitments", "instance_product"}

// through is a sharing like s whose opening at index i is (v, m): what a dealer that speaks last in a
// round can bring about for its own index.
func (s *Sharing) through(i int, v, m *big.Int) *Sharing {
	a, am := s.at(i)
	shift := func(p rPoly, d *big.Int) rPoly {
		q := append(rPoly{}, p...)
		q[0] = addm(q[0], d)
		return q
	}
	nv := shift(s.v, subm(v, a))
	if !s.masked() {
		return newSharing(nv, nil, false)
	}
	return newSharing(nv, shift(s.m, subm(m, am)), s.sum())
}

// priorForgery makes a proof first and then earlier sharings whose openings at the dealer's index make
// its equations hold though the dealt value (s2, m2) is not what the operation asks for.
func (w *World) priorForgery(key string, op *OpCase, dealer int, ad []byte) (op2 *OpCase, s2, m2 *big.Int, pf dealings.ZkProof, omit string, ok bool) {
	k1, k2 := w.RndNZ(key+"k1"), w.RndNZ(key+"k2")
	dummy := rMulG(w.RndNZ(key + "d"))
	s2 = w.RndNZ(key + "s2")
	switch op.kind {
	case opReshareMasked:
		omit = "instance_a"
		b := rMulG(s2)
		c, o := challengeOf(zk.ProofOfEqualOpeningsIns.FromCommitments(PT(dummy), PT(b)), PT(rPed(k1, k2)), ad)
		if !o || c.Sign() == 0 {
			return
		}
		z, ci := w.RndNZ(key+"z"), invm(c)
		s, m := subm(s2, mulm(k1, ci)), mulm(subm(z, k2), ci)
		p := &zk.ProofOfEqualOpenings{}
		setScalar(p, "challenge", 0, c)
		setScalar(p, "response", 1, z)
		pf = &dealings.MaskedResharingProof{ProofOfEqualOpenings: p}
		return &OpCase{kind: op.kind, A: op.A.through(dealer, s, m)}, s2, nil, pf, omit, true
	case opProduct:
		m2 = w.RndNZ(key + "m2")
		l, _ := op.A.at(dealer)
		r, rm := op.B.at(dealer)
		r1 := w.RndNZ(key + "r1")
		left := w.Maybe(key+".left", 500)
		lc, rc := rMulG(l), rPed(r, rm)
		if left {
			omit, lc = "instance_lhs", dummy
		} else {
			omit, rc = "instance_rhs", dummy
		}
		c, o := challengeOf(zk.ProofOfProductIns.FromCommitments(PT(lc), PT(rc), PT(rPed(s2, m2))), PT(rMulG(r1)), PT(rPed(k1, k2)), ad)
		if !o || c.Sign() == 0 {
			return
		}
		op2 = &OpCase{kind: op.kind, A: op.A, B: op.B}
		var z1, z2 *big.Int
		if left {
			if r.Sign() == 0 {
				return
			}
			z1 = mulm(addm(k1, mulm(c, s2)), invm(r))
			z2 = subm(addm(k2, mulm(c, m2)), mulm(z1, rm))
			l = mulm(subm(z1, r1), invm(c))
			op2.A = op.A.through(dealer, l, nil)
		} else {
			if z1 = addm(mulm(l, c), r1); z1.Sign() == 0 {
				return
			}
			z2 = w.RndNZ(key + "z2")
			zi := invm(z1)
			r = mulm(addm(k1, mulm(c, s2)), zi)
			rm = mulm(subm(addm(k2, mulm(c, m2)), z2), zi)
			op2.B = op.B.through(dealer, r, rm)
		}
		if mulm(l, r).Cmp(s2) == 0 {
			return
		}
		x := &zk.ProofOfProduct{}
		setScalar(x, "challenge", 0, c)
		setScalar(x, "response1", 1, z1)
		setScalar(x, "response2", 2, z2)
		return op2, s2, m2, &dealings.ProductProof{ProofOfProduct: x}, omit, true
	}
	return
}

// flip changes bytes: one bit anywhere, one byte more or less, at either end.
func (w *World) flip(key string, b []byte) ([]byte, string) {
	out := append([]byte{}, b...)
	k := w.Choose("flip:"+key, 6)
	if len(b) == 0 && k != 1 && k != 4 {
		k = 1
	}
	switch k {
	case 0, 5:
		i := w.Choose("flip.at:"+key, len(b)*8)
		if k == 5 { // the far end
			i = len(b)*8 - 1 - w.Choose("flip.end:"+key, min(len(b)*8, 64))
		}
		out[i/8] ^= 1 << uint(i%8)
		return out, fmt.Sprintf("bit %d of %d bytes", i, len(b))
	case 1:
		return append(out, 0), "a zero byte appended"
	case 2:
		return out[:len(out)-1], "the last byte removed"
	case 3:
		return out[1:], "the first byte removed"
	}
	return append([]byte{0}, out...), "a zero byte in front"
}
