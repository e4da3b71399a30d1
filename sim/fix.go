package main

// Fixtures: sharings and operations whose secrets the simulator knows.

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
)

// Sharing is a secret shared by polynomials the simulator knows; m is nil when it is unmasked.
type Sharing struct {
	v, m rPoly
	pts  []RP
	C    poly.PolynomialCommitment
	T    *Trans
}

func (s *Sharing) t() int           { return len(s.v) }
func (s *Sharing) masked() bool     { return s.m != nil }
func (s *Sharing) secret() *big.Int { return s.v[0] }
func (s *Sharing) at(i int) (v, m *big.Int) {
	v = s.v.at(xOf(i))
	if s.m != nil {
		m = s.m.at(xOf(i))
	}
	return
}
func (s *Sharing) open(i int) Opening { v, m := s.at(i); return mkOpening(v, m) }

// commitPts computes the commitment to a sharing in the reference model.
func commitPts(v, m rPoly) []RP {
	out := make([]RP, len(v))
	for i := range v {
		if m == nil {
			out[i] = rMulG(v[i])
		} else {
			out[i] = rPed(v[i], m[i])
		}
	}
	return out
}

func mkCommit(pts []RP, masked bool) poly.PolynomialCommitment {
	ps := make([]Point, len(pts))
	for i := range pts {
		ps[i] = PT(pts[i])
	}
	if masked {
		return poly.PedersenCM.New(ps)
	}
	return poly.SimpleCM.New(ps)
}

func mkTrans(c poly.PolynomialCommitment, sum bool) *Trans {
	if sum {
		return &Trans{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: c}}
	}
	return &Trans{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: c}}
}

func newSharing(v, m rPoly, sum bool) *Sharing {
	s := &Sharing{v: v, m: m, pts: commitPts(v, m)}
	s.C = mkCommit(s.pts, m != nil)
	s.T = mkTrans(s.C, sum)
	return s
}

func (s *Sharing) sum() bool {
	_, sum := s.T.CombinedCommitment.(*dealings.SummationCommitment)
	return sum
}

// mislabelled is the sharing with its commitment as one of the other kind.
func (s *Sharing) mislabelled() *Sharing {
	o := *s
	o.C = mkCommit(s.pts, !s.masked())
	o.T = mkTrans(o.C, s.sum())
	return &o
}

// RPoly is a random polynomial with the given constant (nil: random).
func (w *World) RPoly(key string, t int, c *big.Int) rPoly {
	p := make(rPoly, t)
	for i := range p {
		p[i] = w.RndNZ(fmt.Sprintf("poly:%s:%d", key, i))
	}
	if c != nil {
		p[0] = mod(c)
	}
	return p
}

// Sharing makes a sharing as an earlier round of the protocol would have left it behind.
func (w *World) Sharing(key string, t int, secret *big.Int, masked bool) *Sharing {
	v := w.RPoly(key+"/v", t, secret)
	if !masked {
		return newSharing(v, nil, false)
	}
	m := w.RPoly(key+"/m", t, nil)
	return newSharing(v, m, w.Maybe("sum:"+key, 500))
}

// prior gives the commitment of a sharing the way a caller holds it.
func (w *World) prior(key string, s *Sharing) poly.PolynomialCommitment {
	switch w.Choose("prior:"+key, 3) {
	case 1:
		return s.C.Clone()
	case 2:
		return s.T.CombinedCommitment
	}
	return s.C
}

const (
	opRandom = iota
	opReshareUnmasked
	opReshareMasked
	opProduct
)

var opNames = []string{"random", "reshare-unmasked", "reshare-masked", "product"}

// OpCase is one operation with the sharings it starts from.
type OpCase struct {
	kind int
	A, B *Sharing // reshare: A; product: A unmasked, B masked
}

// NewOp draws the inputs of an operation.
func (w *World) NewOp(key string, kind, tA, tB int) *OpCase {
	c := &OpCase{kind: kind}
	switch kind {
	case opReshareUnmasked:
		c.A = w.Sharing(key+"/A", tA, w.Sec(key+"/A"), false)
	case opReshareMasked:
		c.A = w.Sharing(key+"/A", tA, w.Sec(key+"/A"), true)
	case opProduct:
		c.A = w.Sharing(key+"/A", tA, w.Sec(key+"/A"), false)
		c.B = w.Sharing(key+"/B", tB, w.Sec(key+"/B"), true)
	}
	return c
}

func (c *OpCase) masked() bool { return c.kind == opRandom || c.kind == opProduct }
func (c *OpCase) hasProof() bool {
	return c.kind == opReshareMasked || c.kind == opProduct
}

// need is how many dealings the operation takes.
func (c *OpCase) need() int {
	switch c.kind {
	case opReshareUnmasked, opReshareMasked:
		return c.A.t()
	case opProduct:
		return c.A.t() + c.B.t() - 1
	}
	return 1
}

// secret is what the operation's result shares (nil for a random one).
func (c *OpCase) secret() *big.Int {
	switch c.kind {
	case opReshareUnmasked, opReshareMasked:
		return c.A.secret()
	case opProduct:
		return mulm(c.A.secret(), c.B.secret())
	}
	return nil
}

// Op is the operation as the verifying side states it.
func (c *OpCase) Op(w *World, key string) interface{} {
	switch c.kind {
	case opRandom:
		return &dealings.RandomTranscript{}
	case opReshareUnmasked:
		return &dealings.ReshareOfUnmaskedTranscript{P1: w.prior(key+"/A", c.A)}
	case opReshareMasked:
		return &dealings.ReshareOfMaskedTranscript{P1: w.prior(key+"/A", c.A)}
	}
	return &dealings.UnmaskedTimesMaskedTranscript{Left: w.prior(key+"/A", c.A), Right: w.prior(key+"/B", c.B)}
}

// Shares is the secret input of a dealer, built directly or from openings as they are stored.
func (c *OpCase) Shares(w *World, key string, dealer int, route int) (dealings.SecretShares, error) {
	if c.kind == opRandom {
		return &dealings.RandomSecret{}, nil
	}
	if route > 0 {
		get := func(s *Sharing) (poly.CommitmentOpeningBytes, error) {
			o := s.open(dealer)
			if route > 1 {
				r, err := persistOpening(o)
				if err != nil {
					return nil, err
				}
				o = r
			}
			return o.ToCommitmentOpeningBytes(), nil
		}
		a, err := get(c.A)
		if err != nil {
			return nil, err
		}
		if c.kind != opProduct {
			return dealings.Secret.From(a, nil)
		}
		b, err := get(c.B)
		if err != nil {
			return nil, err
		}
		return dealings.Secret.From(a, b)
	}
	v, m := c.A.at(dealer)
	switch c.kind {
	case opReshareUnmasked:
		return &dealings.ReshareOfUnmaskedSecret{S1: SC(v)}, nil
	case opReshareMasked:
		return &dealings.ReshareOfMaskedSecret{S1: SC(v), S2: SC(m)}, nil
	}
	r0, r1 := c.B.at(dealer)
	return &dealings.UnmaskedTimesMaskedSecret{Left: SC(v), Right: [2]curve.EccScalar{SC(r0), SC(r1)}}, nil
}

// Deal makes an honest dealing.
func (w *World) Deal(name string, sh dealings.SecretShares, sd []byte, t int, keys []Keys, dealer int, ad []byte) (d *Dealing, err error) {
	err = w.Call("deal "+name, func() (e error) {
		d, e = dealings.NewIDkgDealingInternal(sh, K256, seedOf(sd), t, pks(keys), NI(dealer), ad)
		return
	})
	return
}

// HonestDeal makes an honest dealing for an operation, or gives the run up.
func (w *World) HonestDeal(name string, c *OpCase, t int, keys []Keys, dealer int, ad []byte) *Dealing {
	sh, err := c.Shares(w, name, dealer, 0)
	w.Need(err, "shares")
	d, err := w.Deal(name, sh, w.Bytes("seed:"+name, 32), t, keys, dealer, ad)
	w.Need(err, "honest dealing")
	return d
}

func (w *World) PubVerify(name string, d *Dealing, op interface{}, t, dealer, n int, ad []byte) error {
	return w.Call("publicly verify "+name, func() error {
		return d.PubliclyVerify(K256, op, t, NI(dealer), n, ad)
	})
}

func (w *World) PrivVerify(name string, d *Dealing, k Keys, ad []byte, dealer, recv int) error {
	return w.Call("privately verify "+name, func() error {
		return d.PrivateVerify(K256, k.SK, k.PK, ad, NI(dealer), NI(recv))
	})
}

func (w *World) OpenDealing(name string, d *Dealing, k Keys, ad []byte, dealer, recv int) (o Opening, err error) {
	err = w.Call("open "+name, func() (e error) {
		o, e = dealings.CommitmentOpening.OpenDealing(d, ad, NI(dealer), NI(recv), k.SK, k.PK)
		return
	})
	return
}

func (w *World) Transcript(name string, t int, m *DealMap, op interface{}) (tr *Trans, err error) {
	err = w.Call("transcript "+name, func() (e error) {
		tr, e = dealings.NewTranscriptInternal(K256, t, m, op)
		return
	})
	return
}

func (w *World) OpenTranscript(name string, m *DealMap, tr *Trans, ad []byte, k Keys, recv int) (o Opening, err error) {
	err = w.Call("open transcript "+name, func() (e error) {
		o, e = dealings.CommitmentOpening.FromDealings(m, tr.CombinedCommitment, ad, NI(recv), k.SK, k.PK)
		return
	})
	return
}

// Len draws the length of a byte string: mostly 32, the others small, odd, around powers of two, or any.
func (w *World) Len(key string) int {
	switch w.Pick("len:"+key, 8, 1, 1, 1, 1, 1, 1, 1, 1, 3, 1) {
	case 1:
		return 0
	case 2:
		return 1
	case 3:
		return 3
	case 4:
		return 64
	case 5:
		return 255
	case 6:
		return 256
	case 7:
		return 300
	case 8:
		return 5000
	case 9:
		return w.Choose("len.small:"+key, 66)
	case 10:
		return w.Choose("len.any:"+key, 1500)
	}
	return 32
}

// Active draws the size of a committee and which of its members act. In one run of permille the committee
// has more members than a byte can count, and a few of them act.
func (w *World) Active(key string, lo, hi, lim, permille int) (n int, active []int) {
	if w.Maybe("giant:"+key, permille) {
		n = []int{129, 256, 257, 258, 260, 300}[w.Choose("giant.n:"+key, 6)]
		in := map[int]bool{n - 1: true, w.Choose("giant.a:"+key, n): true, w.Choose("giant.b:"+key, 3): true}
		if n > 256 {
			in[256] = true
		}
		for i := 0; i < n; i++ {
			if in[i] {
				active = append(active, i)
			}
		}
		w.Probe("giant committee")
		return
	}
	n = w.Size(key, lo, hi, lim)
	for i := 0; i < n; i++ {
		active = append(active, i)
	}
	return
}

// AD draws context data.
func (w *World) AD(key string) []byte {
	return w.Bytes("ad:"+key, w.Len("ad:"+key))
}

// Index draws a node index of a dealer, dense or sparse. Indices stay below 2^32: the library hashes
// 32 bits of them.
func (w *World) Index(key string, dense int) int {
	switch w.Pick("idx:"+key, 14, 1, 1, 1, 1, 1, 1, 1, 1) {
	case 1:
		return 255
	case 2:
		return 256
	case 3:
		return 65535
	case 4:
		return 65536
	case 5:
		return 1 << 24
	case 6:
		return 1<<32 - 1
	case 7:
		return w.Choose("idx.low:"+key, 600)
	case 8:
		return int(uint32(w.U64("idx:"+key)) >> uint(w.Choose("idx.size:"+key, 24)))
	}
	return dense
}

// distinct makes the indices differ.
func distinct(xs []int) []int {
	seen := map[int]bool{}
	for i, x := range xs {
		for seen[x] {
			x++
			if x >= 1<<32 {
				x = 0
			}
		}
		seen[x] = true
		xs[i] = x
	}
	return xs
}

// Committee draws keys of n nodes.
func (w *World) Committee(key string, n int) []Keys {
	ks := make([]Keys, n)
	for i := range ks {
		if n > 100 && i >= 9 { // a giant committee shares nine keys
			ks[i] = ks[i%9]
			continue
		}
		ks[i] = w.Keys(fmt.Sprintf("%s/%d", key, i))
	}
	return ks
}

// RefPoints reads the points of a commitment.
func RefPoints(c poly.PolynomialCommitment) []RP { return RPs(c.Points()) }

func eqPts(a, b []RP) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].eq(b[i]) {
			return false
		}
	}
	return true
}

// onCommit says whether an opening lies on a commitment at index i, in the reference model.
func onCommit(pts []RP, masked bool, i int, o Opening) bool {
	v, m, err := opVals(o)
	if err != nil || (m != nil) != masked {
		return false
	}
	e := rEval(pts, i)
	if masked {
		return e.eq(rPed(v, m))
	}
	return e.eq(rMulG(v))
}

var pedersenType = poly.Pedersen
