package main

// Fixtures for signing: a key, a presignature and requests whose secrets the simulator knows.

import (
	"fmt"
	"math/big"
	"reflect"

	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"
)

// Quad is a key together with a presignature as the protocol's earlier rounds leave them behind.
type Quad struct {
	idx    []int // indices of the signers
	t      int
	key    *Sharing // unmasked
	kappa  *Sharing // unmasked
	lambda *Sharing // masked
	kl, xl *Sharing // masked: kappa·lambda and key·lambda
}

// in gives the property checked now when it is one of several a failure can count for.
func (w *World) in(props ...string) string {
	for _, p := range props {
		if p == w.Prop {
			return p
		}
	}
	if w.Prop == "P20" {
		return w.Prop
	}
	return props[0]
}

func (w *World) secNZ(key string) *big.Int {
	s := w.Sec(key)
	if s.Sign() == 0 {
		return big.NewInt(1)
	}
	return s
}

// Quad makes a key and a presignature for a committee with the given indices.
func (w *World) Quad(key string, idx []int, t int) *Quad {
	q := &Quad{idx: idx, t: t}
	q.key = w.Sharing(key+"/key", t, w.secNZ(key+"/key"), false)
	w.presign(key, q)
	return q
}

// presign makes a presignature for the key of q.
func (w *World) presign(key string, q *Quad) {
	t := q.t
	q.kappa = w.Sharing(key+"/kappa", t, w.RndNZ(key+"/kappa"), false)
	q.lambda = w.Sharing(key+"/lambda", t, w.secNZ(key+"/lambda"), true)
	q.kl = w.Sharing(key+"/kl", t, mulm(q.kappa.secret(), q.lambda.secret()), true)
	q.xl = w.Sharing(key+"/xl", t, mulm(q.key.secret(), q.lambda.secret()), true)
}

// Req is one signing request.
type Req struct {
	path       [][]byte
	hash, rand []byte
}

func (r *Req) P() *Path { return mkPath(r.path) }

func (r *Req) clone() *Req {
	c := &Req{hash: append([]byte{}, r.hash...), rand: append([]byte{}, r.rand...)}
	for _, p := range r.path {
		c.path = append(c.path, append([]byte{}, p...))
	}
	return c
}

func (r *Req) String() string {
	s := fmt.Sprintf("hash %s, randomness %s, path [", short(r.hash), short(r.rand))
	for i, p := range r.path {
		if i > 0 {
			s += " "
		}
		s += short(p)
	}
	return s + "]"
}

func short(b []byte) string {
	if len(b) > 8 {
		return fmt.Sprintf("%x..(%d)", b[:8], len(b))
	}
	return fmt.Sprintf("%x(%d)", b, len(b))
}

func (r *Req) eq(o *Req) bool {
	if len(r.path) != len(o.path) || string(r.hash) != string(o.hash) || string(r.rand) != string(o.rand) {
		return false
	}
	for i := range r.path {
		if string(r.path[i]) != string(o.path[i]) {
			return false
		}
	}
	return true
}

// e is the hash as a number.
func (r *Req) e() *big.Int { return mod(new(big.Int).SetBytes(r.hash)) }

// DPath draws a derivation path.
func (w *World) DPath(key string) [][]byte {
	var p [][]byte
	n := w.Pick("path:"+key, 20, 40, 40, 30, 10, 10, 1)
	if n == 6 {
		n = w.Range("path.deep:"+key, 6, 20)
	}
	for i := 0; i < n; i++ {
		k := fmt.Sprint("path:", key, i)
		switch w.Pick(k, 6, 1, 1, 1, 1, 1, 1) {
		case 0:
			p = append(p, w.Bytes(k, 4))
		case 1:
			p = append(p, []byte{})
		case 2:
			p = append(p, []byte{0, 0, 0, byte(w.Choose(k+".n", 3))})
		case 3:
			p = append(p, append([]byte{0x80 | w.Bytes(k, 1)[0]}, w.Bytes(k+"h", 3)...))
		case 4:
			p = append(p, w.Bytes(k, 1+w.Choose(k+".l", 40)))
		case 5:
			p = append(p, w.Bytes(k, []int{64, 128, 129, 255, 256, 1000}[w.Choose(k+".l", 6)]))
		case 6:
			p = append(p, []byte{255, 255, 255, 255})
		}
	}
	return p
}

// Hash draws a message hash; long allows ones that are not 32 bytes.
func (w *World) Hash(key string, long bool) []byte {
	k := "hash:" + key
	switch w.Pick(k, 8, 1, 1, 1, 1, 1, 1) {
	case 1:
		return make([]byte, 32)
	case 2: // above the order
		b := make([]byte, 32)
		for i := range b {
			b[i] = 255
		}
		return b
	case 3: // the order itself, or next to it
		b := make([]byte, 32)
		new(big.Int).Add(rN, big.NewInt(int64(w.Choose(k+"+", 3)-1))).FillBytes(b)
		return b
	case 4:
		b := w.Bytes(k, 32)
		copy(b, make([]byte, 1+w.Choose(k+"z", 31)))
		return b
	case 5:
		if long {
			return w.Bytes(k, w.Choose(k+"l", 33))
		}
	case 6:
		if long {
			return w.Bytes(k, 33+w.Choose(k+"l", 32))
		}
	}
	return w.Bytes(k, 32)
}

// Randomness draws the randomness of a request.
func (w *World) Randomness(key string) []byte {
	return w.Bytes("rand:"+key, []int{32, 0, 1, 31, 33, 64, 255, 256, 300, 1000, w.Len("rand:" + key)}[w.Pick("rand:"+key, 8, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3)])
}

func (w *World) Req(key string, long bool) *Req {
	return &Req{w.DPath(key), w.Hash(key, long), w.Randomness(key)}
}

// Rho is what a request makes of a key and a presignature.
type Rho struct {
	rho, tweak, randomizer *big.Int
	R                      RP
	child                  RP
}

// Rho asks the library for the randomised presignature, and checks it against the key and presignature.
func (w *World) Rho(name string, r *Req, keyT, presigT *Trans, keyPub, presig RP) *Rho {
	o := &Rho{}
	err := w.Call("derive rho "+name, func() error {
		a, b, c, d, e := sign.DeriveRho(K256, r.hash, r.rand, r.P(), keyT, presigT)
		if e != nil {
			return e
		}
		o.rho, o.tweak, o.randomizer, o.R = BI(a), BI(b), BI(c), RPof(d)
		return nil
	})
	w.Check(err == nil, w.in("P15", "P11", "P12"), "a request was refused", "%v: %v", r, err)
	if err != nil {
		w.Block("a request was refused")
	}
	tw, _, child := rTweak(keyPub, r.path)
	o.child = child
	w.Check(o.tweak.Cmp(tw) == 0, w.in("P14", "P11", "P12", "P13"), "the key tweak is not that of the path", "%v", r)
	w.Check(o.R.eq(rAdd(presig, rMulG(o.randomizer))), w.in("P15", "P12"), "the randomised presignature is not the presignature plus the randomizer", "%v", r)
	if !o.R.inf() {
		w.Check(mod(o.R.X).Cmp(o.rho) == 0, w.in("P12", "P15"), "r is not the x coordinate of the randomised presignature", "%v", r)
	}
	return o
}

func (w *World) rhoOf(name string, q *Quad, r *Req) *Rho {
	return w.Rho(name, r, q.key.T, q.kappa.T, q.key.pts[0], q.kappa.pts[0])
}

// mshare is a signature share in the model.
type mshare struct{ nv, nm, dv, dm *big.Int }

func (a mshare) eq(b mshare) bool {
	return a.nv.Cmp(b.nv) == 0 && a.nm.Cmp(b.nm) == 0 && a.dv.Cmp(b.dv) == 0 && a.dm.Cmp(b.dm) == 0
}

// share is what signer i has to compute.
func (q *Quad) share(r *Req, o *Rho, i int) mshare {
	theta := addm(r.e(), mulm(o.rho, o.tweak))
	lv, lm := q.lambda.at(i)
	kv, km := q.kl.at(i)
	xv, xm := q.xl.at(i)
	return mshare{
		addm(mulm(theta, lv), mulm(o.rho, xv)), addm(mulm(theta, lm), mulm(o.rho, xm)),
		addm(mulm(o.randomizer, lv), kv), addm(mulm(o.randomizer, lm), km),
	}
}

// sig is the signature the committee has to arrive at.
func (q *Quad) sig(r *Req, o *Rho) (rr, s *big.Int) {
	k := addm(q.kappa.secret(), o.randomizer)
	x := addm(q.key.secret(), o.tweak)
	s = mulm(addm(r.e(), mulm(o.rho, x)), invm(k))
	if rHigh(s) {
		s = negm(s)
	}
	return o.rho, s
}

var tOpening = reflect.TypeOf((*poly.CommitmentOpening)(nil)).Elem()

// The two parts of a signature share.
func shareParts(s *SigShare) (num, den reflect.Value) {
	n, ok1 := fieldLike(s, "num", tOpening, 0)
	d, ok2 := fieldLike(s, "den", tOpening, 1)
	if !ok1 || !ok2 {
		panic(simBug{"signature share has other fields"})
	}
	return n, d
}

func mkShare(num, den Opening) *SigShare {
	s := &SigShare{}
	n, d := shareParts(s)
	if num != nil {
		n.Set(reflect.ValueOf(num))
	}
	if den != nil {
		d.Set(reflect.ValueOf(den))
	}
	return s
}

func (m mshare) share() *SigShare { return mkShare(mkOpening(m.nv, m.nm), mkOpening(m.dv, m.dm)) }

// readShare reads a signature share.
func readShare(s *SigShare) (m mshare, err error) {
	n, d := shareParts(s)
	no, ok1 := n.Interface().(Opening)
	do, ok2 := d.Interface().(Opening)
	if !ok1 || !ok2 {
		return m, fmt.Errorf("incomplete share")
	}
	if m.nv, m.nm, err = opVals(no); err != nil {
		return
	}
	if m.dv, m.dm, err = opVals(do); err != nil {
		return
	}
	if m.nm == nil || m.dm == nil {
		err = fmt.Errorf("share without a mask")
	}
	return
}

// SignShare lets the library compute a share from openings.
func (w *World) SignShare(name string, q *Quad, r *Req, l, kl, xl Opening) (s *SigShare, err error) {
	err = w.Call("sign share "+name, func() (e error) {
		s, e = sign.NewThresholdEcdsaSigShareInternal(r.P(), r.hash, r.rand, q.key.T, q.kappa.T, l, kl, xl, K256)
		return
	})
	return
}

func (w *World) VerifyShare(name string, s *SigShare, q *Quad, r *Req, i int) error {
	return w.Call("verify share "+name, func() error {
		return s.Verify(r.P(), r.hash, r.rand, NI(i), q.key.T, q.kappa.T, q.lambda.T, q.kl.T, q.xl.T, K256)
	})
}

func (w *World) Combine(name string, q *Quad, r *Req, t int, m *SigMap) (s *Sig, err error) {
	err = w.Call("combine "+name, func() (e error) {
		s, e = sign.NewThresholdEcdsaCombinedSigInternal(r.P(), r.hash, r.rand, q.key.T, q.kappa.T, t, m, K256)
		return
	})
	return
}

func (w *World) VerifySig(name string, s *Sig, q *Quad, r *Req) error {
	return w.Call("verify signature "+name, func() error {
		return s.Verify(r.P(), r.hash, r.rand, q.key.T, q.kappa.T, K256)
	})
}

// alterReq gives another request that is near the first.
func (w *World) alterReq(key string, r *Req, long bool) (*Req, string) {
	for k := 0; ; k++ {
		key := fmt.Sprint(key, "/", k)
		n := r.clone()
		what := ""
		switch w.Choose("alter:"+key, 8) {
		case 0:
			n.hash, what = w.flip(key, n.hash)
			what = "hash " + what
			if len(n.hash) > 64 {
				continue
			}
		case 1:
			n.rand, what = w.flip(key, n.rand)
			what = "randomness " + what
		case 2:
			if len(n.path) == 0 {
				n.path = append(n.path, []byte{})
			} else {
				j := w.Choose("comp:"+key, len(n.path))
				n.path[j], what = w.flip(key, n.path[j])
			}
			what = "path " + what
		case 3: // a byte moves from one value to the other
			if len(n.rand) == 0 {
				continue
			}
			n.hash = append(append([]byte{}, n.rand[len(n.rand)-1]), n.hash...)
			n.rand = n.rand[:len(n.rand)-1]
			if len(n.hash) > 64 {
				continue
			}
			what = "a byte moved from randomness to hash"
		case 4: // the boundary between path components moves
			if len(n.path) < 2 {
				n.path = append(n.path, w.Bytes(key, 4))
				what = "path longer"
				break
			}
			j := w.Choose("bound:"+key, len(n.path)-1)
			a := append(append([]byte{}, n.path[j]...), n.path[j+1]...)
			c := w.Choose("cut:"+key, len(a)+1)
			n.path[j], n.path[j+1] = append([]byte{}, a[:c]...), append([]byte{}, a[c:]...)
			what = "path boundary moved"
		case 5:
			if len(n.path) < 2 {
				continue
			}
			n.path[0], n.path[1] = n.path[1], n.path[0]
			what = "path reordered"
		case 6:
			if len(n.path) > 0 {
				n.path = n.path[:len(n.path)-1]
				what = "path shorter"
			}
		case 7: // the same number in other bytes
			if v := new(big.Int).SetBytes(n.hash); len(n.hash) == 32 && new(big.Int).Add(v, rN).BitLen() <= 256 {
				new(big.Int).Add(v, rN).FillBytes(n.hash)
				what = "hash plus the order"
			} else if len(n.hash) < 64 {
				n.hash = append([]byte{0}, n.hash...)
				what = "hash with a leading zero"
			}
		}
		if !long && len(n.hash) != 32 || n.eq(r) {
			if k > 12 {
				n.rand = append(n.rand, 1)
				return n, "randomness longer"
			}
			continue
		}
		return n, what
	}
}
