package main

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
)

func init() {
	register(&Property{ID: "P05", Quick: 1100, Thorough: 40000,
		Scens: []Scenario{
			{"committee", 2, p05Committee},
			{"refuse", 3, p05Refuse},
			{"explicit polynomials", 1, p05Explicit},
		},
		Rule: "A run takes a committee through one round and reads its shares, or offers a node shares and dealings that do not fit the transcript, or lets a dealer share polynomials of its own choice.",
	})
}

func p05Committee(w *World) {
	kind := w.Choose("op", 4)
	op := w.NewOp("op", kind, w.Size("tA", 1, 3, 14), w.Size("tB", 1, 3, 14))
	r := w.NewRound("r", op, 0, true)
	w.RunRound(r)
	w.State("P05", opNames[kind], r.n(), r.t, len(r.agreed), fmt.Sprint(r.recovered))
	s := w.Result(r, "P05")
	if want := op.secret(); want != nil {
		w.Check(s.secret().Cmp(want) == 0, "P05", "the shared secret is not the operation's", "%s", opNames[kind])
	}
	w.checkSubsets("P05", r, s)
}

// checkSubsets interpolates the secret from several subsets of the honest shares, with the reference
// model and with the library.
func (w *World) checkSubsets(prop string, r *Round, s *Sharing) {
	hs := r.honest()
	for k := 0; k < 4; k++ {
		size := r.t + w.Choose(fmt.Sprint("size", r.key, k), len(hs)-r.t+1)
		p := w.Perm(fmt.Sprint("subset", r.key, k), len(hs))[:size]
		var idx []int
		var ni []NI
		var vs, ms []*big.Int
		var lv, lm []Scalar
		for _, j := range p {
			i := hs[j]
			v, m, _ := opVals(r.open[i])
			idx, vs = append(idx, i), append(vs, v)
			ni, lv = append(ni, NI(i)), append(lv, SC(v))
			if m != nil {
				ms = append(ms, m)
				lm = append(lm, SC(m))
			}
		}
		got := rInterp(idx, vs, new(big.Int))
		w.Check(got.Cmp(s.secret()) == 0, prop, "subsets of shares give different secrets", "%s t=%d receivers %v", opNames[r.op.kind], r.t, idx)
		c := rMulG(got)
		if ms != nil {
			gm := rInterp(idx, ms, new(big.Int))
			c = rPed(got, gm)
		}
		w.Check(c.eq(r.want[0]), prop, "the shares do not give the committed constant", "%s t=%d receivers %v", opNames[r.op.kind], r.t, idx)
		for pass, ys := range [][]Scalar{lv, lm} {
			if ys == nil {
				continue
			}
			var x Scalar
			err := w.Call("interpolate", func() error {
				l, e := poly.Lagrange.AtZero(K256, ni)
				if e != nil {
					return e
				}
				x, e = l.InterpolateScalar(ys)
				return e
			})
			w.Check(err == nil, prop, "interpolation of honest shares fails", "receivers %v: %v", idx, err)
			if pass == 0 {
				w.Check(BI(x).Cmp(s.secret()) == 0, prop, "interpolation of honest shares gives another secret", "%s t=%d receivers %v", opNames[r.op.kind], r.t, idx)
			} else {
				w.Check(BI(x).Cmp(s.m[0]) == 0, prop, "interpolation of honest masks gives another mask", "%s t=%d receivers %v", opNames[r.op.kind], r.t, idx)
			}
		}
	}
}

// A known set of dealings: all polynomials are the simulator's.
type knownSet struct {
	idx  []int
	ds   map[int]*Dealing
	c    map[int]*Corrupt
	op   *OpCase
	t    int
	keys []Keys
	ad   []byte
	want []RP
	tr   *Trans
}

func (w *World) knownSet(key string, op *OpCase, t int, idx []int, keys []Keys, ad []byte) *knownSet {
	k := &knownSet{idx: idx, ds: map[int]*Dealing{}, c: map[int]*Corrupt{}, op: op, t: t, keys: keys, ad: ad}
	s := &dealSet{idx: idx, pts: map[int][]RP{}, t: t, op: op}
	for _, i := range idx {
		c := w.CorruptDealing(fmt.Sprint(key, "/", i), op, t, keys, i, ad, nil)
		k.ds[i], k.c[i], s.pts[i] = c.D, c, c.pts
	}
	k.want = s.expect()
	k.tr = mkTrans(mkCommit(k.want, op.masked()), op.kind == opRandom)
	return k
}

// share is what receiver i should get.
func (k *knownSet) share(i int) (v, m *big.Int) {
	var vs, ms []*big.Int
	for _, d := range k.idx {
		vs = append(vs, k.c[d].vs[i])
		if k.op.masked() {
			ms = append(ms, k.c[d].ms[i])
		}
	}
	return k.combine(k.idx, vs, ms)
}

func (k *knownSet) combine(idx []int, vs, ms []*big.Int) (v, m *big.Int) {
	comb := func(ys []*big.Int) *big.Int {
		if k.op.kind == opRandom {
			r := new(big.Int)
			for _, y := range ys {
				r = addm(r, y)
			}
			return r
		}
		return rInterp(idx, ys, new(big.Int))
	}
	v = comb(vs)
	if ms != nil {
		m = comb(ms)
	}
	return
}

func (k *knownSet) dealMap(w *World, key string) *DealMap {
	m := &DealMap{}
	for _, j := range w.Perm("ins:"+key, len(k.idx)) {
		m.Set(NI(k.idx[j]), DeepCopy(k.ds[k.idx[j]]))
	}
	return m
}

func p05Refuse(w *World) {
	kind := w.Choose("op", 4)
	n, active := w.Active("n", 1, 5, 36, 8)
	t := w.Thr("t", n)
	op := w.NewOp("op", kind, w.Size("tA", 1, 3, 14), w.Size("tB", 1, 2, 14))
	keys := w.Committee("r", n)
	ad := w.AD("a")
	idx := w.dealerSet("d", op.need()+w.Choose("extra", 2))
	k := w.knownSet("d", op, t, idx, keys, ad)
	masked := op.masked()
	name := opNames[kind]
	for step := 0; step < 3; step++ {
		key := fmt.Sprint("s", step)
		r := active[w.Choose("receiver"+key, len(active))]
		wv, wm := k.share(r)
		open := func(what string, m *DealMap, tr *Trans, ad []byte, ks Keys, recv int, good bool) {
			var o Opening
			var err error
			if w.Maybe("route"+key, 300) {
				err = w.Call("open with no openings provided", func() (e error) {
					o, e = dealings.CommitmentOpening.FromDealingsAndOpenings(m, &OpenMaps{}, tr.CombinedCommitment, ad, NI(recv), ks.SK, ks.PK)
					return
				})
			} else {
				o, err = w.OpenTranscript(what, m, tr, ad, ks, recv)
			}
			w.judge(what, name, o, err, good, wv, wm)
		}
		what := w.Choose("case"+key, 9)
		w.State("P05r", name, what, n, t)
		switch what {
		case 0:
			open("honest share", k.dealMap(w, key), k.tr, ad, keys[r], r, true)
		case 1: // another receiver's index, key, or both
			j := w.Choose("j"+key, n+2)
			if j == r || j < n && keys[j].sk.Cmp(keys[r].sk) == 0 {
				j = n + 3
			}
			open("share at another index", k.dealMap(w, key), k.tr, ad, keys[r], j, false)
		case 2:
			ks := w.RandKeys("other" + key)
			if w.Maybe("pair"+key, 500) {
				ks = Keys{SK: ks.SK, PK: keys[r].PK}
			} else if w.Maybe("pub"+key, 500) {
				ks = Keys{SK: keys[r].SK, PK: ks.PK}
			}
			open("share with another key", k.dealMap(w, key), k.tr, ad, ks, r, false)
		case 3:
			ad2, how := w.flip(key, ad)
			open("share in another context: "+how, k.dealMap(w, key), k.tr, ad2, keys[r], r, false)
		case 4: // dealings other than those aggregated
			m := k.dealMap(w, key)
			i := idx[w.Choose("at"+key, len(idx))]
			how := "a dealing replaced"
			var pts []RP
			switch w.Choose("how"+key, 3) {
			case 0:
				c := w.CorruptDealing("repl"+key, op, t, keys, i, ad, nil)
				m.Set(NI(i), c.D)
				pts = c.pts
			case 1:
				how = "a dealing missing"
				if len(idx) == 1 {
					continue
				}
				m.Delete(NI(i))
			case 2:
				how = "a dealing too many"
				i = 0
				for k.ds[i] != nil {
					i++
				}
				c := w.CorruptDealing("add"+key, op, t, keys, i, ad, nil)
				m.Set(NI(i), c.D)
			}
			_ = pts
			// t == 1: every such set can give the reshared constant all the same
			var is []int
			var vs, ms []*big.Int
			known := true
			m.Scan(func(d NI, x *Dealing) bool {
				c := k.c[int(d)]
				if c == nil || x != nil && how != "a dealing missing" && int(d) == i {
					known = false
					return true
				}
				is = append(is, int(d))
				vs = append(vs, c.vs[r])
				if masked {
					ms = append(ms, c.ms[r])
				}
				return true
			})
			if !known {
				if t == 1 && kind != opRandom {
					continue // a constant polynomial is the same from any set
				}
				o, err := w.OpenTranscript("share from other dealings", m, k.tr, ad, keys[r], r)
				w.judge("share from other dealings: "+how, name, o, err, false, wv, wm)
				continue
			}
			v2, m2 := k.combine(is, vs, ms)
			same := v2.Cmp(wv) == 0 && (!masked || m2.Cmp(wm) == 0)
			o, err := w.OpenTranscript("share from other dealings", m, k.tr, ad, keys[r], r)
			w.judge("share from other dealings: "+how, name, o, err, same, wv, wm)
		case 5: // another transcript
			p := append([]RP{}, k.want...)
			j := w.Choose("coef"+key, t)
			if w.Maybe("mask only"+key, 400) {
				p[j] = rAdd(p[j], rMul(rHgen, w.RndNZ("d"+key)))
			} else {
				p[j] = rAdd(p[j], rMulG(w.RndNZ("d"+key)))
			}
			open("share of another transcript", k.dealMap(w, key), mkTrans(mkCommit(p, masked), kind == opRandom), ad, keys[r], r, false)
		case 6: // the other kind of commitment
			open("share of a transcript of the other kind", k.dealMap(w, key), mkTrans(mkCommit(k.want, !masked), kind == opRandom), ad, keys[r], r, false)
		case 7, 8: // altered openings combined
			var ni []NI
			var os []Opening
			var vs, ms []*big.Int
			for _, d := range idx {
				ni = append(ni, NI(d))
				vs = append(vs, k.c[d].vs[r])
				var m *big.Int
				if masked {
					m = k.c[d].ms[r]
					ms = append(ms, m)
				}
			}
			kinds := make([]int, len(idx))
			na := w.Choose("alter"+key, 3)
			for a := 0; a < na; a++ {
				at := w.Choose(fmt.Sprint("at", key, a), len(idx))
				d := w.RndNZ(fmt.Sprint("delta", key, a))
				switch w.Choose(fmt.Sprint("how", key, a), 6) {
				case 0:
					vs[at] = addm(vs[at], d)
				case 1:
					if masked {
						ms[at] = addm(ms[at], d)
					}
				case 2: // cancels in the combination
					if len(idx) > 1 {
						b := (at + 1) % len(idx)
						l := rLagrange(idx, new(big.Int))
						e := subm(new(big.Int), d)
						if kind != opRandom {
							e = mulm(e, mulm(l[at], invm(l[b])))
						}
						vs[at], vs[b] = addm(vs[at], d), addm(vs[b], e)
					}
				case 3:
					kinds[at] = 1
				case 4:
					kinds[at] = 2
				case 5: // mask against value
					vs[at] = addm(vs[at], d)
					if masked {
						ms[at] = subm(ms[at], d)
					}
				}
			}
			good := true
			for j := range idx {
				var o Opening
				var m *big.Int
				if masked {
					m = ms[j]
				}
				switch kinds[j] {
				case 0:
					o = mkOpening(vs[j], m)
				case 1:
					good = false
					if masked {
						o = mkOpening(vs[j], nil)
					} else {
						o = mkOpening(vs[j], w.RndNZ("mask"+key))
					}
				case 2:
					good = false
				}
				if o != nil && w.Maybe(fmt.Sprint("disk", key, j), 300) {
					x, err := persistOpening(o)
					w.Check(err == nil, "P16", "an opening does not survive the disk", "%v", err)
					o = x
				}
				os = append(os, o)
			}
			v2, m2 := k.combine(idx, vs, ms)
			good = good && v2.Cmp(wv) == 0 && (!masked || m2.Cmp(wm) == 0)
			recv := r
			if na == 0 && w.Maybe("recv"+key, 500) {
				recv = r + 1 + w.Choose("recv"+key, 4)
				// a constant sharing has the same share everywhere
				good = onCommit(k.want, masked, recv, mkOpening(wv, wm))
			}
			var o Opening
			err := w.Call("combine openings", func() (e error) {
				o, e = dealings.CommitmentOpening.CombineOpenings(ni, os, k.tr.CombinedCommitment, NI(recv), K256)
				return
			})
			w.judge("combined openings", name, o, err, good, wv, wm)
		}
	}
}

// judge compares the outcome of an opening with what it has to be.
func (w *World) judge(what, op string, o Opening, err error, good bool, wv, wm *big.Int) {
	if isPanic(err) {
		w.Fail("P05", "opening panics", "%s, %s: %v", op, what, err)
	}
	if !good {
		w.Check(err != nil, "P05", "a share that does not fit was accepted: "+cut(what), "%s, %s", op, what)
		return
	}
	w.Check(err == nil && o != nil, "P05", "a share that fits was refused", "%s, %s: %v", op, what, err)
	v, m, e := opVals(o)
	w.Check(e == nil && v.Cmp(wv) == 0 && (m == nil) == (wm == nil) && (m == nil || m.Cmp(wm) == 0), "P05", "an opened share is wrong", "%s, %s", op, what)
}

// cut keeps the part of a description that names its class.
func cut(s string) string {
	for i := range s {
		if s[i] == ':' {
			return s[:i]
		}
	}
	return s
}

// p05Explicit: a dealer shares polynomials of its own choice.
func p05Explicit(w *World) {
	n := w.Size("n", 1, 5, 36)
	t := w.Thr("t", n)
	pair := w.Maybe("pair", 500)
	keys := w.Committee("r", n)
	dealer, ad := w.Index("d", 1), w.AD("a")
	draw := func(key string) (rPoly, *poly.Polynomial) {
		m := t + w.Pick("len:"+key, 6, 1, 1)
		var p rPoly
		var cs []Scalar
		for j := 0; j < m; j++ {
			c := w.Sec(fmt.Sprint(key, j))
			if w.Maybe(fmt.Sprint("zero:", key, j), 300) {
				c = new(big.Int)
			}
			p, cs = append(p, c), append(cs, SC(c))
		}
		return p, poly.Poly.New(K256, cs)
	}
	size := func(p rPoly) int {
		k := len(p)
		for k > 0 && p[k-1].Sign() == 0 {
			k--
		}
		return k
	}
	v, lv := draw("v")
	fits := size(v) <= t
	var m rPoly
	var lm *poly.Polynomial
	if pair {
		m, lm = draw("m")
		fits = fits && size(m) <= t
	}
	w.State("P05x", n, t, pair, size(v), size(m))
	d := &Dealing{}
	err := w.Call("encrypt and commit", func() (e error) {
		sd := seedOf(w.Bytes("seed", 32))
		if pair {
			d.Ciphertext, d.Commitment, e = dealings.EncryptAndCommitPairPolynomial(lv, lm, t, pks(keys), NI(dealer), ad, sd)
		} else {
			d.Ciphertext, d.Commitment, e = dealings.EncryptAndCommitSinglePolynomial(lv, t, pks(keys), NI(dealer), ad, sd)
		}
		return
	})
	if !fits {
		w.Check(err != nil, "P05", "a polynomial longer than its commitment was shared", "threshold %d, coefficients %d", t, max(size(v), size(m)))
		return
	}
	w.Check(err == nil, "P05", "a polynomial cannot be shared", "t=%d n=%d: %v", t, n, err)
	var want []RP
	for j := 0; j < t; j++ {
		if pair {
			want = append(want, rPed(v[j], m[j]))
		} else {
			want = append(want, rMulG(v[j]))
		}
	}
	w.Check(eqPts(RefPoints(d.Commitment), want), "P05", "the commitment is not that of the shared polynomial", "t=%d", t)
	var idx []int
	var ys []*big.Int
	for i := 0; i < n; i++ {
		var gv, gm *big.Int
		o, err := w.OpenDealing(fmt.Sprint(i), d, keys[i], ad, dealer, i)
		w.Check(err == nil, "P05", "a share of a shared polynomial cannot be opened", "t=%d n=%d receiver %d: %v", t, n, i, err)
		gv, gm, err = opVals(o)
		w.Check(err == nil && gv.Cmp(v.at(xOf(i))) == 0 && (!pair || gm != nil && gm.Cmp(m.at(xOf(i))) == 0), "P05", "a share is not the value of the shared polynomial", "t=%d n=%d receiver %d", t, n, i)
		idx, ys = append(idx, i), append(ys, gv)
	}
	p := w.Perm("subset", n)[:t]
	var si []int
	var sy []*big.Int
	for _, j := range p {
		si, sy = append(si, idx[j]), append(sy, ys[j])
	}
	w.Check(rInterp(si, sy, new(big.Int)).Cmp(v[0]) == 0, "P05", "subsets of shares give different secrets", "t=%d receivers %v", t, si)
}
