package main

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
)

func init() {
	register(&Property{ID: "P10", Quick: 3000, Thorough: 50000,
		Scens: []Scenario{
			{"openings", 4, p10Openings},
			{"transcript", 2, p10Transcript},
			{"interpolate", 2, p10Interpolate},
			{"committee", 1, p10Committee},
			{"coefficients", 1, p10Lagrange},
		},
		Rule: "A run recovers shares from sets of openings that arrive in any order, some of them missing, wrong, misindexed or of the wrong kind, or interpolates polynomials.",
	})
}

type opened struct {
	v, m *big.Int
	kind int // 0 right kind, 1 wrong kind, 2 missing altogether
}

func (o opened) make(w *World, key string, masked bool) Opening {
	if o.kind == 2 {
		return nil
	}
	m := o.m
	if !masked {
		m = nil
	}
	if o.kind == 1 {
		if masked {
			m = nil
		} else {
			m = w.RndNZ("km" + key)
		}
	}
	x := mkOpening(o.v, m)
	if w.Maybe("disk"+key, 400) {
		y, err := persistOpening(x)
		w.Check(err == nil, w.own2("P10", "P16"), "an opening does not survive the disk", "%v", err)
		x = y
	}
	return x
}

func p10Openings(w *World) {
	t := w.Vast("t", w.Size("t", 1, 6, 24), 130, 20)
	masked := w.Maybe("masked", 500)
	x := w.dealt("d", t, w.Sec("c"), masked, nil)
	d := &Dealing{Commitment: x.commit()}
	n := t + w.Vast("more", w.Choose("more", 5), 140, 15)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = w.Index(fmt.Sprint("o", i), i+w.Choose(fmt.Sprint("o.at", i), 3)*w.Choose(fmt.Sprint("o.by", i), 20))
	}
	distinct(idx)
	victim := w.Index("victim", n+w.Choose("victim", 5))
	if w.Maybe("victim among openers", 100) {
		victim = idx[0]
	}
	wv := x.v.at(xOf(victim))
	var wm *big.Int
	if masked {
		wm = x.m.at(xOf(victim))
	}
	os := map[int]opened{}
	for _, i := range idx {
		o := opened{v: x.v.at(xOf(i))}
		if masked {
			o.m = x.m.at(xOf(i))
		}
		os[i] = o
	}
	// the openings arrive over the network one by one: loss decides which subset there is
	arrive := w.Perm("arrive", n)
	size := n
	if w.Maybe("few", 250) {
		size = w.Choose("size", t)
	} else if n > t {
		size = t + w.Choose("surplus", n-t+1)
	}
	var have []int
	for _, j := range arrive[:size] {
		have = append(have, idx[j])
	}
	what := ""
	na := 0
	if w.Maybe("alter", 600) && size > 0 {
		na = 1 + w.Choose("alterations", 3)
	}
	for a := 0; a < na; a++ {
		key := fmt.Sprint("a", a)
		i := have[w.Choose("at"+key, len(have))]
		o := os[i]
		delta := w.RndNZ("delta" + key)
		if w.Maybe("one"+key, 200) {
			delta = big.NewInt(1)
		}
		switch k := w.Choose("how"+key, 9); k {
		case 0:
			o.v = addm(o.v, delta)
			what += " value"
		case 1:
			if masked {
				o.m = addm(o.m, delta)
				what += " mask"
			}
		case 2:
			o.kind = 1
			what += " kind"
		case 3:
			o.kind = 2
			what += " nil"
		case 4: // two exchanged
			j := have[w.Choose("with"+key, len(have))]
			os[j], o = o, os[j]
			what += " exchanged"
		case 5:
			o.v = new(big.Int)
			if masked {
				o.m = new(big.Int)
			}
			what += " zero"
		case 6: // a share of another dealing
			o.v = w.RndNZ("v" + key)
			if masked {
				o.m = w.RndNZ("m" + key)
			}
			what += " random"
		case 7: // chosen so that the combination cancels at the victim
			if len(have) > 1 {
				j := have[0]
				if j == i {
					j = have[1]
				}
				l := rLagrange(have, xOf(victim))
				var li, lj *big.Int
				for q := range have {
					if have[q] == i {
						li = l[q]
					}
					if have[q] == j {
						lj = l[q]
					}
				}
				if lj.Sign() != 0 {
					p := os[j]
					p.v = subm(p.v, mulm(mulm(delta, li), invm(lj)))
					os[j] = p
					o.v = addm(o.v, delta)
					what += " cancelling"
				}
			}
		case 8: // filed under another index
			j := victim + 1000 + w.Choose("under"+key, 5)
			clash := false
			for _, q := range have {
				clash = clash || q == j
			}
			if !clash {
				for q := range have {
					if have[q] == i {
						have[q] = j
					}
				}
				delete(os, i)
				i = j
				what += " misindexed"
			}
		}
		os[i] = o
	}
	m := &OpenMap{}
	kindsOK := true
	for _, i := range have {
		m.Set(NI(i), os[i].make(w, fmt.Sprint(i), masked))
		kindsOK = kindsOK && os[i].kind == 0
	}
	good := kindsOK && size >= t
	if good {
		var vs, ms []*big.Int
		for _, i := range have {
			vs = append(vs, os[i].v)
			ms = append(ms, os[i].m)
		}
		good = rInterp(have, vs, xOf(victim)).Cmp(wv) == 0 && (!masked || rInterp(have, ms, xOf(victim)).Cmp(wm) == 0)
	}
	w.State("P10", t, size, masked, what, good)
	var o Opening
	err := w.Call("reconstruct", func() (e error) {
		o, e = dealings.ReconstructShareFromOpenings(d, m, NI(victim))
		return
	})
	desc := fmt.Sprintf("t=%d, %d openings of %v,%s", t, size, have, what)
	if good && err != nil && !isPanic(err) {
		for _, i := range have {
			if !onCommit(x.pts, masked, i, mkOpening(os[i].v, maskIf(masked, os[i].m))) {
				w.Probe("wrong openings that cancel refused")
				return // refusing a set with wrong openings in it is right as well
			}
		}
	}
	w.judge10(desc, o, err, good, wv, wm)
}

func (w *World) judge10(what string, o Opening, err error, good bool, wv, wm *big.Int) {
	if isPanic(err) {
		w.Fail(w.own2("P10", "P17"), "recovery panics", "%s: %v", what, err)
	}
	if !good {
		if err == nil && o != nil {
			if v, m, e := opVals(o); e == nil && v.Cmp(wv) == 0 && (m == nil) == (wm == nil) && (m == nil || m.Cmp(wm) == 0) {
				w.Fail("P10", "a bad set of openings was taken", "%s", what)
			}
		}
		w.Check(err != nil, "P10", "a wrong share was recovered", "%s", what)
		return
	}
	w.Check(err == nil && o != nil, "P10", "a share was not recovered from correct openings", "%s: %v", what, err)
	v, m, e := opVals(o)
	w.Check(e == nil && v.Cmp(wv) == 0 && (m == nil) == (wm == nil) && (m == nil || m.Cmp(wm) == 0), "P10", "a recovered share is not the dealer's", "%s", what)
}

func p10Transcript(w *World) {
	kind := w.Choose("op", 4)
	n, active := w.Active("n", 2, 6, 36, 10)
	t := w.Thr("t", n-1)
	op := w.NewOp("op", kind, w.Size("tA", 1, 3, 14), w.Size("tB", 1, 2, 14))
	keys := w.Committee("r", n)
	ad := w.AD("a")
	idx := w.dealerSet("d", op.need()+w.Choose("extra", 2))
	victim := active[w.Choose("victim", len(active))]
	ds := map[int]*Corrupt{}
	s := &dealSet{idx: idx, pts: map[int][]RP{}, t: t, op: op}
	hurt := map[int]bool{}
	for k, i := range idx {
		var vict []int
		if w.Maybe(fmt.Sprint("damage", k), 600) {
			vict = []int{victim}
		}
		ds[i] = w.CorruptDealing(fmt.Sprint("d/", i), op, t, keys, i, ad, vict)
		hurt[i] = !ds[i].fine[victim]
		s.pts[i] = ds[i].pts
	}
	want := s.expect()
	masked := op.masked()
	tr := mkTrans(mkCommit(want, masked), kind == opRandom)
	m := &DealMap{}
	for _, j := range w.Perm("ins", len(idx)) {
		m.Set(NI(idx[j]), DeepCopy(ds[idx[j]].D))
	}
	good := true
	prov := &OpenMaps{}
	what := ""
	for k, d := range idx {
		if !hurt[d] && !w.Maybe(fmt.Sprint("needless", k), 200) {
			continue
		}
		if hurt[d] && w.Maybe(fmt.Sprint("withheld", k), 100) {
			good = false
			what += fmt.Sprint(" none for ", d)
			continue
		}
		// openings by the receivers, through the library
		om := &OpenMap{}
		cnt := 0
		wrong := false
		limit := n - 1
		if n > 100 {
			limit = t + 1
		}
		if w.Maybe(fmt.Sprint("short", k), 120) {
			limit = w.Choose(fmt.Sprint("cnt", k), t)
		}
		for _, h := range w.Perm(fmt.Sprint("openers", k), n) {
			if h == victim || cnt >= limit {
				continue
			}
			dl, _ := m.Get(NI(d))
			o, err := w.OpenDealing(fmt.Sprintf("%d at %d", d, h), dl, keys[h], ad, d, h)
			w.Check(err == nil, w.own2("P10", "P03"), "an uncorrupted share did not open", "dealing %d at %d: %v", d, h, err)
			v, mm, err := opVals(o)
			w.Need(err, "opening")
			if w.Maybe(fmt.Sprintf("wrong%d/%d", k, h), 60) {
				wrong = true
				if masked && w.Maybe(fmt.Sprintf("wrong mask%d/%d", k, h), 500) {
					mm = addm(mm, w.RndNZ(fmt.Sprint("dm", k, h)))
				} else {
					v = addm(v, w.RndNZ(fmt.Sprint("dv", k, h)))
				}
				o = mkOpening(v, mm)
			}
			b, err := o.Serialize()
			w.Check(err == nil, w.own2("P10", "P16"), "opening has no bytes", "%v", err)
			o, err = poly.Commitment.Deserialize(b)
			w.Check(err == nil, w.own2("P10", "P16"), "an opening does not survive the network", "%v", err)
			om.Set(NI(h), o)
			cnt++
		}
		if cnt < t || wrong {
			good = false
			what += fmt.Sprintf(" %d for %d, wrong %v", cnt, d, wrong)
		}
		prov.Set(NI(d), om)
	}
	if w.Maybe("foreign", 150) { // openings of a dealing that is not in the set
		j := 0
		for ds[j] != nil {
			j++
		}
		om := &OpenMap{}
		om.Set(0, mkOpening(big.NewInt(5), nil))
		prov.Set(NI(j), om)
	}
	if n-1 < t {
		good = false
	}
	var vs, ms []*big.Int
	x := &knownSet{idx: idx, c: ds, op: op}
	for _, d := range idx {
		// the dealer's polynomial at the victim, whatever was encrypted
		v := rEvalOpen(ds[d], victim)
		vs = append(vs, v.v)
		if masked {
			ms = append(ms, v.m)
		}
	}
	wv, wm := x.combine(idx, vs, ms)
	w.State("P10t", opNames[kind], n, t, len(hurt), what == "")
	var o Opening
	err := w.Call("open with openings", func() (e error) {
		o, e = dealings.CommitmentOpening.FromDealingsAndOpenings(m, prov, tr.CombinedCommitment, ad, NI(victim), keys[victim].SK, keys[victim].PK)
		return
	})
	w.judge10(fmt.Sprintf("%s t=%d dealers %v, victim %d:%s", opNames[kind], t, idx, victim, what), o, err, good, wv, wm)
}

func maskIf(masked bool, m *big.Int) *big.Int {
	if masked {
		return m
	}
	return nil
}

func rEvalOpen(c *Corrupt, i int) opened { return opened{v: c.goodV[i], m: at(c.goodM, i)} }

func at(xs []*big.Int, i int) *big.Int {
	if xs == nil {
		return nil
	}
	return xs[i]
}

func p10Interpolate(w *World) {
	t := w.Vast("t", w.Size("t", 1, 7, 24), 130, 20)
	c := make(rPoly, t)
	for i := range c {
		switch w.Pick(fmt.Sprint("coef", i), 5, 2, 1) {
		case 0:
			c[i] = w.RndNZ(fmt.Sprint("c", i))
		case 1:
			c[i] = new(big.Int)
		case 2:
			c[i] = new(big.Int).Sub(rN, big.NewInt(1))
		}
	}
	k := t
	if w.Choose("more", 2) == 1 {
		k = t + w.Choose("redundant", 6)
	}
	seen := map[string]bool{}
	var xs []*big.Int
	for i := 0; len(xs) < k; i++ {
		var x *big.Int
		switch w.Pick(fmt.Sprint("x", i), 5, 1, 1, 1) {
		case 0:
			x = big.NewInt(int64(1 + i))
		case 1:
			x = w.RndNZ(fmt.Sprint("x", i))
		case 2:
			x = new(big.Int)
		case 3:
			x = new(big.Int).Sub(rN, big.NewInt(int64(1+i)))
		}
		if seen[x.String()] {
			continue
		}
		seen[x.String()] = true
		xs = append(xs, x)
	}
	order := w.Perm("order", k)
	if t >= 2 && w.Choose("special", 2) == 1 {
		// the first points given lie on a polynomial of lower degree:
		// c = low + (x-x1)...(x-xm) * rest, with m coefficients or fewer in low
		m := w.Range("special.m", 1, t-1)
		low := w.Range("special.low", 0, m)
		prod := rPoly{big.NewInt(1)}
		for i := 0; i < m; i++ {
			prod = prod.mulLinear(xs[order[i]])
		}
		var q rPoly
		for len(q)+m < t {
			q = append(q, c[len(q)])
		}
		d := make(rPoly, t)
		for i := range d {
			d[i] = new(big.Int)
			if i < low {
				d[i].Set(c[t-1-i])
			}
		}
		for i := range prod {
			for j := range q {
				d[i+j].Add(d[i+j], new(big.Int).Mul(prod[i], q[j]))
				d[i+j].Mod(d[i+j], rN)
			}
		}
		c = d
	}
	var samples [][2]curve.EccScalar
	for _, x := range xs {
		samples = append(samples, [2]curve.EccScalar{SC(x), SC(c.at(x))})
	}
	in := make([][2]curve.EccScalar, k)
	for i, j := range order {
		in[i] = samples[j]
	}
	w.State("P10i", t, k)
	before := Digest(in)
	var p *poly.Polynomial
	err := w.Call("interpolate", func() (e error) { p, e = poly.Poly.Interpolate(K256, in); return })
	w.Check(err == nil && p != nil, "P10", "interpolation fails", "t=%d from %d points: %v", t, k, err)
	for i := 0; i < k+1; i++ {
		e := new(big.Int)
		if i < t {
			e = c[i]
		}
		w.Check(BI(p.Coeff(i)).Cmp(e) == 0, "P10", "interpolation gives another polynomial", "t=%d from %d points, coefficient %d", t, k, i)
	}
	w.Check(Digest(in) == before, "P18", "interpolation changes its input", "")
	if w.Maybe("repeat", 300) { // one point given twice, with its value or another
		j, at := w.Choose("repeated", k), w.Choose("repeated at", k+1)
		d := [2]curve.EccScalar{SC(xs[j]), SC(c.at(xs[j]))}
		if w.Maybe("contradicting", 500) {
			d[1] = SC(addm(c.at(xs[j]), w.RndNZ("contradiction")))
		}
		in2 := append(append(append([][2]curve.EccScalar{}, in[:at]...), d), in[at:]...)
		err := w.Call("interpolate repeated", func() (e error) { _, e = poly.Poly.Interpolate(K256, in2); return })
		w.Check(err != nil && !isPanic(err), "P10", "a point given twice is interpolated", "t=%d from %d points: %v", t, k, err)
	}
	// equal to the polynomial itself, and the same at a new point
	cs := make([]curve.EccScalar, t)
	for i := range cs {
		cs[i] = SC(c[i])
	}
	eq := 0
	w.Call("equal", func() error { eq = p.Equal(poly.Poly.New(K256, cs)); return nil })
	w.Check(eq == 1, "P10", "an interpolated polynomial is not equal to the original", "t=%d from %d points", t, k)
	// and to nothing else
	ds := append([]curve.EccScalar{}, cs...)
	j := w.Choose("differs at", t+1)
	if j < t {
		ds[j] = SC(addm(c[j], w.RndNZ("difference")))
	} else {
		ds = append(ds, SC(w.RndNZ("difference")))
	}
	w.Call("equal", func() error { eq = p.Equal(poly.Poly.New(K256, ds)) + poly.Poly.New(K256, ds).Equal(p); return nil })
	w.Check(eq == 0, "P10", "different polynomials are equal", "t=%d, coefficient %d", t, j)
	x := w.RndNZ("at")
	w.Check(BI(p.EvaluateAt(SC(x))).Cmp(c.at(x)) == 0, "P10", "interpolation gives another polynomial", "t=%d from %d points, at a point", t, k)
}

// p10Lagrange interpolates values and points held by nodes, as combining does.
func p10Lagrange(w *World) {
	t := w.Vast("t", w.Size("t", 1, 6, 24), 130, 60)
	v := w.RPoly("v", t, w.Sec("c"))
	n := t + w.Vast("more", w.Choose("more", 5), 140, 60)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = w.Index(fmt.Sprint("o", i), i+w.Choose(fmt.Sprint("o.at", i), 3)*w.Choose(fmt.Sprint("o.by", i), 20))
	}
	distinct(idx)
	ord := w.Perm("order", n)
	var ni []NI
	var ys []Scalar
	var ps []Point
	for _, j := range ord {
		y := v.at(xOf(idx[j]))
		ni, ys, ps = append(ni, NI(idx[j])), append(ys, SC(y)), append(ps, PT(rMulG(y)))
	}
	at := new(big.Int)
	switch w.Pick("at", 2, 2, 1, 1) {
	case 1:
		at = xOf(w.Index("at", w.Choose("at.i", 12)))
	case 2:
		at = w.RndNZ("at")
	case 3:
		at = new(big.Int).Sub(rN, big.NewInt(int64(1+w.Choose("at.neg", 3))))
	}
	coeff := func(ni []NI) (l *poly.LagrangeCoefficients, err error) {
		err = w.Call("coefficients", func() (e error) {
			if at.Sign() == 0 && w.Maybe("zero", 500) {
				l, e = poly.Lagrange.AtZero(K256, ni)
			} else {
				l, e = poly.Lagrange.AtValue(SC(at), ni)
			}
			return
		})
		return
	}
	desc := fmt.Sprintf("t=%d, nodes %v", t, ni)
	l, err := coeff(ni)
	w.Check(err == nil && l != nil, "P10", "no coefficients for distinct nodes", "%s: %v", desc, err)
	w.State("P10l", t, n, at.BitLen() > 40, at.Sign() == 0)
	scalar := func(ys []Scalar) (y Scalar, err error) {
		err = w.Call("interpolate values", func() (e error) { y, e = l.InterpolateScalar(ys); return })
		return
	}
	point := func(ps []Point) (p Point, err error) {
		err = w.Call("interpolate points", func() (e error) { p, e = l.InterpolatePoint(ps); return })
		return
	}
	want := v.at(at)
	y, err := scalar(ys)
	w.Check(err == nil && BI(y).Cmp(want) == 0, "P10", "interpolated value is wrong", "%s: %v", desc, err)
	p, err := point(ps)
	w.Check(err == nil && RPof(p).eq(rMulG(want)), "P10", "interpolated point is wrong", "%s: %v", desc, err)
	// a number of values that is not the number of nodes
	m := w.Choose("values", n+3)
	if m != n {
		ys2, ps2 := append([]Scalar{}, ys...), append([]Point{}, ps...)
		for len(ys2) < m {
			ys2, ps2 = append(ys2, SC(new(big.Int))), append(ps2, PT(RP{}))
		}
		_, err = scalar(ys2[:m])
		w.Check(err != nil && !isPanic(err), "P10", "interpolation with another number of values", "%s, %d values: %v", desc, m, err)
		_, err = point(ps2[:m])
		w.Check(err != nil && !isPanic(err), "P10", "interpolation with another number of points", "%s, %d points: %v", desc, m, err)
	}
	// a node twice
	d := w.Choose("twice", n)
	a := w.Choose("twice at", n+1)
	twice := append(append(append([]NI{}, ni[:a]...), ni[d]), ni[a:]...)
	_, err = coeff(twice)
	w.Check(err != nil && !isPanic(err), "P10", "coefficients for a node given twice", "%s and %d: %v", desc, ni[d], err)
}

func p10Committee(w *World) {
	kind := w.Choose("op", 4)
	op := w.NewOp("op", kind, w.Size("tA", 1, 2, 14), w.Size("tB", 1, 2, 14))
	r := w.NewRound("r", op, 0, true)
	w.RunRound(r)
	w.Result(r, "P10")
}
