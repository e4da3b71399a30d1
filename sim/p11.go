package main

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/poly"
)

func init() {
	register(&Property{ID: "P11", Quick: 2200, Thorough: 40000,
		Scens: []Scenario{
			{"signers", 2, p11Signers},
			{"bad shares", 4, p11Bad},
			{"wrong kinds", 1, p11Kinds},
		},
		Rule: "A run lets signers compute shares for a request and verifiers check them over a faulty network, or shows verifiers altered, replayed, exchanged and incomplete shares.",
	})
	register(&Property{ID: "P12", Quick: 2200, Thorough: 28000,
		Scens: []Scenario{
			{"combiners", 3, p12Combiners},
			{"subsets", 2, p12Subsets},
		},
		Rule: "A run lets several combiners collect shares over a faulty network, some of them from Byzantine signers, or combines subsets of one set of shares.",
	})
}

func (w *World) signers(key string, n int) []int {
	idx := w.dealerSet(key, n)
	return idx
}

// stored gives the openings of signer i as they come back from its disk.
func (w *World) stored(nd *Node, q *Quad, i int) (l, kl, xl Opening) {
	get := func(name string, s *Sharing) Opening {
		b, ok := nd.Disk[name]
		if !ok {
			c, err := s.open(i).Serialize()
			w.Check(err == nil, w.in("P11", "P12", "P16"), "opening has no bytes", "%v", err)
			nd.Disk[name], b = c, c
		}
		o, err := poly.Commitment.Deserialize(b)
		w.Check(err == nil, w.in("P11", "P12", "P16"), "an opening does not survive the disk", "%v", err)
		return o
	}
	return get("lambda", q.lambda), get("kl", q.kl), get("xl", q.xl)
}

func p11Signers(w *World) {
	n := w.Size("n", 1, 5, 36)
	t := w.Thr("t", n)
	q := w.Quad("q", w.signers("s", n), t)
	nr := w.Range("requests", 1, 2)
	var reqs []*Req
	var rhos []*Rho
	for k := 0; k < nr; k++ {
		r := w.Req(fmt.Sprint("r", k), true)
		if k > 0 && w.Maybe("near", 500) {
			r, _ = w.alterReq("near", reqs[0], true)
		}
		reqs = append(reqs, r)
		rhos = append(rhos, w.rhoOf(fmt.Sprint(k), q, r))
	}
	nv := w.Range("verifiers", 1, 2)
	net := NewNet(w, "sg", n+nv, true)
	w.State("P11", n, t, len(reqs[0].path), len(reqs[0].hash), q.idx[n-1])
	type job struct{ s, k int }
	done := map[[3]int]bool{}
	for si, i := range q.idx {
		for k := range reqs {
			si, i, k := si, i, k
			nd := net.Nodes[si]
			var sent *SigShare
			var start func()
			tries := 0
			start = func() {
				if tries++; tries > 100 {
					return
				}
				nd.Do(fmt.Sprint("sign", k), func() {
					l, kl, xl := w.stored(nd, q, i)
					s, err := w.SignShare(fmt.Sprintf("%d/%d", i, k), q, reqs[k], l, kl, xl)
					w.Check(err == nil && s != nil, "P11", "a signer cannot sign", "signer %d, %v: %v", i, reqs[k], err)
					m, err := readShare(s)
					w.Check(err == nil && m.eq(q.share(reqs[k], rhos[k], i)), "P11", "a share is not the one the request asks for", "signer %d, %v: %v", i, reqs[k], err)
					sent = s
				})
				if sent == nil {
					w.After(90*ms, start)
					return
				}
				for v := 0; v < nv; v++ {
					v, s := v, sent
					net.Reliable(si, n+v, fmt.Sprintf("share %d/%d", i, k), func() bool { return done[[3]int{i, k, v}] }, func() {
						err := w.VerifyShare(fmt.Sprintf("%d/%d at %d", i, k, v), DeepCopy(s), q, reqs[k], i)
						w.Check(err == nil, "P11", "an honest share was rejected", "signer %d of %v t=%d, %v: %v", i, q.idx, t, reqs[k], err)
						done[[3]int{i, k, v}] = true
					})
				}
			}
			w.After(int64(w.Choose(fmt.Sprintf("when%d/%d", i, k), 10))*ms, start)
		}
	}
	net.Chaos()
	w.Run(100000)
	if len(done) < n*nr*nv {
		w.Block("shares did not arrive")
	}
	_ = job{}
}

func p11Bad(w *World) {
	n := w.Size("n", 2, 4, 36)
	t := w.Thr("t", n)
	q := w.Quad("q", w.signers("s", n), t)
	r := w.Req("r", true)
	o := w.rhoOf("", q, r)
	i := q.idx[w.Choose("signer", n)]
	base := q.share(r, o, i)
	if w.Maybe("by the library", 300) {
		s, err := w.SignShare("base", q, r, q.lambda.open(i), q.kl.open(i), q.xl.open(i))
		w.Check(err == nil, "P11", "a signer cannot sign", "signer %d, %v: %v", i, r, err)
		if m, err := readShare(s); err == nil {
			base = m
		}
	}
	err := w.VerifyShare("honest", base.share(), q, r, i)
	w.Check(err == nil, "P11", "an honest share was rejected", "signer %d of %v t=%d, %v: %v", i, q.idx, t, r, err)
	for a := 0; a < 5; a++ {
		key := fmt.Sprint("a", a)
		s := base
		vq, vr, vi := q, r, i // what the verifier asks
		d := w.RndNZ("d" + key)
		if w.Maybe("one"+key, 250) {
			d = big.NewInt(1)
		}
		var sh *SigShare
		what := ""
		kind := w.Choose("kind"+key, 14)
		switch kind {
		case 0:
			s.nv, what = addm(s.nv, d), "numerator value"
		case 1:
			s.nm, what = addm(s.nm, d), "numerator mask"
		case 2:
			s.dv, what = addm(s.dv, d), "denominator value"
		case 3:
			s.dm, what = addm(s.dm, d), "denominator mask"
		case 4: // opposite changes of value and mask
			if w.Maybe("den"+key, 500) {
				s.dv, s.dm = addm(s.dv, d), subm(s.dm, d)
			} else {
				s.nv, s.nm = addm(s.nv, d), subm(s.nm, d)
			}
			what = "value and mask"
		case 5: // the same factor for both, which the quotient does not show
			if d.Cmp(big.NewInt(1)) == 0 {
				d = big.NewInt(2)
			}
			if w.Maybe("negate"+key, 300) {
				d = new(big.Int).Sub(rN, big.NewInt(1))
			}
			s = mshare{mulm(s.nv, d), mulm(s.nm, d), mulm(s.dv, d), mulm(s.dm, d)}
			what = "both scaled"
		case 6:
			s = mshare{s.dv, s.dm, s.nv, s.nm}
			what = "numerator and denominator exchanged"
		case 7:
			s = mshare{s.nm, s.nv, s.dm, s.dv}
			what = "value and mask exchanged"
		case 8: // another signer's share, or part of it
			j := q.idx[w.Choose("other"+key, n)]
			m := q.share(r, o, j)
			switch w.Choose("part"+key, 4) {
			case 0:
				s = m
			case 1:
				s.nv, s.nm = m.nv, m.nm
			case 2:
				s.dv, s.dm = m.dv, m.dm
			case 3:
				vi = j
			}
			what = "another signer's"
		case 9: // one index, not far away
			vi = i ^ 1<<uint(w.Choose("bit"+key, 32))
			what = "another index"
		case 10: // another request
			r2, wh := w.alterReq(key, r, true)
			o2 := w.rhoOf(key, q, r2)
			m := q.share(r2, o2, i)
			switch w.Choose("part"+key, 4) {
			case 0:
				s = m
			case 1:
				s.nv, s.nm = m.nv, m.nm
			case 2:
				s.dv, s.dm = m.dv, m.dm
			case 3:
				vr = r2
			}
			what = "another request: " + wh
		case 11: // another presignature for the same key
			q2 := &Quad{idx: q.idx, t: t, key: q.key}
			w.presign(key, q2)
			o2 := w.rhoOf(key, q2, r)
			c := *q
			switch w.Choose("part"+key, 5) {
			case 0:
				s = q2.share(r, o2, i)
			case 1:
				vq = q2
			case 2:
				c.lambda = q2.lambda
				vq = &c
			case 3:
				c.kl = q2.kl
				vq = &c
			case 4:
				c.kappa = q2.kappa
				vq = &c
			}
			what = "another presignature"
		case 12: // another key
			q2 := w.Quad(key, q.idx, t)
			q2.kappa, q2.lambda, q2.kl = q.kappa, q.lambda, q.kl
			q2.xl = w.Sharing(key+"/xl", t, mulm(q2.key.secret(), q.lambda.secret()), true)
			if w.Maybe("verifier"+key, 500) {
				vq = q2
			} else {
				s = q2.share(r, w.rhoOf(key, q2, r), i)
			}
			what = "another key"
		case 13:
			no, do := mkOpening(s.nv, s.nm), mkOpening(s.dv, s.dm)
			switch w.Choose("missing"+key, 8) {
			case 0:
				no = nil
			case 1:
				do = nil
			case 2:
				no, do = nil, nil
			case 3:
				no = mkOpening(s.nv, nil)
			case 4:
				do = mkOpening(s.dv, nil)
			case 5:
				no = poly.PedersenCommitmentOpening{nil, SC(s.nm)}
			case 6:
				do = poly.PedersenCommitmentOpening{SC(s.dv), nil}
			case 7:
				no, do = mkOpening(s.nv, nil), mkOpening(s.dv, nil)
			}
			sh = mkShare(no, do)
			what = "incomplete"
		}
		if sh == nil {
			// what the verifier asks, in the model
			vo := w.rhoOf("verifier "+key, vq, vr)
			if s.eq(vq.share(vr, vo, vi)) {
				continue
			}
			sh = s.share()
		}
		w.State("P11b", kind, what)
		err := w.VerifyShare("bad", sh, vq, vr, vi)
		w.Check(err != nil, "P11", "a bad share was accepted: "+cutAt(what), "%s; signer %d as %d, %v", what, i, vi, vr)
		if isPanic(err) {
			w.Fail("P11", "a bad share panics", "%s: %v", what, err)
		}
	}
}

// cutAt shortens a description to a class.
func cutAt(s string) string {
	for i := range s {
		if s[i] == ':' {
			return s[:i]
		}
	}
	return s
}

func p11Kinds(w *World) {
	n := w.Size("n", 1, 3, 36)
	t := w.Thr("t", n)
	q := w.Quad("q", w.signers("s", n), t)
	r := w.Req("r", true)
	i := q.idx[w.Choose("signer", n)]
	in := []Opening{q.lambda.open(i), q.kl.open(i), q.xl.open(i)}
	names := []string{"lambda", "kappa times lambda", "key times lambda"}
	s, err := w.SignShare("honest", q, r, in[0], in[1], in[2])
	w.Check(err == nil && s != nil, "P11", "a signer cannot sign", "%v", err)
	k := w.Choose("which", 3)
	what := ""
	switch w.Choose("how", 4) {
	case 0:
		v, _, _ := opVals(in[k])
		in[k], what = mkOpening(v, nil), "unmasked"
	case 1:
		v, _, _ := opVals(in[k])
		in[k], what = &poly.SimpleCommitmentOpening{SC(v)}, "unmasked, as read from disk"
	case 2:
		in[k], what = nil, "missing"
	case 3:
		for j := range in {
			v, _, _ := opVals(in[j])
			in[j] = mkOpening(v, nil)
		}
		what = "all unmasked"
	}
	w.State("P11k", what, k)
	s, err = w.SignShare("wrong kind", q, r, in[0], in[1], in[2])
	w.Check(err != nil && s == nil, "P11", "a share from shares of the wrong kind", "%s %s", names[k], what)
	if isPanic(err) {
		w.Fail("P11", "a share of the wrong kind panics", "%s %s: %v", names[k], what, err)
	}
	// a presignature of the wrong kind
	c := *q
	c.kappa = w.Sharing("masked kappa", t, q.kappa.secret(), true)
	s, err = w.SignShare("masked presignature", &c, r, q.lambda.open(i), q.kl.open(i), q.xl.open(i))
	w.Check(err != nil && s == nil, "P11", "a share with a presignature of the wrong kind", "")
	m := q.share(r, w.rhoOf("", q, r), i)
	err = w.VerifyShare("masked presignature", m.share(), &c, r, i)
	w.Check(err != nil, "P11", "a share with a presignature of the wrong kind was accepted", "")
}

// checkSig compares a combined signature with the model and an independent verifier.
func (w *World) checkSig(prop, what string, s *Sig, q *Quad, r *Req, o *Rho) {
	if s == nil || s.R == nil || s.S == nil {
		w.Check(false, prop, "a signature is incomplete", "%s", what)
		return
	}
	gr, gs := BI(s.R), BI(s.S)
	er, es := q.sig(r, o)
	w.Check(gr.Cmp(er) == 0 && gs.Cmp(es) == 0, prop, "a combined signature is not the signature of the request", "%s, %v", what, r)
	w.Check(!rHigh(gs), prop, "s is in the upper half", "%s, %v", what, r)
	if len(r.hash) <= 32 {
		w.Check(rECDSA(o.child, r.hash, gr, gs), prop, "a combined signature does not verify", "%s, %v", what, r)
	}
}

func p12Combiners(w *World) {
	n := w.Size("n", 1, 5, 36)
	t := w.Thr("t", n)
	q := w.Quad("q", w.signers("s", n), t)
	r := w.Req("r", true)
	o := w.rhoOf("", q, r)
	nb := 0
	if n > t {
		nb = w.Choose("byzantine", n-t+1)
	}
	byz := map[int]bool{}
	for _, k := range w.Subset("byz", n, nb) {
		byz[q.idx[k]] = true
		w.CountFault("byzantine signer")
	}
	nc := w.Range("combiners", 1, 3)
	w.State("P12", n, t, nb, nc, len(r.hash), len(r.path))
	want := make([]int, nc) // how many shares a combiner waits for
	for c := range want {
		want[c] = t + w.Choose(fmt.Sprint("wait", c), n-nb-t+1)
	}
	if _, missing := w.combiners("cb", q, r, o, byz, want, w.stored); missing >= 0 {
		w.Block("combiner %d never had enough shares", missing)
	}
}

// combiners lets clients collect the shares for a request until they have a signature; it gives the
// time the last one had it and a client that never got there.
func (w *World) combiners(name string, q *Quad, r *Req, o *Rho, byz map[int]bool, want []int, load func(nd *Node, q *Quad, i int) (l, kl, xl Opening)) (doneAt int64, missing int) {
	n, nc, t := len(q.idx), len(want), q.t
	net := NewNet(w, name, n+nc, true)
	got := make([]*Sig, nc)
	have := make([]map[int]*SigShare, nc)
	refused := make([]map[int]bool, nc)
	for c := range have {
		c := c
		have[c], refused[c] = map[int]*SigShare{}, map[int]bool{}
		net.Nodes[n+c].OnCrash = func() { have[c], refused[c] = map[int]*SigShare{}, map[int]bool{} }
	}
	onShare := func(c, i int, s *SigShare) {
		if got[c] != nil || have[c][i] != nil || refused[c][i] {
			return
		}
		err := w.VerifyShare(fmt.Sprintf("%d at %d", i, c), s, q, r, i)
		if err != nil {
			w.Check(byz[i], w.in("P12", "P11"), "an honest share was rejected", "signer %d, %v: %v", i, r, err)
			refused[c][i] = true
			return
		}
		if byz[i] {
			w.Fail(w.in("P12", "P11"), "a bad share was accepted", "signer %d, %v", i, r)
			return
		}
		have[c][i] = s
		cnt := len(have[c])
		if cnt < t {
			if cnt > 0 && w.Maybe(fmt.Sprintf("early%d/%d", c, cnt), 300) {
				m := &SigMap{}
				for _, k := range sortedKeys(have[c]) {
					m.Set(NI(k), have[c][k])
				}
				x, err := w.Combine(fmt.Sprint("early at ", c), q, r, t, m)
				w.Check(err != nil && x == nil, w.in("P12"), "too few shares were combined", "%d of %d", cnt, t)
			}
			return
		}
		if cnt < want[c] {
			return
		}
		m := &SigMap{}
		ks := sortedKeys(have[c])
		for _, j := range w.Perm(fmt.Sprint("insert", c), len(ks)) {
			m.Set(NI(ks[j]), have[c][ks[j]])
		}
		x, err := w.Combine(fmt.Sprint("at ", c), q, r, t, m)
		w.Check(err == nil, w.in("P12"), "valid shares do not combine", "%d shares %v, t=%d, %v: %v", cnt, ks, t, r, err)
		w.checkSig(w.in("P12"), fmt.Sprintf("shares %v, t=%d", ks, t), x, q, r, o)
		err = w.VerifySig(fmt.Sprint("at ", c), x, q, r)
		w.Check(err == nil, w.in("P12"), "the library rejects the combined signature", "shares %v, t=%d, %v: %v", ks, t, r, err)
		got[c] = x
		doneAt = w.now - net.until
	}
	for si, i := range q.idx {
		si, i := si, i
		nd := net.Nodes[si]
		m := q.share(r, o, i)
		var sent *SigShare
		var start func()
		start = func() {
			if !nd.up && w.now > net.until {
				return
			}
			nd.Do("sign", func() {
				if byz[i] {
					sent = w.byzShare(fmt.Sprint("byz", i), m, q, r, o, i)
					return
				}
				l, kl, xl := load(nd, q, i)
				s, err := w.SignShare(fmt.Sprint(i), q, r, l, kl, xl)
				w.Check(err == nil && s != nil, w.in("P12", "P11"), "a signer cannot sign", "signer %d, %v: %v", i, r, err)
				sent = s
			})
			if sent == nil {
				w.After(90*ms, start)
				return
			}
			for c := 0; c < nc; c++ {
				c, s := c, sent
				net.Reliable(si, n+c, fmt.Sprint("share ", i), func() bool { return got[c] != nil || have[c][i] != nil || refused[c][i] }, func() { onShare(c, i, DeepCopy(s)) })
			}
		}
		w.After(int64(w.Choose(fmt.Sprint("when", i), 30))*ms, start)
		// after a combiner lost what it had, shares are repeated
		for c := 0; c < nc; c++ {
			c := c
			old := net.Nodes[n+c].OnRestart
			net.Nodes[n+c].OnRestart = func() {
				if old != nil {
					old()
				}
				if sent != nil {
					net.Reliable(si, n+c, fmt.Sprintf("share %d again %d", i, net.Nodes[n+c].epoch), func() bool { return got[c] != nil || have[c][i] != nil || refused[c][i] }, func() { onShare(c, i, DeepCopy(sent)) })
				}
			}
		}
	}
	net.Chaos()
	w.Run(100000)
	for c := range got {
		if got[c] == nil {
			return 0, c
		}
	}
	return doneAt, -1
}

// byzShare is a share that is not the right one.
func (w *World) byzShare(key string, m mshare, q *Quad, r *Req, o *Rho, i int) *SigShare {
	d := w.RndNZ("d" + key)
	switch w.Choose("how"+key, 6) {
	case 0:
		m.nv = addm(m.nv, d)
	case 1:
		m.dv = addm(m.dv, d)
	case 2:
		m.nv, m.nm, m.dv, m.dm = mulm(m.nv, d), mulm(m.nm, d), mulm(m.dv, d), mulm(m.dm, d)
	case 3:
		m.dm = addm(m.dm, big.NewInt(1))
	case 4:
		return mkShare(mkOpening(m.nv, nil), mkOpening(m.dv, m.dm))
	case 5:
		m = q.share(r, o, i+1)
	}
	if m.eq(q.share(r, o, i)) { // with a threshold of one all have the same share
		m.nv = addm(m.nv, d)
	}
	return m.share()
}

func p12Subsets(w *World) {
	n := w.Size("n", 2, 7, 36)
	t := w.Thr("t", n)
	q := w.Quad("q", w.signers("s", n), t)
	r := w.Req("r", true)
	o := w.rhoOf("", q, r)
	lib := w.Maybe("by the library", 300)
	w.State("P12s", n, t, q.idx, len(r.hash))
	for k := 0; k < 4; k++ {
		size := t + w.Choose(fmt.Sprint("size", k), n-t+1)
		few := t > 1 && w.Maybe(fmt.Sprint("few", k), 250)
		if few {
			size = w.Choose(fmt.Sprint("size", k), t)
		}
		perm := w.Perm(fmt.Sprint("sub", k), n)[:size]
		m := &SigMap{}
		var who []int
		for _, j := range perm {
			i := q.idx[j]
			who = append(who, i)
			s := q.share(r, o, i).share()
			if lib {
				x, err := w.SignShare(fmt.Sprint(i), q, r, q.lambda.open(i), q.kl.open(i), q.xl.open(i))
				w.Check(err == nil, w.in("P12", "P11"), "a signer cannot sign", "signer %d, %v: %v", i, r, err)
				s = x
			}
			m.Set(NI(i), s)
			if w.Maybe(fmt.Sprintf("twice%d/%d", k, j), 100) {
				m.Set(NI(i), DeepCopy(s))
			}
		}
		x, err := w.Combine(fmt.Sprint(who), q, r, t, m)
		if few {
			w.Check(err != nil && x == nil, "P12", "too few shares were combined", "%d of %d", size, t)
			continue
		}
		w.Check(err == nil, "P12", "valid shares do not combine", "shares %v, t=%d, %v: %v", who, t, r, err)
		w.checkSig("P12", fmt.Sprintf("shares %v, t=%d", who, t), x, q, r, o)
		err = w.VerifySig("own", x, q, r)
		w.Check(err == nil, "P12", "the library rejects the combined signature", "shares %v, t=%d, %v: %v", who, t, r, err)
	}
}
