package main

// One round of the protocol: dealers deal to a committee, a ledger agrees on a set of dealings, every
// receiver aggregates and opens, complains and recovers, all over a faulty network.

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
)

const (
	byzNone    = iota
	byzSilent  // never sends anything
	byzPublic  // sends dealings that everybody can see to be bad
	byzCorrupt // corrupts the shares of some receivers
)

// Round is one round and its outcome.
type Round struct {
	key     string
	op      *OpCase
	t       int
	keys    []Keys // of the receivers
	ad      []byte
	dealers []int
	byz     map[int]int
	liars   map[int]bool // Byzantine receivers
	dead    map[int]bool // the liars that are gone for good
	target  int          // dealings to agree on
	witness func(dealer int) (dealings.SecretShares, error)

	agreed    []int
	want      []RP // reference commitment
	tr        []*Trans
	open      []Opening
	recovered []bool
	doneAt    int64
	healed    int64
}

func (r *Round) n() int { return len(r.keys) }

// own gives the property a failure counts for: the end-to-end ones own everything on their way.
func (w *World) own(p string) string {
	switch w.Prop {
	case "P06", "P07", "P20":
		return w.Prop
	}
	return p
}

// NewRound draws a round for an operation: old is the size of the dealing committee (0: any).
func (w *World) NewRound(key string, op *OpCase, old int, faulty bool) *Round {
	n := w.Size("n:"+key, 1, 6, 20)
	r := &Round{key: key, op: op, byz: map[int]int{}, liars: map[int]bool{}}
	r.t = w.Thr("t:"+key, n)
	r.keys = w.Committee("r:"+key, n)
	r.ad = w.AD(key)
	spare := n - r.t
	if spare > 0 && faulty && w.Maybe("liars:"+key, 250) {
		for _, i := range w.Subset("liar:"+key, n, w.Range("nliars:"+key, 1, spare)) {
			r.liars[i] = true
			w.CountFault("byzantine receiver")
		}
	}
	need := op.need()
	m := need + w.Choose("extra:"+key, 3)
	nb := 0
	if faulty {
		nb = w.Pick("nbyz:"+key, 3, 3, 1)
	}
	if old > 0 {
		if m+nb > old {
			m, nb = min(m, old), max(0, old-m)
			if m < need {
				m, nb = need, 0
			}
			nb = min(nb, 2)
		}
		perm := w.Perm("who:"+key, old)
		r.dealers = append(r.dealers, perm[:m+nb]...)
	} else {
		for i := 0; i < m+nb; i++ {
			r.dealers = append(r.dealers, w.Index(fmt.Sprint("d:", key, i), w.Choose(fmt.Sprint("d.at:", key, i), 8)))
		}
		distinct(r.dealers)
	}
	r.target = m
	for i := 0; i < nb; i++ {
		r.byz[r.dealers[i]] = 1 + w.Choose(fmt.Sprint("byz:", key, i), 2)
		w.CountFault([]string{"", "silent dealer", "publicly bad dealer"}[r.byz[r.dealers[i]]])
	}
	if faulty && spare > len(r.liars) {
		for i := nb; i < len(r.dealers); i++ {
			if w.Maybe(fmt.Sprint("corrupt:", key, i), 250) {
				r.byz[r.dealers[i]] = byzCorrupt
				w.CountFault("dealer corrupting shares")
			}
		}
	}
	return r
}

// badDealing is a dealing every honest node has to reject.
func (w *World) badDealing(key string, r *Round, dealer int) *Dealing {
	b := &bad{d: w.HonestDeal(key, r.op, r.t, r.keys, dealer, r.ad), op: r.op.Op(w, key), t: r.t, idx: dealer, n: r.n(), ad: r.ad}
	h := DeepCopy(b.d)
	for k := 0; k < 4; k++ {
		c := *b
		c.d = DeepCopy(h)
		if p02AttackOf(w, fmt.Sprint(key, "/atk", k), &c, r.op, r.keys, h, dealingAttacks) {
			return c.d
		}
	}
	setScalar(*partsOf(h.Ciphertext).Proof, "response", 1, w.RndNZ(key))
	return h
}

// receiver state that a crash destroys
type rcv struct {
	have     map[int]*Dealing
	agreed   []int
	set      *DealMap
	tr       *Trans
	provided map[int]map[int]Opening
	helped   map[string][]byte
	rejected map[string]bool
}

// RunRound plays a round. Every honest receiver ends with the transcript and its share.
func (w *World) RunRound(r *Round) {
	n, nd := r.n(), len(r.dealers)
	ledger := n + nd
	net := NewNet(w, r.key, n+nd+1, true)
	r.healed = net.until
	net.Nodes[ledger].solid = true
	r.tr, r.open, r.recovered = make([]*Trans, n), make([]Opening, n), make([]bool, n)
	st := make([]*rcv, n)
	fresh := func() *rcv {
		return &rcv{have: map[int]*Dealing{}, provided: map[int]map[int]Opening{}, helped: map[string][]byte{}, rejected: map[string]bool{}}
	}
	opN := opNames[r.op.kind]
	pos := map[int]int{}
	for i, d := range r.dealers {
		pos[d] = i
	}

	// the ledger
	bulletin := map[int]*Dealing{}
	votes := map[int]map[int]bool{}
	tryAgree := func() {
		if r.agreed != nil {
			return
		}
		var ok []int
		for _, d := range r.dealers {
			if bulletin[d] != nil && len(votes[d]) >= r.t+len(r.liars) {
				ok = append(ok, d)
			}
		}
		if len(ok) < r.target {
			return
		}
		sort.Ints(ok)
		r.agreed = ok
		w.Ev("agreed on %v", ok)
		s := &dealSet{idx: ok, pts: map[int][]RP{}, t: r.t, op: r.op}
		for _, d := range ok {
			s.pts[d] = RefPoints(bulletin[d].Commitment)
		}
		r.want = s.expect()
	}

	// receivers
	var onAgreed func(i int)
	finish := func(i int, tr *Trans, o Opening) {
		pts := RefPoints(tr.CombinedCommitment)
		w.Check(onCommit(r.want, r.op.masked(), i, o), w.own("P05"), "a receiver's share is not on the transcript", "%s t=%d agreed %v, receiver %d", opN, r.t, r.agreed, i)
		cb, err := tr.CombinedCommitment.Serialize()
		w.Check(err == nil, w.own("P16"), "transcript has no bytes", "%v", err)
		ob, err := o.Serialize()
		w.Check(err == nil, w.own("P16"), "opening has no bytes", "%v", err)
		net.Nodes[i].Disk["transcript"], net.Nodes[i].Disk["opening"] = cb, ob
		_ = pts
		r.tr[i], r.open[i] = tr, o
		r.doneAt = w.now
		w.Ev("receiver %d has its share", i)
	}
	recover1 := func(i int) {
		s := st[i]
		if s.tr == nil || r.open[i] != nil {
			return
		}
		prov := &OpenMaps{}
		for d, m := range s.provided {
			if len(m) < r.t {
				return
			}
			om := &OpenMap{}
			for h, o := range m {
				om.Set(NI(h), o)
			}
			prov.Set(NI(d), om)
		}
		var o Opening
		err := w.Call(fmt.Sprint("recover at ", i), func() (e error) {
			o, e = dealings.CommitmentOpening.FromDealingsAndOpenings(s.set, prov, s.tr.CombinedCommitment, r.ad, NI(i), r.keys[i].SK, r.keys[i].PK)
			return
		})
		w.Check(err == nil && o != nil, w.own2("P05", "P10"), "a share was not recovered from correct openings", "%s t=%d, receiver %d: %v", opN, r.t, i, err)
		w.Probe("share recovered from openings")
		r.recovered[i] = true
		finish(i, s.tr, o)
	}
	gotOpening := func(i, d, h int, b []byte) {
		s := st[i]
		if s.provided[d] == nil || s.provided[d][h] != nil || r.open[i] != nil {
			return
		}
		var o Opening
		err := w.Call(fmt.Sprintf("read opening of %d from %d at %d", d, h, i), func() (e error) {
			o, e = poly.Commitment.Deserialize(b)
			return
		})
		ok := false
		if err == nil {
			dl, _ := s.set.Get(NI(d))
			w.Call("check opening", func() error { ok = dl.Commitment.CheckOpening(NI(h), o); return nil })
		}
		if r.liars[h] {
			if !ok {
				return
			}
			// it may have told the truth after all
			dl, _ := s.set.Get(NI(d))
			w.Check(onCommit(RefPoints(dl.Commitment), r.op.masked(), h, o), w.own("P10"), "a wrong opening was accepted", "of dealing %d from %d", d, h)
		} else {
			w.Check(ok, w.own2("P05", "P10"), "a correct opening was refused", "%s, of dealing %d from %d at %d: %v", opN, d, h, i, err)
		}
		s.provided[d][h] = o
		recover1(i)
	}
	onComplaint := func(h, from, d int, c *complaints.IDkgComplaintInternal, honest bool) {
		s := st[h]
		if s.set == nil {
			return
		}
		key := fmt.Sprintf("%d/%d", from, d)
		b := s.helped[key]
		if b == nil && !s.rejected[key] {
			dl, in := s.set.Get(NI(d))
			if !in {
				return
			}
			err := w.Call(fmt.Sprintf("verify complaint of %d about %d at %d", from, d, h), func() error {
				return c.Verify(dl, NI(d), NI(from), r.keys[from].PK, r.ad)
			})
			if !honest {
				w.Check(err != nil, w.own("P09"), "a false complaint was accepted", "%s dealing %d, from %d", opN, d, from)
				s.rejected[key] = true
				return
			}
			w.Check(err == nil, w.own2("P05", "P08"), "a justified complaint was rejected", "%s dealing %d, from %d at %d: %v", opN, d, from, h, err)
			o, err := w.OpenDealing(fmt.Sprintf("%d for %d at %d", d, from, h), dl, r.keys[h], r.ad, d, h)
			if err != nil { // a victim itself
				s.rejected[key] = true
				return
			}
			if r.liars[h] {
				v, m, _ := opVals(o)
				switch w.Choose(fmt.Sprintf("lie:%s:%d:%s", r.key, h, key), 4) {
				case 0:
					v = addm(v, big.NewInt(1))
				case 1:
					v = w.RndNZ("lie" + key)
				case 2:
					if m == nil {
						m = v
					} else {
						m = nil
					}
				case 3:
					if m != nil {
						m = addm(m, big.NewInt(1))
					} else {
						v = new(big.Int)
					}
				}
				o = mkOpening(v, m)
			}
			b, err = o.Serialize()
			w.Check(err == nil, w.own("P16"), "opening has no bytes", "%v", err)
			s.helped[key] = b
		}
		if b == nil {
			return
		}
		net.Send(h, from, fmt.Sprintf("%s opening %d", r.key, d), func() { gotOpening(from, d, h, b) })
	}
	onAgreed = func(i int) {
		s := st[i]
		if s.set == nil {
			m := &DealMap{}
			for _, k := range w.Perm(fmt.Sprint("insert:", r.key, i), len(r.agreed)) {
				m.Set(NI(r.agreed[k]), DeepCopy(bulletin[r.agreed[k]]))
			}
			tr, err := w.Transcript(fmt.Sprint("at ", i), r.t, m, r.op.Op(w, fmt.Sprint(r.key, "tr", i)))
			w.Check(err == nil && tr != nil, w.own2("P05", "P04"), "an agreed set was refused", "%s t=%d dealers %v: %v", opN, r.t, r.agreed, err)
			w.Check(eqPts(RefPoints(tr.CombinedCommitment), r.want), w.own2("P05", "P04"), "transcript is not the combination of its dealings", "%s t=%d dealers %v at %d", opN, r.t, r.agreed, i)
			s.set, s.tr = m, tr
		}
		if r.liars[i] {
			for k, d := range r.agreed {
				if !w.Maybe(fmt.Sprintf("false complaint:%s:%d:%d", r.key, i, k), 300) {
					continue
				}
				dl, _ := s.set.Get(NI(d))
				if _, err := w.OpenDealing("before lying", dl, r.keys[i], r.ad, d, i); err != nil {
					continue
				}
				var c *complaints.IDkgComplaintInternal
				err := w.Call("false complaint", func() (e error) {
					c, e = complaints.NewComplaintInternal(seedOf(w.Bytes(fmt.Sprint("fc", r.key, i, d), 32)), dl, NI(d), NI(i), r.keys[i].SK, r.keys[i].PK, r.ad)
					return
				})
				if err != nil {
					continue
				}
				w.CountFault("false complaint")
				for h := 0; h < n; h++ {
					if h != i && !r.liars[h] {
						d, h, c := d, h, c
						net.Send(i, h, fmt.Sprintf("%s false complaint %d", r.key, d), func() { onComplaint(h, i, d, c, false) })
					}
				}
			}
			return
		}
		if r.open[i] != nil {
			return
		}
		o, err := w.OpenTranscript(fmt.Sprint("at ", i), s.set, s.tr, r.ad, r.keys[i], i)
		if err == nil {
			finish(i, s.tr, o)
			return
		}
		hurt := []int{}
		for _, d := range r.agreed {
			if r.byz[d] == byzCorrupt {
				hurt = append(hurt, d)
			}
		}
		w.Check(len(hurt) > 0, w.own("P05"), "a receiver cannot open its share", "%s t=%d agreed %v, receiver %d: %v", opN, r.t, r.agreed, i, err)
		var cs map[int]*complaints.IDkgComplaintInternal
		err = w.Call(fmt.Sprint("complain at ", i), func() error {
			m, e := complaints.GenerateComplaints(s.set, r.ad, NI(i), r.keys[i].SK, r.keys[i].PK, seedOf(w.Bytes(fmt.Sprint("complaint", r.key, i), 32)))
			if e != nil {
				return e
			}
			cs = map[int]*complaints.IDkgComplaintInternal{}
			m.Scan(func(d NI, c *complaints.IDkgComplaintInternal) bool { cs[int(d)] = c; return true })
			return nil
		})
		w.Check(err == nil && len(cs) > 0, w.own2("P05", "P08"), "a victim got no complaint", "%s agreed %v, receiver %d: %v", opN, r.agreed, i, err)
		w.Probe("complaint made")
		for _, d := range sortedKeys(cs) {
			w.Check(r.byz[d] == byzCorrupt, w.own("P08"), "a complaint about a fine dealing", "%s dealing %d, receiver %d", opN, d, i)
			if s.provided[d] == nil {
				s.provided[d] = map[int]Opening{}
			}
			for h := 0; h < n; h++ {
				if h == i {
					continue
				}
				d, h, c := d, h, cs[d]
				net.Reliable(i, h, fmt.Sprintf("%s complaint %d", r.key, d), func() bool {
					return r.open[i] != nil || st[i].provided[d] == nil || st[i].provided[d][h] != nil || st[h].rejected[fmt.Sprintf("%d/%d", i, d)]
				}, func() { onComplaint(h, i, d, DeepCopy(c), true) })
			}
		}
	}
	publish := func(i int, again string) {
		net.Reliable(ledger, i, r.key+" agreed"+again, func() bool { return st[i].set != nil }, func() {
			if st[i].set == nil && r.agreed != nil {
				onAgreed(i)
			}
		})
	}
	for i := 0; i < n; i++ {
		i := i
		st[i] = fresh()
		node := net.Nodes[i]
		node.Disk["sk"], node.Disk["pk"] = r.keys[i].SK.Serialize(), r.keys[i].PK.Serialize()
		node.OnCrash = func() { st[i] = fresh() }
		node.OnRestart = func() {
			k, err := r.keys[i].Reload()
			w.Check(err == nil, w.own("P16"), "keys do not survive a restart", "%v", err)
			r.keys[i] = k
			if b, ok := node.Disk["opening"]; ok {
				o, err := poly.Commitment.Deserialize(b)
				w.Check(err == nil, w.own2("P05", "P16"), "an opening does not survive a restart", "%s: %v", opN, err)
				w.Check(onCommit(r.want, r.op.masked(), i, o), w.own2("P05", "P16"), "an opening changes over a restart", "%s", opN)
				r.open[i] = o
				w.Probe("share restored from disk")
			}
			if r.agreed != nil {
				publish(i, fmt.Sprint(" after ", node.epoch))
			}
		}
	}
	agreedNow := func() {
		was := r.agreed != nil
		tryAgree()
		if !was && r.agreed != nil {
			for i := 0; i < n; i++ {
				publish(i, "")
			}
		}
	}
	vote := func(i, d int, dl *Dealing) {
		net.Reliable(i, ledger, fmt.Sprintf("%s vote %d", r.key, d), func() bool { return votes[d][i] || r.agreed != nil }, func() {
			if votes[d] == nil {
				votes[d] = map[int]bool{}
			}
			votes[d][i] = true
			agreedNow()
		})
	}
	onDealing := func(i, d int, dl *Dealing) {
		s := st[i]
		if s.have[d] != nil || r.agreed != nil {
			return
		}
		id := fmt.Sprintf("%d at %d", d, i)
		err := w.PubVerify(id, dl, r.op.Op(w, fmt.Sprint(r.key, "pv", i)), r.t, d, n, r.ad)
		if r.byz[d] == byzPublic {
			w.Check(err != nil, w.own("P02"), "invalid dealing accepted", "%s dealer %d", opN, d)
			if err == nil {
				return
			}
			s.have[d] = dl
			return
		}
		if err != nil {
			w.pre("P01", "honest dealing publicly rejected", "%s t=%d n=%d dealer %d: %v", opN, r.t, n, d, err)
		}
		err = w.PrivVerify(id, dl, r.keys[i], r.ad, d, i)
		if err != nil && r.byz[d] != byzCorrupt {
			w.pre("P01", "honest share privately rejected", "%s t=%d n=%d dealer %d receiver %d: %v", opN, r.t, n, d, i, err)
		}
		s.have[d] = dl
		if err == nil {
			vote(i, d, dl)
		}
	}

	// dealers
	for di, d := range r.dealers {
		di, d := di, d
		if r.byz[d] == byzSilent {
			continue
		}
		node := net.Nodes[n+di]
		name := fmt.Sprint(r.key, "/", d)
		sd := w.Bytes("seed:"+name, 32)
		var dl *Dealing
		switch r.byz[d] {
		case byzPublic:
			dl = w.badDealing(name, r, d)
		case byzCorrupt:
			var honest []int
			for i := 0; i < n; i++ {
				if !r.liars[i] {
					honest = append(honest, i)
				}
			}
			k := 1 + w.Choose("nvict:"+name, max(1, len(honest)-r.t-len(r.liars)))
			if k > len(honest)-r.t {
				k = len(honest) - r.t
			}
			var vict []int
			for _, j := range w.Subset("vict:"+name, len(honest), k) {
				vict = append(vict, honest[j])
			}
			// votes needed are t+liars: the rest of the honest and the liars have to reach that
			dl = w.CorruptDealing(name, r.op, r.t, r.keys, d, r.ad, vict).D
		}
		byz := dl
		node.OnCrash = func() { dl = byz }
		make1 := func() {
			if dl != nil {
				return
			}
			var sh dealings.SecretShares
			var err error
			if r.witness != nil {
				sh, err = r.witness(d)
			} else {
				sh, err = r.op.Shares(w, name, d, w.Choose("route:"+name, 3))
			}
			if err != nil {
				w.pre("P01", "share witness refused", "%s dealer %d: %v", opN, d, err)
			}
			x, err := w.Deal(name, sh, sd, r.t, r.keys, d, r.ad)
			if err != nil {
				w.pre("P01", "honest dealing refused at creation", "%s t=%d n=%d dealer %d: %v", opN, r.t, n, d, err)
			}
			dl = x
		}
		sending := false
		var start func()
		start = func() {
			if r.agreed != nil {
				return
			}
			if dl == nil {
				node.Do("create "+name, make1)
			}
			if dl == nil {
				w.After(100*ms, start)
				return
			}
			if sending {
				return
			}
			sending = true
			x := dl
			for i := 0; i < n; i++ {
				i := i
				net.Reliable(n+di, i, name, func() bool { return st[i].have[d] != nil || r.agreed != nil }, func() { onDealing(i, d, DeepCopy(x)) })
			}
			net.Reliable(n+di, ledger, name, func() bool { return bulletin[d] != nil }, func() {
				bulletin[d] = DeepCopy(x)
				agreedNow()
			})
		}
		node.OnRestart = func() {
			if node.up && byz == nil {
				start()
			}
		}
		start()
	}
	// receivers that lose what they had by a crash ask again
	var poll func()
	polls := 0
	poll = func() {
		polls++
		if r.agreed != nil || polls > 60 {
			return
		}
		for di, d := range r.dealers {
			if r.byz[d] == byzSilent || bulletin[d] == nil {
				continue
			}
			for i := 0; i < n; i++ {
				if st[i].have[d] == nil {
					i, d := i, d
					net.Send(ledger, i, fmt.Sprintf("%s repeat %d~%d", r.key, d, polls), func() { onDealing(i, d, DeepCopy(bulletin[d])) })
				}
			}
			_ = di
		}
		w.After(300*ms, poll)
	}
	w.After(300*ms, poll)
	for i := 0; i < n; i++ {
		if r.dead[i] {
			net.Nodes[i].Crash(1 << 40)
		}
	}
	net.Chaos()
	w.Run(400000)
	if r.agreed == nil {
		w.pre("P20", "no agreement after faults stopped", "%s n=%d t=%d dealers %v byz %v liars %v", opN, n, r.t, r.dealers, r.byz, r.liars)
	}
	for i := 0; i < n; i++ {
		if r.liars[i] {
			continue
		}
		w.Check(r.open[i] != nil, w.own("P05"), "a receiver never got its share", "%s n=%d t=%d agreed %v byz %v liars %v, receiver %d", opN, n, r.t, r.agreed, r.byz, r.liars, i)
	}
}

// own2 is own, except that prop counts as it is when it is the one being checked.
func (w *World) own2(mine, other string) string {
	if w.Prop == mine {
		return mine
	}
	return w.own(other)
}

// pre reports a failure of the preparation, which only an end-to-end property owns.
func (w *World) pre(prop, class, format string, a ...interface{}) {
	p := w.own(prop)
	w.evals++
	w.Fail(p, class, format, a...)
	w.Block("%s: %s", class, fmt.Sprintf(format, a...))
}

// honest lists the receivers that follow the protocol.
func (r *Round) honest() []int {
	var out []int
	for i := range r.keys {
		if !r.liars[i] {
			out = append(out, i)
		}
	}
	return out
}

// Result reads the sharing out of the honest shares and compares it with the transcript.
func (w *World) Result(r *Round, prop string) *Sharing {
	hs := r.honest()
	sub := hs
	if len(hs) > r.t {
		sub = nil
		for _, k := range w.Subset("result:"+r.key, len(hs), r.t) {
			sub = append(sub, hs[k])
		}
	}
	var vs, ms []*big.Int
	for _, i := range sub {
		v, m, err := opVals(r.open[i])
		w.Check(err == nil && (m != nil) == r.op.masked(), prop, "a share of the wrong kind", "receiver %d: %v", i, err)
		vs = append(vs, v)
		ms = append(ms, m)
	}
	s := &Sharing{v: rInterpPoly(sub, vs)}
	if r.op.masked() {
		s.m = rInterpPoly(sub, ms)
	}
	s.pts = commitPts(s.v, s.m)
	w.Check(eqPts(s.pts, r.want), prop, "a threshold of shares does not give the committed polynomial", "%s t=%d receivers %v", opNames[r.op.kind], r.t, sub)
	s.T = r.tr[hs[w.Choose("whose:"+r.key, len(hs))]]
	for _, i := range hs {
		if r.tr[i] != nil && s.T == nil {
			s.T = r.tr[i]
		}
	}
	switch c := s.T.CombinedCommitment.(type) {
	case *dealings.SummationCommitment:
		s.C = c.PolynomialCommitment
	case *dealings.InterpolationCommitment:
		s.C = c.PolynomialCommitment
	}
	return s
}

// rInterpPoly gives the coefficients of the polynomial through the points.
func rInterpPoly(idx []int, ys []*big.Int) rPoly {
	n := len(idx)
	out := make(rPoly, n)
	for i := range out {
		out[i] = new(big.Int)
	}
	for i := range idx {
		num := rPoly{big.NewInt(1)}
		den := big.NewInt(1)
		for j := range idx {
			if j == i {
				continue
			}
			nx := make(rPoly, len(num)+1)
			for k := range nx {
				nx[k] = new(big.Int)
			}
			for k := range num {
				nx[k+1] = addm(nx[k+1], num[k])
				nx[k] = subm(nx[k], mulm(num[k], xOf(idx[j])))
			}
			num = nx
			den = mulm(den, subm(xOf(idx[i]), xOf(idx[j])))
		}
		f := mulm(ys[i], invm(den))
		for k := range num {
			out[k] = addm(out[k], mulm(num[k], f))
		}
	}
	return out
}
