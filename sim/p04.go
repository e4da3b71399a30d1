package main

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/dealings"
)

func init() {
	register(&Property{ID: "P04", Quick: 3500, Thorough: 36000,
		Scens: []Scenario{
			{"aggregate", 3, p04Aggregate},
			{"refuse", 2, p04Refuse},
			{"compare", 1, p04Compare},
			{"rounds", 1, p04Rounds},
		},
		Rule: "A run lets several nodes aggregate one agreed set, or offers one a set it has to refuse, or compares transcripts.",
	})
}

// A set of dealings as commitments the simulator knows (aggregation looks at nothing else).
type dealSet struct {
	idx  []int
	ds   map[int]*Dealing
	pts  map[int][]RP
	t    int
	op   *OpCase
	vals map[int]rPoly
}

func (w *World) dealSet(key string, op *OpCase, t int, idx []int, real bool) *dealSet {
	s := &dealSet{idx: idx, ds: map[int]*Dealing{}, pts: map[int][]RP{}, t: t, op: op, vals: map[int]rPoly{}}
	var keys []Keys
	if real {
		for i := 0; i < t; i++ {
			keys = append(keys, w.RandKeys(fmt.Sprint(key, "/k", i)))
		}
	}
	for _, i := range idx {
		if real {
			d := w.HonestDeal(fmt.Sprint(key, i), op, t, keys, i, []byte("ad"))
			s.ds[i], s.pts[i] = d, RefPoints(d.Commitment)
			continue
		}
		var c *big.Int
		switch op.kind {
		case opReshareUnmasked, opReshareMasked:
			c, _ = op.A.at(i)
		case opProduct:
			l, _ := op.A.at(i)
			r, _ := op.B.at(i)
			c = mulm(l, r)
		}
		x := w.dealt(fmt.Sprint(key, "/", i), t, c, op.masked(), nil)
		s.ds[i], s.pts[i], s.vals[i] = &Dealing{Commitment: x.commit()}, x.pts, x.v
	}
	return s
}

// expect computes the transcript in the reference model.
func (s *dealSet) expect() []RP {
	out := make([]RP, s.t)
	if s.op.kind == opRandom {
		for _, i := range s.idx {
			for j := range out {
				out[j] = rAdd(out[j], s.pts[i][j])
			}
		}
		return out
	}
	l := rLagrange(s.idx, new(big.Int))
	for k, i := range s.idx {
		for j := range out {
			out[j] = rAdd(out[j], rMul(s.pts[i][j], l[k]))
		}
	}
	return out
}

func (w *World) dealerSet(key string, m int) []int {
	idx := make([]int, m)
	switch w.Pick("dealers:"+key, 3, 2, 2) {
	case 0:
		for i := range idx {
			idx[i] = i
		}
	case 1: // sparse
		x := w.Choose("first:"+key, 4)
		for i := range idx {
			idx[i] = x
			x += 1 + w.Choose(fmt.Sprintf("gap:%s:%d", key, i), 9)
		}
	case 2:
		for i := range idx {
			idx[i] = w.Index(fmt.Sprintf("%s:%d", key, i), w.Choose(fmt.Sprintf("at:%s:%d", key, i), 3*m))
		}
		distinct(idx)
	}
	return idx
}

func p04Aggregate(w *World) {
	kind := w.Choose("op", 4)
	t := w.Vast("t", w.Size("t", 1, 5, 24), 140, 5)
	op := w.NewOp("op", kind, w.Size("tA", 1, 4, 14), w.Size("tB", 1, 3, 14))
	extra := w.Choose("extra", 5)
	if w.Maybe("many", 40) {
		extra = w.Range("extra.many", 5, 40)
		if t < 4 {
			extra = w.Vast("extra", extra, 140, 200)
		}
	}
	real := w.Maybe("real", 150) && extra < 5
	idx := w.dealerSet("d", op.need()+extra)
	s := w.dealSet("d", op, t, idx, real)
	want := s.expect()
	w.State("P04", opNames[kind], t, len(idx), idx[len(idx)-1] > 4*len(idx), real)
	nodes := w.Range("nodes", 2, 4)
	net := NewNet(w, "agg", nodes+1, true)
	got := make([]*Trans, nodes)
	ser := make([]string, nodes)
	for nd := 0; nd < nodes; nd++ {
		nd := nd
		have := map[int]bool{} // volatile
		m := &DealMap{}
		net.Nodes[nd].OnCrash = func() { have = map[int]bool{}; m = &DealMap{} }
		var finish func()
		finish = func() {
			if got[nd] != nil || len(have) < len(idx) {
				return
			}
			tr, err := w.Transcript(fmt.Sprint("at ", nd), t, m, op.Op(w, fmt.Sprint("at", nd)))
			w.Check(err == nil && tr != nil, "P04", "an agreed set was refused", "%s t=%d dealers %v: %v", opNames[kind], t, idx, err)
			if err != nil {
				return
			}
			pts := RefPoints(tr.CombinedCommitment)
			w.Check(eqPts(pts, want), "P04", "transcript is not the combination of its dealings", "%s t=%d dealers %v at node %d", opNames[kind], t, idx, nd)
			w.Check((tr.CombinedCommitment.Type() == pedersenType) == op.masked(), "P04", "transcript of the wrong kind", "%s", opNames[kind])
			w.Check(RPof(tr.ConstantTerm()).eq(want[0]), "P04", "constant term differs", "%s", opNames[kind])
			i := w.Index(fmt.Sprint("eval", nd), w.Choose(fmt.Sprint("eval", nd), 9))
			w.Check(RPof(tr.EvaluateAt(NI(i))).eq(rEval(want, i)), "P04", "evaluation differs", "%s at %d", opNames[kind], i)
			b, err := tr.CombinedCommitment.Serialize()
			w.Check(err == nil, "P04", "transcript has no bytes", "%v", err)
			got[nd], ser[nd] = tr, string(b) // a crash before this point leaves neither
		}
		for _, i := range idx {
			i := i
			net.Reliable(nodes, nd, fmt.Sprint("dealing", i), func() bool { return got[nd] != nil || have[i] }, func() {
				m.Set(NI(i), DeepCopy(s.ds[i])) // a duplicate replaces its equal
				have[i] = true
				finish()
			})
		}
		// after a crash everything is asked for again
		net.Nodes[nd].OnRestart = func() {
			for _, i := range idx {
				i := i
				net.Reliable(nodes, nd, fmt.Sprint("again dealing", i), func() bool { return got[nd] != nil || have[i] }, func() {
					m.Set(NI(i), DeepCopy(s.ds[i]))
					have[i] = true
					finish()
				})
			}
		}
	}
	net.Chaos()
	w.Run(60000)
	for a := range got {
		if got[a] == nil {
			w.Block("node %d never had the whole set", a)
		}
		for b := range got {
			var c int
			w.Call("compare", func() error { c = got[a].Compare(*got[b]); return nil })
			w.Check(c == 0, "P04", "equal transcripts compare unequal", "%s nodes %d and %d: %d", opNames[kind], a, b, c)
			w.Check(ser[a] == ser[b], "P04", "nodes hold different transcripts", "%s nodes %d and %d", opNames[kind], a, b)
		}
	}
}

// p04Rounds: one node aggregates sets that resemble each other, one after the other and again.
func p04Rounds(w *World) {
	kind := w.Choose("op", 4)
	t := w.Size("t", 1, 4, 12)
	op := w.NewOp("op", kind, w.Size("tA", 1, 3, 8), w.Size("tB", 1, 3, 8))
	idx := w.dealerSet("d", op.need()+w.Choose("extra", 3))
	first := w.dealSet("d", op, t, idx, false)
	again := w.dealSet("e", op, t, idx, false)
	sets, names := []*dealSet{first, again}, []string{"the first", "another round of the same dealers"}
	mix := &dealSet{idx: idx, ds: map[int]*Dealing{}, pts: map[int][]RP{}, t: t, op: op}
	for k, i := range idx {
		from := first
		if w.Choose(fmt.Sprint("mix", k), 2) == 1 {
			from = again
		}
		mix.ds[i], mix.pts[i] = from.ds[i], from.pts[i]
	}
	sets, names = append(sets, mix), append(names, "some of both")
	if len(idx) > op.need() {
		k := w.Choose("drop", len(idx))
		less := &dealSet{ds: first.ds, pts: first.pts, t: t, op: op}
		less.idx = append(append(less.idx, idx[:k]...), idx[k+1:]...)
		sets, names = append(sets, less), append(names, "one fewer")
	}
	if kind != opReshareUnmasked {
		moved := &dealSet{ds: map[int]*Dealing{}, pts: map[int][]RP{}, t: t, op: op}
		by := 1 + w.Choose("by", 40)
		for _, i := range idx {
			moved.idx = append(moved.idx, i+by)
			moved.ds[i+by], moved.pts[i+by] = first.ds[i], first.pts[i]
		}
		if moved.idx[len(idx)-1] < 1<<32 {
			sets, names = append(sets, moved), append(names, "the first under other indices")
		}
	}
	want := make([][]RP, len(sets))
	w.State("P04r", opNames[kind], t, len(idx), len(sets))
	for q, m := 0, w.Range("aggregations", 3, 8); q < m; q++ {
		k := w.Choose(fmt.Sprint("set", q), len(sets))
		s := sets[k]
		if want[k] == nil {
			want[k] = s.expect()
		}
		dm := &DealMap{}
		for _, i := range s.idx {
			dm.Set(NI(i), DeepCopy(s.ds[i]))
		}
		at := fmt.Sprint("aggregation ", q)
		tr, err := w.Transcript(at, t, dm, op.Op(w, at))
		w.Check(err == nil && tr != nil, "P04", "an agreed set was refused", "%s t=%d dealers %v (%s): %v", opNames[kind], t, s.idx, names[k], err)
		w.Check(eqPts(RefPoints(tr.CombinedCommitment), want[k]), "P04", "transcript is not the combination of its dealings", "%s t=%d dealers %v (%s) after other rounds", opNames[kind], t, s.idx, names[k])
		w.CountFault("round repeated")
	}
}

func p04Refuse(w *World) {
	kind := w.Choose("op", 4)
	t := w.Vast("t", w.Size("t", 1, 4, 24), 100, 4)
	op := w.NewOp("op", kind, w.Size("tA", 1, 4, 14), w.Size("tB", 1, 3, 14))
	idx := w.dealerSet("d", op.need()+w.Choose("extra", 3))
	s := w.dealSet("d", op, t, idx, false)
	k := w.Choose("victim", len(idx))
	v := idx[k]
	what := ""
	o := op.Op(w, "o")
	order := w.Perm("order", len(idx))
	drop := 0
	switch w.Choose("bad", 7) {
	case 6:
		if kind == opRandom {
			return
		}
		o2 := &OpCase{kind: kind, A: op.A, B: op.B}
		which := 0
		if kind == opProduct {
			which = w.Choose("which prior", 3)
		}
		if which != 1 {
			o2.A = op.A.mislabelled()
		}
		if which != 0 {
			o2.B = op.B.mislabelled()
		}
		o = o2.Op(w, "o2")
		what = fmt.Sprintf("a prior of the other kind (%d)", which)
	case 0:
		what = "a commitment too long"
		s.ds[v].Commitment = mkCommit(append(append([]RP{}, s.pts[v]...), RP{}), op.masked())
	case 1:
		if t == 1 {
			t = 2
			what = "commitments too short"
		} else {
			what = "a commitment too short"
			s.ds[v].Commitment = mkCommit(s.pts[v][:t-1], op.masked())
		}
	case 2:
		what = "a commitment of the other kind"
		s.ds[v].Commitment = mkCommit(s.pts[v], !op.masked())
	case 3:
		what = "all commitments of the other kind"
		for _, i := range idx {
			s.ds[i].Commitment = mkCommit(s.pts[i], !op.masked())
		}
	case 4:
		if kind == opRandom || op.need() < 2 {
			return
		}
		drop = len(idx) - op.need() + 1 + w.Choose("drop", op.need()-1)
		what = fmt.Sprintf("%d dealings where %d are needed", len(idx)-drop, op.need())
	case 5:
		if kind != opReshareUnmasked {
			return
		}
		what = "dealings that do not give the reshared constant"
		p := append([]RP{}, s.pts[v]...)
		p[0] = rAdd(p[0], rMulG(w.RndNZ("delta")))
		s.ds[v].Commitment = mkCommit(p, false)
	}
	m := &DealMap{}
	for _, j := range order {
		if j < len(idx)-drop {
			m.Set(NI(idx[j]), s.ds[idx[j]])
		}
	}
	w.State("P04r", opNames[kind], what, k, len(idx))
	tr, err := w.Transcript("bad set", t, m, o)
	if isPanic(err) {
		w.Fail("P04", "a bad set panics", "%s, %s: %v", opNames[kind], what, err)
	}
	cl := what
	if drop > 0 {
		cl = "too few dealings"
	}
	w.Check(err != nil && tr == nil, "P04", "a bad set was aggregated: "+cl, "%s t=%d dealers %v, at %d: %s", opNames[kind], t, idx, v, what)
}

func p04Compare(w *World) {
	// a family of transcripts that differ in one place, compared pairwise
	t := w.Vast("t", w.Size("t", 1, 4, 24), 140, 8)
	masked := w.Maybe("masked", 500)
	base := w.Sharing("b", t, w.Sec("b"), masked)
	type tc struct {
		tr  *Trans
		pts []RP
		m   bool
	}
	fam := []tc{{base.T, base.pts, masked}, {mkTrans(mkCommit(base.pts, masked), false), base.pts, masked}}
	for k := 0; k < 3; k++ {
		p := append([]RP{}, base.pts...)
		m := masked
		switch w.Choose(fmt.Sprint("var", k), 5) {
		case 0:
			j := w.Choose(fmt.Sprint("at", k), t)
			p[j] = rAdd(p[j], rMulG(w.RndNZ(fmt.Sprint("d", k))))
		case 1:
			j := w.Choose(fmt.Sprint("at", k), t)
			p[j] = rNeg(p[j])
		case 2:
			m = !m
		case 3:
			p = append(p, RP{})
		case 4:
			if t > 1 {
				p[0], p[t-1] = p[t-1], p[0]
			}
		}
		fam = append(fam, tc{mkTrans(mkCommit(p, m), w.Maybe(fmt.Sprint("sum", k), 300)), p, m})
	}
	cmp := func(a, b int) (c int) {
		w.Call("compare", func() error { c = fam[a].tr.Compare(*fam[b].tr); return nil })
		if c < 0 {
			return -1
		}
		if c > 0 {
			return 1
		}
		return 0
	}
	n := len(fam)
	var r [8][8]int
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			r[a][b] = cmp(a, b)
			same := fam[a].m == fam[b].m && eqPts(fam[a].pts, fam[b].pts)
			w.Check((r[a][b] == 0) == same, "P04", "comparison misjudges equality", "transcripts %d and %d: %d, the same: %v", a, b, r[a][b], same)
			eq := 0
			w.Call("equal", func() error {
				eq = fam[a].tr.CombinedCommitment.Equal(fam[b].tr.CombinedCommitment)
				return nil
			})
			w.Check((eq == 1) == same, "P04", "comparison misjudges equality", "commitments of transcripts %d and %d: %d, the same: %v", a, b, eq, same)
		}
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			w.Check(r[a][b] == -r[b][a], "P04", "comparison is not antisymmetric", "%d and %d", a, b)
			for c := 0; c < n; c++ {
				w.Check(!(r[a][b] <= 0 && r[b][c] <= 0 && r[a][c] > 0), "P04", "comparison is not transitive", "%d %d %d", a, b, c)
			}
		}
	}
	_ = dealings.RandomTranscript{}
}
