package main

import (
	"fmt"
	"math/big"
	"strconv"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/sign"
)

func init() {
	register(&Property{ID: "P18", Quick: 1500, Thorough: 40000,
		Scens: []Scenario{{"threads", 1, p18}},
		Rule:  "A run lets several operations on shared inputs run as threads of one process that give way to each other at any statement; some are abandoned half-way and repeated.",
	})
}

// stage holds the inputs that the operations of a run share.
type stage struct {
	N, T   int
	Keys   []Keys
	Ad     [2][]byte
	Seed   [3]*seed.Seed
	Ops    []*OpCase
	Op     []interface{}
	Sec    [][]dealings.SecretShares // per operation and dealer
	Idx    []int
	Deal   []*DealMap
	Trans  []*Trans
	Bad    *Dealing
	BadI   int
	BadV   int
	Compl  *Complaint
	Q      *Quad
	Reqs   []*Req
	Paths  []*Path
	Shares *SigMap
	Sig    *Sig
	Open   []Opening
	OpenM  *OpenMap
	Samp   [][2]Scalar
	Nodes  []NI
	Bytes  [][]byte
}

func (w *World) stage() *stage {
	I := &stage{N: w.Range("n", 1, 3)}
	I.T = w.Thr("t", I.N)
	I.Keys = w.Committee("r", I.N)
	I.Ad = [2][]byte{w.AD("a0"), w.AD("a1")}
	for k := range I.Seed {
		I.Seed[k] = seedOf(w.Bytes(fmt.Sprint("seed", k), 32))
	}
	I.Idx = distinct([]int{w.Index("d0", 0), w.Index("d1", 1)})
	kinds := []int{w.Choose("kind", 4)}
	if w.Maybe("second kind", 400) {
		kinds = append(kinds, w.Choose("kind2", 4))
	}
	for k, kind := range kinds {
		op := w.NewOp(fmt.Sprint("op", k), kind, 1+w.Choose(fmt.Sprint("tA", k), 2), 1)
		I.Ops = append(I.Ops, op)
		I.Op = append(I.Op, op.Op(w, fmt.Sprint("op", k)))
		var ss []dealings.SecretShares
		m := &DealMap{}
		for j, i := range I.Idx {
			sh, err := op.Shares(w, "", i, 0)
			w.Need(err, "shares")
			ss = append(ss, sh)
			if j < op.need() {
				m.Set(NI(i), w.HonestDeal(fmt.Sprint("h", k, j), op, I.T, I.Keys, i, I.Ad[0]))
			}
		}
		I.Sec = append(I.Sec, ss)
		I.Deal = append(I.Deal, m)
		tr, err := w.Transcript("", I.T, m, I.Op[k])
		w.Need(err, "transcript")
		I.Trans = append(I.Trans, tr)
	}
	I.BadI, I.BadV = I.Idx[0], w.Choose("victim", I.N)
	c := w.CorruptDealing("bad", I.Ops[0], I.T, I.Keys, I.BadI, I.Ad[0], []int{I.BadV})
	I.Bad = c.D
	if !c.fine[I.BadV] {
		m := &DealMap{}
		m.Set(NI(I.BadI), I.Bad)
		cs, err := w.complain("", m, I.Ad[0], I.Keys[I.BadV], I.BadV, w.Bytes("cs", 32))
		w.Need(err, "complaint")
		I.Compl = cs[I.BadI]
	}
	I.OpenM = &OpenMap{}
	for i := 0; i < I.N; i++ {
		o := mkOpening(c.goodV[i], at(c.goodM, i))
		I.Open = append(I.Open, o)
		I.OpenM.Set(NI(i), o)
	}
	I.Q = w.Quad("q", w.signers("s", 1+w.Choose("signers", 2)), 1)
	for k := 0; k < 2; k++ {
		r := w.Req(fmt.Sprint("r", k), false)
		if k == 1 && w.Maybe("near", 500) {
			r, _ = w.alterReq("near", I.Reqs[0], false)
		}
		I.Reqs = append(I.Reqs, r)
		I.Paths = append(I.Paths, r.P())
	}
	o := w.rhoOf("", I.Q, I.Reqs[0])
	I.Shares = &SigMap{}
	for _, i := range I.Q.idx {
		I.Shares.Set(NI(i), I.Q.share(I.Reqs[0], o, i).share())
	}
	rr, s := I.Q.sig(I.Reqs[0], o)
	I.Sig = mkSig(rr, s)
	d := 1 + w.Choose("degree", 4)
	p := w.RPoly("samples", d, nil)
	for i := 0; i < d+w.Choose("redundant", 2); i++ {
		I.Samp = append(I.Samp, [2]Scalar{SC(xOf(i)), SC(p.at(xOf(i)))})
		I.Nodes = append(I.Nodes, NI(i))
	}
	for _, c := range codecs {
		I.Bytes = append(I.Bytes, w.encode(c, w.value(c, "by"+c.name)))
	}
	return I
}

// A task is one operation on a stage.
type task struct {
	name string
	f    func(I *stage) interface{}
}

type result struct {
	V   interface{}
	Err bool
}

// task18 draws an operation; vary lets its arguments be other than the first ones.
func (w *World) task18(id string, I *stage) task {
	vary := func(name string, n int) int {
		if w.Maybe("vary:"+id+name, 350) {
			return w.Choose(id+name, n)
		}
		return 0
	}
	k := w.Choose(id+"op", len(I.Ops))
	d := vary("dealer", len(I.Idx))
	ad := vary("ad", 2)
	sd := vary("seed", 3)
	node := vary("node", I.N)
	t := I.T
	if vary("t", 3) == 2 {
		t = 1 + I.T%I.N
	}
	rq := vary("req", 2)
	sg := vary("signer", len(I.Q.idx))
	cd := vary("codec", len(codecs))
	mk := vary("master", 2)
	oname := opNames[I.Ops[k].kind]
	res := func(v interface{}, err error) interface{} {
		if err != nil {
			return &result{nil, true}
		}
		return &result{v, false}
	}
	call := func(name string, f func() (interface{}, error)) interface{} {
		var v interface{}
		err := w.Call(name, func() (e error) { v, e = f(); return })
		return res(v, err)
	}
	req := func(I *stage) (*Path, []byte, []byte) { return I.Paths[rq], I.Reqs[rq].hash, I.Reqs[rq].rand }
	switch w.Choose(id+"what", 22) {
	case 0, 1:
		return task{"deal " + oname, func(I *stage) interface{} {
			return call("deal", func() (interface{}, error) {
				return dealings.NewIDkgDealingInternal(I.Sec[k][d], K256, I.Seed[sd], t, pks(I.Keys), NI(I.Idx[d]), I.Ad[ad])
			})
		}}
	case 2, 3:
		return task{"verify " + oname, func(I *stage) interface{} {
			x, ok := I.Deal[k].Get(NI(I.Idx[d]))
			if !ok {
				x, _ = I.Deal[k].Get(NI(I.Idx[0]))
			}
			return res(nil, w.PubVerify("", x, I.Op[k], t, I.Idx[d], I.N, I.Ad[ad]))
		}}
	case 4:
		return task{"privately verify " + oname, func(I *stage) interface{} {
			x, _ := I.Deal[k].Get(NI(I.Idx[0]))
			return res(nil, w.PrivVerify("", x, I.Keys[node], I.Ad[ad], I.Idx[d], node))
		}}
	case 5:
		return task{"open " + oname, func(I *stage) interface{} {
			x, _ := I.Deal[k].Get(NI(I.Idx[0]))
			o, err := w.OpenDealing("", x, I.Keys[node], I.Ad[ad], I.Idx[d], node)
			return res(o, err)
		}}
	case 6, 7:
		return task{"transcript " + oname, func(I *stage) interface{} {
			tr, err := w.Transcript("", t, I.Deal[k], I.Op[k])
			return res(tr, err)
		}}
	case 8:
		return task{"open transcript " + oname, func(I *stage) interface{} {
			o, err := w.OpenTranscript("", I.Deal[k], I.Trans[k], I.Ad[ad], I.Keys[node], node)
			return res(o, err)
		}}
	case 9:
		return task{"complain", func(I *stage) interface{} {
			m := &DealMap{}
			m.Set(NI(I.BadI), I.Bad)
			who := I.BadV
			if node > 0 {
				who = node
			}
			cs, err := w.complain("", m, I.Ad[ad], I.Keys[who], who, []byte{byte(sd)})
			return res(cs, err)
		}}
	case 10:
		return task{"judge complaint", func(I *stage) interface{} {
			if I.Compl == nil {
				return res(nil, nil)
			}
			return res(nil, w.complaintOK("", I.Compl, I.Bad, I.Idx[d], I.BadV, I.Keys[I.BadV].PK, I.Ad[ad]))
		}}
	case 11, 12:
		return task{"sign share", func(I *stage) interface{} {
			i := I.Q.idx[sg]
			l, kl, xl := I.Q.lambda.open(i), I.Q.kl.open(i), I.Q.xl.open(i)
			p, h, r := req(I)
			return call("sign share", func() (interface{}, error) {
				return sign.NewThresholdEcdsaSigShareInternal(p, h, r, I.Q.key.T, I.Q.kappa.T, l, kl, xl, K256)
			})
		}}
	case 13:
		return task{"verify share", func(I *stage) interface{} {
			i := I.Q.idx[sg]
			s, _ := I.Shares.Get(NI(I.Q.idx[0]))
			p, h, r := req(I)
			return call("verify share", func() (interface{}, error) {
				return nil, s.Verify(p, h, r, NI(i), I.Q.key.T, I.Q.kappa.T, I.Q.lambda.T, I.Q.kl.T, I.Q.xl.T, K256)
			})
		}}
	case 14:
		return task{"combine", func(I *stage) interface{} {
			p, h, r := req(I)
			return call("combine", func() (interface{}, error) {
				return sign.NewThresholdEcdsaCombinedSigInternal(p, h, r, I.Q.key.T, I.Q.kappa.T, 1+sd, I.Shares, K256)
			})
		}}
	case 15:
		return task{"verify signature", func(I *stage) interface{} {
			p, h, r := req(I)
			return call("verify signature", func() (interface{}, error) {
				return nil, I.Sig.Verify(p, h, r, I.Q.key.T, I.Q.kappa.T, K256)
			})
		}}
	case 16:
		return task{"derive key", func(I *stage) interface{} {
			master := []*Sharing{I.Q.key, I.Q.kappa}[mk].pts[0].bytes()
			return call("derive", func() (interface{}, error) {
				return sign.DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: master}, I.Paths[rq])
			})
		}}
	case 17:
		return task{"decode " + codecs[cd].name, func(I *stage) interface{} {
			return call("decode", func() (interface{}, error) {
				v, err := codecs[cd].dec(I.Bytes[cd])
				if err != nil {
					return nil, err
				}
				b, err := codecs[cd].enc(v)
				return []interface{}{v, b}, err
			})
		}}
	case 18:
		return task{"reconstruct", func(I *stage) interface{} {
			return call("reconstruct", func() (interface{}, error) {
				return dealings.ReconstructShareFromOpenings(I.Bad, I.OpenM, NI(node))
			})
		}}
	case 19:
		return task{"interpolate", func(I *stage) interface{} {
			return call("interpolate", func() (interface{}, error) {
				p, err := poly.Poly.Interpolate(K256, I.Samp)
				if err != nil {
					return nil, err
				}
				l, err := poly.Lagrange.AtValue(SC(big.NewInt(int64(100+node))), I.Nodes)
				if err != nil {
					return nil, err
				}
				var ys []Scalar
				for _, s := range I.Samp {
					ys = append(ys, s[1])
				}
				y, err := l.InterpolateScalar(ys)
				return []interface{}{p, y}, err
			})
		}}
	case 20:
		return task{"commitments", func(I *stage) interface{} {
			return call("commitments", func() (interface{}, error) {
				a, b := I.Q.key.C, I.Q.lambda.C
				c := I.Trans[k].CombinedCommitment
				s, err := a.Serialize()
				if err != nil {
					return nil, err
				}
				return []interface{}{a.EvaluateAt(NI(node)), b.EvaluateAt(NI(node + 5)), a.Equal(b), c.EvaluateAt(NI(node)), c.ConstantTerm(),
					a.Clone(), s, b.StableRepresentation(), b.CheckOpening(NI(I.Q.idx[sg]), I.Q.lambda.open(I.Q.idx[sg]))}, nil
			})
		}}
	}
	return task{"keys", func(I *stage) interface{} {
		return call("keys", func() (interface{}, error) {
			sk := I.Keys[node].SK
			pk := sk.PublicKey()
			m := &DealMap{}
			for _, i := range I.Idx {
				if x, ok := I.Deal[k].Get(NI(i)); ok {
					m.Set(NI(i), x)
				}
			}
			x, _ := I.Deal[k].Get(NI(I.Idx[0]))
			err := x.Ciphertext.CheckValidity(I.N, I.Ad[ad], NI(I.Idx[d]))
			e2 := mega.VerifyMegaPublicKey(K256, I.Bytes[0])
			h := curve.Point.MulPoints(I.Keys[node].PK.PublicPoint(), sk.SecretScalar(), pk.PublicPoint(), sk.SecretScalar())
			npk, nsk, e3 := mega.GenKeypair(K256, I.Seed[sd])
			if e3 != nil {
				return nil, e3
			}
			return []interface{}{pk, sk.Serialize(), pk.Serialize(), err != nil, e2 != nil, h, I.Seed[sd].Derive("x"), npk.Serialize(), nsk.Serialize(),
				I.Trans[0].Compare(*I.Trans[k]), I.Trans[k].EvaluateAt(NI(node))}, nil
		})
	}}
}

func p18(w *World) {
	I := w.stage()
	n := 2 + w.Choose("tasks", 4)
	var ts []task
	for j := 0; j < n; j++ {
		ts = append(ts, w.task18(fmt.Sprint("task", j, "/"), I))
	}
	if w.Maybe("same", 300) { // the same operation twice at once
		ts[1] = ts[0]
	}
	// only the operation asked for, in a process that has seen nothing else
	if w.solo != "" {
		j, _ := strconv.Atoi(w.solo)
		w.soloOut = Digest(ts[j].f(I))
		return
	}
	before := Digest(I)
	J := DeepCopy(I)
	want := make([]string, n)
	alone := func() {
		for _, j := range w.Perm("order", n) {
			K := DeepCopy(J)
			r := ts[j].f(K)
			want[j] = Digest(r)
			w.Check(Digest(K) == before, "P18", "an operation changes its inputs", "%s alone", ts[j].name)
		}
	}
	first := w.Maybe("alone first", 500)
	if first {
		alone()
	}
	if !first && w.Maybe("cold", 500) { // what the library fills in at first use is filled in by the threads
		if cold() > 0 {
			w.Probe("library state put back to its start")
		}
	}
	// the threads
	s := NewSched(w, "t")
	got := make([]interface{}, n)
	dig := make([]string, n)
	kill := make([]int64, n)
	w.Ev("threads start")
	for j := 0; j < n; j++ {
		j := j
		if w.Maybe(fmt.Sprint("abandon", j), 250) {
			kill[j] = 1 + int64(w.Choose(fmt.Sprint("abandon at", j), 4000))
		}
		s.Go(ts[j].name, kill[j], func() {
			r := ts[j].f(I)
			got[j], dig[j] = r, Digest(r)
		})
		w.State("P18", ts[j].name)
	}
	s.Run()
	w.Probe("thread switches")
	w.Ev("%d switches", s.switches)
	w.State("P18s", s.switches)
	for j := range ts {
		if s.ths[j].abandoned {
			w.CountFault("operation abandoned half-way")
			w.Ev("%s was abandoned", ts[j].name)
			r := ts[j].f(I)
			got[j], dig[j] = r, Digest(r)
		}
	}
	w.CountFault("preemption")
	w.Check(Digest(I) == before, "P18", "an operation changes its inputs", "%s", names18(ts))
	if !first {
		alone()
	}
	for j := range ts {
		w.Check(dig[j] == want[j], "P18", "an operation gives another result beside others", "%s beside %s", ts[j].name, names18(ts))
		w.Check(Digest(got[j]) == dig[j], "P18", "a result changes afterwards", "%s beside %s", ts[j].name, names18(ts))
	}
	if w.Maybe("fresh process", 250) {
		j := w.Choose("fresh which", n)
		r := &Replay{Property: w.Prop, Scenario: w.Scen, Seed: fmt.Sprint(w.Seed), Full: true, Solo: fmt.Sprint(j)}
		if w.isReplay {
			r.Draws, r.Full = w.replay, false
		}
		o := replayFresh(r, false)
		if o.Err != "" || o.Solo == "" {
			panic(simBug{"run alone: " + o.Err + fmt.Sprint(o.Viol)})
		}
		w.Check(o.Solo == dig[j], "P18", "an operation gives another result after others", "%s beside %s", ts[j].name, names18(ts))
	}
}

func names18(ts []task) string {
	s := ""
	for i, t := range ts {
		if i > 0 {
			s += ", "
		}
		s += t.name
	}
	return s
}
