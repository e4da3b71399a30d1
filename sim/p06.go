package main

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
)

func init() {
	register(&Property{ID: "P06", Quick: 400, Thorough: 18000,
		Scens: []Scenario{{"chain of reshares", 1, p06}},
		Rule:  "A run hands one secret through a chain of committees; each round has its own sizes, faults and Byzantine dealers.",
	})
	register(&Property{ID: "P07", Quick: 600, Thorough: 30000,
		Scens: []Scenario{
			{"product round", 2, p07},
			{"wrong products", 3, p07Wrong},
		},
		Rule: "A run multiplies two sharings in a committee, or shows nodes dealings of wrong products.",
	})
}

// next is the operation that reshares the outcome of a round.
func (s *Sharing) reshare() *OpCase {
	if s.masked() {
		return &OpCase{kind: opReshareMasked, A: s}
	}
	return &OpCase{kind: opReshareUnmasked, A: s}
}

// fromOpening makes a dealer's witness from the share it holds.
func fromOpening(o Opening) (dealings.SecretShares, error) {
	return dealings.Secret.From(o.ToCommitmentOpeningBytes(), nil)
}

func p06(w *World) {
	var cur *Sharing
	var last *Round
	if w.Maybe("from random", 400) {
		r := w.NewRound("r0", &OpCase{kind: opRandom}, 0, false)
		w.RunRound(r)
		cur, last = w.Result(r, "P06"), r
	} else {
		cur = w.Sharing("s", w.Range("t0", 1, 4), w.Sec("s"), w.Maybe("masked", 500))
	}
	secret := new(big.Int).Set(cur.secret())
	rounds := w.Range("rounds", 1, 4)
	var public *RP
	if !cur.masked() {
		public = &cur.pts[0]
	}
	shape := fmt.Sprint(cur.masked(), cur.t())
	for k := 1; k <= rounds; k++ {
		key := fmt.Sprint("r", k)
		old := 0
		if last != nil {
			old = last.n()
		}
		op := cur.reshare()
		r := w.reshareRound(key, op, last, old)
		w.RunRound(r)
		s := w.Result(r, "P06")
		w.Check(s.secret().Cmp(secret) == 0, "P06", "a reshare changed the secret", "round %d, %s, t %d to %d, dealers %v", k, opNames[op.kind], cur.t(), s.t(), r.agreed)
		w.Check(!s.masked() && RPof(s.T.ConstantTerm()).eq(rMulG(secret)), "P06", "the public value is not the secret's", "round %d, %s", k, opNames[op.kind])
		if public != nil {
			w.Check(s.pts[0].eq(*public), "P06", "a reshare changed the public value", "round %d", k)
		}
		public = &s.pts[0]
		w.checkSubsets("P06", r, s)
		// old and new shares do not mix
		if cur.t() >= 2 && s.t() >= 2 {
			mix := max(cur.t(), s.t())
			na := 1 + w.Choose("mix"+key, mix-1)
			var idx []int
			var vs []*big.Int
			for i := 0; i < mix; i++ {
				idx = append(idx, i)
				if i < na {
					vs = append(vs, cur.v.at(xOf(i)))
				} else {
					vs = append(vs, s.v.at(xOf(i)))
				}
			}
			got := rInterp(idx, vs, new(big.Int))
			w.Check(got.Cmp(secret) != 0, "P06", "old and new shares mix", "round %d: %d shares of a sharing with threshold %d and %d of one with %d give the secret", k, na, cur.t(), mix-na, s.t())
			for j := 1; j < min(cur.t(), s.t()); j++ {
				w.Check(cur.v[j].Cmp(s.v[j]) != 0 || cur.v[j].Sign() == 0, "P06", "a reshare keeps the polynomial", "round %d, coefficient %d", k, j)
			}
		}
		shape += fmt.Sprint(" ", s.t(), r.n(), len(r.agreed))
		if w.Maybe("again"+key, 250) { // the next round starts from the same sharing, as if this one had been given up
			w.CountFault("abandoned round")
			continue
		}
		cur, last = s, r
	}
	w.State("P06", shape)
}

// reshareRound makes the round in which the holders of a sharing deal; last is the round they got
// their shares in.
func (w *World) reshareRound(key string, op *OpCase, last *Round, old int) *Round {
	if last == nil {
		return w.NewRound(key, op, 0, true)
	}
	// only honest holders and those that may misbehave deal
	hs := last.honest()
	r := w.NewRound(key, op, len(hs), true)
	byz := map[int]int{}
	for i, d := range r.dealers {
		r.dealers[i] = hs[d]
		byz[hs[d]] = r.byz[d]
	}
	r.byz = byz
	r.witness = func(d int) (dealings.SecretShares, error) { return fromOpening(last.open[d]) }
	return r
}

func p07(w *World) {
	op := w.NewOp("op", opProduct, w.Size("tA", 1, 3, 14), w.Size("tB", 1, 3, 14))
	r := w.NewRound("r", op, 0, true)
	w.RunRound(r)
	s := w.Result(r, "P07")
	w.State("P07", op.A.t(), op.B.t(), r.n(), r.t, len(r.agreed))
	w.Check(s.masked(), "P07", "a product is not masked", "")
	w.Check(s.secret().Cmp(op.secret()) == 0, "P07", "a product transcript does not share the product", "thresholds %d and %d, dealers %v", op.A.t(), op.B.t(), r.agreed)
	w.checkSubsets("P07", r, s)
	_ = poly.Pedersen
}

// p07Wrong shows nodes dealings of wrong products, together with as many honest ones as make up a
// transcript: what they accept they would aggregate.
func p07Wrong(w *World) {
	n := w.Size("n", 1, 4, 36)
	t := w.Thr("t", n)
	keys := w.Committee("r", n)
	op := w.NewOp("op", opProduct, w.Size("tA", 1, 3, 14), w.Size("tB", 1, 3, 14))
	idx := w.Index("dealer", w.Choose("dealer", 5))
	ad := w.AD("a")
	h := w.HonestDeal("h", op, t, keys, idx, ad)
	err := w.PubVerify("honest", DeepCopy(h), op.Op(w, "honest"), t, idx, n, ad)
	w.Check(err == nil, "P07", "an honest product dealing was rejected", "t=%d n=%d dealer %d: %v", t, n, idx, err)
	for k := 0; k < 4; k++ {
		key := fmt.Sprint("atk", k)
		b := &bad{d: DeepCopy(h), op: op.Op(w, key), t: t, idx: idx, n: n, ad: ad}
		if w.Maybe(key+".other node", 200) { // everything made by the library from another node's shares
			j := idx ^ (1 + w.Choose(key+".j", 3))
			v, _ := op.A.at(j)
			v0, _ := op.A.at(idx)
			r0, r1 := op.B.at(j)
			q0, q1 := op.B.at(idx)
			if v.Cmp(v0) == 0 && r0.Cmp(q0) == 0 && r1.Cmp(q1) == 0 {
				continue
			}
			sh, err := op.Shares(w, key, j, 0)
			w.Need(err, "shares")
			d, err := w.Deal(key, sh, w.Bytes(key, 32), t, keys, idx, ad)
			w.Need(err, "dealing")
			b.d, b.what = d, "another node's shares"
		} else if !p02AttackOf(w, key, b, op, keys, h, productAttacks) {
			continue
		}
		w.State("P07w", b.what)
		err := w.PubVerify(b.what, b.d, b.op, b.t, b.idx, b.n, b.ad)
		w.Check(err != nil, "P07", "a dealing of a wrong product was accepted: "+b.what, "t=%d n=%d dealer %d, thresholds %d and %d", t, n, idx, op.A.t(), op.B.t())
	}
}

var productAttacks = []string{"wrong witness", "proof forged", "wrong witness", "proof forged", "proof part", "proof missing", "proof of another kind", "prior", "constant", "index", "operation"}
