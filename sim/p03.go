package main

import (
	"fmt"
	"math/big"
	"reflect"
)

func init() {
	register(&Property{ID: "P03", Quick: 1700, Thorough: 40000,
		Scens: []Scenario{{"corrupted shares", 1, p03}},
		Rule:  "A run makes one dealing whose encrypted shares are corrupted for a chosen set of receivers and lets all receivers verify and open it.",
	})
}

// Corrupt is a dealing whose plaintexts the simulator knows.
type Corrupt struct {
	D      *Dealing
	pts    []RP
	vs, ms []*big.Int // what each receiver decrypts
	goodV  []*big.Int // what it should decrypt
	goodM  []*big.Int
	fine   []bool
}

// CorruptDealing builds a dealing of an operation whose shares are corrupted at the chosen receivers.
func (w *World) CorruptDealing(key string, op *OpCase, t int, keys []Keys, dealer int, ad []byte, victims []int) *Corrupt {
	n := len(keys)
	masked := op.masked()
	var c, mc *big.Int
	h := &Dealing{}
	switch op.kind {
	case opReshareUnmasked:
		c, _ = op.A.at(dealer)
	case opReshareMasked:
		var m *big.Int
		c, m = op.A.at(dealer)
		h.Proof = w.mkEqProof(key, c, m, ad)
	case opProduct:
		l, _ := op.A.at(dealer)
		r, rm := op.B.at(dealer)
		c, mc = mulm(l, r), w.RndNZ(key+"/pm")
		h.Proof = w.mkProductProof(key, l, r, rm, c, mc, ad)
	}
	x := w.dealt(key, t, c, masked, mc)
	vs, ms := x.shares(n)
	good := append([]*big.Int{}, vs...)
	var goodM []*big.Int
	if masked {
		goodM = append(goodM, ms...)
	}
	how := make([]int, n)
	for _, i := range victims {
		how[i] = 1 + w.Choose(fmt.Sprintf("%s.how%d", key, i), 9)
		delta := w.RndNZ(fmt.Sprintf("%s/delta%d", key, i))
		if w.Maybe(fmt.Sprintf("%s.one%d", key, i), 200) {
			delta = big.NewInt(1)
		}
		switch how[i] {
		case 1:
			vs[i] = addm(vs[i], delta)
		case 2:
			if masked {
				ms[i] = addm(ms[i], delta)
			} else {
				vs[i] = subm(vs[i], delta)
			}
		case 3:
			vs[i] = addm(vs[i], delta)
			if masked {
				ms[i] = subm(ms[i], delta)
			}
		case 4: // another receiver's share
			j := w.Choose(fmt.Sprintf("%s.swap%d", key, i), n)
			vs[i] = good[j]
			if masked {
				ms[i] = goodM[j]
			}
		case 5: // another receiver's value, own mask
			j := w.Choose(fmt.Sprintf("%s.swap%d", key, i), n)
			vs[i] = good[j]
		case 6:
			vs[i] = negm(vs[i])
			if masked {
				ms[i] = negm(ms[i])
			}
		case 7: // value and mask exchanged
			if masked {
				vs[i], ms[i] = ms[i], vs[i]
			} else {
				vs[i] = new(big.Int)
			}
		case 8:
			vs[i] = new(big.Int)
			if masked {
				ms[i] = new(big.Int)
			}
		case 9: // damaged after encryption, see below
		}
	}
	ct, err := encryptShares(w.Bytes("enc:"+key, 32), vs, ms, keys, dealer, ad)
	w.Need(err, "encryption")
	p := partsOf(ct)
	for _, i := range victims {
		if how[i] != 9 {
			continue
		}
		delta := w.RndNZ(fmt.Sprintf("%s/cdelta%d", key, i))
		comp := 0
		if masked {
			comp = w.Choose(fmt.Sprintf("%s.comp%d", key, i), 2)
			(*p.Pair)[i][comp] = SC(addm(BI((*p.Pair)[i][comp]), delta))
		} else {
			(*p.Single)[i] = SC(addm(BI((*p.Single)[i]), delta))
		}
		if comp == 0 {
			vs[i] = addm(vs[i], delta)
		} else {
			ms[i] = addm(ms[i], delta)
		}
	}
	h.Commitment, h.Ciphertext = x.commit(), ct
	r := &Corrupt{D: h, pts: x.pts, vs: vs, ms: ms, goodV: good, goodM: goodM, fine: make([]bool, n)}
	for i := range r.fine {
		r.fine[i] = vs[i].Cmp(good[i]) == 0 && (!masked || ms[i].Cmp(goodM[i]) == 0)
	}
	return r
}

// twin is a second version of a dealing by a dealer that tells others something else: the ciphertexts
// or the commitment differ in places, all else is the same.
func (w *World) twin(key string, c *Corrupt, op *OpCase, active []int) *Corrupt {
	r := &Corrupt{D: DeepCopy(c.D), pts: append([]RP{}, c.pts...), vs: append([]*big.Int{}, c.vs...), fine: make([]bool, len(c.fine))}
	masked := op.masked()
	if masked {
		r.ms = append([]*big.Int{}, c.ms...)
	}
	low := 1
	if op.kind == opRandom {
		low = 0
	}
	t := len(r.pts)
	switch k := w.Choose(key+".how", 3); {
	case k == 0 && low < t:
		j := w.Range(key+".point", low, t-1)
		g := rGen
		if masked && w.Maybe(key+".mask", 500) {
			g = rHgen
		}
		r.pts[j] = rAdd(r.pts[j], rMul(g, w.RndNZ(key+"/delta")))
		r.D.Commitment = mkCommit(r.pts, masked)
	case k == 1 && t-low >= 2: // two points exchanged
		j := w.Range(key+".point", low, t-2)
		r.pts[j], r.pts[j+1] = r.pts[j+1], r.pts[j]
		r.D.Commitment = mkCommit(r.pts, masked)
	default:
		p := partsOf(r.D.Ciphertext)
		for _, q := range w.Subset(key+".which", len(active), w.Choose(key+".many", len(active)+1)) {
			i := active[q]
			delta := w.RndNZ(fmt.Sprint(key, "/delta", i))
			if c.fine[i] || w.Maybe(fmt.Sprint(key, ".again", i), 500) {
				if masked && w.Maybe(fmt.Sprint(key, ".mask", i), 500) {
					(*p.Pair)[i][1], r.ms[i] = SC(addm(BI((*p.Pair)[i][1]), delta)), addm(r.ms[i], delta)
					continue
				}
			} else { // this one becomes right
				if masked {
					(*p.Pair)[i][1], r.ms[i] = SC(addm(BI((*p.Pair)[i][1]), subm(c.goodM[i], c.ms[i]))), c.goodM[i]
				}
				delta = subm(c.goodV[i], c.vs[i])
			}
			r.vs[i] = addm(r.vs[i], delta)
			if masked {
				(*p.Pair)[i][0] = SC(addm(BI((*p.Pair)[i][0]), delta))
			} else {
				(*p.Single)[i] = SC(addm(BI((*p.Single)[i]), delta))
			}
		}
	}
	for _, i := range active {
		var m *big.Int
		if masked {
			m = r.ms[i]
		}
		r.fine[i] = onCommit(r.pts, masked, i, mkOpening(r.vs[i], m))
	}
	w.CountFault("equivocating dealer")
	return r
}

func p03(w *World) {
	n, active := w.Active("n", 1, 7, 36, 10)
	t := w.Thr("t", n)
	kind := w.Choose("op", 4)
	keys := w.Committee("r", n)
	op := w.NewOp("op", kind, w.Size("tA", 1, 3, 14), w.Size("tB", 1, 3, 14))
	dealer := w.Index("dealer", w.Choose("dealer", 5))
	ad := w.AD("a")
	var victims []int
	for _, i := range w.Subset("victims", len(active), w.Choose("victims", len(active)+1)) {
		victims = append(victims, active[i])
	}
	c := w.CorruptDealing("c", op, t, keys, dealer, ad, victims)
	w.State("P03", opNames[kind], n, t, fmt.Sprint(c.fine))
	versions := func(r int) []*Corrupt { return []*Corrupt{c} }
	if w.Maybe("twin", 350) {
		other := w.twin("twin", c, op, active)
		versions = func(r int) []*Corrupt {
			return [][]*Corrupt{{other, c}, {c, other}, {c, other, c}}[w.Choose(fmt.Sprint("versions", r), 3)]
		}
	}
	net := NewNet(w, "c", n+1, true)
	done := map[int]bool{}
	for _, r := range active {
		r := r
		node := net.Nodes[r]
		node.Disk["sk"], node.Disk["pk"] = keys[r].SK.Serialize(), keys[r].PK.Serialize()
		k := keys[r]
		node.OnRestart = func() {
			x, err := keys[r].Reload()
			w.Need(err, "reading back the keys")
			k = x
		}
		net.Reliable(n, r, "dealing", func() bool { return done[r] }, func() {
			for q, c := range versions(r) {
				d := DeepCopy(c.D)
				id := fmt.Sprint("at ", r)
				if q > 0 {
					id = fmt.Sprint("at ", r, ", version ", q)
				}
				err := w.PubVerify(id, d, op.Op(w, id), t, dealer, n, ad)
				w.Check(err == nil, "P03", "corrupted shares upset public verification", "%s, receiver %d: %v", opNames[kind], r, err)
				if w.Maybe("open first"+id, 300) {
					w.checkOpening(id, c, d, k, ad, dealer, r, kind)
				}
				err = w.PrivVerify(id, d, k, ad, dealer, r)
				if c.fine[r] {
					w.Check(err == nil, "P03", "an uncorrupted share was refused", "%s t=%d, corrupted for %v, receiver %d: %v", opNames[kind], t, victims, r, err)
				} else {
					w.Check(err != nil, "P03", "a corrupted share passed private verification", "%s t=%d, corrupted for %v, receiver %d", opNames[kind], t, victims, r)
				}
				w.checkOpening(id, c, d, k, ad, dealer, r, kind)
			}
			done[r] = true
		})
	}
	net.Chaos()
	w.Run(5000)
}

func (w *World) checkOpening(id string, c *Corrupt, d *Dealing, k Keys, ad []byte, dealer, r, kind int) {
	o, err := w.OpenDealing(id, d, k, ad, dealer, r)
	if !c.fine[r] {
		w.Check(err != nil, "P03", "a corrupted share opened", "%s, receiver %d", opNames[kind], r)
		return
	}
	w.Check(err == nil, "P03", "an uncorrupted share did not open", "%s, receiver %d: %v", opNames[kind], r, err)
	if err != nil {
		return
	}
	v, m, e := opVals(o)
	ok := e == nil && v.Cmp(c.vs[r]) == 0 && (m == nil) == (c.ms == nil) && (m == nil || m.Cmp(c.ms[r]) == 0)
	w.Check(ok, "P03", "an opened share is not the dealer's", "%s, receiver %d: %v", opNames[kind], r, reflect.TypeOf(o))
	w.Check(onCommit(c.pts, c.ms != nil, r, o), "P03", "an opened share does not match the commitment", "%s, receiver %d", opNames[kind], r)
}
