package main

import (
	"fmt"
	"math/big"
	"reflect"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/zk"
)

func init() {
	register(&Property{ID: "P02", Quick: 4000, Thorough: 50000,
		Scens: []Scenario{{"byzantine dealer", 1, p02}},
		Rule:  "A run makes an honest dealing and several Byzantine variants of it and shows each to every honest node, in any order and repeatedly.",
	})
}

// bad is a dealing, as presented, that must be rejected.
type bad struct {
	what   string
	d      *Dealing
	op     interface{}
	t, idx int
	n      int
	ad     []byte
}

func p02(w *World) {
	n, _ := w.Active("n", 1, 5, 36, 5)
	t := w.Thr("t", n)
	kind := w.Choose("op", 4)
	keys := w.Committee("r", n)
	op := w.NewOp("op", kind, w.Size("tA", 1, 3, 14), w.Size("tB", 1, 3, 14))
	idx := w.Index("dealer", w.Choose("dealer", 5))
	ad := w.AD("a")
	honest := w.HonestDeal("h", op, t, keys, idx, ad)
	var bads []*bad
	na := w.Range("attacks", 1, 4)
	for k := 0; k < na; k++ {
		key := fmt.Sprint("atk", k)
		b := &bad{d: DeepCopy(honest), op: op.Op(w, key), t: t, idx: idx, n: n, ad: ad}
		if p02Attack(w, key, b, op, keys, honest) {
			bads = append(bads, b)
			w.State("P02", opNames[kind], b.what)
		}
	}
	// each node sees the honest dealing and the bad ones in its own order, with repetitions
	nodes := w.Range("nodes", 1, 3)
	net := NewNet(w, "bc", nodes+1, true)
	verdict := map[string]bool{}
	seen := map[string]bool{}
	show := func(node int, b *bad, id string) {
		net.Reliable(nodes, node, id, func() bool { return seen[fmt.Sprint(node, id)] }, func() {
			seen[fmt.Sprint(node, id)] = true
			d := DeepCopy(b.d)
			err := w.PubVerify(id, d, b.op, b.t, b.idx, b.n, b.ad)
			ok := err == nil
			if v, was := verdict[id]; was {
				w.Check(v == ok, "P02", "honest nodes disagree", "%s: accepted %v here, %v elsewhere or earlier", b.what, ok, v)
			}
			verdict[id] = ok
			if b.what == "" {
				w.Check(ok, "P01", "honest dealing publicly rejected", "%s: %v", opNames[kind], err)
				return
			}
			w.Check(!ok, "P02", "invalid dealing accepted: "+b.what, "%s, t=%d n=%d, dealer %d", opNames[kind], b.t, b.n, b.idx)
		})
	}
	for node := 0; node < nodes; node++ {
		show(node, &bad{d: honest, op: op.Op(w, "honest"), t: t, idx: idx, n: n, ad: ad}, "honest")
		for k, b := range bads {
			show(node, b, fmt.Sprint("bad", k))
		}
	}
	net.Chaos()
	w.Run(5000)
}

func rebuild(pts []RP, masked bool) poly.PolynomialCommitment { return mkCommit(pts, masked) }

// p02Attack turns b into something that has to be rejected.
func p02Attack(w *World, key string, b *bad, op *OpCase, keys []Keys, honest *Dealing) bool {
	return p02AttackOf(w, key, b, op, keys, honest, allAttacks)
}

var allAttacks = []string{"length", "kind", "cipher kind", "recipients", "pop part", "pop of another dealing", "pop missing",
	"pop forged", "proof part", "proof missing", "proof superfluous", "proof of another kind", "wrong witness", "index", "context",
	"prior", "prior kind", "prior chosen afterwards", "operation", "splice", "proof forged", "constant"}

// attacks that show in the dealing itself, with all parameters as they should be
var dealingAttacks = []string{"wrong witness", "proof forged", "proof part", "constant", "proof of another kind", "proof missing",
	"length", "kind", "pop part", "pop of another dealing", "pop forged"}

func p02AttackOf(w *World, key string, b *bad, op *OpCase, keys []Keys, honest *Dealing, attacks []string) bool {
	pts := RefPoints(honest.Commitment)
	masked := op.masked()
	dealer, ad, n, t := b.idx, b.ad, b.n, b.t
	v, m := new(big.Int), new(big.Int)
	var r0, r1 *big.Int
	if op.A != nil {
		v, m = op.A.at(dealer)
	}
	if op.B != nil {
		r0, r1 = op.B.at(dealer)
	}
	name := attacks[w.Choose(key+".kind", len(attacks))]
	b.what = name
	d := b.d
	switch name {
	case "length":
		switch w.Choose(key+".len", 5) {
		case 0:
			d.Commitment = rebuild(append(pts, RP{}), masked)
			b.what += ": identity appended"
		case 1:
			d.Commitment = rebuild(append(pts, rMulG(w.RndNZ(key))), masked)
			b.what += ": point appended"
		case 2:
			if len(pts) < 2 {
				return false
			}
			d.Commitment = rebuild(pts[:len(pts)-1], masked)
			b.what += ": last point removed"
		case 3:
			d.Commitment = rebuild(append(append([]RP{}, pts[0]), pts...), masked)
			b.what += ": constant doubled"
		case 4: // a whole honest dealing of another threshold
			t2 := t%n + 1
			if t2 == t {
				return false
			}
			b.d = w.HonestDeal(key, op, t2, keys, dealer, ad)
			b.what += ": threshold of another size"
		}
	case "kind":
		d.Commitment = rebuild(pts, !masked)
	case "cipher kind":
		x := w.dealt(key, t, nil, !masked, nil)
		d.Ciphertext = w.encryptDealt(key, x, keys, dealer, ad)
	case "recipients":
		ks := append([]Keys{}, keys...)
		if w.Maybe(key+".more", 500) || n == 1 {
			ks = append(ks, w.RandKeys(key))
		} else {
			ks = ks[:n-1]
		}
		if len(ks) < t {
			return false
		}
		b.d = w.HonestDeal(key, op, t, ks, dealer, ad)
		b.what += fmt.Sprintf(": %+d", len(ks)-n)
	case "pop part":
		p := partsOf(d.Ciphertext)
		part := w.Choose(key+".part", 6)
		switch part {
		case 0:
			*p.Eph = PT(rMulG(w.RndNZ(key)))
		case 1:
			*p.Pop = PT(rMulG(w.RndNZ(key)))
		case 2:
			setScalar(*p.Proof, "challenge", 0, w.RndNZ(key))
		case 3:
			setScalar(*p.Proof, "response", 1, w.RndNZ(key))
		case 4:
			*p.Eph = PT(rNeg(RPof(*p.Eph)))
		case 5:
			*p.Pop = PT(rNeg(RPof(*p.Pop)))
		}
		b.what += fmt.Sprintf(" %d", part)
	case "pop of another dealing":
		sh, err := op.Shares(w, key, dealer, 0)
		w.Need(err, "shares")
		o, err := w.Deal(key, sh, w.Bytes("other:"+key, 32), t, keys, dealer, ad)
		w.Need(err, "other dealing")
		p, q := partsOf(d.Ciphertext), partsOf(o.Ciphertext)
		k := w.Choose(key+".which", 3)
		if k != 1 {
			*p.Proof = *q.Proof
		}
		if k != 0 {
			*p.Pop = *q.Pop
		}
		b.what += fmt.Sprintf(" %d", k)
	case "pop missing":
		p := partsOf(d.Ciphertext)
		*p.Proof = nil
	case "pop forged":
		p := partsOf(d.Ciphertext)
		ctype := mega.MEGaCiphertextType(mega.CiphertextSingle)
		if masked {
			ctype = mega.CiphertextPairs
		}
		know := w.RndNZ(key + "beta")
		gx := rMulG(know)
		if w.Maybe(key+".stolen", 500) { // an ephemeral key whose logarithm the dealer does not know
			gx = rMulG(w.RndNZ(key + "stolen"))
			know = nil
		}
		base, err := mega.ComputePopBase(ctype, K256, ad, NI(dealer), PT(gx))
		w.Need(err, "base")
		omit := dlogOmits[w.Choose(key+".omit", len(dlogOmits))]
		hx, pf, ok := w.dlogForgery(key, omit, rGen, RPof(base), gx, know, ad)
		if !ok {
			return false
		}
		*p.Eph, *p.Pop, *p.Proof = PT(gx), PT(hx), pf
		b.what += ": " + omit
	case "proof part":
		if !op.hasProof() {
			return false
		}
		inner := innerProof(d.Proof)
		nf := 2
		if op.kind == opProduct {
			nf = 3
		}
		k := w.Choose(key+".part", nf)
		f, ok := fieldByType(inner, tScalar, k)
		if !ok {
			return false
		}
		old := BI(f.Interface().(Scalar))
		val := addm(old, w.RndNZ(key))
		b.what += fmt.Sprintf(" %d", k)
		switch w.Pick(key+".to", 4, 1, 1, 1, 1) {
		case 1:
			val = new(big.Int)
			b.what += " zero"
		case 2:
			val = big.NewInt(int64(1 + w.Choose(key+".one", 2)))
			b.what += " one"
		case 3:
			val = negm(old)
			b.what += " negated"
		case 4:
			if g, ok := fieldByType(inner, tScalar, (k+1)%nf); ok {
				val = BI(g.Interface().(Scalar))
				g.Set(reflect.ValueOf(SC(old)))
				b.what += " swapped"
			}
		}
		if val.Cmp(old) == 0 {
			return false
		}
		f.Set(reflect.ValueOf(SC(val)))
	case "proof missing":
		if !op.hasProof() {
			return false
		}
		d.Proof = nil
	case "proof superfluous":
		if op.hasProof() {
			return false
		}
		s, mm := w.RndNZ(key+"s"), w.RndNZ(key+"m")
		if op.kind == opReshareUnmasked {
			s = v
		}
		if w.Maybe(key+".product", 500) {
			d.Proof = w.mkProductProof(key, s, mm, mm, mulm(s, mm), mm, ad)
		} else {
			d.Proof = w.mkEqProof(key, s, mm, ad)
		}
	case "proof of another kind":
		if !op.hasProof() {
			return false
		}
		if op.kind == opProduct {
			d.Proof = w.mkEqProof(key, v, r1, ad)
		} else {
			d.Proof = w.mkProductProof(key, v, big.NewInt(1), m, v, m, ad)
		}
	case "wrong witness":
		// all proofs made by the library from a witness that does not fit
		delta := w.RndNZ(key + "delta")
		if w.Maybe(key+".small", 300) {
			delta = big.NewInt(1)
		}
		var sh dealings.SecretShares
		which := 0
		switch op.kind {
		case opRandom:
			return false
		case opReshareUnmasked:
			sh = &dealings.ReshareOfUnmaskedSecret{S1: SC(addm(v, delta))}
		case opReshareMasked:
			if which = w.Choose(key+".which", 2); which == 0 {
				sh = &dealings.ReshareOfMaskedSecret{S1: SC(addm(v, delta)), S2: SC(m)}
			} else {
				sh = &dealings.ReshareOfMaskedSecret{S1: SC(v), S2: SC(addm(m, delta))}
			}
		case opProduct:
			l, a, am := v, r0, r1
			switch which = w.Choose(key+".which", 3); which {
			case 0:
				l = addm(l, delta)
				if r0.Sign() == 0 && false {
					return false
				}
			case 1:
				a = addm(a, delta)
			case 2:
				am = addm(am, delta)
			}
			sh = &dealings.UnmaskedTimesMaskedSecret{Left: SC(l), Right: [2]curve.EccScalar{SC(a), SC(am)}}
		}
		x, err := w.Deal(key, sh, w.Bytes("ww:"+key, 32), t, keys, dealer, ad)
		w.Need(err, "dealing from a wrong witness")
		b.d = x
		b.what += fmt.Sprintf(" %d", which)
	case "index":
		other := w.Index(key, w.Choose(key+".idx", 6))
		if w.Maybe(key+".near", 400) {
			other = []int{dealer ^ 1, dealer ^ 0x100, dealer ^ 0x10000, dealer ^ 0x1000000}[w.Choose(key+".bit", 4)]
		}
		if other == dealer || other >= 1<<32 {
			return false
		}
		b.idx = other
	case "context":
		b.ad, b.what = w.flip(key, ad)
		b.what = "context: " + []string{"short", "long"}[btoi(len(ad) > 64)]
		w.Ev("context %x -> %x", len(ad), len(b.ad))
	case "prior":
		if op.kind == opRandom {
			return false
		}
		o2 := &OpCase{kind: op.kind, A: op.A, B: op.B}
		which := w.Choose(key+".which", 2)
		if op.kind == opProduct && which == 1 {
			o2.B = w.Sharing(key+"/B2", op.B.t(), nil, true)
		} else {
			o2.A = w.Sharing(key+"/A2", op.A.t(), nil, op.A.masked())
		}
		b.op = o2.Op(w, key)
		b.what += fmt.Sprintf(" %d", which)
	case "prior kind": // the right points, taken for a commitment of the other kind
		if op.kind == opRandom {
			return false
		}
		o2 := &OpCase{kind: op.kind, A: op.A, B: op.B}
		which := w.Choose(key+".which", 3)
		if op.kind != opProduct {
			which = 0
		}
		if which != 1 {
			o2.A = op.A.mislabelled()
		}
		if which != 0 {
			o2.B = op.B.mislabelled()
		}
		b.op = o2.Op(w, key)
		b.what += fmt.Sprintf(" %d", which)
	case "prior chosen afterwards": // the dealer made the proof before its share of the earlier round
		op2, s2, m2, pf, om, ok := w.priorForgery(key, op, dealer, ad)
		if !ok {
			return false
		}
		x := w.dealt(key, t, s2, op.kind == opProduct, m2)
		d.Commitment, d.Ciphertext, d.Proof = x.commit(), w.encryptDealt(key, x, keys, dealer, ad), pf
		b.op = op2.Op(w, key)
		b.what += ": " + om
	case "operation":
		k2 := (op.kind + 1 + w.Choose(key+".op", 3)) % 4
		o2 := w.NewOp(key+"/op2", k2, 2, 2)
		if k2 == opReshareUnmasked || k2 == opReshareMasked {
			if op.A != nil && op.A.masked() == (k2 == opReshareMasked) {
				o2.A = op.A
			}
		}
		b.op = o2.Op(w, key)
		b.what += ": " + opNames[op.kind] + " as " + opNames[k2]
	case "splice":
		// honest commitment and proof for one context, the dealer's own ciphertext for another
		if !op.hasProof() {
			return false
		}
		b.ad, _ = w.flip(key, ad)
		b.idx = dealer
		var x *Dealt
		x = w.dealt(key, t, nil, masked, nil)
		d.Ciphertext = w.encryptDealt(key, x, keys, b.idx, b.ad)
		b.what += ": proof of another context"
	case "proof forged":
		switch op.kind {
		case opReshareMasked:
			omit := eqOmits[w.Choose(key+".omit", len(eqOmits))]
			s2, pf, ok := w.eqForgery(key, omit, v, m, ad)
			if !ok {
				return false
			}
			x := w.dealt(key, t, s2, false, nil)
			d.Commitment, d.Ciphertext, d.Proof = x.commit(), w.encryptDealt(key, x, keys, dealer, ad), pf
			b.what += ": " + omit
		case opProduct:
			omit := productOmits[w.Choose(key+".omit", len(productOmits))]
			p, pm, pf, ok := w.productForgery(key, omit, v, r0, r1, ad)
			if !ok || p.Cmp(mulm(v, r0)) == 0 {
				return false
			}
			x := w.dealt(key, t, p, true, pm)
			d.Commitment, d.Ciphertext, d.Proof = x.commit(), w.encryptDealt(key, x, keys, dealer, ad), pf
			b.what += ": " + omit
		default:
			return false
		}
	case "constant":
		// only the constant term replaced, everything else honest
		if op.kind == opRandom {
			return false
		}
		q := append([]RP{}, pts...)
		k := w.Choose(key+".how", 4)
		switch k {
		case 0:
			q[0] = rAdd(q[0], rMulG(w.RndNZ(key)))
		case 1:
			q[0] = rNeg(q[0])
		case 2:
			q[0] = RP{}
		case 3:
			q[0] = rAdd(q[0], rMul(rHgen, w.RndNZ(key)))
		}
		if q[0].eq(pts[0]) {
			return false
		}
		d.Commitment = rebuild(q, masked)
		b.what += fmt.Sprintf(" %d", k)
	}
	return true
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func innerProof(p dealings.ZkProof) interface{} {
	switch x := p.(type) {
	case *dealings.MaskedResharingProof:
		return x.ProofOfEqualOpenings
	case *dealings.ProductProof:
		return x.ProofOfProduct
	}
	panic(simBug{fmt.Sprintf("proof %T", p)})
}

func (w *World) mkEqProof(key string, s, m *big.Int, ad []byte) dealings.ZkProof {
	p, err := zk.ProofOfEqualOpeningsIns.Create(seedOf(w.Bytes("eq:"+key, 32)), SC(s), SC(m), ad)
	w.Need(err, "proof")
	return &dealings.MaskedResharingProof{ProofOfEqualOpenings: p}
}

func (w *World) mkProductProof(key string, l, r, rm, p, pm *big.Int, ad []byte) dealings.ZkProof {
	x, err := zk.ProofOfProductIns.Create(seedOf(w.Bytes("pr:"+key, 32)), SC(l), SC(r), SC(rm), SC(p), SC(pm), ad)
	w.Need(err, "proof")
	return &dealings.ProductProof{ProofOfProduct: x}
}
