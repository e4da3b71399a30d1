package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"

	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/zk"
)

func init() {
	register(&Property{ID: "P08", Quick: 1100, Thorough: 40000,
		Scens: []Scenario{{"victims", 1, p08}},
		Rule:  "A run corrupts shares of some receivers in some dealings of an agreed set; every victim complains, everybody else judges the complaints as they arrive.",
	})
	register(&Property{ID: "P09", Quick: 2400, Thorough: 40000,
		Scens: []Scenario{{"false accusers", 1, p09}},
		Rule:  "A run makes fine and corrupted dealings and lets Byzantine nodes accuse by invented, altered, forged and replayed complaints.",
	})
}

type Complaint = complaints.IDkgComplaintInternal

// damaged makes a set of agreed dealings, some with corrupted shares.
func (w *World) damaged(key string, op *OpCase, t int, idx []int, keys []Keys, active []int, ad []byte, permille int) map[int]*Corrupt {
	out := map[int]*Corrupt{}
	n := len(active)
	for k, i := range idx {
		var vict []int
		if w.Maybe(fmt.Sprint("damage:", key, k), permille) {
			for _, v := range w.Subset(fmt.Sprint("vict:", key, k), n, 1+w.Choose(fmt.Sprint("nvict:", key, k), n)) {
				vict = append(vict, active[v])
			}
		}
		out[i] = w.CorruptDealing(fmt.Sprint(key, "/", i), op, t, keys, i, ad, vict)
	}
	return out
}

func (w *World) complain(name string, m *DealMap, ad []byte, k Keys, recv int, sd []byte) (cs map[int]*Complaint, err error) {
	err = w.Call("complain "+name, func() error {
		x, e := complaints.GenerateComplaints(m, ad, NI(recv), k.SK, k.PK, seedOf(sd))
		if e != nil {
			return e
		}
		cs = map[int]*Complaint{}
		x.Scan(func(d NI, c *Complaint) bool { cs[int(d)] = c; return true })
		return nil
	})
	return
}

func (w *World) complaintOK(name string, c *Complaint, d *Dealing, dealer, from int, pk *PubKey, ad []byte) error {
	return w.Call("judge complaint "+name, func() error { return c.Verify(d, NI(dealer), NI(from), pk, ad) })
}

func p08(w *World) {
	kind := w.Choose("op", 4)
	n, active := w.Active("n", 1, 6, 36, 7)
	t := w.Thr("t", n)
	op := w.NewOp("op", kind, w.Size("tA", 1, 2, 14), w.Size("tB", 1, 2, 14))
	keys := w.Committee("r", n)
	ad := w.AD("a")
	nd := 1 + w.Choose("dealings", 4)
	if n > 100 {
		nd = min(nd, 2)
	}
	idx := w.dealerSet("d", nd)
	cs := w.damaged("d", op, t, idx, keys, active, ad, 550)
	name := opNames[kind]
	net := NewNet(w, "c", n, true)
	heard := map[string]bool{}
	shape := ""
	for _, r := range active {
		r := r
		var hurt []int
		for _, d := range idx {
			if !cs[d].fine[r] {
				hurt = append(hurt, d)
			}
		}
		sort.Ints(hurt)
		shape += fmt.Sprint(hurt)
		sd := w.Bytes(fmt.Sprint("cseed", r), 32)
		var made map[int]*Complaint
		k := keys[r]
		node := net.Nodes[r]
		node.Disk["sk"], node.Disk["pk"] = k.SK.Serialize(), k.PK.Serialize()
		node.OnCrash = func() { made = nil }
		var start func()
		start = func() {
			if made == nil {
				node.Do("complain", func() {
					m := &DealMap{}
					for _, j := range w.Perm(fmt.Sprint("ins", r), len(idx)) {
						m.Set(NI(idx[j]), DeepCopy(cs[idx[j]].D))
					}
					got, err := w.complain(fmt.Sprint("at ", r), m, ad, k, r, sd)
					if len(hurt) == 0 {
						w.Check(err != nil && len(got) == 0, "P08", "complaints about fine dealings", "%s t=%d dealers %v, receiver %d", name, t, idx, r)
						made = map[int]*Complaint{}
						return
					}
					w.Check(err == nil, "P08", "a victim got no complaint", "%s t=%d n=%d dealers %v, damaged %v, receiver %d: %v", name, t, n, idx, hurt, r, err)
					w.Check(reflect.DeepEqual(sortedKeys(got), hurt), "P08", "complaints are not about the damaged dealings", "%s t=%d n=%d dealers %v, damaged %v, receiver %d complains about %v", name, t, n, idx, hurt, r, sortedKeys(got))
					made = got
				})
			}
			if made == nil {
				w.After(80*ms, start)
				return
			}
			for _, d := range sortedKeys(made) {
				for _, h := range active {
					d, h, c := d, h, made[d]
					id := fmt.Sprintf("complaint %d/%d", r, d)
					net.Reliable(r, h, id, func() bool { return heard[fmt.Sprint(h, id)] }, func() {
						err := w.complaintOK(fmt.Sprintf("of %d about %d at %d", r, d, h), DeepCopy(c), DeepCopy(cs[d].D), d, r, keys[r].PK, ad)
						w.Check(err == nil, "P08", "a justified complaint was rejected", "%s t=%d n=%d dealers %v, %d bytes of context, receiver %d about dealing %d, judged at %d: %v", name, t, n, idx, len(ad), r, d, h, err)
						heard[fmt.Sprint(h, id)] = true
					})
				}
			}
		}
		node.OnRestart = func() {
			x, err := keys[r].Reload()
			w.Check(err == nil, "P16", "keys do not survive a restart", "%v", err)
			if err == nil {
				k = x
			}
			if made == nil {
				start()
			}
		}
		w.After(int64(w.Choose(fmt.Sprint("begin", r), 30))*ms, start)
	}
	w.State("P08", name, n, t, shape)
	net.Chaos()
	w.Run(20000)
	for _, r := range active {
		for _, d := range idx {
			if cs[d].fine[r] {
				continue
			}
			for _, h := range active {
				w.Check(heard[fmt.Sprint(h, fmt.Sprintf("complaint %d/%d", r, d))], "P08", "a complaint never got through", "receiver %d about %d at %d", r, d, h)
			}
		}
	}
}

// setComplaint puts together a complaint from parts; nil leaves the part as it is.
func setComplaint(c *Complaint, pf *DLogProof, shared *RP) {
	if pf != nil {
		if f, ok := fieldByType(c, tDLog, 0); ok {
			f.Set(reflect.ValueOf(pf))
		}
	}
	if shared != nil {
		if f, ok := fieldByType(c, tPoint, 0); ok {
			f.Set(reflect.ValueOf(PT(*shared)))
		}
	}
}

func proofOfComplaint(c *Complaint) *DLogProof {
	f, ok := fieldByType(c, tDLog, 0)
	if !ok || f.IsNil() {
		return nil
	}
	return f.Interface().(*DLogProof)
}

// complaintContext is what a forger hashes: the data a complaint's proof is bound to.
func complaintContext(ad []byte, recv, dealer int, pk *PubKey) []byte {
	o := ro.NewRandomOracle("ic-crypto-tecdsa-complaint-proof-assoc-data")
	o.AddBytesString("associated_data", ad)
	o.AddUint32("receiver_index", uint32(recv))
	o.AddUint32("dealer_index", uint32(dealer))
	o.AddPoint("receiver_public_key", pk.PublicPoint())
	b, _ := o.OutputByteString(32)
	return b
}

func p09(w *World) {
	kind := w.Choose("op", 4)
	n := w.Size("n", 1, 5, 36)
	t := w.Thr("t", n)
	op := w.NewOp("op", kind, w.Size("tA", 1, 2, 14), w.Size("tB", 1, 2, 14))
	keys := make([]Keys, n)
	for i := range keys {
		keys[i] = w.RandKeys(fmt.Sprint("r", i))
	}
	many := w.Maybe("many receivers", 10)
	if many { // indices that differ only above one byte
		n = 258
		t = 1
		for i := len(keys); i < n; i++ {
			keys = append(keys, keys[i%len(keys)])
		}
		keys[256] = keys[0]
	}
	ad := w.AD("a")
	idx := w.dealerSet("d", 1+w.Choose("dealings", 3))
	fine := map[int]*Corrupt{}
	broken := map[int]*Corrupt{}
	name := opNames[kind]
	for k, i := range idx {
		fine[i] = w.CorruptDealing(fmt.Sprint("f/", i), op, t, keys, i, ad, nil)
		nv := min(n, 5)
		vict := w.Subset(fmt.Sprint("vict", k), nv, 1+w.Choose(fmt.Sprint("nvict", k), nv))
		broken[i] = w.CorruptDealing(fmt.Sprint("b/", i), op, t, keys, i, ad, vict)
	}
	acc := w.Choose("accuser", min(n, 5))
	dl := idx[w.Choose("accused", len(idx))]
	k := keys[acc]
	mk := func(d *Dealing, dealer, recv int, k Keys, ad []byte, sd string) *Complaint {
		var c *Complaint
		err := w.Call("make complaint", func() (e error) {
			c, e = complaints.NewComplaintInternal(seedOf(w.Bytes("mk"+sd, 32)), d, NI(dealer), NI(recv), k.SK, k.PK, ad)
			return
		})
		w.Need(err, "making a complaint")
		return c
	}
	must := func(what string, c *Complaint, d *Dealing, dealer, from int, pk *PubKey, ad []byte) {
		w.State("P09", name, what)
		err := w.complaintOK(what, c, d, dealer, from, pk, ad)
		w.Check(err != nil, "P09", "a false complaint was accepted: "+what, "%s t=%d n=%d, accuser %d, dealing %d, %d bytes of context", name, t, n, from, dealer, len(ad))
	}
	// a justified complaint, to be replayed and altered
	var just *Complaint
	bad := broken[dl]
	if !bad.fine[acc] {
		just = mk(bad.D, dl, acc, k, ad, "just")
		err := w.complaintOK("justified", DeepCopy(just), DeepCopy(bad.D), dl, acc, k.PK, ad)
		w.Check(err == nil, "P08", "a justified complaint was rejected", "%s t=%d n=%d receiver %d about %d: %v", name, t, n, acc, dl, err)
	}
	for step := 0; step < 5; step++ {
		key := fmt.Sprint("s", step)
		d := DeepCopy(fine[dl].D)
		eph := RPof(*partsOf(d.Ciphertext).Eph)
		switch w.Choose("case"+key, 15) {
		case 0:
			must("about a fine dealing", mk(d, dl, acc, k, ad, key), d, dl, acc, k.PK, ad)
		case 1: // a damaged dealing, but not damaged for the accuser
			if bad.fine[acc] {
				must("about another receiver's damage", mk(bad.D, dl, acc, k, ad, key), DeepCopy(bad.D), dl, acc, k.PK, ad)
			}
		case 2: // an invented shared secret on a fine dealing, the proof as it was
			c := mk(d, dl, acc, k, ad, key)
			var s RP
			switch w.Choose("how"+key, 5) {
			case 0:
				s = rMulG(w.RndNZ("s" + key))
			case 1:
				s = RP{}
			case 2:
				s = rNeg(rMul(eph, k.sk))
			case 3:
				s = rMul(eph, addm(k.sk, big.NewInt(1)))
			case 4:
				s = eph
			}
			setComplaint(c, nil, &s)
			must("invented shared secret", c, d, dl, acc, k.PK, ad)
		case 3: // proofs that would pass if the challenge left something out
			omit := dlogOmits[w.Choose("omit"+key, len(dlogOmits))]
			know := k.sk
			gx := k.pub
			hx, pf, ok := w.dlogForgery(key, omit, rGen, eph, gx, know, complaintContext(ad, acc, dl, k.PK))
			if !ok || hx.eq(rMul(eph, k.sk)) {
				continue
			}
			c := mk(d, dl, acc, k, ad, key)
			setComplaint(c, pf, &hx)
			must("forged proof: "+omit, c, d, dl, acc, k.PK, ad)
		case 4: // made with a key other than the accuser's
			o := w.RandKeys("other" + key)
			o.PK = k.PK
			must("made with another secret key", mk(d, dl, acc, o, ad, key), d, dl, acc, k.PK, ad)
		case 5:
			o := w.RandKeys("other" + key)
			must("made for another key", mk(d, dl, acc, o, ad, key), d, dl, acc, k.PK, ad)
			must("judged under another key", mk(d, dl, acc, k, ad, key), d, dl, acc, o.PK, ad)
		case 6: // simple proofs
			c := mk(d, dl, acc, k, ad, key)
			s := []RP{rMulG(w.RndNZ("s" + key)), {}, rMul(eph, w.RndNZ("y"+key))}[w.Choose("how"+key, 3)]
			var pf *DLogProof
			switch w.Choose("pf"+key, 4) {
			case 0:
				pf = mkDLog(new(big.Int), new(big.Int))
			case 1:
				pf = mkDLog(w.RndNZ("c"+key), w.RndNZ("z"+key))
			case 2:
				pf = mkDLog(big.NewInt(1), k.sk)
			case 3:
				pf = *partsOf(d.Ciphertext).Proof
			}
			setComplaint(c, pf, &s)
			must("simple proof", c, d, dl, acc, k.PK, ad)
		case 7: // altered justified complaint
			if just == nil {
				continue
			}
			c := DeepCopy(just)
			p := proofOfComplaint(c)
			if p == nil {
				continue
			}
			switch w.Choose("how"+key, 4) {
			case 0:
				setScalar(p, "challenge", 0, w.RndNZ(key))
			case 1:
				setScalar(p, "response", 1, w.RndNZ(key))
			case 2:
				s := rMulG(w.RndNZ("s" + key))
				setComplaint(c, nil, &s)
			case 3:
				f, ok := fieldByType(c, tDLog, 0)
				if !ok {
					continue
				}
				f.Set(reflect.Zero(f.Type()))
			}
			must("altered complaint", c, DeepCopy(bad.D), dl, acc, k.PK, ad)
		case 8: // replay about another dealing of the same dealer
			if just != nil {
				must("replay: another dealing", DeepCopy(just), d, dl, acc, k.PK, ad)
				o := w.CorruptDealing("rb/"+key, op, t, keys, dl, ad, []int{acc})
				must("replay: another damaged dealing", DeepCopy(just), o.D, dl, acc, k.PK, ad)
			}
		case 9: // under another dealer's index
			j := w.Index("j"+key, w.Choose("j"+key, 6))
			if w.Maybe("near"+key, 600) {
				j = dl ^ []int{1, 2, 0x100, 0x10000, 0x1000000}[w.Choose("bit"+key, 5)]
			}
			if just != nil && j != dl && j < 1<<32 {
				must("replay: another dealer", DeepCopy(just), DeepCopy(bad.D), j, acc, k.PK, ad)
			}
			if just != nil && len(idx) > 1 {
				for _, o := range idx {
					if o != dl {
						must("replay: another dealer's dealing", DeepCopy(just), DeepCopy(broken[o].D), o, acc, k.PK, ad)
					}
				}
			}
		case 10: // under another receiver's index
			if just == nil {
				continue
			}
			for j := 0; j < min(n, 5); j++ {
				if j == acc {
					continue
				}
				must("replay: another receiver's index", DeepCopy(just), DeepCopy(bad.D), dl, j, k.PK, ad)
				must("replay: another receiver", DeepCopy(just), DeepCopy(bad.D), dl, j, keys[j].PK, ad)
			}
			if many && acc == 0 {
				must("replay: an index a byte apart", DeepCopy(just), DeepCopy(bad.D), dl, 256, k.PK, ad)
			}
			must("replay: no such receiver", DeepCopy(just), DeepCopy(bad.D), dl, n+w.Choose("past"+key, 3), k.PK, ad)
		case 11: // in another context
			if just == nil {
				continue
			}
			ad2, _ := w.flip("ad"+key, ad)
			must("replay: another context", DeepCopy(just), DeepCopy(bad.D), dl, acc, k.PK, ad2)
			o, err := w.HonestDealAd("o"+key, op, t, keys, dl, ad2)
			if err == nil {
				must("replay: the other context's dealing", DeepCopy(just), o, dl, acc, k.PK, ad2)
			}
		case 12: // parts of two complaints put together
			if just == nil {
				continue
			}
			c := mk(d, dl, acc, k, ad, key)
			x := DeepCopy(just)
			setComplaint(x, proofOfComplaint(c), nil)
			must("spliced complaint", x, DeepCopy(bad.D), dl, acc, k.PK, ad)
			y := DeepCopy(c)
			setComplaint(y, proofOfComplaint(just), nil)
			must("spliced complaint", y, d, dl, acc, k.PK, ad)
		case 14: // dealer and accuser together choose the ephemeral key after the challenge
			a, b, r := w.RndNZ("a"+key), w.RndNZ("b"+key), w.RndNZ("r"+key)
			hx := rMulG(a)
			inst, err := zk.ProofOfDLogEquivalenceIns.FromCommitments(PT(rGen), PT(rMulG(w.RndNZ("h"+key))), PT(k.pub), PT(hx))
			if err != nil {
				continue
			}
			ch, ok := challengeOf(inst, PT(rMulG(r)), PT(rMulG(b)), complaintContext(ad, acc, dl, k.PK))
			z := new(big.Int)
			if ok {
				z = addm(r, mulm(ch, k.sk))
			}
			if z.Sign() == 0 {
				continue
			}
			beta := mulm(addm(b, mulm(ch, a)), invm(z))
			if beta.Sign() == 0 || hx.eq(rMulG(mulm(beta, k.sk))) {
				continue
			}
			p := partsOf(d.Ciphertext)
			ctype := mega.MEGaCiphertextType(mega.CiphertextSingle)
			if p.Pair != nil {
				ctype = mega.CiphertextPairs
			}
			base, err := mega.ComputePopBase(ctype, K256, ad, NI(dl), PT(rMulG(beta)))
			w.Need(err, "base")
			pop, err := zk.ProofOfDLogEquivalenceIns.Create(seedOf(w.Bytes("pop"+key, 32)), SC(beta), PT(rGen), base, ad)
			w.Need(err, "possession")
			c := mk(d, dl, acc, k, ad, key)
			*p.Eph, *p.Pop, *p.Proof = PT(rMulG(beta)), PT(rMul(RPof(base), beta)), pop
			if d.Ciphertext.CheckValidity(n, ad, NI(dl)) != nil {
				continue
			}
			w.Probe("possession of a key chosen afterwards")
			setComplaint(c, mkDLog(ch, z), &hx)
			must("ephemeral key chosen afterwards", c, d, dl, acc, k.PK, ad)
		case 13: // a complaint made for other parameters from the start
			ad2, _ := w.flip("ad"+key, ad)
			must("made for another context", mk(d, dl, acc, k, ad2, key), d, dl, acc, k.PK, ad)
			must("made for another dealer", mk(d, dl^1, acc, k, ad, key), d, dl, acc, k.PK, ad)
			if just != nil {
				must("made for another context", mk(bad.D, dl, acc, k, ad2, key), DeepCopy(bad.D), dl, acc, k.PK, ad)
				must("made for another dealer", mk(bad.D, dl^1, acc, k, ad, key), DeepCopy(bad.D), dl, acc, k.PK, ad)
				must("made for another receiver", mk(bad.D, dl, acc^1, k, ad, key), DeepCopy(bad.D), dl, acc, k.PK, ad)
			}
		}
	}
}

// HonestDealAd is an honest dealing in a context.
func (w *World) HonestDealAd(name string, op *OpCase, t int, keys []Keys, dealer int, ad []byte) (*Dealing, error) {
	sh, err := op.Shares(w, name, dealer, 0)
	if err != nil {
		return nil, err
	}
	return w.Deal(name, sh, w.Bytes("seed:"+name, 32), t, keys, dealer, ad)
}
