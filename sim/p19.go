package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/seed"
)

func init() {
	register(&Property{ID: "P19", Quick: 2400, Thorough: 40000,
		Scens: []Scenario{
			{"history", 4, p19History},
			{"complaints", 2, p19Complaints},
			{"encryption keys", 2, p19Keystream},
			{"node keys", 1, p19NodeKeys},
		},
		Rule: "A run collects every message of a history of dealings and complaints, takes from them, with all receivers' keys, each secret the dealers used, and looks for one that appears twice.",
	})
}

// A hoard collects secrets by their image under G.
type hoard struct {
	w    *World
	at   map[string]string // x coordinate of the image: whose
	imgs []RP
	who  []string
	vals []*big.Int
	who2 []string // whose vals they are
}

func (w *World) hoard() *hoard { return &hoard{w: w, at: map[string]string{}} }

func (h *hoard) image(who string, p RP) {
	w := h.w
	w.Check(!p.inf(), "P19", "a secret is zero", "%s", who)
	k := string(be32(p.X))
	if o, ok := h.at[k]; ok {
		w.Fail("P19", "a secret is used twice", "%s and %s", o, who)
	}
	h.at[k] = who
	w.Probe("image taken: " + strings.SplitN(who, " of ", 2)[0])
	h.imgs = append(h.imgs, p)
	h.who = append(h.who, who)
}

func (h *hoard) add(who string, v *big.Int) {
	w := h.w
	w.Check(v.Sign() != 0, "P19", "a secret is zero", "%s", who)
	w.Check(v.BitLen() > 128 && negm(v).BitLen() > 128, "P19", "a secret is small", "%s is %x", who, v)
	h.vals, h.who2 = append(h.vals, v), append(h.who2, who)
	w.Probe("secret taken: " + strings.TrimRight(strings.SplitN(strings.SplitN(who, " of ", 2)[0], " against ", 2)[0], ".0123456789 "))
	h.image(who, rMulG(v))
}

// close looks at the collection as a whole.
func (h *hoard) close() {
	w := h.w
	for i, p := range h.imgs {
		for k, q := range []RP{rAdd(p, rGen), rAdd(p, rNeg(rGen)), rAdd(p, p)} {
			if q.inf() {
				continue
			}
			o, ok := h.at[string(be32(q.X))]
			w.Check(!ok, "P19", "secrets are related", "%s and %s (relation %d)", o, h.who[i], k)
		}
	}
	h.quadruples()
	// secrets known by their images only: one is the sum of two others
	var only []int
	for i, who := range h.who {
		if strings.HasPrefix(who, "ephemeral key") || strings.HasPrefix(who, "nonce of the proof of possession") {
			only = append(only, i)
		}
	}
	if len(only) > 16 {
		only = only[:16]
	}
	for a, i := range only {
		for _, j := range only[:a] {
			for k, q := range []RP{rAdd(h.imgs[i], h.imgs[j]), rAdd(h.imgs[i], rNeg(h.imgs[j]))} {
				if q.inf() {
					continue
				}
				o, ok := h.at[string(be32(q.X))]
				w.Check(!ok, "P19", "secrets are related", "%s and %s give %s (%d)", h.who[i], h.who[j], o, k)
			}
		}
	}
	if len(h.vals) >= 16 {
		top := 0
		for _, v := range h.vals {
			top = max(top, v.BitLen())
		}
		w.Check(top > 248, "P19", "a secret is small", "none of %d secrets has more than %d bits", len(h.vals), top)
	}
	w.Probe("secrets compared")
}

// quadruples looks for a+b = c+d and ab = ±cd among the secrets, zero and one.
func (h *hoard) quadruples() {
	w := h.w
	vs, who := []*big.Int{new(big.Int), big.NewInt(1)}, []string{"0", "1"}
	for _, enc := range []bool{false, true} { // encryption keys last: they are many
		for i, v := range h.vals {
			if strings.HasPrefix(h.who2[i], "encryption key") == enc && len(vs) < 90 {
				vs, who = append(vs, v), append(who, h.who2[i])
			}
		}
	}
	sums, prods := map[string][2]int{}, map[string][2]int{}
	for i := range vs {
		for j := 0; j <= i; j++ {
			k := string(be32(addm(vs[i], vs[j])))
			if o, ok := sums[k]; ok {
				w.Fail("P19", "secrets are related", "%s plus %s is %s plus %s", who[i], who[j], who[o[0]], who[o[1]])
			}
			sums[k] = [2]int{i, j}
			if j == 0 {
				continue // products with zero
			}
			p := mulm(vs[i], vs[j])
			if rHigh(p) {
				p = negm(p)
			}
			k = string(be32(p))
			if o, ok := prods[k]; ok {
				w.Fail("P19", "secrets are related", "%s times %s is %s times %s", who[i], who[j], who[o[0]], who[o[1]])
			}
			prods[k] = [2]int{i, j}
		}
	}
}

func scalarsOf(x interface{}) map[string]*big.Int {
	out := map[string]*big.Int{}
	v := reflect.ValueOf(x)
	for v.Kind() == reflect.Ptr && v.Elem().Kind() == reflect.Struct && v.Elem().NumField() == 1 && v.Elem().Field(0).Kind() == reflect.Ptr {
		v = v.Elem().Field(0)
	}
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return out
	}
	for _, name := range []string{"challenge", "response", "response1", "response2"} {
		if f, ok := fieldNamed(v.Interface(), name); ok {
			out[name] = BI(f)
		}
	}
	return out
}

func fieldNamed(x interface{}, name string) (Scalar, bool) {
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Name == name && v.Field(i).Type() == tScalar {
			s, ok := open(v.Field(i)).Interface().(Scalar)
			return s, ok
		}
	}
	return nil, false
}

// takeDealing takes the secrets out of a dealing whose receivers' keys are all known.
func (h *hoard) takeDealing(who string, d *Dealing, op *OpCase, t int, keys []Keys, dealer int, ad []byte) {
	w := h.w
	pts := RefPoints(d.Commitment)
	w.Check(len(pts) == t, "P19", "a polynomial is not of full degree", "%s has %d coefficients, threshold %d", who, len(pts), t)
	w.Check(!pts[t-1].inf() || t == 1 && op.kind != opRandom, "P19", "a polynomial is not of full degree", "%s: the highest coefficient is zero", who)
	var vs, ms []*big.Int
	var idx []int
	for i := range keys {
		o, err := w.OpenDealing(who, d, keys[i], ad, dealer, i)
		w.Need(err, "open")
		v, m, err := opVals(o)
		w.Need(err, "values")
		vs, ms, idx = append(vs, v), append(ms, m), append(idx, i)
	}
	pv := rInterpPoly(idx[:t], vs[:t])
	var pm rPoly
	if ms[0] != nil {
		pm = rInterpPoly(idx[:t], ms[:t])
	}
	if !eqPts(commitPts(pv, pm), pts) {
		w.pre("P01", "the shares are not those of the commitment", "%s", who)
		return
	}
	for j := range pv {
		if j > 0 || op.kind == opRandom {
			h.add(fmt.Sprintf("coefficient %d of %s", j, who), pv[j])
		}
	}
	for j := range pm {
		h.add(fmt.Sprintf("mask coefficient %d of %s", j, who), pm[j])
	}
	// fewer shares than the threshold lead elsewhere
	if t >= 2 {
		sub := w.Subset("sub"+who, len(keys), t-1)
		var ys []*big.Int
		for _, i := range sub {
			ys = append(ys, vs[i])
		}
		w.Check(rInterp(sub, ys, new(big.Int)).Cmp(pv[0]) != 0, "P19", "too few shares give the secret", "%s, shares %v of threshold %d", who, sub, t)
		for _, i := range sub {
			w.Check(vs[i].Cmp(pv[0]) != 0, "P19", "a share is the secret", "%s, share %d", who, i)
		}
	}
	c := partsOf(d.Ciphertext)
	eph := RPof(*c.Eph)
	h.image("ephemeral key of "+who, eph)
	s := scalarsOf(*c.Proof)
	if z, ch := s["response"], s["challenge"]; z != nil && ch != nil {
		h.image("nonce of the proof of possession of "+who, rAdd(rMulG(z), rNeg(rMul(eph, ch))))
	}
	for i := range keys {
		if c.Single != nil {
			h.add(fmt.Sprintf("encryption key %d of %s", i, who), subm(BI((*c.Single)[i]), vs[i]))
		} else {
			for b, x := range []*big.Int{vs[i], ms[i]} {
				h.add(fmt.Sprintf("encryption key %d.%d of %s", i, b, who), subm(BI((*c.Pair)[i][b]), x))
			}
		}
	}
	if d.Proof == nil {
		return
	}
	p := scalarsOf(d.Proof)
	ch := p["challenge"]
	switch op.kind {
	case opReshareMasked:
		_, m := op.A.at(dealer)
		if z := p["response"]; z != nil && ch != nil {
			h.add("nonce of the proof of "+who, subm(z, mulm(ch, m)))
		}
	case opProduct:
		l, _ := op.A.at(dealer)
		_, rm := op.B.at(dealer)
		if z1, z2 := p["response1"], p["response2"]; z1 != nil && z2 != nil && ch != nil {
			h.add("nonce 1 of the proof of "+who, subm(z1, mulm(ch, l)))
			h.add("nonce 2 of the proof of "+who, subm(z2, mulm(ch, subm(pm[0], mulm(l, rm)))))
		}
	}
}

// seeds draws n seeds that differ but may be close to each other.
func (w *World) seeds(key string, n int) []*seed.Seed {
	base := w.Bytes("base:"+key, 32)
	mode := w.Choose("seeds:"+key, 6)
	first := w.Choose("first bit:"+key, 256)
	rng := seedOf(base).Rng()
	var out []*seed.Seed
	for k := 0; k < n; k++ {
		b := append([]byte{}, base...)
		switch mode {
		case 0: // unrelated
			out = append(out, seedOf(w.Bytes(fmt.Sprint("seed:", key, k), 32)))
		case 1: // a bit apart
			at := (first + k) % 256
			b[at/8] ^= 1 << uint(at%8)
			out = append(out, seedOf(b))
		case 2: // the same start, other lengths
			out = append(out, seedOf(append(b, make([]byte, k)...)))
		case 3: // derived from one
			out = append(out, seedOf(base).Derive(fmt.Sprint("dealing-", k)))
		case 4: // successive outputs of one generator
			out = append(out, seed.FromRng(rng))
		case 5: // counters
			c := make([]byte, 32)
			c[31] = byte(k)
			c[0] = base[0]
			out = append(out, seedOf(c))
		}
	}
	return out
}

func p19History(w *World) {
	n := w.Size("n", 1, 4, 36)
	t := w.Thr("t", n)
	nodes := w.Range("dealers", 1, 3)
	per := w.Range("dealings", 1, 3)
	keys := w.Committee("r", n)
	ss := w.seeds("s", nodes*per)
	h := w.hoard()
	net := NewNet(w, "h", nodes, true)
	type item struct {
		who string
		d   *Dealing
		op  *OpCase
		i   int
		ad  []byte
	}
	items := make([]*item, nodes*per)
	idx := make([]int, nodes)
	for j := range idx {
		idx[j] = w.Index(fmt.Sprint("i", j), j)
	}
	distinct(idx)
	same := w.Maybe("same operation", 500)
	var op0 *OpCase
	ad0 := w.AD("a")
	for j := 0; j < nodes; j++ {
		for k := 0; k < per; k++ {
			j, k := j, k
			q := j*per + k
			op := op0
			if op == nil || !same {
				op = w.NewOp(fmt.Sprint("op", q), w.Choose(fmt.Sprint("kind", q), 4), 1+w.Choose(fmt.Sprint("tA", q), 2), 1)
				op0 = op
			}
			ad := ad0
			if w.Maybe(fmt.Sprint("ad", q), 300) {
				ad = w.AD(fmt.Sprint("a", q))
			}
			sh, err := op.Shares(w, "", idx[j], 0)
			w.Need(err, "shares")
			who := fmt.Sprintf("dealing %d of dealer %d (%s)", k, j, opNames[op.kind])
			tries := 0
			var try func()
			try = func() {
				var got *Dealing
				node := net.Nodes[j]
				if !node.up {
					w.After(30*ms, try)
					return
				}
				tries++
				if !node.Do(fmt.Sprint("deal", q, ".", tries), func() {
					e := w.Call("deal", func() (e error) {
						got, e = dealings.NewIDkgDealingInternal(sh, K256, ss[q], t, pks(keys), NI(idx[j]), ad)
						return
					})
					w.Need(e, "deal")
				}) || got == nil {
					w.After(30*ms, try) // the seed was on the disk: the same dealing again
					return
				}
				if items[q] == nil {
					items[q] = &item{who, got, op, idx[j], ad}
				}
			}
			w.After(int64(10*q)*ms, try)
		}
	}
	w.Run(5000)
	w.State("P19", n, t, nodes, per)
	for _, it := range items {
		if it == nil {
			w.Block("a dealing was not made")
			return
		}
		h.takeDealing(it.who, it.d, it.op, t, keys, it.i, it.ad)
	}
	h.close()
}

func p19Complaints(w *World) {
	n := w.Size("n", 1, 3, 36)
	t := w.Thr("t", n)
	keys := w.Committee("r", n)
	op := w.NewOp("op", w.Choose("op", 4), 1, 1)
	ad := w.AD("a")
	idx := w.dealerSet("d", 2+w.Choose("dealings", 3))
	v := w.Choose("victim", n)
	m := &DealMap{}
	var hurt []int
	for k, i := range idx {
		c := w.CorruptDealing(fmt.Sprint("c", k), op, t, keys, i, ad, []int{v})
		m.Set(NI(i), c.D)
		if !c.fine[v] {
			hurt = append(hurt, i)
		}
	}
	if len(hurt) == 0 {
		return
	}
	h := w.hoard()
	rounds := 1 + w.Choose("rounds", 3)
	ss := w.seeds("s", rounds)
	single := w.Maybe("one by one", 300)
	ss1 := w.seeds("s1", len(idx)*rounds)
	for r := 0; r < rounds; r++ {
		for q, i := range idx {
			var c *Complaint
			d, _ := m.Get(NI(i))
			if single {
				err := w.Call("complaint", func() (e error) {
					c, e = complaints.NewComplaintInternal(ss1[r*len(idx)+q], d, NI(i), NI(v), keys[v].SK, keys[v].PK, ad)
					return
				})
				w.Need(err, "complaint")
			} else {
				var cs map[int]*Complaint
				err := w.Call("complain", func() error {
					x, e := complaints.GenerateComplaints(m, ad, NI(v), keys[v].SK, keys[v].PK, ss[r])
					if e != nil {
						return e
					}
					cs = map[int]*Complaint{}
					x.Scan(func(d NI, c *Complaint) bool { cs[int(d)] = c; return true })
					return nil
				})
				w.Need(err, "complaints")
				if c = cs[i]; c == nil {
					continue
				}
			}
			pf := proofOfComplaint(c)
			if pf == nil {
				w.Block("a complaint has no proof")
				return
			}
			s := scalarsOf(pf)
			if z, ch := s["response"], s["challenge"]; z != nil && ch != nil {
				h.add(fmt.Sprintf("nonce of complaint %d against %d", r, i), subm(z, mulm(ch, keys[v].sk)))
			}
		}
	}
	for k, i := range idx {
		d, _ := m.Get(NI(i))
		h.image(fmt.Sprint("ephemeral key of dealing ", k), RPof(*partsOf(d.Ciphertext).Eph))
	}
	w.State("P19c", n, t, len(hurt), rounds)
	h.close()
}

// p19NodeKeys: keys generated from different seeds.
func p19NodeKeys(w *World) {
	h := w.hoard()
	base := w.Bytes("base", 32)
	n := 2 + w.Choose("n", 12)
	used := map[string]bool{}
	for k := 0; k < n; k++ {
		key := fmt.Sprint("k", k)
		sd := append([]byte{}, base...)
		switch w.Choose("how"+key, 4) {
		case 0:
			sd[w.Choose("byte"+key, 32)] ^= 1 << uint(w.Choose("bit"+key, 8))
		case 1:
			sd = sd[:w.Choose("cut"+key, 32)]
		case 2:
			sd = append(sd, make([]byte, 1+w.Choose("more"+key, 40))...)
		case 3:
			sd = w.Bytes("other"+key, 1+w.Choose("len"+key, 64))
		}
		if used[string(sd)] {
			continue
		}
		used[string(sd)] = true
		root := seedOf(sd)
		for j := 0; j < 2; j++ { // the seed itself, and one derived from it
			var sk *PrivKey
			w.Need(w.Call("generate keys", func() (e error) {
				_, sk, e = mega.GenKeypair(K256, root)
				return
			}), "keys")
			h.add(fmt.Sprintf("key of seed %d/%d", k, j), BI(sk.SecretScalar()))
			root = seedOf(sd).Derive("node key")
		}
	}
	w.State("P19n", n)
	h.close()
}

// p19Keystream: dealings with one seed in other contexts, and receivers with one key.
func p19Keystream(w *World) {
	n := 2 + w.Choose("n", 5)
	if w.Maybe("many receivers", 60) {
		n = 257 + w.Choose("more", 5)
	}
	keys := make([]Keys, n)
	one := w.RandKeys("one")
	for i := range keys {
		keys[i] = one
		if n < 200 && w.Maybe(fmt.Sprint("own key", i), 400) {
			keys[i] = w.RandKeys(fmt.Sprint("k", i))
		}
	}
	pair := w.Maybe("pair", 500)
	sd := w.Bytes("seed", 32)
	ad := w.AD("a")
	dealer := w.Index("dealer", 3)
	type ctx struct {
		ad     []byte
		dealer int
		what   string
	}
	cs := []ctx{{ad, dealer, "the first"}}
	used := map[string]bool{fmt.Sprintf("%x %d", ad, dealer): true}
	for k := 0; k < 3; k++ {
		key := fmt.Sprint("c", k)
		c := cs[w.Choose("from"+key, len(cs))]
		switch w.Choose("how"+key, 4) {
		case 0:
			c.ad, c.what = w.flip(key, c.ad)
		case 1:
			c.dealer, c.what = c.dealer^1<<uint(w.Choose("bit"+key, 32)), "another dealer"
		case 2:
			c.ad, c.what = w.AD("ad"+key), "another context"
		case 3: // the bytes of the dealer index move into the context
			c.ad, c.dealer, c.what = append(append([]byte{}, c.ad...), byte(c.dealer)), c.dealer>>8, "a byte of the index in the context"
		}
		u := fmt.Sprintf("%x %d", c.ad, c.dealer)
		if used[u] {
			continue
		}
		used[u] = true
		cs = append(cs, c)
		if n > 200 {
			break
		}
	}
	zero := make([]*big.Int, n)
	for i := range zero {
		zero[i] = w.Sec(fmt.Sprint("p", i%5))
	}
	masks := zero
	if !pair {
		masks = nil
	}
	seen := map[string]string{}
	for _, c := range cs {
		ct, err := encryptShares(sd, zero, masks, keys, c.dealer, c.ad)
		w.Need(err, "encrypt")
		p := partsOf(ct)
		for i := 0; i < n; i++ {
			var ks []*big.Int
			if pair {
				ks = []*big.Int{subm(BI((*p.Pair)[i][0]), zero[i]), subm(BI((*p.Pair)[i][1]), zero[i])}
			} else {
				ks = []*big.Int{subm(BI((*p.Single)[i]), zero[i])}
			}
			for b, k := range ks {
				who := fmt.Sprintf("key %d of receiver %d in %s", b, i, c.what)
				o, dup := seen[string(be32(k))]
				w.Check(!dup, "P19", "an encryption key is used twice", "%s; %s", o, who)
				w.Check(k.Sign() != 0 && k.BitLen() > 100, "P19", "a secret is small", "%s", who)
				seen[string(be32(k))] = who
			}
		}
	}
	w.State("P19k", n, pair, len(cs))
}
