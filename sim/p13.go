package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/sign"
)

func init() {
	register(&Property{ID: "P13", Quick: 2500, Thorough: 100000,
		Scens: []Scenario{
			{"forgeries", 3, p13Forge},
			{"history", 2, p13History},
		},
		Rule: "A run shows verifying clients signatures that were altered, forged from public data, or made for another request of a history.",
	})
	register(&Property{ID: "P14", Quick: 1100, Thorough: 40000,
		Scens: []Scenario{
			{"clients", 4, p14Clients},
			{"committee", 2, p14Committee},
			{"paths", 2, p14Paths},
		},
		Rule: "A run lets clients derive keys from a serialized master key while a committee reshares its secret and signs.",
	})
	register(&Property{ID: "P15", Quick: 4000, Thorough: 150000,
		Scens: []Scenario{
			{"nonces", 3, p15Nonces},
			{"signers", 2, p15Signers},
		},
		Rule: "A run serves several requests, near to each other or repeated, with one presignature at several signers in any order.",
	})
}

func mkSig(r, s *big.Int) *Sig { return &Sig{R: SC(r), S: SC(s)} }

// sigQuad is a key and presignature for verifying clients: thresholds matter little here.
func (w *World) sigQuad(key string) *Quad {
	q := &Quad{idx: []int{0}, t: 1}
	q.key = w.Sharing(key+"/key", w.Range(key+".t", 1, 3), w.secNZ(key+"/key"), false)
	q.kappa = w.Sharing(key+"/kappa", w.Range(key+".tk", 1, 3), w.RndNZ(key+"/kappa"), false)
	q.lambda, q.kl, q.xl = q.key, q.key, q.key
	return q
}

// judge13 asks the library about a signature and holds the verdict against what is right: only the
// request's own signature passes.
func (w *World) judge13(what string, gr, gs *big.Int, q *Quad, r *Req) {
	o := w.rhoOf("judge", q, r)
	er, es := q.sig(r, o)
	own := gr.Cmp(er) == 0 && gs.Cmp(es) == 0
	err := w.VerifySig(what, mkSig(gr, gs), q, r)
	if own {
		w.Check(err == nil, w.in("P13", "P12"), "a valid signature was rejected", "%s, %v: %v", what, r, err)
		return
	}
	if isPanic(err) {
		w.Fail("P13", "verification panics", "%s, %v: %v", what, r, err)
	}
	w.Check(err != nil, "P13", "a signature was accepted that is not the request's: "+cutAt(what), "%s, %v", what, r)
	if err == nil {
		w.Check(!rHigh(gs) && (len(r.hash) > 32 || rECDSA(o.child, r.hash, gr, gs)), "P13", "an invalid signature was accepted", "%s, %v", what, r)
	}
}

func p13Forge(w *World) {
	q := w.sigQuad("q")
	r := w.Req("r", true)
	o := w.rhoOf("", q, r)
	er, es := q.sig(r, o)
	w.judge13("own", er, es, q, r)
	w.State("P13", len(r.path), len(r.hash))
	half := new(big.Int).Rsh(rN, 1)
	for a := 0; a < 6; a++ {
		key := fmt.Sprint("a", a)
		gr, gs := er, es
		what := ""
		d := w.RndNZ("d" + key)
		if w.Maybe("small"+key, 400) {
			d = big.NewInt(int64(1 + w.Choose("by"+key, 3)))
		}
		vr := r
		vq := q
		k := w.Choose("kind"+key, 16)
		switch k {
		case 0:
			gs, what = negm(es), "negated s"
		case 1:
			gs, what = addm(es, d), "s plus something"
			if w.Maybe("bits"+key, 300) {
				gs, what = w.nearby(key, es), "s with some bits changed"
			}
		case 2:
			gr, what = addm(er, d), "r plus something"
			if w.Maybe("bits"+key, 500) {
				gr, what = w.nearby(key, er), "r with some bits changed"
			}
		case 3:
			gs, what = new(big.Int), "s zero"
		case 4:
			gr, what = new(big.Int), "r zero"
		case 5:
			gr, gs, what = new(big.Int), new(big.Int), "both zero"
		case 6:
			gr, gs, what = es, er, "r and s exchanged"
		case 7:
			gs, what = addm(half, big.NewInt(int64(w.Choose("half"+key, 3)))), "s about half the order"
		case 8: // a valid signature of a chosen hash with another nonce (existential forgery)
			u1, u2 := w.RndNZ("u1"+key), w.RndNZ("u2"+key)
			R := rAdd(rMulG(u1), rMul(o.child, u2))
			gr = mod(R.X)
			gs = mulm(gr, invm(u2))
			e := mulm(mulm(gr, u1), invm(u2))
			if rHigh(gs) {
				gs = negm(gs)
			}
			vr = r.clone()
			vr.hash = make([]byte, 32)
			e.FillBytes(vr.hash)
			what = "existential forgery"
		case 9: // the right r, s chosen so that the equation holds for another hash
			gs = mulm(addm(addm(r.e(), d), mulm(er, addm(q.key.secret(), o.tweak))), invm(addm(q.kappa.secret(), o.randomizer)))
			if rHigh(gs) {
				gs = negm(gs)
			}
			what = "s of another hash"
		case 10: // a nonce of its own
			kk := w.RndNZ("k" + key)
			gr = mod(rMulG(kk).X)
			gs = mulm(addm(r.e(), mulm(gr, addm(q.key.secret(), o.tweak))), invm(kk))
			if rHigh(gs) {
				gs = negm(gs)
			}
			what = "valid ECDSA with another nonce"
		case 11: // the master key in place of the derived one
			gs = mulm(addm(r.e(), mulm(er, q.key.secret())), invm(addm(q.kappa.secret(), o.randomizer)))
			if rHigh(gs) {
				gs = negm(gs)
			}
			what = "signed with the master key"
		case 12: // without rerandomisation
			gr = mod(q.kappa.pts[0].X)
			gs = mulm(addm(r.e(), mulm(gr, addm(q.key.secret(), o.tweak))), invm(q.kappa.secret()))
			if rHigh(gs) {
				gs = negm(gs)
			}
			what = "presignature not randomised"
		case 13:
			gr, what = negm(er), "negated r"
		case 14:
			var wh string
			vr, wh = w.alterReq(key, r, true)
			what = "another request: " + wh
		case 15:
			c := *q
			if w.Maybe("presig"+key, 500) {
				if w.Maybe("negated"+key, 400) {
					c.kappa = w.Sharing(key+"/kappa", q.kappa.t(), negm(q.kappa.secret()), false)
				} else {
					c.kappa = w.Sharing(key+"/kappa", q.kappa.t(), w.RndNZ(key+"/kappa"), false)
				}
				what = "another presignature"
			} else {
				if w.Maybe("negated"+key, 400) {
					c.key = w.Sharing(key+"/key", q.key.t(), negm(q.key.secret()), false)
				} else {
					c.key = w.Sharing(key+"/key", q.key.t(), w.RndNZ(key+"/key"), false)
				}
				what = "another key"
			}
			vq = &c
		}
		if (k == 2 || k == 13) && w.Maybe("fitted"+key, 500) { // by somebody who knows the secrets
			if gs = o.fit(q, r, gr); rHigh(gs) {
				gs = negm(gs)
			}
			what += ", s to fit"
		}
		if gs.Cmp(es) == 0 && gr.Cmp(er) == 0 && vr == r && vq == q {
			continue
		}
		w.State("P13f", k, what)
		w.judge13(what, gr, gs, vq, vr)
	}
}

// fit is the s with which (gr, s) satisfies the equation for the request's own nonce.
func (o *Rho) fit(q *Quad, r *Req, gr *big.Int) *big.Int {
	return mulm(addm(r.e(), mulm(gr, addm(q.key.secret(), o.tweak))), invm(addm(q.kappa.secret(), o.randomizer)))
}

// nearby is v with one bit or one byte changed.
func (w *World) nearby(key string, v *big.Int) *big.Int {
	b := v.FillBytes(make([]byte, 32))
	at := w.Choose("byte"+key, 32)
	if w.Maybe("bit"+key, 500) {
		b[at] ^= 1 << uint(w.Choose("bitno"+key, 8))
	} else {
		b[at] ^= byte(1 + w.Choose("value"+key, 255))
	}
	return mod(new(big.Int).SetBytes(b))
}

// p13History verifies every signature of a history against every request of it.
func p13History(w *World) {
	type served struct {
		q    *Quad
		r    *Req
		a, b *big.Int
	}
	var hist []served
	n := w.Size("n", 2, 4, 36)
	for k := 0; k < n; k++ {
		key := fmt.Sprint("h", k)
		var q *Quad
		how := 0
		if k > 0 {
			how = w.Choose("how"+key, 4)
		}
		switch how {
		case 0:
			q = w.sigQuad(key)
		case 1: // the same presignature
			q = hist[0].q
		case 2: // the same key
			c := *hist[0].q
			c.kappa = w.Sharing(key+"/kappa", 1, w.RndNZ(key+"/kappa"), false)
			q = &c
		case 3: // the same nonce secret for another key
			c := *hist[0].q
			c.key = w.Sharing(key+"/key", 1, w.RndNZ(key+"/key"), false)
			q = &c
		}
		var r *Req
		if k > 0 && w.Maybe("near"+key, 600) {
			r, _ = w.alterReq(key, hist[w.Choose("of"+key, k)].r, true)
		} else {
			r = w.Req(key, true)
		}
		a, b := q.sig(r, w.rhoOf(key, q, r))
		hist = append(hist, served{q, r, a, b})
		w.State("P13h", k, how)
	}
	for i := range hist {
		for j := range hist {
			w.judge13(fmt.Sprintf("a signature of the history: %d for request %d", i, j), hist[i].a, hist[i].b, hist[j].q, hist[j].r)
			if i != j {
				w.judge13(fmt.Sprintf("parts of two signatures: %d and %d", i, j), hist[i].a, hist[j].b, hist[j].q, hist[j].r)
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------

func (w *World) derive(name string, master []byte, p *Path) (pub, chain []byte, err error) {
	err = w.Call("derive key "+name, func() error {
		k, e := sign.DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: master}, p)
		if e != nil {
			return e
		}
		pub, chain = k.PublicKey, k.ChainKey
		return nil
	})
	return
}

// checkDerived derives and compares with the model.
func (w *World) checkDerived(name string, pub RP, path [][]byte, p *Path) {
	master := pub.bytes()
	before := string(master)
	got, chain, err := w.derive(name, master, p)
	w.Check(err == nil, w.in("P14"), "a key cannot be derived", "%s: %v", name, err)
	_, ec, child := rTweak(pub, path)
	w.Check(bytes.Equal(got, child.bytes()), "P14", "a derived key is not the child key", "%s, path of %d", name, len(path))
	w.Check(bytes.Equal(chain, ec), "P14", "a derived chain key is not the child's", "%s, path of %d", name, len(path))
	w.Check(string(master) == before, w.in("P18"), "deriving changes the master key", "")
	tw, _, _ := rTweak(pub, path)
	err = w.Call("tweak "+name, func() error {
		a, c, e := p.DeriveTweak(PT(pub))
		if e != nil {
			return e
		}
		w.Check(BI(a).Cmp(tw) == 0 && bytes.Equal(c, ec), "P14", "a tweak is not that of the path", "%s", name)
		return nil
	})
	w.Check(err == nil, "P14", "a tweak cannot be derived", "%s: %v", name, err)
}

func p14Clients(w *World) {
	sec := w.secNZ("key")
	pub := rMulG(sec)
	n := w.Size("n", 1, 3, 36)
	net := NewNet(w, "cl", n+1, true)
	master := pub.bytes()
	var paths [][][]byte
	for k := 0; k < 3; k++ {
		p := w.DPath(fmt.Sprint(k))
		if k > 0 && w.Maybe(fmt.Sprint("extend", k), 400) {
			p = append(append([][]byte{}, paths[k-1]...), p...)
		}
		paths = append(paths, p)
	}
	if w.Maybe("very long", 60) {
		for i := 0; i < 40; i++ {
			paths[0] = append(paths[0], w.Bytes(fmt.Sprint("long", i), i%9))
		}
	}
	results := map[string]string{}
	w.State("P14", n, len(paths[0]), len(paths[1]), len(paths[2]))
	for c := 0; c < n; c++ {
		c := c
		nd := net.Nodes[c]
		asked := map[int]bool{}
		var again func()
		again = func() {
			if len(asked) == len(paths) {
				return
			}
			nd.Do("derive", func() {
				m, ok := nd.Disk["master"]
				if !ok {
					return
				}
				for _, k := range w.Perm(fmt.Sprint("order", c), len(paths)) {
					got, chain, err := w.derive(fmt.Sprint(c, "/", k), append([]byte{}, m...), mkPath(paths[k]))
					w.Check(err == nil, "P14", "a key cannot be derived", "client %d: %v", c, err)
					_, ec, child := rTweak(pub, paths[k])
					w.Check(bytes.Equal(got, child.bytes()) && bytes.Equal(chain, ec), "P14", "a derived key is not the child key", "client %d, path %d", c, k)
					id := fmt.Sprint(paths[k])
					v := string(got) + string(chain)
					if o, ok := results[id]; ok {
						w.Check(o == v, "P14", "clients derive different keys", "path %d", k)
					}
					results[id] = v
					asked[k] = true
				}
			})
			w.After(70*ms, again)
		}
		net.Reliable(n, c, "master", func() bool { _, ok := nd.Disk["master"]; return ok }, func() {
			nd.Disk["master"] = append([]byte{}, master...)
			again()
		})
		nd.OnRestart = again
	}
	// one path is derived step by step along its prefixes, from slices of one array
	w.checkPrefixes("steps", pub, paths[2])
	net.Chaos()
	w.Run(20000)
	seen := map[string]string{}
	for _, p := range paths {
		id := fmt.Sprint(p)
		v := results[id]
		if o, ok := seen[v]; ok && o != id {
			w.Check(false, "P14", "two paths give one key", "%s and %s", id, o)
		}
		seen[v] = id
	}
}

func (w *World) checkPrefixes(name string, pub RP, path [][]byte) {
	full := make([]key.DerivationIndex, 0, len(path)+2)
	for _, p := range path {
		full = append(full, key.DerivationIndex(append([]byte{}, p...)))
	}
	for k := 0; k <= len(path); k++ {
		w.checkDerived(fmt.Sprint(name, k), pub, path[:k], key.New(full[:k]))
	}
	// and again the whole one, after its prefixes were used
	w.checkDerived(name+" again", pub, path, key.New(full))
}

func p14Paths(w *World) {
	pub := rMulG(w.secNZ("key"))
	n := w.Size("n", 1, 4, 36)
	nums := make([]uint32, n)
	var path [][]byte
	for i := range nums {
		switch w.Pick(fmt.Sprint("num", i), 4, 1, 1, 1, 1) {
		case 0:
			nums[i] = uint32(w.U64(fmt.Sprint("num", i)))
		case 1:
			nums[i] = uint32(w.Choose(fmt.Sprint("small", i), 3))
		case 2:
			nums[i] = 1 << 31
		case 3:
			nums[i] = 1<<32 - 1
		case 4:
			nums[i] = uint32(1) << uint(8*w.Choose(fmt.Sprint("byte", i), 4))
		}
		x := nums[i]
		path = append(path, []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)})
	}
	w.State("P14p", nums)
	w.checkDerived("bip32", pub, path, key.NewBip32(nums))
	w.checkDerived("bytes", pub, path, mkPath(path))
	// the master key in its long form, where the library takes it
	p := PT(pub)
	got, _, err := w.derive("from the library's bytes", p.Serialize(), mkPath(path))
	_, _, child := rTweak(pub, path)
	w.Check(err == nil && bytes.Equal(got, child.bytes()), "P14", "a derived key is not the child key", "from the library's own bytes: %v", err)
	// other master keys with the same path, those close to this one first
	for k := 0; k < 2; k++ {
		q := rMulG(w.RndNZ(fmt.Sprint("other master", k)))
		switch w.Choose(fmt.Sprint("relative", k), 4) {
		case 0: // only the last bit of the first byte differs
			q = rNeg(pub)
		case 1:
			q = rAdd(pub, pub)
		case 2:
			q = rAdd(pub, rMulG(big.NewInt(1)))
		}
		if !q.inf() {
			w.checkDerived("relative", q, path, key.NewBip32(nums))
		}
	}
	w.checkDerived("first again", pub, path, key.NewBip32(nums))
	// near paths give other keys
	seen := map[string][][]byte{string(child.bytes()): path}
	base := &Req{path: path, hash: w.Bytes("h", 32)}
	for k := 0; k < 5; k++ {
		r, what := w.alterReq(fmt.Sprint("near", k), base, true)
		q, _, err := w.derive("near", pub.bytes(), r.P())
		w.Check(err == nil, "P14", "a key cannot be derived", "%v: %v", r, err)
		if o, ok := seen[string(q)]; ok {
			same := len(o) == len(r.path)
			for i := range o {
				same = same && i < len(r.path) && bytes.Equal(o[i], r.path[i])
			}
			w.Check(same, "P14", "two paths give one key", "%s: %v", what, r)
		}
		seen[string(q)] = r.path
		_, _, child := rTweak(pub, r.path)
		w.Check(bytes.Equal(q, child.bytes()), "P14", "a derived key is not the child key", "%s", what)
	}
	// bad master keys are refused
	bad := append([]byte{}, pub.bytes()...)
	switch w.Choose("bad", 5) {
	case 0:
		bad = bad[:32]
	case 1:
		bad = append(bad, 0)
	case 2:
		bad[0] = 5
	case 3:
		bad = nil
	case 4:
		x := new(big.Int).Set(pub.X)
		for rY(x) != nil {
			x.Add(x, big.NewInt(1))
		}
		x.FillBytes(bad[1:])
	}
	_, _, err = w.derive("from bad bytes", bad, mkPath(path))
	w.Check(err != nil, "P16", "a key was derived from bytes that are no key", "%x", bad)
	_ = curve.K256
}

// p14Committee reshares the master secret and signs with whoever holds it.
func p14Committee(w *World) {
	cur := w.Sharing("key", w.Range("t0", 1, 3), w.secNZ("key"), w.Maybe("masked", 300))
	secret := cur.secret()
	pub := rMulG(secret)
	master := pub.bytes() // what clients hold since the key was made
	var last *Round
	rounds := w.Range("rounds", 0, 2)
	if cur.masked() && rounds == 0 {
		rounds = 1
	}
	for k := 0; k < rounds; k++ {
		old := 0
		if last != nil {
			old = last.n()
		}
		r := w.reshareRound(fmt.Sprint("r", k), cur.reshare(), last, old)
		w.RunRound(r)
		cur, last = w.Result(r, w.in("P14", "P06")), r
		w.Check(RPof(cur.T.ConstantTerm()).eq(pub), w.in("P14", "P06"), "a reshare changed the public key", "round %d", k)
	}
	t := w.Range("t", 1, 3)
	q := &Quad{t: t, key: cur, idx: w.signers("s", t)}
	w.presign("p", q)
	for k := 0; k < 2; k++ {
		r := &Req{w.DPath(fmt.Sprint("p", k)), w.Hash(fmt.Sprint("h", k), false), w.Randomness(fmt.Sprint("r", k))}
		o := w.rhoOf(fmt.Sprint(k), q, r)
		m := &SigMap{}
		for _, i := range q.idx {
			s, err := w.SignShare(fmt.Sprint(i), q, r, q.lambda.open(i), q.kl.open(i), q.xl.open(i))
			w.Check(err == nil, w.in("P14", "P11"), "a signer cannot sign", "%v", err)
			m.Set(NI(i), s)
		}
		x, err := w.Combine("committee", q, r, t, m)
		w.Check(err == nil, w.in("P14", "P12"), "valid shares do not combine", "%v", err)
		got, chain, err := w.derive("client", append([]byte{}, master...), r.P())
		w.Check(err == nil, "P14", "a key cannot be derived", "%v", err)
		p, err := rParse(got)
		w.Check(err == nil, "P14", "a derived key is no key", "%x", got)
		w.Check(rECDSA(p, r.hash, BI(x.R), BI(x.S)), "P14", "the committee's signature does not verify under the client's derived key", "%d reshares, %v", rounds, r)
		_, ec, child := rTweak(pub, r.path)
		w.Check(p.eq(child) && bytes.Equal(chain, ec), "P14", "a derived key is not the child key", "%v", r)
		_ = o
	}
	w.State("P14c", rounds, t)
}

// ---------------------------------------------------------------------------------------------

// longReq is a request whose parts may be much longer than usual.
func (w *World) longReq(key string) *Req {
	r := w.Req(key, true)
	if w.Maybe("long:"+key, 300) {
		n := []int{255, 256, 257, 511, 65535, 65536, 65537, 70000}[w.Choose("len:"+key, 8)]
		switch w.Choose("which:"+key, 3) {
		case 0:
			r.rand = w.Bytes("lr:"+key, n)
		case 1:
			r.hash = w.Bytes("lh:"+key, n)
		case 2:
			r.path = append(r.path, w.Bytes("lp:"+key, n))
		}
	}
	return r
}

// nearReq alters one part of a request, whatever its length.
func (w *World) nearReq(key string, r *Req) (*Req, string) {
	if w.Maybe("part:"+key, 500) {
		n := r.clone()
		what := ""
		switch w.Choose("which:"+key, 3) {
		case 0:
			n.rand, what = w.flip(key, n.rand)
			what = "randomness: " + what
		case 1:
			n.hash, what = w.flip(key, n.hash)
			what = "hash: " + what
		case 2:
			if len(n.path) == 0 {
				n.path = [][]byte{{}}
				what = "path: an empty component"
				break
			}
			j := w.Choose("comp:"+key, len(n.path))
			n.path[j], what = w.flip(key, n.path[j])
			what = "path: " + what
		}
		if !n.eq(r) {
			return n, what
		}
	}
	n := r.clone()
	if len(n.rand) > 0 && w.Maybe("move:"+key, 400) {
		k := 1 + w.Choose("by:"+key, min(len(n.rand), 300))
		n.hash = append(n.rand[len(n.rand)-k:], n.hash...)
		n.rand = n.rand[:len(n.rand)-k]
		return n, "bytes moved from randomness to hash"
	}
	if string(n.rand) != string(n.hash) && w.Maybe("swap:"+key, 300) {
		n.rand, n.hash = n.hash, n.rand
		return n, "randomness and hash exchanged"
	}
	if len(n.path) > 0 && w.Maybe("cut:"+key, 500) {
		n.path = n.path[:len(n.path)-1]
		return n, "path shorter"
	}
	n.rand = append(n.rand, 0)
	return n, "randomness longer"
}

func p15Nonces(w *World) {
	q := w.sigQuad("q")
	reqs := []*Req{w.longReq("r0")}
	whats := []string{"the first"}
	for k := 1; k < 5; k++ {
		r, what := w.nearReq(fmt.Sprint("n", k), reqs[w.Choose(fmt.Sprint("of", k), k)])
		reqs = append(reqs, r)
		whats = append(whats, what)
	}
	type served struct {
		r *Req
		o *Rho
	}
	var seen []served
	w.State("P15", whats)
	for _, k := range append(w.Perm("order", len(reqs)), w.Choose("again", len(reqs))) {
		r := reqs[k].clone()
		o := w.rhoOf(whats[k], q, r)
		for _, s := range seen {
			same := s.r.eq(r)
			sameR := s.o.R.eq(o.R)
			w.Check(same == sameR, "P15", map[bool]string{true: "one request, two nonces", false: "two requests, one nonce: " + cutAt(whats[k])}[same], "%v and %v (%s)", s.r, r, whats[k])
			w.Check(same || s.o.rho.Cmp(o.rho) != 0, "P15", "two requests with one r", "%v and %v (%s)", s.r, r, whats[k])
		}
		seen = append(seen, served{r, o})
	}
	// another key: its tweak enters as soon as the path is not empty
	if len(reqs[0].path) > 0 {
		c := *q
		c.key = w.Sharing("other", 1, w.RndNZ("other key"), false)
		a, b := w.rhoOf("first key", q, reqs[0]), w.rhoOf("other key", &c, reqs[0])
		w.Check(!a.R.eq(b.R), "P15", "two keys, one nonce", "%v", reqs[0])
	}
	// another presignature has other nonces
	c := *q
	c.kappa = w.Sharing("other kappa", 1, w.RndNZ("other kappa"), false)
	a, b := w.rhoOf("first presignature", q, reqs[0]), w.rhoOf("other presignature", &c, reqs[0])
	w.Check(!a.R.eq(b.R), "P15", "two presignatures, one nonce", "%v", reqs[0])
	w.Check(a.randomizer.Cmp(b.randomizer) != 0, "P15", "two presignatures, one randomizer", "%v", reqs[0])
}

// p15Signers serves requests at several signers over a faulty network and tries to extract the key.
func p15Signers(w *World) {
	n := w.Size("n", 1, 4, 36)
	t := w.Thr("t", n)
	q := w.Quad("q", w.signers("s", n), t)
	var reqs []*Req
	reqs = append(reqs, w.Req("r0", true))
	for k := 1; k < 3; k++ {
		r, _ := w.alterReq(fmt.Sprint("n", k), reqs[0], true)
		reqs = append(reqs, r)
	}
	net := NewNet(w, "sv", n+1, true)
	type key struct{ i, k int }
	nonce := map[key]RP{}
	shares := map[key]mshare{}
	count := map[key]int{}
	for si, i := range q.idx {
		for k := range reqs {
			si, i, k := si, i, k
			id := key{i, k}
			serve := func() {
				nd := net.Nodes[si]
				l, kl, xl := w.stored(nd, q, i)
				r := reqs[k].clone()
				// the transcripts come back from disk as well
				c := *q
				c.kappa = w.reloadSharing(q.kappa)
				c.key = w.reloadSharing(q.key)
				o := w.rhoOf(fmt.Sprintf("%d at %d", k, i), &c, r)
				s, err := w.SignShare(fmt.Sprintf("%d at %d", k, i), &c, r, l, kl, xl)
				w.Check(err == nil, w.in("P15", "P11"), "a signer cannot sign", "%v: %v", r, err)
				m, err := readShare(s)
				w.Check(err == nil, w.in("P15", "P11"), "a share is incomplete", "%v", err)
				if old, ok := nonce[id]; ok {
					w.Check(old.eq(o.R), "P15", "a retry uses another nonce", "request %d at signer %d, %v", k, i, r)
					w.Check(shares[id].eq(m), "P15", "a retry gives another share", "request %d at signer %d, %v", k, i, r)
				}
				nonce[id], shares[id] = o.R, m
				count[id]++
			}
			net.Reliable(n, si, fmt.Sprintf("request %d", k), func() bool { return count[id] > 0 }, serve)
		}
	}
	net.Chaos()
	w.Run(50000)
	var ids []key
	for _, i := range q.idx {
		for k := range reqs {
			if count[key{i, k}] > 0 {
				ids = append(ids, key{i, k})
			}
		}
	}
	for _, id := range ids {
		for _, id2 := range ids {
			same := reqs[id.k].eq(reqs[id2.k])
			w.Check(same == nonce[id].eq(nonce[id2]), "P15", "signers disagree on the nonce, or share one between requests", "requests %v and %v", reqs[id.k], reqs[id2.k])
		}
	}
	// signatures of every request, and the textbook extraction on each pair
	type sg struct {
		r, s *big.Int
		tw   *big.Int
	}
	sigs := make([]*sg, len(reqs))
	for k, r := range reqs {
		m := &SigMap{}
		have := 0
		for _, i := range q.idx {
			if x, ok := shares[key{i, k}]; ok && have < t {
				m.Set(NI(i), x.share())
				have++
			}
		}
		if have < t {
			w.Block("too few signers were served")
		}
		x, err := w.Combine(fmt.Sprint(k), q, r, t, m)
		w.Check(err == nil, w.in("P15", "P12"), "valid shares do not combine", "%v", err)
		tw, _, _ := rTweak(q.key.pts[0], r.path)
		sigs[k] = &sg{BI(x.R), BI(x.S), tw}
	}
	w.State("P15s", n, t)
	pub := q.key.pts[0]
	for a := range sigs {
		for b := a + 1; b < len(sigs); b++ {
			if reqs[a].eq(reqs[b]) {
				continue
			}
			w.Check(sigs[a].r.Cmp(sigs[b].r) != 0, "P15", "two requests with one r", "%v and %v", reqs[a], reqs[b])
			for _, sign := range []int64{1, -1} {
				// s1 k = e1 + r1 (x+tw1), s2 k = e2 + r2 (x+tw2), up to the sign of s2
				s2 := mulm(sigs[b].s, big.NewInt(sign))
				c1 := addm(reqs[a].e(), mulm(sigs[a].r, sigs[a].tw))
				c2 := addm(reqs[b].e(), mulm(sigs[b].r, sigs[b].tw))
				den := subm(mulm(sigs[a].r, s2), mulm(sigs[b].r, sigs[a].s))
				if den.Sign() == 0 {
					continue
				}
				x := mulm(subm(mulm(c2, sigs[a].s), mulm(c1, s2)), invm(den))
				w.Check(!rMulG(x).eq(pub), "P15", "the key follows from two signatures as if they shared a nonce", "%v and %v", reqs[a], reqs[b])
			}
		}
	}
}

// reloadSharing reads the transcript of a sharing back from its bytes.
func (w *World) reloadSharing(s *Sharing) *Sharing {
	c := *s
	b, err := s.C.Serialize()
	w.Check(err == nil, w.in("P15", "P16"), "transcript has no bytes", "%v", err)
	pc, err := deserializeCommitment(b)
	w.Check(err == nil, w.in("P15", "P16"), "a transcript does not survive the disk", "%v", err)
	c.C = pc
	c.T = mkTrans(pc, false)
	return &c
}
