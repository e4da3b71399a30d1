package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"
	"sort"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"
)

func init() {
	register(&Property{ID: "P17", Quick: 2400, Thorough: 80000,
		Scens: []Scenario{
			{"peers", 5, p17Peers},
			{"bytes", 2, p17Bytes},
			{"keys", 1, p17Keys},
			{"requests", 1, p17Requests},
		},
		Rule: "A run sends honest nodes messages of every kind, wrecked in any way, mixed with honest ones; the nodes process all of them and go on with honest work.",
	})
}

// donors holds values found in honest messages, by type, to put where they do not belong.
type donors map[reflect.Type][]reflect.Value

func (d donors) add(x interface{}) {
	for _, l := range Locations(x) {
		switch l.Kind {
		case "iface", "ptr", "slice":
			c := reflect.New(l.V.Type()).Elem()
			c.Set(l.V)
			d[l.V.Type()] = append(d[l.V.Type()], c)
		}
	}
	boxed = nil
}

const huge = 80

// evilPoint and evilScalar draw elements that proofs and sums find hard.
func (w *World) evilPoint(key string, have []Point) RP {
	switch w.Choose("pt:"+key, 6) {
	case 0:
		return RP{}
	case 1:
		return rGen
	case 2:
		return rNeg(rGen)
	case 3:
		if len(have) > 0 {
			return RPof(have[w.Choose("have:"+key, len(have))])
		}
	case 4:
		if len(have) > 0 {
			return rNeg(RPof(have[w.Choose("have:"+key, len(have))]))
		}
	}
	return rMulG(w.RndNZ("pt:" + key))
}

func (w *World) evilScalar(key string) *big.Int {
	switch w.Choose("sc:"+key, 5) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Sub(rN, big.NewInt(1))
	case 3:
		return new(big.Int).Add(new(big.Int).Rsh(rN, 1), big.NewInt(int64(w.Choose("half:"+key, 2))))
	}
	return w.Rnd("sc:" + key)
}

// wreck alters a message, given by a pointer to it, in n places.
func (w *World) wreck(key string, x interface{}, d donors, n int) string {
	what := ""
	for k := 0; k < n; k++ {
		key := fmt.Sprint(key, "/", k)
		locs := Locations(x)
		if len(locs) == 0 {
			boxed = nil
			return what
		}
		var pts []Point
		for _, l := range locs {
			if l.Kind == "point" && !l.V.IsNil() {
				pts = append(pts, l.V.Interface().(Point))
			}
		}
		// parts near the top count as much as the many elements
		l := locs[w.Choose("loc:"+key, len(locs))]
		if w.Maybe("top:"+key, 350) {
			sort.SliceStable(locs, func(i, j int) bool { return len(locs[i].Path) < len(locs[j].Path) })
			l = locs[w.Choose("loc2:"+key, min(len(locs), 6))]
		}
		how := ""
		switch l.Kind {
		case "point":
			l.V.Set(reflect.ValueOf(PT(w.evilPoint(key, pts))))
			how = "point"
		case "scalar":
			l.V.Set(reflect.ValueOf(SC(w.evilScalar(key))))
			how = "scalar"
		case "iface", "ptr":
			ds := d[l.V.Type()]
			if len(ds) == 0 || w.Maybe("nil:"+key, 400) {
				l.V.Set(reflect.Zero(l.V.Type()))
				how = "missing"
			} else {
				c := DeepCopy(ds[w.Choose("donor:"+key, len(ds))].Interface())
				if c == nil {
					l.V.Set(reflect.Zero(l.V.Type()))
				} else {
					l.V.Set(reflect.ValueOf(c))
				}
				how = "exchanged"
			}
			if l.Kind == "iface" {
				boxed = nil
			}
		case "slice":
			s := l.V
			m := s.Len()
			cp := func(from, to int) reflect.Value {
				c := reflect.MakeSlice(s.Type(), to-from, to-from)
				reflect.Copy(c, s.Slice(from, to))
				return c
			}
			switch w.Pick("slice:"+key, 2, 2, 2, 2, 2, 1, 2, 2) {
			case 0:
				s.Set(reflect.Zero(s.Type()))
				how = "nil list"
			case 1:
				s.Set(reflect.MakeSlice(s.Type(), 0, 0))
				how = "empty list"
			case 2:
				if m > 0 {
					s.Set(cp(0, m-1))
				}
				how = "shorter list"
			case 3:
				if m > 0 {
					s.Set(cp(1, m))
				}
				how = "list without its head"
			case 4:
				if m > 0 {
					s.Set(reflect.Append(cp(0, m), s.Index(w.Choose("dup:"+key, m))))
				}
				how = "longer list"
			case 5:
				if m > 0 {
					c := cp(0, m)
					e := s.Index(w.Choose("dup:"+key, m))
					for i := w.Range("times:"+key, 2, huge); i > 0; i-- {
						c = reflect.Append(c, e)
					}
					s.Set(c)
				}
				how = "long list"
			case 6:
				if m > 1 {
					c := cp(0, m)
					for i := 0; i < m; i++ {
						c.Index(i).Set(s.Index(m - 1 - i))
					}
					s.Set(c)
				}
				how = "reversed list"
			case 7:
				ds := d[s.Type()]
				if len(ds) > 0 {
					o := ds[w.Choose("donor:"+key, len(ds))]
					c := reflect.MakeSlice(s.Type(), o.Len(), o.Len())
					reflect.Copy(c, o)
					s.Set(c)
				}
				how = "another list"
			}
		}
		CommitLocations()
		what += fmt.Sprintf(" %s %s", how, l.Path)
	}
	return what
}

// theatre holds the honest protocol state a Byzantine peer acts on.
type theatre struct {
	n, t int
	ad   []byte
	keys []Keys
	ops  []*OpCase
	op   []interface{}
	// one honest dealing of each kind and dealer
	idx   []int
	deal  []map[int]*Dealing
	tr    []*Trans
	bad   *Corrupt
	badI  int
	badV  int
	cs    map[int]*Complaint
	q     *Quad
	r     *Req
	rho   *Rho
	share map[int]*SigShare
	sig   *Sig
	d     donors
}

func (w *World) theatre() *theatre {
	T := &theatre{n: w.Size("n", 1, 4, 20), d: donors{}}
	T.t = w.Thr("t", T.n)
	T.ad = w.AD("a")
	T.keys = w.Committee("r", T.n)
	T.idx = []int{w.Index("d0", 0), w.Index("d1", 1), w.Index("d2", 2)}
	distinct(T.idx)
	kinds := []int{w.Choose("op", 4), w.Choose("op2", 4)}
	for k, kind := range kinds {
		op := w.NewOp(fmt.Sprint("op", k), kind, 1+w.Choose(fmt.Sprint("tA", k), 2), 1+w.Choose(fmt.Sprint("tB", k), 2))
		T.ops = append(T.ops, op)
		T.op = append(T.op, op.Op(w, fmt.Sprint("op", k)))
		m := map[int]*Dealing{}
		var all []int
		for j := 0; j < max(1, op.need()) && j < len(T.idx); j++ {
			m[T.idx[j]] = w.HonestDeal(fmt.Sprint("h", k, j), op, T.t, T.keys, T.idx[j], T.ad)
			all = append(all, T.idx[j])
			T.d.add(&[]*Dealing{DeepCopy(m[T.idx[j]])})
		}
		T.deal = append(T.deal, m)
		tr, err := w.Transcript("", T.t, dealMap(all, m), T.op[k])
		w.Need(err, "transcript")
		T.tr = append(T.tr, tr)
	}
	T.badV = w.Choose("victim", T.n)
	T.badI = T.idx[0]
	T.bad = w.CorruptDealing("bad", T.ops[0], T.t, T.keys, T.badI, T.ad, []int{T.badV})
	m := &DealMap{}
	m.Set(NI(T.badI), DeepCopy(T.bad.D))
	cs, err := w.complain("", m, T.ad, T.keys[T.badV], T.badV, w.Bytes("cs", 32))
	if !T.bad.fine[T.badV] {
		w.Need(err, "complaint")
		T.cs = cs
		T.d.add(&[]*Complaint{DeepCopy(cs[T.badI])})
	}
	T.q = w.Quad("q", w.signers("s", 1+w.Choose("signers", 3)), 1)
	T.q.t = 1
	T.r = w.Req("r", true)
	T.rho = w.rhoOf("", T.q, T.r)
	T.share = map[int]*SigShare{}
	sm := &SigMap{}
	for _, i := range T.q.idx {
		T.share[i] = T.q.share(T.r, T.rho, i).share()
		sm.Set(NI(i), DeepCopy(T.share[i]))
		T.d.add(&[]*SigShare{DeepCopy(T.share[i])})
	}
	T.sig, err = w.Combine("", T.q, T.r, 1, sm)
	w.Need(err, "signature")
	for _, masked := range []bool{false, true} {
		s := w.Sharing(fmt.Sprint("don", masked), 2, nil, masked)
		o := s.open(0)
		T.d.add(&[]Opening{o})
		T.d.add(&[]poly.PolynomialCommitment{s.C})
	}
	return T
}

// msg is something a peer sends: what it is and what an honest node does with it.
type msg struct {
	what string
	do   func(node int)
}

// message makes a Byzantine message of any kind.
func (w *World) message(key string, T *theatre) msg {
	kind := w.Choose("kind:"+key, 6)
	places := 1 + w.Choose("places:"+key, 3)
	k := w.Choose("which:"+key, 2)
	from := w.Choose("from:"+key, len(T.idx))
	dealer := T.idx[from]
	if _, ok := T.deal[k][dealer]; !ok {
		dealer = T.idx[0]
	}
	idx := dealer
	if w.Maybe("envelope:"+key, 150) {
		idx = w.Index("env:"+key, w.Choose("envd:"+key, 300))
	}
	ad := T.ad
	if w.Maybe("ad:"+key, 100) {
		ad = w.AD("ad:" + key)
	}
	switch kind {
	case 0, 1: // a dealing
		d := DeepCopy(T.deal[k][dealer])
		if w.Maybe("bad:"+key, 300) {
			d = DeepCopy(T.bad.D)
		}
		what := w.wreck(key, d, T.d, places)
		return msg{"dealing of " + opNames[T.ops[k].kind] + ":" + what, func(node int) {
			x := DeepCopy(d)
			if w.Maybe("parts:"+key, 400) {
				// a node may look at the parts by themselves
				if c := x.Ciphertext; c != nil {
					w.Call("ciphertext kind", func() error { return c.VerifyIs(T.deal[k][T.idx[0]].Ciphertext.CType(), K256) })
					w.Call("ciphertext validity", func() error { return c.CheckValidity(T.n, ad, NI(idx)) })
				}
				if c := x.Commitment; c != nil && len(c.Points()) > 0 {
					w.Call("commitment kind", func() error { return c.VerifyIs(T.deal[k][T.idx[0]].Commitment.Type(), K256) })
				}
			}
			err := w.PubVerify("", x, T.op[k], T.t, idx, T.n, ad)
			if err != nil && (x.Ciphertext == nil || x.Commitment == nil || len(x.Commitment.Points()) == 0) {
				return // the rest is for dealings that passed, or at least have all parts
			}
			w.PrivVerify("", x, T.keys[node], ad, idx, node)
			w.OpenDealing("", x, T.keys[node], ad, idx, node)
			m := &DealMap{}
			for _, i := range T.idx {
				if h := T.deal[k][i]; h != nil {
					m.Set(NI(i), DeepCopy(h))
				}
			}
			m.Set(NI(idx), x)
			tr, err := w.Transcript("", T.t, m, T.op[k])
			if err != nil || tr == nil {
				tr = T.tr[k]
			}
			w.OpenTranscript("", m, tr, ad, T.keys[node], node)
			w.complain("", m, ad, T.keys[node], node, w.Bytes("cs2"+key, 32))
			if T.cs != nil {
				w.complaintOK("", DeepCopy(T.cs[T.badI]), x, idx, T.badV, T.keys[T.badV].PK, ad)
			}
		}}
	case 2: // a complaint
		var c *Complaint
		if T.cs != nil {
			c = DeepCopy(T.cs[T.badI])
		} else {
			c = &Complaint{}
		}
		what := w.wreck(key, c, T.d, places)
		who := T.badV
		if w.Maybe("who:"+key, 300) {
			who = w.Index("who:"+key, w.Choose("whod:"+key, 300))
		}
		pk := T.keys[T.badV].PK
		if w.Maybe("pk:"+key, 200) {
			pk = mega.NewMEGaPublicKey(PT(w.evilPoint("pk:"+key, nil)))
		}
		return msg{"complaint:" + what, func(node int) {
			w.complaintOK("", DeepCopy(c), DeepCopy(T.bad.D), idx, who, pk, ad)
			w.complaintOK("", DeepCopy(c), DeepCopy(T.deal[k][dealer]), idx, who, pk, ad)
		}}
	case 3: // openings of a dealing
		var os []Opening
		x := T.bad
		for i := 0; i < T.n; i++ {
			os = append(os, mkOpening(x.goodV[i], at(x.goodM, i)))
		}
		what := w.wreck(key, &os, T.d, places)
		var at []int
		for i := range os {
			j := i
			if w.Maybe(fmt.Sprint("oi:", key, i), 100) {
				j = w.Index(fmt.Sprint("oi:", key, i), i)
			}
			at = append(at, j)
		}
		return msg{"openings:" + what, func(node int) {
			m := &OpenMap{}
			for i := range os {
				m.Set(NI(at[i]), DeepCopy(os[i]))
			}
			d := DeepCopy(x.D)
			w.Call("reconstruct", func() error {
				_, e := dealings.ReconstructShareFromOpenings(d, m, NI(node))
				return e
			})
			for i := range os {
				o := DeepCopy(os[i])
				w.Call("check opening", func() error { d.Commitment.CheckOpening(NI(at[i]), o); return nil })
				w.Call("return opening", func() error { _, e := d.Commitment.ReturnOpeningIfConsistent(NI(at[i]), o); return e })
			}
			ms := &OpenMaps{}
			ms.Set(NI(T.badI), m)
			dm := &DealMap{}
			for _, i := range T.idx {
				if h := T.deal[0][i]; h != nil {
					dm.Set(NI(i), DeepCopy(h))
				}
			}
			dm.Set(NI(T.badI), d)
			w.Call("open with openings", func() error {
				_, e := dealings.CommitmentOpening.FromDealingsAndOpenings(dm, ms, T.tr[0].CombinedCommitment, ad, NI(node), T.keys[node].SK, T.keys[node].PK)
				return e
			})
		}}
	case 4: // a signature share
		i := T.q.idx[w.Choose("signer:"+key, len(T.q.idx))]
		s := DeepCopy(T.share[i])
		what := w.wreck(key, s, T.d, places)
		who := i
		if w.Maybe("who:"+key, 200) {
			who = w.Index("who:"+key, w.Choose("whod:"+key, 300))
		}
		t := w.Choose("threshold:"+key, len(T.q.idx)+2)
		return msg{"signature share:" + what, func(node int) {
			m := &SigMap{}
			for _, j := range T.q.idx {
				m.Set(NI(j), DeepCopy(T.share[j]))
			}
			w.VerifyShare("", DeepCopy(s), T.q, T.r, who)
			m.Set(NI(who), DeepCopy(s))
			g, err := w.Combine("", T.q, T.r, t, m)
			if err == nil && g != nil {
				w.VerifySig("", g, T.q, T.r)
			}
		}}
	}
	s := DeepCopy(T.sig)
	what := w.wreck(key, s, T.d, places)
	return msg{"signature:" + what, func(node int) {
		w.VerifySig("", DeepCopy(s), T.q, T.r)
	}}
}

// honest is what a node still has to get right afterwards.
func (T *theatre) honest(w *World, key string, node int) {
	k := w.Choose("after:"+key, 2)
	op := T.ops[k]
	if i := T.idx[w.Choose("dealer:"+key, len(T.deal[k]))]; true {
		h := DeepCopy(T.deal[k][i])
		err := w.PubVerify("", h, T.op[k], T.t, i, T.n, T.ad)
		w.Check(err == nil, "P17", "honest work fails after Byzantine messages", "public verification of %s: %v", opNames[op.kind], err)
		err = w.PrivVerify("", h, T.keys[node], T.ad, i, node)
		w.Check(err == nil, "P17", "honest work fails after Byzantine messages", "private verification of %s: %v", opNames[op.kind], err)
		o, err := w.OpenDealing("", h, T.keys[node], T.ad, i, node)
		w.Check(err == nil && onCommit(RefPoints(h.Commitment), op.masked(), node, o), "P17", "honest work fails after Byzantine messages", "opening of %s: %v", opNames[op.kind], err)
	}
	switch w.Choose("then:"+key, 3) {
	case 0:
		if T.cs != nil {
			err := w.complaintOK("", DeepCopy(T.cs[T.badI]), DeepCopy(T.bad.D), T.badI, T.badV, T.keys[T.badV].PK, T.ad)
			w.Check(err == nil, "P17", "honest work fails after Byzantine messages", "complaint: %v", err)
		}
	case 1:
		i := T.q.idx[w.Choose("signer:"+key, len(T.q.idx))]
		s, err := w.SignShare("", T.q, T.r, T.q.lambda.open(i), T.q.kl.open(i), T.q.xl.open(i))
		w.Check(err == nil, "P17", "honest work fails after Byzantine messages", "signature share: %v", err)
		g, err := readShare(s)
		w.Check(err == nil && g.eq(T.q.share(T.r, T.rho, i)), "P17", "honest work fails after Byzantine messages", "signature share is another: %v", err)
		err = w.VerifyShare("", s, T.q, T.r, i)
		w.Check(err == nil, "P17", "honest work fails after Byzantine messages", "verification of a signature share: %v", err)
	case 2:
		err := w.VerifySig("", DeepCopy(T.sig), T.q, T.r)
		w.Check(err == nil, "P17", "honest work fails after Byzantine messages", "signature verification: %v", err)
		bad := DeepCopy(T.sig)
		bad.S = SC(addm(BI(bad.S), big.NewInt(1)))
		err = w.VerifySig("", bad, T.q, T.r)
		w.Check(err != nil, "P17", "honest work fails after Byzantine messages", "a wrong signature is accepted")
	}
}

func p17Peers(w *World) {
	T := w.theatre()
	net := NewNet(w, "b", T.n, true)
	byz := w.Choose("byz", T.n)
	n := w.Range("messages", 1, 5)
	processed := make([]int, T.n)
	for k := 0; k < n; k++ {
		m := w.message(fmt.Sprint("m", k), T)
		w.Ev("message %d: %s", k, m.what)
		w.State("P17", m.what)
		for _, to := range w.Subset(fmt.Sprint("to", k), T.n, 1+w.Choose(fmt.Sprint("tos", k), min(T.n, 2))) {
			to := to
			k := k
			net.Send(byz, to, fmt.Sprint("m", k, ":", to), func() {
				start := hookN()
				if net.Nodes[to].Do(fmt.Sprint("m", k, "@", to), func() { m.do(to) }) {
					processed[to]++
				}
				w.bounded(hookN()-start, m.what)
			})
		}
	}
	w.Run(2000)
	w.CountFault("Byzantine message")
	for _, i := range w.Subset("after", T.n, min(T.n, 2)) {
		T.honest(w, fmt.Sprint("node", i), i)
	}
}

// bounded holds the work done for one message against a bound that no message of its size needs.
func (w *World) bounded(steps int64, what string) {
	w.Check(steps < 2_000_000, "P17", "unbounded work", "%d steps for %s", steps, what)
}

// p17Bytes feeds every decoder byte strings made to break decoders.
func p17Bytes(w *World) {
	n := w.Range("strings", 3, 12)
	for k := 0; k < n; k++ {
		key := fmt.Sprint("b", k)
		c := codecs[w.Choose("codec"+key, len(codecs))]
		src := codecs[w.Choose("source"+key, len(codecs))]
		if w.Maybe("own"+key, 600) {
			src = c
		}
		b := w.encode(src, w.value(src, key))
		for m := w.Choose("edits"+key, 4); m > 0; m-- {
			b = w.mangle(fmt.Sprint(key, "/", m), b)
		}
		start := hookN()
		v, err := w.decode(c, b)
		w.bounded(hookN()-start, "bytes")
		if err == nil {
			w.use(key, c, v)
		}
		w.State("P17b", c.name, len(b))
	}
}

// mangle edits a byte string.
func (w *World) mangle(key string, b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return w.Bytes("new"+key, 1+w.Choose("new"+key, 40))
	}
	at := w.Choose("at"+key, len(b))
	switch w.Choose("edit"+key, 9) {
	case 0:
		b[at] ^= 1 << uint(w.Choose("bit"+key, 8))
	case 1:
		b = b[:at]
	case 2:
		b = append(b, w.Bytes("tail"+key, w.Choose("tail"+key, 60))...)
	case 3: // a cbor head with a large length
		head := []byte{[]byte{0x9b, 0x5b, 0xbb, 0x7b, 0x9a, 0x5a, 0xba, 0xdb}[w.Choose("head"+key, 8)]}
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], []uint64{1 << 63, 1<<64 - 1, 1 << 31, 1 << 40, 5}[w.Choose("length"+key, 5)])
		if head[0]&31 == 26 {
			head = append(head, l[4:]...)
		} else {
			head = append(head, l[:]...)
		}
		b = append(append(append([]byte{}, b[:at]...), head...), b[at:]...)
	case 4: // deep nesting
		b = append(append(append([]byte{}, b[:at]...), bytes.Repeat([]byte{[]byte{0x81, 0x9f, 0xa1, 0xc1, 0x5f}[w.Choose("nest"+key, 5)]}, 1+w.Choose("deep"+key, 5000))...), b[at:]...)
	case 5:
		b[at] = []byte{0xf6, 0xf7, 0xff, 0x80, 0xa0, 0x40, 0x60, 0xfb, 0x00}[w.Choose("simple"+key, 9)]
	case 6:
		b = w.Bytes("new"+key, w.Choose("new"+key, 80))
	case 7: // part of it again
		j := w.Choose("to"+key, len(b))
		if j < at {
			j, at = at, j
		}
		b = append(append(append([]byte{}, b[:j]...), b[at:j]...), b[j:]...)
	case 8:
		b = []byte{}
		if w.Maybe("nil"+key, 500) {
			b = nil
		}
	}
	return b
}

// use does with a decoded value what nodes do with it.
func (w *World) use(key string, c *codec, v interface{}) {
	switch x := v.(type) {
	case Opening:
		w.Call("use opening", func() error { _, e := x.Serialize(); return e })
		w.Call("use opening", func() error { x.ToCommitmentOpeningBytes().ToCommitmentOpening(); return nil })
		cm := w.Sharing("use"+key, 2, nil, w.Maybe("um"+key, 500)).C
		w.Call("use opening", func() error { cm.CheckOpening(NI(1), x); return nil })
	case poly.PolynomialCommitment:
		w.Call("use commitment", func() error {
			x.EvaluateAt(NI(w.Index("ev"+key, 3)))
			x.StableRepresentation()
			x.ConstantTerm()
			x.Equal(w.Sharing("use"+key, 2, nil, w.Maybe("um"+key, 500)).C)
			_, e := x.Serialize()
			return e
		})
		d := &Dealing{Commitment: x}
		w.PubVerify("decoded", d, &dealings.RandomTranscript{}, 2, 0, 3, nil)
	case *PubKey:
		w.Call("use key", func() error { x.Serialize(); return nil })
	}
}

// p17Keys: nodes deal to, complain about and sign under keys a peer chose.
func p17Keys(w *World) {
	n := w.Size("n", 1, 5, 36)
	keys := w.Committee("r", n)
	var evil []int
	for i := range keys {
		if w.Maybe(fmt.Sprint("evil", i), 500) {
			keys[i].PK = mega.NewMEGaPublicKey(PT(w.evilPoint(fmt.Sprint("evil", i), nil)))
			evil = append(evil, i)
		}
	}
	rec := pks(keys)
	for i := range rec {
		if w.Maybe(fmt.Sprint("none", i), 40) {
			rec[i] = nil
		}
	}
	if w.Maybe("nobody", 50) {
		rec = nil
	}
	t := w.Choose("t", n+2) // some of them are impossible
	op := w.NewOp("op", w.Choose("op", 4), 1, 1)
	ad := w.AD("a")
	idx := w.Index("dealer", 0)
	sh, err := op.Shares(w, "", idx, 0)
	w.Need(err, "shares")
	missing := rec == nil
	for _, k := range rec {
		missing = missing || k == nil
	}
	if missing {
		return
	}
	var d *Dealing
	err = w.Call("deal", func() (e error) {
		d, e = dealings.NewIDkgDealingInternal(sh, K256, seedOf(w.Bytes("seed", 32)), t, rec, NI(idx), ad)
		return
	})
	w.State("P17k", n, t, len(evil))
	if err != nil {
		return
	}
	for i := range keys {
		k := keys[i]
		w.PubVerify("", d, op.Op(w, ""), t, idx, n, ad)
		err := w.PrivVerify("", d, k, ad, idx, i)
		if RPof(k.PK.PublicPoint()).eq(k.pub) {
			w.Check(err == nil, "P17", "honest work fails after Byzantine messages", "a receiver cannot read its share beside Byzantine keys: %v", err)
		}
		w.OpenDealing("", d, k, ad, idx, i)
		w.OpenDealing("", d, k, ad, idx, n+w.Choose(fmt.Sprint("far", i), 300))
		m := &DealMap{}
		m.Set(NI(idx), DeepCopy(d))
		cs, _ := w.complain("", m, ad, k, i, w.Bytes("cs", 32))
		for _, x := range sortedKeys(cs) {
			w.complaintOK("", cs[x], d, idx, i, k.PK, ad)
		}
	}
}

// p17Requests: requests and master keys of any shape from a client.
func p17Requests(w *World) {
	q := w.Quad("q", w.signers("s", 1+w.Choose("signers", 2)), 1)
	r := w.Req("r", true)
	if w.Maybe("odd hash", 500) {
		r.hash = w.Bytes("hash", []int{0, 1, 31, 33, 63, 64, 65, 66, 128, 200}[w.Choose("hash", 10)])
	}
	if w.Maybe("nil", 300) {
		r.rand = nil
	}
	if w.Maybe("nil hash", 100) {
		r.hash = nil
	}
	if w.Maybe("long path", 100) {
		for i := w.Range("path", 20, 120); i > 0; i-- {
			r.path = append(r.path, w.Bytes(fmt.Sprint("p", i), w.Choose(fmt.Sprint("p", i), 6)))
		}
	}
	if w.Maybe("nil component", 100) {
		r.path = append(r.path, nil)
	}
	i := q.idx[0]
	start := hookN()
	// whatever the request, a share is made or there is an error, and what is made can be judged
	s, err := w.SignShare("", q, r, q.lambda.open(i), q.kl.open(i), q.xl.open(i))
	m := &SigMap{}
	if err == nil {
		w.VerifyShare("", s, q, r, i)
		m.Set(NI(i), s)
	}
	g, err := w.Combine("", q, r, 1, m)
	if err == nil {
		w.VerifySig("", g, q, r)
	}
	w.bounded(hookN()-start, "request")
	// kinds that do not belong
	a, b, c := q.lambda.open(i), q.kl.open(i), q.xl.open(i)
	odd := []Opening{nil, q.key.open(i), q.lambda.open(i)}
	switch w.Choose("odd", 3) {
	case 0:
		a = odd[w.Choose("odd which", 3)]
	case 1:
		b = odd[w.Choose("odd which", 3)]
	case 2:
		c = odd[w.Choose("odd which", 3)]
	}
	w.SignShare("", q, r, a, b, c)
	mk := w.mangle("master", q.key.pts[0].bytes())
	if w.Maybe("identity master", 200) {
		mk = RP{}.bytes()
	}
	w.Call("derive", func() error {
		_, e := sign.DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: mk}, r.P())
		return e
	})
	w.State("P17r", len(r.hash), len(r.path), len(mk))
	// and the next honest request is served
	r2 := w.Req("next", false)
	o := w.rhoOf("next", q, r2)
	s, err = w.SignShare("next", q, r2, q.lambda.open(i), q.kl.open(i), q.xl.open(i))
	w.Check(err == nil, "P17", "honest work fails after Byzantine messages", "signature share: %v", err)
	got, err := readShare(s)
	w.Check(err == nil && got.eq(q.share(r2, o, i)), "P17", "honest work fails after Byzantine messages", "signature share is another: %v", err)
}

var _ = curve.K256
