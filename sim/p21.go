package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
)

func init() {
	register(&Property{ID: "P21", Quick: 4000, Thorough: 60000,
		Scens: []Scenario{
			{"readers", 3, p21Readers},
			{"contexts", 4, p21Contexts},
			{"possession", 3, p21Possession},
			{"many receivers", 1, p21Many},
		},
		Rule: "A run sends encrypted shares of several dealers over a network that misdirects and relabels them, or reads one ciphertext in contexts that differ from its own in one or two places, or shows readers proofs of possession that do not hold.",
	})
}

// sealed is a ciphertext with what was put into it.
type sealed struct {
	ct     mega.MEGaCiphertext
	vs, ms []*big.Int
	keys   []Keys
	dealer int
	ad     []byte
}

func (s *sealed) pair() bool { return s.ms != nil }

func (w *World) seal(key string, n int, pair bool, keys []Keys, dealer int, ad []byte) *sealed {
	s := &sealed{keys: keys, dealer: dealer, ad: ad}
	for i := 0; i < n; i++ {
		s.vs = append(s.vs, w.Sec(fmt.Sprintf("v:%s:%d", key, i)))
		if pair {
			s.ms = append(s.ms, w.Sec(fmt.Sprintf("m:%s:%d", key, i)))
		}
	}
	err := w.Call("encrypt "+key, func() (e error) {
		s.ct, e = encryptShares(w.Bytes("seal:"+key, 32), s.vs, s.ms, keys, dealer, ad)
		return
	})
	w.Check(err == nil, "P21", "shares cannot be encrypted", "%v", err)
	if err != nil {
		w.Block("encryption")
	}
	return s
}

// view is the context somebody reads a ciphertext in.
type view struct {
	sk     Keys // secret key
	pk     Keys // public key
	dealer int
	recv   int
	ad     []byte
}

// read decrypts; shared asks for decryption from the shared secret, which somebody else tells.
func (w *World) read(name string, ct mega.MEGaCiphertext, v view, shared *RP) (vals []*big.Int, err error) {
	ad := append([]byte{}, v.ad...)
	err = w.Call("decrypt "+name, func() error {
		switch x := ct.(type) {
		case *mega.MEGaCiphertextSingle:
			var s Scalar
			var e error
			if shared != nil {
				s, e = x.DecryptFromSharedSecret(ad, NI(v.dealer), NI(v.recv), v.pk.PK, PT(*shared))
			} else {
				s, e = x.Decrypt(ad, NI(v.dealer), NI(v.recv), v.sk.SK, v.pk.PK)
			}
			if e == nil {
				vals = []*big.Int{BI(s)}
			}
			return e
		case *mega.MEGaCiphertextPair:
			var s [2]Scalar
			var e error
			if shared != nil {
				s, e = x.DecryptFromSharedSecret(ad, NI(v.dealer), NI(v.recv), v.pk.PK, PT(*shared))
			} else {
				s, e = x.Decrypt(ad, NI(v.dealer), NI(v.recv), v.sk.SK, v.pk.PK)
			}
			if e == nil {
				vals = []*big.Int{BI(s[0]), BI(s[1])}
			}
			return e
		}
		return fmt.Errorf("not a ciphertext")
	})
	w.Check(bytes.Equal(ad, v.ad), w.in("P18"), "decryption changes the context", "")
	return
}

// checked decrypts against a commitment of one point to the share of receiver i.
func (w *World) checked(name string, s *sealed, i int, ct mega.MEGaCiphertext, v view) (vals []*big.Int, err error) {
	p := s.plain(i)
	pt := rMulG(p[0])
	if s.pair() {
		pt = rPed(p[0], p[1])
	}
	var o Opening
	err = w.Call("open "+name, func() (e error) {
		o, e = ct.DecryptAndCheck(mkCommit([]RP{pt}, s.pair()), append([]byte{}, v.ad...), NI(v.dealer), NI(v.recv), v.sk.SK, v.pk.PK)
		return
	})
	if err != nil {
		return nil, err
	}
	x, m, err := opVals(o)
	if err != nil {
		return nil, err
	}
	vals = []*big.Int{x}
	if m != nil {
		vals = append(vals, m)
	}
	return
}

func (s *sealed) plain(i int) []*big.Int {
	if s.pair() {
		return []*big.Int{s.vs[i], s.ms[i]}
	}
	return []*big.Int{s.vs[i]}
}

// slot is what a ciphertext has for a receiver.
func slot(c mega.MEGaCiphertext, i int) string {
	p := partsOf(c)
	if p.Single != nil {
		return BI((*p.Single)[i]).String()
	}
	return BI((*p.Pair)[i][0]).String() + " " + BI((*p.Pair)[i][1]).String()
}

func eqInts(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// opens expects the plaintext.
func (w *World) opens(name string, s *sealed, v view) {
	got, err := w.read(name, s.ct, v, nil)
	w.Check(err == nil && eqInts(got, s.plain(v.recv)), "P21", "an encrypted share cannot be read in its own context", "%s, receiver %d of %d, dealer %d, context of %d bytes: %v", name, v.recv, len(s.vs), s.dealer, len(s.ad), err)
	sh := rMul(RPof(*partsOf(s.ct).Eph), v.sk.sk)
	got, err = w.read(name+" from the shared secret", s.ct, v, &sh)
	w.Check(err == nil && eqInts(got, s.plain(v.recv)), "P21", "an encrypted share cannot be read from its shared secret", "%s: %v", name, err)
	got, err = w.checked(name, s, v.recv, s.ct, v)
	w.Check(err == nil && eqInts(got, s.plain(v.recv)), "P21", "an encrypted share cannot be opened in its own context", "%s: %v", name, err)
}

// unrelated expects neither the plaintext nor anything near it.
func (w *World) unrelated(what string, s *sealed, got []*big.Int, err error) {
	if err != nil {
		if isPanic(err) {
			w.Fail(w.in("P17"), "decryption panics", "%s: %v", what, err)
		}
		return
	}
	w.Probe("wrong context gave a value")
	for b, x := range got {
		for i := range s.vs {
			for c, y := range s.plain(i) {
				d := subm(x, y)
				w.Check(d.BitLen() > 100 && negm(d).BitLen() > 100 && addm(x, y).Sign() != 0, "P21", "an encrypted share is read in another context", "%s gives part %d of the share of receiver %d (as part %d)", what, c, i, b)
			}
		}
	}
}

// p21Readers: dealers send to receivers; the network mixes messages up.
func p21Readers(w *World) {
	n := w.Size("n", 1, 4, 36)
	nd := w.Range("dealers", 1, 3)
	keys := w.Committee("r", n)
	idx := w.dealerSet("d", nd)
	ad := w.AD("a")
	pair := w.Maybe("pair", 500)
	var ss []*sealed
	for k, i := range idx {
		a := ad
		if w.Maybe(fmt.Sprint("own context", k), 300) {
			a, _ = w.flip(fmt.Sprint("ctx", k), ad)
		}
		p := pair
		if w.Maybe(fmt.Sprint("other kind", k), 200) {
			p = !p
		}
		ss = append(ss, w.seal(fmt.Sprint("s", k), n, p, keys, i, a))
	}
	net := NewNet(w, "rd", n+nd, true)
	w.State("P21", n, nd, pair)
	done := map[[2]int]bool{}
	for i := 0; i < n; i++ {
		i := i
		nd := net.Nodes[i]
		nd.Disk["sk"], nd.Disk["pk"] = keys[i].SK.Serialize(), keys[i].PK.Serialize()
		nd.OnRestart = func() {
			k, err := keys[i].Reload()
			w.Check(err == nil, w.in("P16"), "keys do not survive a restart", "%v", err)
			keys[i] = k
		}
	}
	for k := range idx {
		for i := 0; i < n; i++ {
			k, i := k, i
			s := ss[k]
			id := fmt.Sprintf("%d/%d", k, i)
			net.Reliable(n+k, i, "ct"+id, func() bool { return done[[2]int{k, i}] }, func() {
				w.opens(id, &sealed{DeepCopy(s.ct), s.vs, s.ms, s.keys, s.dealer, s.ad}, view{keys[i], keys[i], s.dealer, i, s.ad})
				done[[2]int{k, i}] = true
			})
			if w.Maybe("misdirect"+id, 400) { // to another receiver, or as another dealer's, or of another round
				v := view{keys[i], keys[i], s.dealer, i, s.ad}
				j := w.Choose("to"+id, n)
				what := ""
				switch w.Choose("how"+id, 4) {
				case 0:
					if j == i {
						continue
					}
					v.sk, v.pk, what = keys[j], keys[j], "another receiver reads a share not its own"
				case 1:
					v.dealer, what = idx[w.Choose("as"+id, len(idx))], "relabelled as another dealer's"
					if v.dealer == s.dealer {
						continue
					}
				case 2:
					v.ad, what = ss[w.Choose("round"+id, len(ss))].ad, "relabelled as of another round"
					if bytes.Equal(v.ad, s.ad) {
						continue
					}
				case 3:
					if n < 2 {
						continue
					}
					v.recv, what = (i+1+j)%n, "read at another place"
					if v.recv == i {
						continue
					}
				}
				if keys[j].sk.Cmp(keys[i].sk) == 0 && v.recv == i && v.dealer == s.dealer && bytes.Equal(v.ad, s.ad) {
					continue // receivers may share a key
				}
				if v.recv != i && keys[v.recv].sk.Cmp(keys[i].sk) == 0 {
					continue
				}
				w.CountFault("misdirected message")
				net.Send(n+k, j, "stray"+id, func() {
					got, err := w.read("stray "+id, DeepCopy(s.ct), v, nil)
					w.unrelated(what, s, got, err)
					_, err2 := w.checked("stray "+id, s, i, DeepCopy(s.ct), v)
					w.Check(err2 != nil && !isPanic(err2), "P21", "an encrypted share is opened in another context", "%s: %v", what, err2)
					if v.dealer != s.dealer || !bytes.Equal(v.ad, s.ad) {
						w.Check(err != nil, "P21", "a ciphertext was decrypted without its proof of possession", "%s", what)
					}
				})
			}
		}
	}
	net.Chaos()
	w.Run(50000)
}

// p21Contexts: one ciphertext, contexts next to its own.
func p21Contexts(w *World) {
	n := w.Size("n", 1, 4, 36)
	keys := make([]Keys, n)
	for i := range keys {
		keys[i] = w.RandKeys(fmt.Sprint("k", i))
		if i > 0 && w.Maybe(fmt.Sprint("same key", i), 200) {
			keys[i] = keys[i-1]
		}
	}
	s := w.seal("s", n, w.Maybe("pair", 500), keys, w.Index("d", 2), w.AD("a"))
	i := w.Choose("receiver", n)
	own := view{keys[i], keys[i], s.dealer, i, s.ad}
	w.opens("own", s, own)
	eph := RPof(*partsOf(s.ct).Eph)
	for a := 0; a < 6; a++ {
		key := fmt.Sprint("c", a)
		v, ct, what := own, s.ct, ""
		times := 1
		if w.Maybe("two"+key, 150) {
			times = 2
		}
		shared := rMul(eph, own.sk.sk)
		for x := 0; x < times; x++ {
			key := fmt.Sprint(key, "/", x)
			switch w.Choose("what"+key, 12) {
			case 0:
				v.ad, what = w.flip(key, v.ad)
				what = "context " + what
			case 1:
				v.dealer, what = v.dealer^1<<uint(w.Choose("bit"+key, 32)), "another dealer"
			case 2:
				if n < 2 {
					continue
				}
				v.recv, what = (v.recv+1+w.Choose("place"+key, n-1))%n, "another place"
			case 3:
				v.sk, what = w.RandKeys(key), "another secret key"
				shared = rMul(eph, v.sk.sk)
			case 4:
				v.pk, what = w.RandKeys(key), "another public key"
			case 5:
				v.sk = w.RandKeys(key)
				v.pk, what = v.sk, "another key pair"
				shared = rMul(eph, v.sk.sk)
			case 6: // the key's negative
				v.sk, what = KeysOf(negm(v.sk.sk)), "the negated secret key"
				if w.Maybe("both"+key, 500) {
					v.pk = v.sk
				}
				shared = rMul(eph, v.sk.sk)
			case 7: // another ephemeral key with its own valid proof
				b, err := encryptShares(w.Bytes("eph"+key, 32), s.vs, s.ms, keys, s.dealer, s.ad)
				w.Need(err, "encryption")
				ct = DeepCopy(ct)
				p, q := partsOf(ct), partsOf(b)
				*p.Eph, *p.Pop, *p.Proof = *q.Eph, *q.Pop, *q.Proof
				what = "another ephemeral key"
			case 8: // the share of another place moved to this one
				if n < 2 {
					continue
				}
				j := (i + 1 + w.Choose("from"+key, n-1)) % n
				ct = DeepCopy(ct)
				p := partsOf(ct)
				if p.Single != nil {
					(*p.Single)[i] = (*p.Single)[j]
				} else {
					(*p.Pair)[i] = (*p.Pair)[j]
				}
				what = "a share moved to another place"
			case 9: // the two parts exchanged, or one used as a single share
				if !s.pair() {
					// as a pair with the same encrypted share twice
					c := DeepCopy(ct)
					p := partsOf(c)
					x := &mega.MEGaCiphertextPair{EphemeralKey: *p.Eph, PopPublicKey: *p.Pop, PopProof: *p.Proof}
					for _, y := range *p.Single {
						x.CTexts = append(x.CTexts, [2]Scalar{y, y.Clone()})
					}
					ct, what = x, "a single share as a pair"
					break
				}
				c := DeepCopy(ct)
				p, ok := c.(*mega.MEGaCiphertextPair)
				if !ok {
					continue
				}
				if w.Maybe("exchange"+key, 500) {
					p.CTexts[i][0], p.CTexts[i][1] = p.CTexts[i][1], p.CTexts[i][0]
					ct, what = p, "the parts exchanged"
				} else {
					x := &mega.MEGaCiphertextSingle{EphemeralKey: p.EphemeralKey, PopPublicKey: p.PopPublicKey, PopProof: p.PopProof}
					for _, y := range p.CTexts {
						x.CTexts = append(x.CTexts, y[w.Choose("part"+key, 2)])
					}
					ct, what = x, "one part of a pair as a single share"
				}
			case 10: // bytes move between index and context
				v.ad = append(append([]byte{}, v.ad...), byte(v.dealer))
				v.dealer >>= 8
				what = "a byte of the dealer index in the context"
			case 11: // the shared secret of another
				shared = rAdd(shared, rGen)
				if w.Maybe("random"+key, 500) {
					shared = rMulG(w.RndNZ(key))
				}
				v.sk = w.RandKeys(key)
				what = "another shared secret"
			}
			if _, single := ct.(*mega.MEGaCiphertextSingle); single == s.pair() {
				break
			}
		}
		// whether this is after all the context of the share that is read
		own := v.dealer == s.dealer && bytes.Equal(v.ad, s.ad) && RPof(*partsOf(ct).Eph).eq(eph) && ct.CType() == s.ct.CType()
		k := keys[v.recv]
		if what == "" || own && v.sk.sk.Cmp(k.sk) == 0 && v.pk.sk.Cmp(k.sk) == 0 && slot(ct, v.recv) == slot(s.ct, v.recv) {
			continue
		}
		pop := v.dealer == s.dealer && bytes.Equal(v.ad, s.ad) && ct.CType() == s.ct.CType()
		w.State("P21c", what, n, s.pair(), times)
		got, err := w.read(what, ct, v, nil)
		w.unrelated(what, s, got, err)
		if !pop {
			w.Check(err != nil, "P21", "a ciphertext was decrypted without its proof of possession", "%s, dealer %d, context of %d bytes", what, s.dealer, len(s.ad))
		}
		_, err = w.checked(what, s, i, ct, v)
		w.Check(err != nil && !isPanic(err), "P21", "an encrypted share is opened in another context", "%s: %v", what, err)
		got, err = w.read(what+" from the shared secret", ct, v, &shared)
		w.unrelated(what+", from the shared secret", s, got, err)
	}
	// places that do not exist
	for k := 0; k < 3; k++ {
		key := fmt.Sprint("out", k)
		j := n + w.Choose(key, 3)
		switch w.Choose("far"+key, 5) {
		case 1:
			j = 1<<uint(8*(1+w.Choose("pow"+key, 3))) + i
		case 2:
			j = 1<<32 - 1 - w.Choose("top"+key, 2)
		case 3:
			j = 1<<31 + i
		}
		v := own
		v.recv = j
		_, err := w.read("out of range", s.ct, v, nil)
		w.Check(err != nil && !isPanic(err), "P21", "a receiver that is not in the ciphertext", "index %d of %d: %v", j, n, err)
		sh := rMul(eph, own.sk.sk)
		_, err = w.read("out of range from the shared secret", s.ct, v, &sh)
		w.Check(err != nil && !isPanic(err), "P21", "a receiver that is not in the ciphertext", "index %d of %d: %v", j, n, err)
		_, err = func() (o Opening, err error) {
			err = w.Call("open out of range", func() (e error) {
				o, e = s.ct.DecryptAndCheck(mkCommit([]RP{rMulG(w.RndNZ("cm"))}, s.pair()), s.ad, NI(s.dealer), NI(j), own.sk.SK, own.pk.PK)
				return
			})
			return
		}()
		w.Check(err != nil && !isPanic(err), "P21", "a receiver that is not in the ciphertext", "index %d of %d, when opened: %v", j, n, err)
	}
}

// p21Possession: ciphertexts whose proof of possession does not hold.
func p21Possession(w *World) {
	n := w.Size("n", 1, 3, 36)
	t := w.Thr("t", n)
	keys := w.Committee("r", n)
	pair := w.Maybe("pair", 500)
	dealer, ad := w.Index("d", 1), w.AD("a")
	x := w.dealt("x", t, nil, pair, nil)
	vs, ms := x.shares(n)
	ct, err := encryptShares(w.Bytes("seal", 32), vs, ms, keys, dealer, ad)
	w.Need(err, "encryption")
	s := &sealed{ct, vs, ms, keys, dealer, ad}
	i := w.Choose("receiver", n)
	w.opens("own", s, view{keys[i], keys[i], dealer, i, ad})
	ctype := ct.CType()
	for a := 0; a < 4; a++ {
		key := fmt.Sprint("p", a)
		c := DeepCopy(ct)
		p := partsOf(c)
		what := ""
		kind := w.Choose("kind"+key, 12)
		take := func(dealer int, ad []byte, pr bool, sd string, which int) bool {
			m := ms
			if pr && m == nil {
				m = vs
			}
			if !pr {
				m = nil
			}
			b, err := encryptShares(w.Bytes(sd, 32), vs, m, keys, dealer, ad)
			if err != nil {
				return false
			}
			q := partsOf(b)
			switch which {
			case 0:
				*p.Proof = *q.Proof
			case 1:
				*p.Pop, *p.Proof = *q.Pop, *q.Proof
			case 2:
				*p.Eph, *p.Pop, *p.Proof = *q.Eph, *q.Pop, *q.Proof
			case 3:
				*p.Eph = *q.Eph
			case 4:
				*p.Pop = *q.Pop
			}
			return true
		}
		switch kind {
		case 0: // made for another dealer
			d2 := dealer ^ 1<<uint(w.Choose("bit"+key, 32))
			if !take(d2, ad, pair, "seal", []int{0, 1, 2}[w.Choose("which"+key, 3)]) {
				continue
			}
			what = "made for another dealer"
		case 1: // for another context
			a2, _ := w.flip(key, ad)
			if !take(dealer, a2, pair, "seal", []int{0, 1, 2}[w.Choose("which"+key, 3)]) {
				continue
			}
			what = "made for another context"
		case 2: // for the other kind of ciphertext
			if !take(dealer, ad, !pair, "seal", []int{0, 1, 2}[w.Choose("which"+key, 3)]) {
				continue
			}
			what = "made for another kind of ciphertext"
		case 3: // another ephemeral key's
			if !take(dealer, ad, pair, "seal2", []int{0, 1, 3, 4}[w.Choose("which"+key, 4)]) {
				continue
			}
			what = "made for another ephemeral key"
		case 4:
			*p.Eph, what = PT(rMulG(w.RndNZ(key))), "another ephemeral key"
		case 5:
			*p.Pop, what = PT(rMulG(w.RndNZ(key))), "another public part"
		case 6:
			*p.Eph, *p.Pop, what = PT(rNeg(RPof(*p.Eph))), PT(rNeg(RPof(*p.Pop))), "both keys negated"
		case 7:
			if w.Maybe("response"+key, 500) {
				setScalar(*p.Proof, "response", 1, addm(scalarsOf(*p.Proof)["response"], w.RndNZ(key)))
			} else {
				setScalar(*p.Proof, "challenge", 0, addm(scalarsOf(*p.Proof)["challenge"], w.RndNZ(key)))
			}
			what = "an altered proof"
		case 8:
			*p.Proof, what = nil, "no proof"
		case 9, 10, 11: // forged
			know := w.RndNZ(key + "beta")
			gx := rMulG(know)
			if w.Maybe("stolen"+key, 500) {
				gx, know = rMulG(w.RndNZ(key+"stolen")), nil
				if w.Maybe("theirs"+key, 500) {
					gx = RPof(*p.Eph)
				}
			}
			base, err := mega.ComputePopBase(ctype, K256, ad, NI(dealer), PT(gx))
			w.Need(err, "base")
			omit := dlogOmits[w.Choose("omit"+key, len(dlogOmits))]
			hx, pf, ok := w.dlogForgery(key, omit, rGen, RPof(base), gx, know, ad)
			if !ok {
				continue
			}
			*p.Eph, *p.Pop, *p.Proof = PT(gx), PT(hx), pf
			what = "forged: " + omit
		}
		w.State("P21p", what, n, pair)
		refused := func(how string, err error) {
			w.Check(err != nil, "P21", "a proof of possession that does not hold", "%s: %s, dealer %d, context of %d bytes", how, what, dealer, len(ad))
			if isPanic(err) {
				w.Fail(w.in("P17"), "a proof of possession panics", "%s: %v", what, err)
			}
		}
		_, err := w.read(what, c, view{keys[i], keys[i], dealer, i, ad}, nil)
		refused("decryption", err)
		refused("check of the ciphertext", w.Call("check ciphertext", func() error { return c.CheckValidity(n, ad, NI(dealer)) }))
		refused("opening", w.Call("open", func() error {
			_, e := c.DecryptAndCheck(x.commit(), ad, NI(dealer), NI(i), keys[i].SK, keys[i].PK)
			return e
		}))
		refused("opening of a dealing", w.Call("open dealing", func() error {
			_, e := dealings.CommitmentOpening.OpenDealing(&Dealing{Ciphertext: c, Commitment: x.commit()}, ad, NI(dealer), NI(i), keys[i].SK, keys[i].PK)
			return e
		}))
	}
}

// p21Many: so many receivers that indices need more than a byte.
func p21Many(w *World) {
	if !w.Maybe("really", 120) {
		p21Contexts(w)
		return
	}
	n := 257 + w.Choose("n", 8)
	k := w.RandKeys("k")
	keys := make([]Keys, n)
	for i := range keys {
		keys[i] = k
	}
	s := w.seal("s", n, w.Maybe("pair", 500), keys, w.Index("d", 2), w.AD("a"))
	for a := 0; a < 6; a++ {
		i := w.Choose(fmt.Sprint("i", a), n)
		if a == 0 {
			i = n - 1
		}
		w.opens("own", s, view{k, k, s.dealer, i, s.ad})
		j := i ^ 256
		if a%2 == 1 {
			j = (i + 1 + w.Choose(fmt.Sprint("j", a), n-1)) % n
		}
		if j >= n || j == i {
			continue
		}
		// the encrypted share of i read as j
		c := DeepCopy(s.ct)
		p := partsOf(c)
		if p.Single != nil {
			(*p.Single)[j] = (*p.Single)[i]
		} else {
			(*p.Pair)[j] = (*p.Pair)[i]
		}
		got, err := w.read("elsewhere", c, view{k, k, s.dealer, j, s.ad}, nil)
		w.unrelated(fmt.Sprintf("the share of %d read as that of %d", i, j), s, got, err)
	}
	w.State("P21m", n)
}
