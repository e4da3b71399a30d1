package main

import (
	"fmt"
	"math/big"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
)

func init() {
	register(&Property{ID: "P01", Quick: 2500, Thorough: 24000,
		Scens: []Scenario{
			{"deliver", 7, p01Deliver},
			{"impossible", 1, p01Impossible},
		},
		Rule: "A run deals by one to three dealers for one operation and lets every receiver of a simulated committee verify.",
	})
}

// committee size and threshold
func (w *World) size(key string, big bool) (n, t int) {
	switch w.Pick("n:"+key, 24, 4, 2, 1) {
	case 0:
		n = w.Range("n.small:"+key, 1, 6)
	case 1:
		n = w.Range("n.mid:"+key, 7, 12)
	case 2:
		n = 4
		if big {
			n = w.Range("n.big:"+key, 20, 70)
		}
	case 3:
		n = 4
		if big {
			n = w.Range("n.huge:"+key, 250, 300)
		}
	}
	switch w.Pick("t:"+key, 6, 1, 1) {
	case 0:
		t = w.Range("t:"+key, 1, min(n, 8))
		if n > 64 {
			t = w.Vast("t:"+key, t, min(n, 140), 250)
		}
	case 1:
		t = 1
	case 2:
		t = min(n, 10)
	}
	return
}

func p01Deliver(w *World) {
	n, t := w.size("c", true)
	kind := w.Choose("op", 4)
	keys := w.Committee("r", n)
	nd := w.Range("dealers", 1, 3)
	if n > 12 {
		nd = 1
	}
	op := w.NewOp("op", kind, w.Range("tA", 1, 4), w.Range("tB", 1, 4))
	idx := make([]int, nd)
	for i := range idx {
		idx[i] = w.Index(fmt.Sprint("dealer", i), i+w.Choose(fmt.Sprint("dealer.off", i), n))
	}
	idx = distinct(idx)
	ad := w.AD("a")
	net := NewNet(w, "deal", n+nd, true)
	active := w.Subset("receivers", n, min(n, 4))
	if n > 12 && active[len(active)-1] != n-1 {
		active = append(active, n-1)
	}
	w.State("P01", opNames[kind], n, t, len(ad) > 255, len(ad) == 0, idx[0] > n)

	// receivers: keys on disk, verdicts on disk
	ready := map[int]map[int]bool{}
	loaded := map[int]Keys{}
	for _, r := range active {
		r := r
		ready[r] = map[int]bool{}
		loaded[r] = keys[r]
		node := net.Nodes[r]
		node.Disk["sk"], node.Disk["pk"] = keys[r].SK.Serialize(), keys[r].PK.Serialize()
		node.OnRestart = func() {
			k, err := keys[r].Reload()
			w.Need(err, "reading back the keys")
			loaded[r] = k
		}
	}
	for di, dealer := range idx {
		di, dealer := di, dealer
		node := net.Nodes[n+di]
		sd := w.Bytes(fmt.Sprint("seed", di), 32) // durable before the first attempt
		var d *Dealing
		node.OnCrash = func() { d = nil }
		var start func()
		start = func() {
			if d == nil {
				node.Do(fmt.Sprint("create", di), func() {
					sh, err := op.Shares(w, fmt.Sprint("d", di), dealer, w.Choose(fmt.Sprint("route", di), 3))
					w.Check(err == nil, "P01", "share witness refused", "%s, dealer %d: %v", opNames[kind], dealer, err)
					x, err := w.Deal(fmt.Sprint(di), sh, sd, t, keys, dealer, ad)
					w.Check(err == nil && x != nil, "P01", "honest dealing refused at creation", "%s t=%d n=%d dealer %d, %d bytes of context: %v", opNames[kind], t, n, dealer, len(ad), err)
					d = x
				})
			}
			if d == nil {
				w.After(100*ms, start)
				return
			}
		}
		start()
		for _, r := range active {
			r := r
			net.Reliable(n+di, r, fmt.Sprint("dealing", di), func() bool { return ready[r][di] }, func() {
				if d == nil {
					start()
					return
				}
				msg := DeepCopy(d)
				err := w.PubVerify(fmt.Sprintf("%d at %d", di, r), msg, op.Op(w, fmt.Sprint("at", r)), t, dealer, n, ad)
				w.Check(err == nil, "P01", "honest dealing publicly rejected", "%s t=%d n=%d dealer %d, %d bytes of context, at receiver %d: %v", opNames[kind], t, n, dealer, len(ad), r, err)
				err = w.PrivVerify(fmt.Sprintf("%d at %d", di, r), msg, loaded[r], ad, dealer, r)
				w.Check(err == nil, "P01", "honest share privately rejected", "%s t=%d n=%d dealer %d, %d bytes of context, at receiver %d: %v", opNames[kind], t, n, dealer, len(ad), r, err)
				ready[r][di] = true
			})
		}
	}
	net.Chaos()
	w.Run(20000)
	for _, r := range active {
		for di := range idx {
			if !ready[r][di] {
				w.Block("receiver %d never verified dealing %d", r, di)
			}
		}
	}
}

type strangeSecret struct{ S1, S2 *big.Int }

func p01Impossible(w *World) {
	n := w.Range("n", 1, 6)
	keys := w.Committee("r", n)
	kind := w.Choose("op", 4)
	op := w.NewOp("op", kind, 2, 2)
	dealer := w.Choose("dealer", 4)
	sh, err := op.Shares(w, "d", dealer, 0)
	w.Need(err, "shares")
	ad := w.AD("a")
	sd := w.Bytes("seed", 32)
	try := func(what string, sh dealings.SecretShares, t int, ks []*mega.MEGaPublicKey) {
		var d *Dealing
		err := w.Call("deal "+what, func() (e error) {
			d, e = dealings.NewIDkgDealingInternal(sh, K256, seedOf(sd), t, ks, NI(dealer), ad)
			return
		})
		if isPanic(err) {
			w.Fail("P01", "impossible request panics", "%s: %v", what, err)
		}
		w.Check(err != nil && d == nil, "P01", "impossible request served", "%s: error %v, dealing returned: %v", what, err, d != nil)
	}
	for k := 0; k < 3; k++ {
		what := ""
		switch w.Choose(fmt.Sprint("kind", k), 7) {
		case 0:
			t := n + 1 + w.Choose(fmt.Sprint("over", k), 40)
			what = fmt.Sprintf("threshold %d of %d", t, n)
			try(what, sh, t, pks(keys))
		case 1:
			try("threshold 0", sh, 0, pks(keys))
		case 2:
			t := -1 - w.Choose(fmt.Sprint("neg", k), 5)
			try(fmt.Sprintf("threshold %d", t), sh, t, pks(keys))
		case 3:
			try("no secret at all", nil, 1, pks(keys))
		case 4:
			try("unknown kind of secret", strangeSecret{}, 1, pks(keys))
		case 5:
			try("unknown kind of secret (pointer)", &strangeSecret{}, 1, pks(keys))
		case 6:
			try("no recipients", sh, 1, nil)
		}
	}
	// openings that do not make a secret
	a, b := w.Sharing("a", 2, nil, false).open(0).ToCommitmentOpeningBytes(), w.Sharing("b", 2, nil, true).open(0).ToCommitmentOpeningBytes()
	bad := func(what string, f func() (dealings.SecretShares, error)) {
		var s dealings.SecretShares
		err := w.Call("secret from "+what, func() (e error) { s, e = f(); return })
		w.Check(err != nil && s == nil, "P01", "inconsistent openings made a secret", "%s", what)
	}
	switch w.Choose("pair", 3) {
	case 0:
		bad("masked and unmasked", func() (dealings.SecretShares, error) { return dealings.Secret.From(b, a) })
	case 1:
		bad("masked and masked", func() (dealings.SecretShares, error) { return dealings.Secret.From(b, b) })
	case 2:
		bad("unmasked and unmasked", func() (dealings.SecretShares, error) { return dealings.Secret.From(a, a) })
	}
	// an honest request still works
	d, err := w.Deal("honest", sh, sd, n, keys, dealer, ad)
	w.Check(err == nil && d != nil, "P01", "honest dealing refused at creation", "after impossible requests: %v", err)
	err = w.PubVerify("honest", d, op.Op(w, "v"), n, dealer, n, ad)
	w.Check(err == nil, "P01", "honest dealing publicly rejected", "after impossible requests: %v", err)
}
