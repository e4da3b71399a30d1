package main

import (
	"bytes"
	"fmt"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
)

func init() {
	register(&Property{ID: "P20", Quick: 130, Thorough: 9000,
		Scens: []Scenario{{"pipeline", 1, p20}},
		Rule:  "A run takes a committee with a fixed set of Byzantine or dead members through key generation, presignature generation, both products and signing by several clients, each stage over a network with its own faults, which stop after two simulated seconds; the stage must end within ten seconds of that.",
	})
}

// graceful is how long a stage may take once its faults have stopped.
const graceful = 10000 * ms

// A pipe is the committee of one run.
type pipe struct {
	w       *World
	n, t, f int
	keys    []Keys
	bad     map[int]bool
	dead    map[int]bool
	shape   string
}

// stage plays one operation; held gives the share a dealer has of its inputs.
func (p *pipe) stage(key string, op *OpCase, held ...*Round) (*Round, *Sharing) {
	w := p.w
	r := &Round{key: key, op: op, t: p.t, keys: p.keys, ad: w.AD(key), byz: map[int]int{}, liars: p.bad, dead: p.dead}
	for i := 0; i < p.n; i++ {
		r.dealers = append(r.dealers, i)
		id := fmt.Sprint("byz:", key, i)
		switch {
		case p.dead[i]:
			r.byz[i] = byzSilent
		case p.bad[i]:
			r.byz[i] = []int{byzNone, byzSilent, byzPublic, byzCorrupt}[w.Choose(id, 4)]
			if r.byz[i] == byzCorrupt && p.n-p.f <= p.t {
				r.byz[i] = byzPublic
			}
			if r.byz[i] != byzNone {
				w.CountFault([]string{"", "silent dealer", "publicly bad dealer", "dealer corrupting shares"}[r.byz[i]])
			}
		}
	}
	r.target = max(op.need(), p.f+1)
	if len(held) > 0 {
		r.witness = func(d int) (dealings.SecretShares, error) {
			if p.bad[d] { // it has whatever it needs
				return op.Shares(w, key, d, 0)
			}
			a := p.held(key, held[0], d).ToCommitmentOpeningBytes()
			if len(held) == 1 {
				return dealings.Secret.From(a, nil)
			}
			return dealings.Secret.From(a, p.held(key, held[1], d).ToCommitmentOpeningBytes())
		}
	}
	w.RunRound(r)
	w.Check(r.doneAt <= r.healed+graceful, "P20", "a stage does not end in time", "%s took %d ms after faults had stopped", key, (r.doneAt-r.healed)/ms)
	w.Probe("stage completed")
	if r.doneAt <= r.healed {
		w.Probe("stage completed while faults went on")
	}
	p.shape += fmt.Sprintf(" %s:%v", key, r.agreed)
	s := w.Result(r, "P20")
	for _, i := range r.honest() {
		w.Check(r.tr[i] == nil || eqPts(RefPoints(r.tr[i].CombinedCommitment), s.pts), "P20", "transcripts differ", "%s at %d", key, i)
	}
	if x := op.secret(); x != nil {
		w.Check(s.secret().Cmp(x) == 0, "P20", "a stage changed the secret", "%s", key)
	}
	return r, s
}

// held is the share node i got in round r, after a restart perhaps.
func (p *pipe) held(key string, r *Round, i int) Opening {
	w, o := p.w, r.open[i]
	if !w.Maybe(fmt.Sprintf("reload:%s:%s:%d", key, r.key, i), 300) {
		return o
	}
	b, err := o.Serialize()
	w.Check(err == nil, "P20", "opening has no bytes", "%v", err)
	o, err = poly.Commitment.Deserialize(b)
	w.Check(err == nil, "P20", "an opening does not survive the disk", "%v", err)
	w.Probe("share of an earlier stage read from disk")
	return o
}

// generate makes a random unmasked sharing: a random one, reshared.
func (p *pipe) generate(key string) (*Round, *Sharing) {
	r, s := p.stage(key+"-random", &OpCase{kind: opRandom})
	return p.stage(key, &OpCase{kind: opReshareMasked, A: s}, r)
}

func p20(w *World) {
	type size struct{ n, t, f int }
	sizes := []size{{4, 2, 1}, {3, 1, 1}, {3, 2, 0}, {4, 2, 0}, {5, 2, 1}, {5, 3, 0}, {2, 1, 0}, {1, 1, 0}, {5, 1, 2}, {6, 3, 1}, {7, 3, 2}}
	z := sizes[w.Pick("size", 24, 18, 14, 5, 3, 3, 8, 3, 3, 1, 1)]
	p := &pipe{w: w, n: z.n, t: z.t, f: z.f, bad: map[int]bool{}, dead: map[int]bool{}}
	p.keys = w.Committee("r", p.n)
	if p.f > 0 {
		for _, i := range w.Subset("bad", p.n, min(p.f, w.Pick("nbad", 2, 4, 2))) {
			p.bad[i] = true
			if w.Maybe(fmt.Sprint("dead", i), 250) {
				p.dead[i] = true
				w.CountFault("dead node")
			} else {
				w.CountFault("byzantine node")
			}
		}
	}
	q := &Quad{t: p.t}
	var rk, rx, rl, rkl, rxl *Round
	rx, q.key = p.generate("key")
	public := q.key.pts[0]
	reshare := func(k string) {
		rx, q.key = p.stage(k, &OpCase{kind: opReshareUnmasked, A: q.key}, rx)
		w.Check(q.key.pts[0].eq(public), "P20", "a reshare changed the public key", "")
		w.Probe("key reshared on the way")
	}
	if w.Maybe("reshare first", 120) {
		reshare("key-reshare")
	}
	rk, q.kappa = p.generate("kappa")
	rl, q.lambda = p.stage("lambda", &OpCase{kind: opRandom})
	rkl, q.kl = p.stage("kappa-lambda", &OpCase{kind: opProduct, A: q.kappa, B: q.lambda}, rk, rl)
	if w.Maybe("reshare between", 80) {
		reshare("key-reshare-2")
	}
	rxl, q.xl = p.stage("key-lambda", &OpCase{kind: opProduct, A: q.key, B: q.lambda}, rx, rl)
	if w.Maybe("reshare late", 80) { // the presignature still fits the key
		reshare("key-reshare-3")
	}

	// signing, by the shares the nodes have
	for i := 0; i < p.n; i++ {
		if !p.dead[i] {
			q.idx = append(q.idx, i)
		}
	}
	byz := map[int]bool{}
	for i := range p.bad {
		byz[i] = !p.dead[i]
	}
	r := w.Req("r", true)
	o := w.rhoOf("", q, r)
	want := make([]int, w.Range("clients", 1, 2))
	for c := range want {
		want[c] = p.t + w.Choose(fmt.Sprint("wait", c), p.n-len(p.bad)-p.t+1)
	}
	load := func(_ *Node, q *Quad, i int) (l, kl, xl Opening) {
		return p.held("sign", rl, i), p.held("sign", rkl, i), p.held("sign", rxl, i)
	}
	late, missing := w.combiners("sign", q, r, o, byz, want, load)
	w.Check(missing < 0, "P20", "a client never gets a signature", "client %d, n=%d t=%d, byzantine %d of them dead %d", missing, p.n, p.t, len(p.bad), len(p.dead))
	w.Check(late <= graceful, "P20", "a stage does not end in time", "signing took %d ms after faults had stopped", late/ms)
	pub, _, err := w.derive("", public.bytes(), r.P())
	w.Check(err == nil && bytes.Equal(pub, o.child.bytes()), "P20", "a client derives another key", "%v: %v", r, err)
	w.Probe("pipeline completed")
	w.State("P20", p.n, p.t, len(p.bad), p.shape)
}
