package main

import (
	"container/heap"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"runtime/debug"
	"sort"
	"strings"

	simhook "github.com/PlatONnetwork/tecdsa/simhook"
)

// ---------------------------------------------------------------------------------------------
// World: one execution. Everything that happens in it is a function of Seed (and, in a replay, of
// the explicit decisions in replay).

type World struct {
	Seed     uint64
	Prop     string
	Scen     string
	replay   map[string]uint64
	isReplay bool
	rec      map[string]uint64
	keyN     map[string]int

	now  int64 // simulated microseconds
	seq  uint64
	q    evHeap
	nEv  int
	hash [32]byte

	verbose bool
	trace   []string

	faults map[string]int
	probes map[string]int
	states map[uint64]struct{}
	evals  int
	calls  int

	solo    string // ask for one operation of a P18 run alone
	soloOut string

	viol    *Viol
	other   map[string]int
	blocked []string
}

// Viol is one observed violation. Class identifies it across runs.
type Viol struct {
	Prop  string
	Class string
	Msg   string
}

type stopRun struct{}

func NewWorld(prop, scen string, seed uint64, replay map[string]uint64, isReplay bool) *World {
	return &World{Seed: seed, Prop: prop, Scen: scen, replay: replay, isReplay: isReplay,
		rec: map[string]uint64{}, keyN: map[string]int{}, faults: map[string]int{}, probes: map[string]int{},
		states: map[uint64]struct{}{}, other: map[string]int{}}
}

func (w *World) h(key string) uint64 {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], w.Seed)
	s := sha256.New()
	s.Write(b[:])
	s.Write([]byte(w.Scen))
	s.Write([]byte{0})
	s.Write([]byte(key))
	return binary.BigEndian.Uint64(s.Sum(nil)[:8])
}

func (w *World) decide(key string, gen func(h uint64) uint64, n uint64) uint64 {
	c := w.keyN[key]
	w.keyN[key] = c + 1
	if c > 0 {
		key = fmt.Sprintf("%s#%d", key, c)
	}
	var v uint64
	if w.isReplay {
		v = w.replay[key]
		if v >= n {
			v = n - 1
		}
	} else {
		v = gen(w.h(key))
	}
	if v != 0 {
		w.rec[key] = v
	}
	return v
}

// raw is a draw that is not a recorded decision: it repeats with the seed but is not minimised.
func (w *World) raw(key string) uint64 { return w.h("raw:" + key) }

// Choose draws from 0..n-1; 0 is the simplest choice.
func (w *World) Choose(key string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(w.decide(key, func(h uint64) uint64 { return h % uint64(n) }, uint64(n)))
}

// Pick draws an index by weight; index 0 is the simplest choice.
func (w *World) Pick(key string, weights ...int) int {
	total := 0
	for _, x := range weights {
		total += x
	}
	return int(w.decide(key, func(h uint64) uint64 {
		r := int(h % uint64(total))
		for i, x := range weights {
			if r < x {
				return uint64(i)
			}
			r -= x
		}
		return 0
	}, uint64(len(weights))))
}

// Range draws from lo..hi; lo is the simplest choice.
func (w *World) Range(key string, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + w.Choose(key, hi-lo+1)
}

// Maybe is true with the given probability in a thousand; false is the simplest choice.
func (w *World) Maybe(key string, permille int) bool {
	return w.decide(key, func(h uint64) uint64 {
		if int(h%1000) < permille {
			return 1
		}
		return 0
	}, 2) == 1
}

// Fault is Maybe for an injected fault, counted when it fires.
func (w *World) Fault(kind, key string, permille int) bool {
	if permille > 0 && w.Maybe("fault:"+kind+":"+key, permille) {
		w.CountFault(kind)
		w.Ev("fault %s %s", kind, key)
		return true
	}
	return false
}

func (w *World) CountFault(kind string) { w.faults[kind]++ }

// Probe counts that a condition worth reaching was reached.
func (w *World) Probe(name string) { w.probes[name]++ }

// Bytes gives n bytes named by key; never a decision, so it does not shrink.
func (w *World) Bytes(key string, n int) []byte {
	out := make([]byte, 0, n+32)
	var b [12]byte
	binary.BigEndian.PutUint64(b[:], w.Seed)
	for i := 0; len(out) < n; i++ {
		binary.BigEndian.PutUint32(b[8:], uint32(i))
		d := sha256.Sum256(append(append([]byte{}, b[:]...), []byte(w.Scen+"\x00bytes\x00"+key)...))
		out = append(out, d[:]...)
	}
	return out[:n]
}

func (w *World) U64(key string) uint64 { return binary.BigEndian.Uint64(w.Bytes(key, 8)) }

// Rnd is a scalar below the group order without structure.
func (w *World) Rnd(key string) *big.Int {
	v := new(big.Int).SetBytes(w.Bytes(key, 48))
	return v.Mod(v, rN)
}

// RndNZ is Rnd without zero.
func (w *World) RndNZ(key string) *big.Int {
	v := w.Rnd(key)
	if v.Sign() == 0 {
		v.SetInt64(1)
	}
	return v
}

// Sec is a secret value: mostly random, sometimes an edge value.
func (w *World) Sec(key string) *big.Int {
	switch w.Pick("sec:"+key, 14, 1, 1, 1, 1, 1, 1) {
	case 1:
		return big.NewInt(0)
	case 2:
		return big.NewInt(1)
	case 3:
		return new(big.Int).Sub(rN, big.NewInt(1))
	case 4:
		return new(big.Int).Rsh(rN, 1)
	case 5: // leading zero bytes
		return new(big.Int).Rsh(w.Rnd(key), uint(8*(1+w.U64(key+"z")%20)))
	case 6: // trailing zero bytes
		v := w.Rnd(key)
		sh := uint(8 * (1 + w.U64(key+"t")%20))
		v.Rsh(v, sh)
		return v.Lsh(v, sh)
	}
	return w.Rnd(key)
}

// Perm gives a permutation of 0..n-1; the identity is the simplest one.
func (w *World) Perm(key string, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i+1 < n; i++ {
		j := i + w.Choose(fmt.Sprintf("perm:%s:%d", key, i), n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Subset gives k of 0..n-1 in increasing order; the first k are the simplest choice.
func (w *World) Subset(key string, n, k int) []int {
	p := w.Perm("sub:"+key, n)[:k]
	sort.Ints(p)
	return p
}

// Ev appends to the event log: the log is chained into the hash that identifies the execution.
func (w *World) Ev(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	d := sha256.New()
	d.Write(w.hash[:])
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(w.now))
	d.Write(b[:])
	d.Write([]byte(s))
	copy(w.hash[:], d.Sum(nil))
	w.nEv++
	if w.verbose {
		w.trace = append(w.trace, fmt.Sprintf("t=%-9d %s", w.now, s))
	}
}

// State records an abstract state of the system that was reached.
func (w *World) State(parts ...interface{}) {
	d := sha256.Sum256([]byte(w.Scen + fmt.Sprint(parts...)))
	w.states[binary.BigEndian.Uint64(d[:8])] = struct{}{}
}

// Fail reports a violation. One of the property under check ends the run.
func (w *World) Fail(prop, class, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	w.Ev("VIOLATION %s %s: %s", prop, class, msg)
	if prop != w.Prop {
		w.other[prop+"/"+class]++
		return
	}
	w.viol = &Viol{Prop: prop, Class: class, Msg: msg}
	panic(stopRun{})
}

// Check counts one evaluation of an oracle and reports when it fails.
func (w *World) Check(ok bool, prop, class, format string, a ...interface{}) {
	w.evals++
	if !ok {
		w.Fail(prop, class, format, a...)
	}
}

// Block ends a run whose honest preparation failed for a reason that is not the property's.
func (w *World) Block(format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	w.Ev("BLOCKED %s", m)
	w.blocked = append(w.blocked, m)
	panic(stopRun{})
}

// Need is Block on an error of the preparation.
func (w *World) Need(err error, what string) {
	if err != nil {
		w.Block("%s: %v", what, err)
	}
}

// ---------------------------------------------------------------------------------------------
// Event queue

type event struct {
	at  int64
	seq uint64
	f   func()
}
type evHeap []event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x interface{}) { *h = append(*h, x.(event)) }
func (h *evHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func (w *World) After(d int64, f func()) {
	if d < 0 {
		d = 0
	}
	w.seq++
	heap.Push(&w.q, event{w.now + d, w.seq, f})
}

// Run processes events until none is left, or until max of them were processed.
func (w *World) Run(max int) bool {
	for n := 0; w.q.Len() > 0; n++ {
		if n >= max {
			return false
		}
		e := heap.Pop(&w.q).(event)
		w.now = e.at
		e.f()
	}
	return true
}

// ---------------------------------------------------------------------------------------------
// Guarded calls into the library

type PanicError struct {
	What string
	Hang bool
	Top  string
}

func (p *PanicError) Error() string {
	if p.Hang {
		return "did not finish within the step budget"
	}
	return "panic: " + p.What + " at " + p.Top
}

type hangSignal struct{}
type crashSignal struct{}

const stepBudget = 30_000_000

var hk struct {
	gid    int64 // the goroutine that armed budget or crash
	budget int64 // absolute, 0 = none
	crash  int64 // absolute, 0 = none
	sched  *Sched
	dying  int64 // the goroutine that is being cut off: its deferred functions must not run either
	sig    interface{}
}

// cutOff cuts the running goroutine off.
func cutOff(sig interface{}) {
	hk.dying, hk.sig = goid(), sig
	hkRefresh()
	panic(sig)
}

func hkRefresh() {
	n := int64(math.MaxInt64)
	if hk.dying != 0 {
		n = 0
	}
	if hk.budget > 0 && hk.budget < n {
		n = hk.budget
	}
	if hk.crash > 0 && hk.crash < n {
		n = hk.crash
	}
	if hk.sched != nil && hk.sched.next > 0 && hk.sched.next < n {
		n = hk.sched.next
	}
	simhook.Next = n
}

func hkSlow(site int) {
	if hk.dying != 0 {
		if goid() == hk.dying {
			panic(hk.sig)
		}
		return
	}
	own := hk.gid
	if hk.sched != nil && hk.sched.cur != nil {
		own = hk.sched.cur.gid
	}
	if goid() != own {
		simhook.Next = simhook.N + 256 // a goroutine of the library: the caller's turn comes
		return
	}
	if hk.crash > 0 && simhook.N >= hk.crash {
		if simhook.Held > 0 { // the nodes share the process: a lock must not stay taken
			hk.crash = simhook.N + 1
			hkRefresh()
			return
		}
		hk.crash = 0
		cutOff(crashSignal{})
	}
	if hk.budget > 0 && simhook.N >= hk.budget {
		hk.budget = 0
		cutOff(hangSignal{})
	}
	if hk.sched != nil && hk.sched.next > 0 && simhook.N >= hk.sched.next {
		hk.sched.yield(site)
	}
}

func hkReset() {
	hk.budget, hk.crash, hk.sched, hk.dying = 0, 0, nil, 0
	simhook.Slow = hkSlow
	simhook.Block = nil
	simhook.Held = 0
	hkRefresh()
}

// topFrame finds the innermost frame of a panic below the runtime.
func topFrame(stack string) string {
	lines := strings.Split(stack, "\n")
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") || strings.Contains(l, "runtime.gopanic") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") {
			continue
		}
		if j := strings.LastIndex(l, "("); j > 0 {
			l = l[:j]
		}
		return l
	}
	return "?"
}

// Call runs f, which calls into the library, and turns a panic or an unbounded run into an error.
func (w *World) Call(name string, f func() error) (err error) {
	w.calls++
	old := hk.budget
	start := simhook.N
	if old == 0 {
		hk.budget = simhook.N + stepBudget
		if hk.sched == nil {
			hk.gid = goid()
		}
		hkRefresh()
	}
	defer func() {
		hk.budget = old
		r := recover()
		if _, ok := r.(crashSignal); !ok {
			hk.dying = 0
		}
		hkRefresh()
		if r == nil {
			w.Ev("call %s steps=%d err=%v", name, simhook.N-start, err)
			return
		}
		switch r.(type) {
		case stopRun, crashSignal:
			panic(r)
		}
		pe := &PanicError{What: fmt.Sprint(r)}
		if _, ok := r.(hangSignal); ok {
			pe.Hang = true
		} else {
			pe.Top = topFrame(string(debug.Stack()))
			if strings.HasPrefix(pe.Top, "main.") {
				panic(r) // a fault of the simulator itself
			}
		}
		err = pe
		w.Ev("call %s: %v", name, err)
		kind := "panic"
		if pe.Hang {
			kind = "hang"
		}
		w.Fail("P17", kind, "%s: %v", name, err)
	}()
	return f()
}

func isPanic(err error) bool { _, ok := err.(*PanicError); return ok }

// Size draws a size that is mostly small (lo..hi) and now and then large (up to lim).
func (w *World) Size(key string, lo, hi, lim int) int {
	mid := min(lim, 12)
	if hi < mid {
		switch w.Pick("size:"+key, 26, 3, 1) {
		case 1:
			return w.Range(key+".mid", hi+1, mid)
		case 2:
			return w.Range(key+".big", min(mid+1, lim), lim)
		}
	}
	return w.Range(key, lo, hi)
}

// Thr draws a threshold for n nodes: mostly small where n is large.
func (w *World) Thr(key string, n int) int {
	if n > 6 && w.Pick("thr:"+key, 2, 1) == 0 {
		return w.Range(key, 1, min(n, 5))
	}
	if n > 64 && w.Maybe("vast:"+key, 200) {
		return w.Range(key+".vast", 65, min(n, 140))
	}
	return w.Range(key, 1, min(n, 20))
}

// Vast now and then replaces a size by one above 64.
func (w *World) Vast(key string, size, hi, permille int) int {
	if w.Maybe("vast:"+key, permille) {
		w.Probe("vast size")
		return w.Range(key+".vast", 65, hi)
	}
	return size
}
