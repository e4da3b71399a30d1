package main

import (
	"fmt"
	"sort"
)

// Node is one simulated machine: volatile state lives in the closures of a scenario and is rebuilt
// by OnRestart, durable state is Disk.
type Node struct {
	net       *Net
	id        int
	up        bool
	epoch     int
	stall     int64
	solid     bool // never crashes inside an operation
	Disk      map[string][]byte
	OnCrash   func()
	OnRestart func()
}

// Net is the simulated network, plus the faults of the machines on it.
type Net struct {
	w     *World
	Nodes []*Node
	until int64 // after this time nothing fails any more
	rate  struct{ drop, dup, delay, midcrash int }
	group []int
	name  string
}

const ms = int64(1000)

// NewNet makes n nodes and draws which faults this run has.
func NewNet(w *World, name string, n int, faulty bool) *Net {
	t := &Net{w: w, name: name, group: make([]int, n)}
	for i := 0; i < n; i++ {
		t.Nodes = append(t.Nodes, &Node{net: t, id: i, up: true, Disk: map[string][]byte{}})
	}
	if faulty {
		t.until = w.now + 2000*ms
		t.rate.drop = []int{0, 50, 150, 300}[w.Pick("net.drop:"+name, 4, 3, 3, 1)]
		t.rate.dup = []int{0, 50, 200}[w.Pick("net.dup:"+name, 3, 3, 2)]
		t.rate.delay = []int{0, 100, 300}[w.Pick("net.delay:"+name, 2, 3, 2)]
		t.rate.midcrash = []int{0, 20, 60}[w.Pick("net.midcrash:"+name, 4, 2, 1)]
	}
	return t
}

// Chaos schedules partitions, crashes and stalls, all of which end at t.until.
func (t *Net) Chaos() {
	w := t.w
	if t.until == 0 {
		return
	}
	span := t.until - w.now
	if len(t.Nodes) > 1 {
		for k := 0; k < 2; k++ {
			k := k
			if !w.Fault("partition", fmt.Sprintf("%s:%d", t.name, k), 200) {
				continue
			}
			at := early(w.Choose(fmt.Sprintf("part.at:%s:%d", t.name, k), 60), span)
			dur := int64(1+w.Choose(fmt.Sprintf("part.dur:%s:%d", t.name, k), 30)) * span / 100
			mask := w.Choose(fmt.Sprintf("part.mask:%s:%d", t.name, k), 1<<uint(min(len(t.Nodes), 10)))
			w.After(at, func() {
				for i := range t.group {
					t.group[i] = mask >> uint(i) & 1
				}
				w.Ev("partition %b", mask)
			})
			w.After(at+dur, func() { t.heal() })
		}
	}
	for i, nd := range t.Nodes {
		nd := nd
		id := fmt.Sprintf("%s:%d", t.name, i)
		if w.Fault("crash", id, 200) {
			at := early(w.Choose("crash.at:"+id, 60), span)
			down := int64(1+w.Choose("crash.down:"+id, 30)) * span / 100
			w.After(at, func() { nd.Crash(down) })
		}
		if w.Fault("stall", id, 100) {
			at := early(w.Choose("stall.at:"+id, 60), span)
			dur := int64(1+w.Choose("stall.dur:"+id, 20)) * span / 100
			w.After(at, func() { nd.stall = w.now + dur; w.Ev("stall %d", nd.id) })
		}
	}
	w.After(span, func() {
		t.heal()
		w.Ev("faults stop")
	})
}

// early spreads fault times over half the span, most of them near its beginning, where the messages
// of a round are.
func early(x int, span int64) int64 { return int64(x*x*x) * span / (2 * 60 * 60 * 60) }

func (t *Net) heal() {
	for i := range t.group {
		t.group[i] = 0
	}
	t.w.Ev("heal")
}

func (t *Net) faultsOn() bool { return t.w.now < t.until }

// Crash takes the node down; it restarts after the given time with its disk only.
func (n *Node) Crash(down int64) {
	if !n.up {
		return
	}
	n.up = false
	n.epoch++
	n.net.w.Ev("crash node %d", n.id)
	if n.OnCrash != nil {
		n.OnCrash()
	}
	n.net.w.After(down, func() {
		n.up = true
		n.epoch++
		n.net.w.Ev("restart node %d", n.id)
		if n.OnRestart != nil {
			n.OnRestart()
		}
	})
}

// Do runs f on the node; it may be cut off at an arbitrary statement of the library by a crash.
func (n *Node) Do(key string, f func()) (done bool) {
	w := n.net.w
	if !n.up {
		return false
	}
	if !n.solid && n.net.faultsOn() && w.Fault("midcrash", fmt.Sprintf("%s:%d:%s", n.net.name, n.id, key), n.net.rate.midcrash) {
		k := 1 + w.Choose(fmt.Sprintf("midcrash.at:%s:%d:%s", n.net.name, n.id, key), 6000)
		hk.crash = hookN() + int64(k)
		hk.gid = goid()
		hkRefresh()
	}
	defer func() {
		hk.crash, hk.dying = 0, 0
		hkRefresh()
		if r := recover(); r != nil {
			if _, ok := r.(crashSignal); !ok {
				panic(r)
			}
			w.Probe("crash inside an operation")
			w.Ev("node %d crashed inside %s", n.id, key)
			n.Crash(50 * ms)
			done = false
		}
	}()
	f()
	return true
}

// run executes a delivery on the node when it is up and not stalled.
func (n *Node) run(id string, f func()) {
	w := n.net.w
	if !n.up {
		w.Ev("lost %s: node %d is down", id, n.id)
		return
	}
	if n.stall > w.now {
		ep := n.epoch
		w.After(n.stall-w.now, func() {
			if n.epoch == ep {
				n.run(id, f)
			}
		})
		return
	}
	n.Do(id, f)
}

// Send delivers f to the node once, never, or several times, at some later time.
func (t *Net) Send(from, to int, id string, f func()) {
	w := t.w
	if from == to {
		w.After(1, func() { t.Nodes[to].run(id, f) })
		return
	}
	key := fmt.Sprintf("%s:%d>%d", id, from, to)
	if t.faultsOn() {
		if t.group[from] != t.group[to] {
			w.CountFault("partitioned message")
			w.Ev("partition drops %s", key)
			return
		}
		if w.Fault("drop", key, t.rate.drop) {
			return
		}
	}
	d := ms + int64(w.Choose("lat:"+key, 20))*ms
	if t.faultsOn() && w.Fault("delay", key, t.rate.delay) {
		d += int64(1+w.Choose("late:"+key, 60)) * 10 * ms
	}
	w.After(d, func() { t.Nodes[to].run(key, f) })
	if t.faultsOn() && w.Fault("duplicate", key, t.rate.dup) {
		d2 := d + int64(w.Choose("dup:"+key, 40))*5*ms
		w.After(d2, func() { t.Nodes[to].run(key+" again", f) })
	}
}

// Reliable repeats Send until done.
func (t *Net) Reliable(from, to int, id string, done func() bool, f func()) {
	w := t.w
	try := 0
	var again func()
	again = func() {
		if done() || try > 80 {
			return
		}
		if t.Nodes[from].up {
			if try > 0 {
				w.Probe("retransmission")
			}
			t.Send(from, to, fmt.Sprintf("%s~%d", id, try), f)
			try++
		}
		w.After(int64(60+20*min(try, 10))*ms, again)
	}
	again()
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func sortedKeys[V any](m map[int]V) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}
