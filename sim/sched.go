package main

// Seeded scheduler for logical threads inside one process: exactly one runs at any time, and where
// it gives way (at any statement of the library) is decided by the seed.

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"

	simhook "github.com/PlatONnetwork/tecdsa/simhook"
)

func goid() int64 {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return n
}

type lthread struct {
	name      string
	f         func()
	run       chan struct{}
	gid       int64
	held      int
	started   bool
	done      bool
	blocked   bool
	abandoned bool
	steps     int64
	kill      int64 // abandon after so many steps; 0 = never
	fault     interface{}
}

// Sched runs logical threads.
type Sched struct {
	w        *World
	key      string
	ths      []*lthread
	cur      *lthread
	from     int64
	next     int64
	back     chan struct{}
	dead     bool
	switches int
	slice    func(k int) int64
	stuck    int
	stuckN   int64
}

func NewSched(w *World, key string) *Sched {
	return &Sched{w: w, key: key, back: make(chan struct{})}
}

func (s *Sched) Go(name string, kill int64, f func()) {
	s.ths = append(s.ths, &lthread{name: name, f: f, run: make(chan struct{}), kill: kill})
}

// yield parks the running thread; called from the hook.
func (s *Sched) yield(site int) {
	t := s.cur
	if t == nil || goid() != t.gid {
		s.next = simhook.N + 64 // a goroutine of the library itself: not ours to park
		hkRefresh()
		return
	}
	t.steps += simhook.N - s.from
	s.from = simhook.N
	if s.dead || t.kill > 0 && t.steps >= t.kill && simhook.Held == 0 {
		s.next = 0
		cutOff(crashSignal{})
	}
	s.park(t)
}

func (s *Sched) park(t *lthread) {
	t.held = simhook.Held
	s.next = 0
	hkRefresh()
	s.back <- struct{}{}
	<-t.run
	simhook.Held = t.held
	if s.dead {
		cutOff(crashSignal{})
	}
}

// block is called when a lock of the library is taken.
func (s *Sched) block() bool {
	t := s.cur
	if t == nil || goid() != t.gid {
		return false
	}
	if simhook.N != s.stuckN { // something ran since
		s.stuck, s.stuckN = 0, simhook.N
	}
	s.stuck++
	if s.stuck > 20000 {
		s.stuck = 0
		cutOff(hangSignal{})
	}
	t.blocked = true
	s.park(t)
	return true
}

// Run schedules until every thread has ended.
func (s *Sched) Run() {
	w := s.w
	hk.sched = s
	simhook.Block = s.block
	hk.budget = simhook.N + 8*stepBudget
	defer func() {
		hk.sched = nil
		simhook.Block = nil
		hk.budget = 0
		hkRefresh()
	}()
	mode := w.Pick("sched.mode:"+s.key, 1, 3, 3, 2)
	limit := 60000 // decisions to interleave; after that threads run to their end
	var fault interface{}
	for k := 0; ; k++ {
		var live []*lthread
		for _, t := range s.ths {
			if !t.done {
				live = append(live, t)
			}
		}
		if len(live) == 0 {
			break
		}
		// a thread that waits for a lock lets others go first
		i := 0
		if len(live) > 1 && k < limit && mode > 0 {
			i = int(w.raw(fmt.Sprintf("sched:%s:%d", s.key, k)) % uint64(len(live)))
		}
		t := live[i]
		if t.blocked {
			t.blocked = false
			t = live[(i+1)%len(live)]
		}
		slice := int64(1) << 40
		if k < limit && len(live) > 1 && mode > 0 {
			h := w.raw(fmt.Sprintf("slice:%s:%d", s.key, k))
			switch mode {
			case 1: // fine grained
				slice = 1 + int64(h%40)
			case 2: // mixed
				slice = 1 + int64(h>>8)%(int64(1)<<(h%14))
			case 3: // few preemptions
				slice = 1 + int64(h%20000)
			}
		}
		if t.kill > 0 && t.kill-t.steps < slice {
			slice = max64(1, t.kill-t.steps)
		}
		s.switches++
		s.cur = t
		s.from = simhook.N
		s.next = simhook.N + slice
		simhook.Held = t.held
		hkRefresh()
		if !t.started {
			t.started = true
			go s.thread(t)
		} else {
			t.run <- struct{}{}
		}
		<-s.back
		if t.done {
			s.stuck = 0
			if t.fault != nil && fault == nil {
				fault = t.fault
				s.dead = true
			}
		} else if !t.blocked {
			s.stuck = 0
		}
	}
	if fault != nil {
		panic(fault)
	}
}

func (s *Sched) thread(t *lthread) {
	t.gid = goid()
	defer func() {
		r := recover()
		switch r.(type) {
		case nil:
		case crashSignal:
			t.abandoned = true
		default:
			t.fault = r
		}
		t.done = true
		t.held = 0
		s.next = 0
		hk.dying = 0
		hkRefresh()
		s.back <- struct{}{}
	}()
	if s.dead {
		return
	}
	t.f()
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
