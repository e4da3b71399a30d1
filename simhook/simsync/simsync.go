// Package simsync stands in for package sync in the build overlay: a lock that is taken gives way
// to the other logical threads instead of blocking the simulator.
package simsync

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	simhook "SIMHOOK_PATH"
)

type (
	Map    = sync.Map
	Locker = sync.Locker
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func wait(n *int) {
	if simhook.Block != nil && simhook.Block() {
		return
	}
	*n++
	if *n < 1000 {
		runtime.Gosched()
	} else {
		time.Sleep(time.Microsecond)
	}
}

// WaitGroup lets the other logical threads go on while one waits.
type WaitGroup struct{ n atomic.Int64 }

func (g *WaitGroup) Add(d int) {
	if g.n.Add(int64(d)) < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	for n := 0; g.n.Load() > 0; {
		wait(&n)
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	go func() {
		defer g.Done()
		f()
	}()
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	for n := 0; !m.m.TryLock(); {
		wait(&n)
	}
	simhook.Held++
}
func (m *Mutex) TryLock() bool {
	if m.m.TryLock() {
		simhook.Held++
		return true
	}
	return false
}
func (m *Mutex) Unlock() { simhook.Held--; m.m.Unlock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	for n := 0; !m.m.TryLock(); {
		wait(&n)
	}
	simhook.Held++
}
func (m *RWMutex) Unlock() { simhook.Held--; m.m.Unlock() }
func (m *RWMutex) RLock() {
	for n := 0; !m.m.TryRLock(); {
		wait(&n)
	}
	simhook.Held++
}
func (m *RWMutex) RUnlock() { simhook.Held--; m.m.RUnlock() }
func (m *RWMutex) TryLock() bool {
	if m.m.TryLock() {
		simhook.Held++
		return true
	}
	return false
}
func (m *RWMutex) TryRLock() bool {
	if m.m.TryRLock() {
		simhook.Held++
		return true
	}
	return false
}
func (m *RWMutex) RLocker() Locker { return rl{m} }

type rl struct{ m *RWMutex }

func (r rl) Lock()   { r.m.RLock() }
func (r rl) Unlock() { r.m.RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool hands the last value put back out again, always: the most revealing legal behaviour.
type Pool struct {
	New   func() interface{}
	mu    sync.Mutex
	items []interface{}
}

func (p *Pool) Get() interface{} {
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}
