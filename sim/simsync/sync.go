// Package simsync stands in for package sync in the instrumented library: the
// same API and the same blocking rules, decided by the simulator.
package simsync

import (
	"verif.local/sim/simrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	wait   []*simrt.Task
	clk    simrt.Clock
}

func (m *Mutex) Lock() {
	if simrt.Inert() {
		return
	}
	if !simrt.Active() {
		if m.locked {
			panic("simsync: Lock would block outside a simulation")
		}
		m.locked = true
		return
	}
	simrt.Point(simrt.KLock)
	for m.locked {
		m.wait = append(m.wait, simrt.Current())
		simrt.Block("Mutex.Lock")
	}
	m.locked = true
	simrt.Held(1)
	m.clk.Acquire()
}

func (m *Mutex) TryLock() bool {
	if simrt.Inert() {
		return true
	}
	simrt.Point(simrt.KLock)
	if m.locked {
		return false
	}
	m.locked = true
	simrt.Held(1)
	m.clk.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Inert() {
		return
	}
	simrt.Point(simrt.KUnlock)
	if !m.locked {
		simrt.Fatal("fatal error: sync: unlock of unlocked mutex")
		return
	}
	m.clk.Release()
	m.locked = false
	simrt.Held(-1)
	for _, t := range m.wait {
		simrt.Unblock(t)
	}
	m.wait = nil
}

// RWMutex is sync.RWMutex, including its writer preference: once a writer
// waits, later readers wait behind it, so a recursive read lock can deadlock.
type RWMutex struct {
	wOwned  bool // the writers' mutex: a writer is pending or active
	pending *simrt.Task
	writer  bool
	readers int
	waitR   []*simrt.Task
	waitW   []*simrt.Task
	relW    simrt.Clock // released by writers
	relR    simrt.Clock // released by readers
	granted map[*simrt.Task]bool
}

func (m *RWMutex) RLock() {
	if simrt.Inert() {
		return
	}
	if !simrt.Active() {
		if m.wOwned {
			panic("simsync: RLock would block outside a simulation")
		}
		m.readers++
		return
	}
	simrt.Point(simrt.KLock)
	if m.wOwned && (m.writer || m.pending != nil) {
		t := simrt.Current()
		m.waitR = append(m.waitR, t)
		for {
			simrt.Block("RWMutex.RLock (a writer holds or waits)")
			if m.granted[t] {
				delete(m.granted, t)
				break
			}
		}
	} else {
		m.readers++
	}
	simrt.Held(1)
	m.relW.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	if simrt.Inert() {
		return true
	}
	simrt.Point(simrt.KLock)
	if m.wOwned {
		return false
	}
	m.readers++
	simrt.Held(1)
	m.relW.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Inert() {
		return
	}
	simrt.Point(simrt.KUnlock)
	if m.readers <= 0 {
		simrt.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
		return
	}
	m.relR.Release()
	m.readers--
	simrt.Held(-1)
	if m.readers == 0 && m.pending != nil {
		simrt.Unblock(m.pending)
	}
}

func (m *RWMutex) Lock() {
	if simrt.Inert() {
		return
	}
	if !simrt.Active() {
		if m.wOwned || m.readers > 0 {
			panic("simsync: Lock would block outside a simulation")
		}
		m.wOwned, m.writer = true, true
		return
	}
	simrt.Point(simrt.KLock)
	t := simrt.Current()
	for m.wOwned {
		m.waitW = append(m.waitW, t)
		simrt.Block("RWMutex.Lock (another writer)")
	}
	m.wOwned = true
	if m.readers > 0 {
		m.pending = t
		for m.readers > 0 {
			simrt.Block("RWMutex.Lock (readers active)")
		}
		m.pending = nil
	}
	m.writer = true
	simrt.Held(1)
	m.relW.Acquire()
	m.relR.Acquire()
}

func (m *RWMutex) TryLock() bool {
	if simrt.Inert() {
		return true
	}
	simrt.Point(simrt.KLock)
	if m.wOwned || m.readers > 0 {
		return false
	}
	m.wOwned, m.writer = true, true
	simrt.Held(1)
	m.relW.Acquire()
	m.relR.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Inert() {
		return
	}
	simrt.Point(simrt.KUnlock)
	if !m.writer {
		simrt.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
		return
	}
	m.relW.Reset()
	m.relW.Join(&m.relR)
	m.relR.Reset()
	m.relW.Release()
	m.writer = false
	m.wOwned = false
	simrt.Held(-1)
	for _, t := range m.waitR {
		if m.granted == nil {
			m.granted = map[*simrt.Task]bool{}
		}
		m.granted[t] = true
		m.readers++
		simrt.Unblock(t)
	}
	m.waitR = nil
	for _, t := range m.waitW {
		simrt.Unblock(t)
	}
	m.waitW = nil
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
	clk  simrt.Clock
}

func (o *Once) Do(f func()) {
	simrt.Point(simrt.KLock)
	if o.done {
		o.clk.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.clk.Release()
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	wait []*simrt.Task
	clk  simrt.Clock
}

func (w *WaitGroup) Add(d int) {
	if simrt.Inert() {
		return
	}
	simrt.Point(simrt.KUnlock)
	if d < 0 {
		w.clk.Release()
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, t := range w.wait {
			simrt.Unblock(t)
		}
		w.wait = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if simrt.Inert() {
		return
	}
	simrt.Point(simrt.KLock)
	for w.n > 0 {
		w.wait = append(w.wait, simrt.Current())
		simrt.Block("WaitGroup.Wait")
	}
	w.clk.Acquire()
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	wait []*condWaiter
}

type condWaiter struct {
	t    *simrt.Task
	woke bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if simrt.Inert() {
		return
	}
	w := &condWaiter{t: simrt.Current()}
	c.wait = append(c.wait, w)
	c.L.Unlock()
	for !w.woke {
		simrt.Block("Cond.Wait")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if simrt.Inert() {
		return
	}
	simrt.Point(simrt.KUnlock)
	if len(c.wait) > 0 {
		w := c.wait[0]
		c.wait = c.wait[1:]
		w.woke = true
		simrt.Unblock(w.t)
	}
}

func (c *Cond) Broadcast() {
	if simrt.Inert() {
		return
	}
	simrt.Point(simrt.KUnlock)
	for _, w := range c.wait {
		w.woke = true
		simrt.Unblock(w.t)
	}
	c.wait = nil
}

// Pool is sync.Pool; whether a Get finds a pooled value is a seeded choice, as
// the real one may drop any value at any time.
type Pool struct {
	New  func() any
	free []any
	clk  simrt.Clock
}

func (p *Pool) Get() any {
	if !simrt.Inert() {
		simrt.Point(simrt.KAtomic)
	}
	if n := len(p.free); n > 0 && simrt.Pick(4) != 0 {
		i := simrt.Pick(n)
		x := p.free[i]
		p.free = append(p.free[:i:i], p.free[i+1:]...)
		p.clk.Acquire()
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if !simrt.Inert() {
		simrt.Point(simrt.KAtomic)
	}
	p.clk.Release()
	p.free = append(p.free, x)
}

// Map is sync.Map.
type Map struct {
	keys []any
	m    map[any]any
	clk  simrt.Clock
}

func (m *Map) op() {
	if !simrt.Inert() {
		simrt.Point(simrt.KAtomic)
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.clk.Acquire()
	m.clk.Release()
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Load(k any) (any, bool) {
	m.op()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.op(); m.set(k, v) }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()
	if a, ok := m.m[k]; ok {
		return a, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { m.op(); m.del(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.op()
	p, ok := m.m[k]
	m.set(k, v)
	return p, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()
	if v, ok := m.m[k]; ok && v == o {
		m.set(k, n)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() { m.op(); m.m = map[any]any{}; m.keys = nil }

func (m *Map) Range(f func(k, v any) bool) {
	m.op()
	keys := append([]any(nil), m.keys...)
	for i := len(keys) - 1; i > 0; i-- {
		j := simrt.Pick(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	for _, k := range keys {
		m.op()
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
