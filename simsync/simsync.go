// Package simsync is a drop-in replacement of package sync for code running
// under the simulator. Blocking is decided by the scheduler; the embedded real
// primitive is never contended and only contributes happens-before edges.
package simsync

import (
	rs "sync"

	"verif/simrt"
)

// Locker is sync.Locker.
type Locker = rs.Locker

// Map is a simulated sync.Map: every operation is a scheduling point, and a
// range visits what a range over a built-in map would.
type Map struct{ m rs.Map }

// Load is sync.Map.Load.
func (m *Map) Load(k any) (any, bool) { simrt.Point(); return m.m.Load(k) }

// Store is sync.Map.Store.
func (m *Map) Store(k, v any) { simrt.Point(); m.m.Store(k, v) }

// Clear is sync.Map.Clear.
func (m *Map) Clear() { simrt.Point(); m.m.Clear() }

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.Point(); return m.m.LoadOrStore(k, v) }

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) { simrt.Point(); return m.m.LoadAndDelete(k) }

// Delete is sync.Map.Delete.
func (m *Map) Delete(k any) { simrt.Point(); m.m.Delete(k) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) { simrt.Point(); return m.m.Swap(k, v) }

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, n any) bool { simrt.Point(); return m.m.CompareAndSwap(k, o, n) }

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, o any) bool { simrt.Point(); return m.m.CompareAndDelete(k, o) }

// Range is sync.Map.Range.
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Point()
	keys := map[any]struct{}{}
	m.m.Range(func(k, _ any) bool { keys[k] = struct{}{}; return true })
	for _, k := range simrt.Keys(keys) {
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	held  bool
	owner simrt.Holder
	mu    rs.Mutex
}

// settle frees the lock if its holder belongs to a process that is gone: locks
// in package variables outlive the simulated process, but nothing else does.
//
//go:norace
func (m *Mutex) settle() {
	if m.held && m.owner.Gone() {
		m.held = false
		m.mu = rs.Mutex{}
	}
}

// Lock locks m.
//
//go:norace
func (m *Mutex) Lock() {
	m.settle()
	if !simrt.Dead(m.held) {
		simrt.Point()
		if m.held {
			simrt.Park(m.free)
		}
	}
	m.held = true
	m.owner = simrt.Me()
	m.mu.Lock()
}

//go:norace
func (m *Mutex) free() bool { m.settle(); return !m.held }

// TryLock tries to lock m.
//
//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Point()
	m.settle()
	if m.held || simrt.Killed() {
		return false
	}
	m.held = true
	m.owner = simrt.Me()
	m.mu.Lock()
	return true
}

// Unlock unlocks m.
//
//go:norace
func (m *Mutex) Unlock() {
	if simrt.Killed() {
		if m.held && m.owner == simrt.Me() {
			m.held = false
			m.mu.Unlock()
		}
		return
	}
	if !m.held {
		simrt.SetFatal("fatal error: sync: unlock of unlocked mutex")
		return
	}
	m.mu.Unlock()
	m.held = false
	simrt.Point()
}

// RWMutex is a simulated sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	w       bool
	r       int
	waiting int
	writer  simrt.Holder
	readers [32]simrt.Holder // of the first ones
	mu      rs.RWMutex
}

//go:norace
func (m *RWMutex) settle() {
	gone := m.w && m.writer.Gone()
	live := 0
	for i := 0; i < m.r && i < len(m.readers); i++ {
		if m.readers[i].Gone() {
			gone = true
		} else {
			live++
		}
	}
	if !gone {
		return
	}
	// start over with the holders that are alive
	if m.w && m.writer.Gone() {
		m.w = false
	}
	k := 0
	for i := 0; i < m.r && i < len(m.readers); i++ {
		if h := m.readers[i]; !h.Gone() {
			m.readers[k] = h
			k++
		}
	}
	m.r = k
	m.mu = rs.RWMutex{}
	if m.w {
		m.mu.Lock()
	}
	for i := 0; i < m.r; i++ {
		m.mu.RLock()
	}
}

// Lock locks for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	m.settle()
	if !simrt.Dead(m.w || m.r > 0) {
		simrt.Point()
		if m.w || m.r > 0 {
			m.waiting++
			defer m.unwait()
			simrt.Park(m.freeW)
		}
	}
	m.w = true
	m.writer = simrt.Me()
	m.mu.Lock()
}

//go:norace
func (m *RWMutex) unwait() { m.waiting-- }

//go:norace
func (m *RWMutex) freeW() bool { m.settle(); return !m.w && m.r == 0 }

//go:norace
func (m *RWMutex) freeR() bool { m.settle(); return !m.w && m.waiting == 0 }

// TryLock tries to lock for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Point()
	m.settle()
	if m.w || m.r > 0 || simrt.Killed() {
		return false
	}
	m.w = true
	m.writer = simrt.Me()
	m.mu.Lock()
	return true
}

// Unlock unlocks for writing.
//
//go:norace
func (m *RWMutex) Unlock() {
	if simrt.Killed() {
		if m.w && m.writer == simrt.Me() {
			m.w = false
			m.mu.Unlock()
		}
		return
	}
	if !m.w {
		simrt.SetFatal("fatal error: sync: Unlock of unlocked RWMutex")
		return
	}
	m.mu.Unlock()
	m.w = false
	simrt.Point()
}

// RLock locks for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	m.settle()
	if !simrt.Dead(m.w) {
		simrt.Point()
		if m.w || m.waiting > 0 {
			simrt.Park(m.freeR)
		}
	}
	m.addReader()
	m.mu.RLock()
}

//go:norace
func (m *RWMutex) addReader() {
	if m.r < len(m.readers) {
		m.readers[m.r] = simrt.Me()
	}
	m.r++
}

// dropReader forgets the current task's entry, or else some entry.
//
//go:norace
func (m *RWMutex) dropReader(strict bool) bool {
	me := simrt.Me()
	n := m.r
	if n > len(m.readers) {
		n = len(m.readers)
	}
	i := n - 1
	for i >= 0 && m.readers[i] != me {
		i--
	}
	if i < 0 {
		if strict {
			return false
		}
		i = n - 1
	}
	for ; i+1 < n; i++ {
		m.readers[i] = m.readers[i+1]
	}
	m.r--
	return true
}

// TryRLock tries to lock for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Point()
	m.settle()
	if m.w || m.waiting > 0 || simrt.Killed() {
		return false
	}
	m.addReader()
	m.mu.RLock()
	return true
}

// RUnlock unlocks for reading.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if simrt.Killed() {
		if m.r > 0 && m.dropReader(true) {
			m.mu.RUnlock()
		}
		return
	}
	if m.r == 0 {
		simrt.SetFatal("fatal error: sync: RUnlock of unlocked RWMutex")
		return
	}
	m.mu.RUnlock()
	m.dropReader(false)
	simrt.Point()
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a simulated sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n  int
	wg rs.WaitGroup
}

// Add adds d.
//
//go:norace
func (w *WaitGroup) Add(d int) { w.n += d; w.wg.Add(d); simrt.Point() }

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

// Wait waits for zero.
//
//go:norace
func (w *WaitGroup) Wait() {
	if simrt.Dead(w.n != 0) {
		return
	}
	simrt.Point()
	if w.n != 0 {
		simrt.Park(w.zero)
	}
	w.wg.Wait()
}

// Go runs f in a task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Cond is a simulated sync.Cond. Like the real one it orders nothing by itself.
type Cond struct {
	L           Locker
	first, last *waiter
}

type waiter struct {
	ok   bool
	next *waiter
}

//go:norace
func (w *waiter) ready() bool { return w.ok }

// NewCond returns a condition variable.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
//
//go:norace
func (c *Cond) Wait() {
	w := &waiter{}
	if c.last == nil {
		c.first = w
	} else {
		c.last.next = w
	}
	c.last = w
	c.L.Unlock()
	if !w.ok {
		simrt.Park(w.ready)
	}
	c.L.Lock()
}

// Signal wakes one.
//
//go:norace
func (c *Cond) Signal() {
	if w := c.first; w != nil {
		w.ok = true
		if c.first = w.next; c.first == nil {
			c.last = nil
		}
	}
	simrt.Point()
}

// Broadcast wakes all.
//
//go:norace
func (c *Cond) Broadcast() {
	for w := c.first; w != nil; w = w.next {
		w.ok = true
	}
	c.first, c.last = nil, nil
	simrt.Point()
}

// Pool is a deterministic LIFO pool.
type Pool struct {
	New func() any
	mu  rs.Mutex
	l   []any
}

// Get takes an item.
func (p *Pool) Get() any {
	simrt.Point()
	p.mu.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	if len(p.l) < 1024 {
		p.l = append(p.l, x)
	}
	p.mu.Unlock()
	simrt.Point()
}
