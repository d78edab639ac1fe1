// Package simsync stands in for package sync inside the instrumented library: locks block in the
// simulated scheduler (so a deadlock is a finding, not a hang) and pools empty when the simulator
// says so. Each type still performs the corresponding real operation, so the race detector sees the
// same happens-before edges as with package sync.
package simsync

import (
	"sync"
	"unsafe"
	"verifsim/simrt"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
	mu     sync.Mutex
}

//go:norace
func (m *Mutex) Lock() {
	simrt.Point()
	for m.locked {
		simrt.BlockOn(unsafe.Pointer(m))
	}
	m.locked = true
	m.mu.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Point()
	if m.locked {
		return false
	}
	m.locked = true
	m.mu.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.mu.Unlock()
	m.locked = false
	simrt.WakeAll(unsafe.Pointer(m))
	simrt.Point()
}

type RWMutex struct {
	w  bool
	r  int
	mu sync.RWMutex
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Point()
	for m.w || m.r > 0 {
		simrt.BlockOn(unsafe.Pointer(m))
	}
	m.w = true
	m.mu.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.mu.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.mu.Unlock()
	m.w = false
	simrt.WakeAll(unsafe.Pointer(m))
	simrt.Point()
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Point()
	for m.w {
		simrt.BlockOn(unsafe.Pointer(m))
	}
	m.r++
	m.mu.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Point()
	if m.w {
		return false
	}
	m.r++
	m.mu.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.mu.RUnlock()
	m.r--
	simrt.WakeAll(unsafe.Pointer(m))
	simrt.Point()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
	known bool
}

func (p *Pool) Get() any {
	simrt.Point()
	p.mu.Lock()
	var x any
	if n := len(p.items); n > 0 && !simrt.PoolChoice() {
		x = p.items[n-1]
		p.items[n-1] = nil
		p.items = p.items[:n-1]
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	if !p.known {
		p.known = true
		simrt.OnNextReset(func() { p.mu.Lock(); p.items, p.known = nil, false; p.mu.Unlock() })
	}
	p.items = append(p.items, x)
	p.mu.Unlock()
	simrt.Point()
}

// Map is sync.Map: it never blocks, so the real one serves; its operations are preemption points.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { simrt.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { simrt.Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { simrt.Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { simrt.Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { simrt.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { simrt.Point(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { simrt.Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { simrt.Point(); m.m.Clear() }

// Range visits the keys in an order the simulator chose.
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Point()
	c := map[any]any{}
	m.m.Range(func(k, v any) bool { c[k] = v; return true })
	for k := range simrt.MapSeq(c) {
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

type WaitGroup struct {
	n  int
	wg sync.WaitGroup
}

//go:norace
func (w *WaitGroup) Add(d int) {
	w.n += d
	w.wg.Add(d)
	if w.n == 0 {
		simrt.WakeAll(unsafe.Pointer(w))
	}
	simrt.Point()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Point()
	for w.n > 0 {
		simrt.BlockOn(unsafe.Pointer(w))
	}
	w.wg.Wait()
}

type Cond struct {
	L   Locker
	gen int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	g := c.gen
	c.L.Unlock()
	for c.gen == g {
		simrt.BlockOn(unsafe.Pointer(c))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() { c.Broadcast() }

//go:norace
func (c *Cond) Broadcast() {
	c.gen++
	simrt.WakeAll(unsafe.Pointer(c))
	simrt.Point()
}
