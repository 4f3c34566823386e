// Package xsync stands in for package sync in the instrumented library. Every
// operation is a scheduling point. Each one also performs the real operation,
// so that the race detector sees the order that it establishes.
package xsync

import (
	"sync"
	"unsafe"

	"verif/shim/sched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex stands in for sync.Mutex.
type Mutex struct {
	real   sync.Mutex
	locked bool
}

//go:norace
func (m *Mutex) acquire() {
	for m.locked {
		sched.Block(unsafe.Pointer(m))
	}
	m.locked = true
}

//go:norace
func (m *Mutex) release() {
	m.locked = false
	sched.Wake(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) try() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

//go:norace
func (m *Mutex) held() bool { return m.locked }

// Lock locks.
func (m *Mutex) Lock() {
	sched.Point()
	m.acquire()
	m.real.Lock()
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	sched.Point()
	if !m.try() {
		return false
	}
	m.real.Lock()
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if !m.held() {
		panic("sync: unlock of unlocked mutex")
	}
	m.real.Unlock()
	m.release()
}

// RWMutex stands in for sync.RWMutex. Waiting writers keep new readers out.
type RWMutex struct {
	real    sync.RWMutex
	readers int
	writer  bool
	waiting int
}

//go:norace
func (m *RWMutex) acquire() {
	for m.writer || m.readers > 0 {
		m.waiting++
		sched.Block(unsafe.Pointer(m))
		m.waiting--
	}
	m.writer = true
}

//go:norace
func (m *RWMutex) release() {
	m.writer = false
	sched.Wake(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) try() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

//go:norace
func (m *RWMutex) racquire() {
	for first := true; m.writer || first && m.waiting > 0; first = false {
		sched.Block(unsafe.Pointer(m))
	}
	m.readers++
}

//go:norace
func (m *RWMutex) rrelease() {
	m.readers--
	if m.readers == 0 {
		sched.Wake(unsafe.Pointer(m))
	}
}

//go:norace
func (m *RWMutex) rtry() bool {
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

//go:norace
func (m *RWMutex) held() bool { return m.writer }

//go:norace
func (m *RWMutex) rheld() bool { return m.readers > 0 }

// Lock locks for writing.
func (m *RWMutex) Lock() {
	sched.Point()
	m.acquire()
	m.real.Lock()
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	sched.Point()
	if !m.try() {
		return false
	}
	m.real.Lock()
	return true
}

// Unlock ends writing.
func (m *RWMutex) Unlock() {
	if !m.held() {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.real.Unlock()
	m.release()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	sched.Point()
	m.racquire()
	m.real.RLock()
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	sched.Point()
	if !m.rtry() {
		return false
	}
	m.real.RLock()
	return true
}

// RUnlock ends reading.
func (m *RWMutex) RUnlock() {
	if !m.rheld() {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.real.RUnlock()
	m.rrelease()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once stands in for sync.Once.
type Once struct {
	real    sync.RWMutex
	done    bool
	running bool
}

//go:norace
func (o *Once) start() bool {
	for o.running {
		sched.Block(unsafe.Pointer(o))
	}
	if o.done {
		return false
	}
	o.running = true
	return true
}

//go:norace
func (o *Once) stop() {
	o.done, o.running = true, false
	sched.Wake(unsafe.Pointer(o))
}

func (o *Once) finish() {
	o.real.Lock()
	o.real.Unlock() //lint:ignore SA2001 for the order only
	o.stop()
}

// Do calls f once.
func (o *Once) Do(f func()) {
	sched.Point()
	if !o.start() {
		o.real.RLock()
		o.real.RUnlock() //lint:ignore SA2001 for the order only
		return
	}
	defer o.finish()
	f()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Map stands in for sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { sched.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { sched.Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { sched.Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { sched.Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { sched.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	sched.Point()
	return m.m.CompareAndSwap(k, old, new)
}
func (m *Map) CompareAndDelete(k, old any) bool { sched.Point(); return m.m.CompareAndDelete(k, old) }
func (m *Map) Range(f func(k, v any) bool)      { sched.Point(); m.m.Range(f) }
func (m *Map) Clear()                           { sched.Point(); m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true }) }

// Pool stands in for sync.Pool. It gives back what was put last.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

// Get takes an item.
func (p *Pool) Get() any {
	sched.Point()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an item back.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	sched.Point()
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

//go:norace
func (w *WaitGroup) add(n int) {
	w.n += n
	if w.n == 0 {
		sched.Wake(unsafe.Pointer(w))
	}
}

//go:norace
func (w *WaitGroup) wait() {
	for w.n > 0 {
		sched.Block(unsafe.Pointer(w))
	}
}

// Add adds to the counter.
func (w *WaitGroup) Add(n int) {
	sched.Point()
	w.real.Add(n)
	w.add(n)
}

// Done subtracts one.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	sched.Point()
	w.wait()
	w.real.Wait()
}

// Cond stands in for sync.Cond.
type Cond struct {
	L Locker
}

// NewCond returns a condition.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits to be woken up.
func (c *Cond) Wait() {
	c.L.Unlock()
	sched.Block(unsafe.Pointer(c))
	c.L.Lock()
}

// Signal wakes one up.
func (c *Cond) Signal() { sched.Point(); sched.WakeOne(unsafe.Pointer(c)) }

// Broadcast wakes all up.
func (c *Cond) Broadcast() { sched.Point(); sched.Wake(unsafe.Pointer(c)) }
