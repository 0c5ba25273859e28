// Package simsync stands in for package sync in instrumented code: the same semantics, with every
// blocking and wake-up decision taken by the simulator's scheduler.
package simsync

import (
	"sync"
	"unsafe"

	"verif.local/simrt"
)

// Locker, Map and Pool are the real ones.
type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

// Mutex is a mutual exclusion lock.
type Mutex struct {
	locked bool
	epoch  uint64
}

//go:norace
func (m *Mutex) fresh() {
	if e := simrt.Epoch(); m.epoch != e {
		m.epoch, m.locked = e, false
	}
}

//go:norace
func (m *Mutex) lock() {
	if simrt.Aborting() {
		return
	}
	m.fresh()
	simrt.SyncPoint()
	for m.locked {
		if !simrt.Active() {
			panic("simsync: self-deadlock outside a run")
		}
		simrt.Block(unsafe.Pointer(m))
		if simrt.Aborting() {
			return
		}
	}
	m.locked = true
}

// Lock locks m.
func (m *Mutex) Lock() {
	m.lock()
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) tryLock() bool {
	if simrt.Aborting() {
		return true
	}
	m.fresh()
	simrt.SyncPoint()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if !m.tryLock() {
		return false
	}
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) unlock() {
	if simrt.Aborting() {
		return
	}
	m.fresh()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.SyncPoint()
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	simrt.RaceRelease(unsafe.Pointer(m))
	m.unlock()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	w       bool
	readers int
	waiting int // writers waiting: block new readers, as the real one does
	epoch   uint64
	rsync   byte
}

//go:norace
func (m *RWMutex) fresh() {
	if e := simrt.Epoch(); m.epoch != e {
		m.epoch, m.w, m.readers, m.waiting = e, false, 0, 0
	}
}

//go:norace
func (m *RWMutex) lock() {
	if simrt.Aborting() {
		return
	}
	m.fresh()
	simrt.SyncPoint()
	m.waiting++
	for m.w || m.readers > 0 {
		simrt.Block(unsafe.Pointer(m))
		if simrt.Aborting() {
			return
		}
	}
	m.waiting--
	m.w = true
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	m.lock()
	simrt.RaceAcquire(unsafe.Pointer(m))
	simrt.RaceAcquire(unsafe.Pointer(&m.rsync))
}

//go:norace
func (m *RWMutex) unlock() {
	if simrt.Aborting() {
		return
	}
	m.fresh()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.SyncPoint()
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	simrt.RaceRelease(unsafe.Pointer(m))
	m.unlock()
}

//go:norace
func (m *RWMutex) rlock() {
	if simrt.Aborting() {
		return
	}
	m.fresh()
	simrt.SyncPoint()
	for m.w || m.waiting > 0 {
		simrt.Block(unsafe.Pointer(m))
		if simrt.Aborting() {
			return
		}
	}
	m.readers++
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	m.rlock()
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) runlock() {
	if simrt.Aborting() {
		return
	}
	m.fresh()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		simrt.Wake(unsafe.Pointer(m))
	}
	simrt.SyncPoint()
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	simrt.RaceRelease(unsafe.Pointer(&m.rsync))
	m.runlock()
}

//go:norace
func (m *RWMutex) try(w bool) bool {
	if simrt.Aborting() {
		return true
	}
	m.fresh()
	simrt.SyncPoint()
	if w {
		if m.w || m.readers > 0 {
			return false
		}
		m.w = true
		return true
	}
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if !m.try(true) {
		return false
	}
	simrt.RaceAcquire(unsafe.Pointer(m))
	simrt.RaceAcquire(unsafe.Pointer(&m.rsync))
	return true
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if !m.try(false) {
		return false
	}
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker over RLock and RUnlock.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	n     int
	epoch uint64
}

//go:norace
func (w *WaitGroup) fresh() {
	if e := simrt.Epoch(); w.epoch != e {
		w.epoch, w.n = e, 0
	}
}

//go:norace
func (w *WaitGroup) add(d int) {
	if simrt.Aborting() {
		return
	}
	w.fresh()
	simrt.SyncPoint()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
	simrt.SyncPoint()
}

// Add adds d to the counter.
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.RaceRelease(unsafe.Pointer(w))
	}
	w.add(d)
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go calls f in a new goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

//go:norace
func (w *WaitGroup) wait() {
	if simrt.Aborting() {
		return
	}
	w.fresh()
	simrt.SyncPoint()
	for w.n > 0 {
		simrt.Block(unsafe.Pointer(w))
		if simrt.Aborting() {
			return
		}
	}
}

// Wait blocks until the counter is zero.
func (w *WaitGroup) Wait() {
	w.wait()
	simrt.RaceAcquire(unsafe.Pointer(w))
}

const maxWaiters = 512

type waitList struct {
	g [maxWaiters]*simrt.G
	n int
}

// Cond is a condition variable.
type Cond struct {
	L     Locker
	wl    *waitList
	epoch uint64
}

// NewCond returns a new Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l, wl: &waitList{}} }

//go:norace
func (c *Cond) fresh() {
	if e := simrt.Epoch(); c.epoch != e || c.wl == nil {
		c.epoch = e
		c.wl = &waitList{}
	}
}

//go:norace
func (c *Cond) enlist() *simrt.G {
	c.fresh()
	g := simrt.Cur()
	c.wl.g[c.wl.n] = g
	c.wl.n++
	return g
}

//go:norace
func (c *Cond) waiting(g *simrt.G) bool {
	for i := 0; i < c.wl.n; i++ {
		if c.wl.g[i] == g {
			return true
		}
	}
	return false
}

//go:norace
func (c *Cond) park(g *simrt.G) {
	for c.waiting(g) {
		simrt.Block(unsafe.Pointer(c))
		if simrt.Aborting() {
			return
		}
	}
}

// Wait unlocks c.L, waits for a notification and locks c.L again.
func (c *Cond) Wait() {
	if simrt.Aborting() {
		return
	}
	if !simrt.Active() {
		panic("simsync: Cond.Wait outside a run")
	}
	g := c.enlist()
	c.L.Unlock()
	c.park(g)
	c.L.Lock()
}

//go:norace
func (c *Cond) notify(all bool) {
	if simrt.Aborting() {
		return
	}
	c.fresh()
	simrt.SyncPoint()
	if all {
		for i := 0; i < c.wl.n; i++ {
			simrt.WakeG(c.wl.g[i])
		}
		c.wl.n = 0
	} else if c.wl.n > 0 {
		// The package documents no order among waiters.
		i := simrt.S.Draw(c.wl.n)
		g := c.wl.g[i]
		for j := i; j+1 < c.wl.n; j++ {
			c.wl.g[j] = c.wl.g[j+1]
		}
		c.wl.n--
		simrt.WakeG(g)
	}
	simrt.SyncPoint()
}

// Signal wakes one waiter.
func (c *Cond) Signal() { c.notify(false) }

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() { c.notify(true) }

// Once performs exactly one action.
type Once struct {
	done bool
	m    Mutex
}

// Do calls f if and only if Do is being called for the first time.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc, OnceValue and OnceValues mirror the real ones.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}
