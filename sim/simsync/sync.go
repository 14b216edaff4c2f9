// Package simsync stands in for package sync in the code under test: the same
// types, on which a task waits by handing the token to another task. Every
// operation also performs the real one, so the race detector sees the order
// it establishes.
package simsync

import (
	"hash/maphash"
	"runtime"
	"sync"
	"sync/atomic"
	"unsafe"

	"verif.local/sim/simrt"
)

type Locker = sync.Locker

type Mutex struct{ m sync.Mutex }

//go:noinline
func (m *Mutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }

//go:noinline
func (m *Mutex) Lock() {
	if !simrt.Active() {
		m.m.Lock()
		return
	}
	simrt.YM(1)
	for !m.m.TryLock() {
		simrt.Block(m.key())
	}
}

//go:noinline
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

//go:noinline
func (m *Mutex) Unlock() {
	if simrt.Dying() && m.m.TryLock() {
		// the run was ended while the task waited for it
		m.m.Unlock()
		return
	}
	m.m.Unlock()
	simrt.WakeAll(m.key())
	simrt.YM(2)
}

type RWMutex struct{ m sync.RWMutex }

//go:noinline
func (m *RWMutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }

//go:noinline
func (m *RWMutex) Lock() {
	if !simrt.Active() {
		m.m.Lock()
		return
	}
	simrt.YM(3)
	for !m.m.TryLock() {
		simrt.Block(m.key())
	}
}

//go:noinline
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }

//go:noinline
func (m *RWMutex) Unlock() {
	if simrt.Dying() && m.m.TryRLock() {
		m.m.RUnlock()
		return
	}
	m.m.Unlock()
	simrt.WakeAll(m.key())
	simrt.YM(4)
}

//go:noinline
func (m *RWMutex) RLock() {
	if !simrt.Active() {
		m.m.RLock()
		return
	}
	simrt.YM(5)
	for !m.m.TryRLock() {
		simrt.Block(m.key())
	}
}

//go:noinline
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

//go:noinline
func (m *RWMutex) RUnlock() {
	if simrt.Dying() && m.m.TryLock() {
		m.m.Unlock()
		return
	}
	if simrt.Dying() && !m.m.TryRLock() {
		return // locked for writing, by another task
	} else if simrt.Dying() {
		m.m.RUnlock()
	}
	m.m.RUnlock()
	simrt.WakeAll(m.key())
	simrt.YM(6)
}

type rlocker RWMutex

//go:noinline
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:noinline
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

//go:noinline
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

//go:noinline
func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.slow(f)
	}
	simrt.RaceAcquire(unsafe.Pointer(&o.done))
}

//go:noinline
func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer func() {
			simrt.RaceRelease(unsafe.Pointer(&o.done))
			o.done.Store(1)
		}()
		f()
	}
}

//go:noinline
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

//go:noinline
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

//go:noinline
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct {
	w sync.WaitGroup
	n int64
}

//go:noinline
func (w *WaitGroup) key() uintptr { return uintptr(unsafe.Pointer(w)) }

//go:noinline
func (w *WaitGroup) Add(d int) {
	n := atomic.AddInt64(&w.n, int64(d))
	w.w.Add(d)
	if n == 0 {
		simrt.WakeAll(w.key())
	}
}

//go:noinline
func (w *WaitGroup) Done() { w.Add(-1) }

//go:noinline
func (w *WaitGroup) Wait() {
	if simrt.Active() {
		for atomic.LoadInt64(&w.n) > 0 {
			simrt.Block(w.key())
		}
	}
	w.w.Wait()
}

//go:noinline
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L Locker
	c *sync.Cond
	n uint64
	w uint64
}

//go:noinline
func NewCond(l Locker) *Cond { return &Cond{L: l, c: sync.NewCond(l)} }

//go:noinline
func (c *Cond) key() uintptr { return uintptr(unsafe.Pointer(c)) }

//go:noinline
func (c *Cond) Wait() {
	if !simrt.Active() {
		c.c.Wait()
		return
	}
	me := c.w
	c.w++
	c.L.Unlock()
	for c.n <= me {
		simrt.Block(c.key())
	}
	c.L.Lock()
}

//go:noinline
func (c *Cond) Signal() {
	if c.n < c.w {
		c.n++
	}
	c.c.Signal()
	simrt.WakeAll(c.key())
}

//go:noinline
func (c *Cond) Broadcast() {
	c.n = c.w
	c.c.Broadcast()
	simrt.WakeAll(c.key())
}

// Pool hands back what was put last: the reuse that exposes most. As with
// sync.Pool, Put of an object is ordered before the Get that returns it, and
// nothing else is ordered.
type Pool struct {
	New   func() any
	items []any
	mu    sync.Mutex
}

type eface struct {
	typ, ptr unsafe.Pointer
}

//go:noinline
func objAddr(x *any) unsafe.Pointer {
	return unsafe.Pointer(&poolAddr[(uintptr((*eface)(unsafe.Pointer(x)).ptr)>>4)%uintptr(len(poolAddr))])
}

var poolAddr [512]uint64

//go:noinline
func (p *Pool) Get() any {
	simrt.YM(7)
	var x any
	simrt.Untracked(func() {
		p.mu.Lock()
		if n := len(p.items); n > 0 {
			x = p.items[n-1]
			p.items = p.items[: n-1 : n-1]
		}
		p.mu.Unlock()
	})
	if x != nil {
		simrt.RaceAcquire(objAddr(&x))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:noinline
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.RaceRelease(objAddr(&x))
	simrt.Untracked(func() {
		p.mu.Lock()
		p.items = append(p.items, x)
		p.mu.Unlock()
		poolsMu.Lock()
		if n := len(pools); n == 0 || n < 1000 && pools[n-1] != p {
			pools = append(pools, p)
		}
		poolsMu.Unlock()
	})
	simrt.YM(8)
	runtime.KeepAlive(x)
}

// pools are those something was put into.
var (
	pools   []*Pool
	poolsMu sync.Mutex
)

// DrainPools does what the garbage collector does: it empties all pools.
//
//go:noinline
func DrainPools() {
	for _, p := range pools {
		p.items = nil
	}
	pools = nil
}

// Map is a map whose operations are ordered as those of sync.Map: a write
// before the reads that see it. It ranges in an order the simulator decides.
// (An alias of sync.Map would not do: its generic parts would be instantiated
// here, where the race detector does not see the order they establish.)
type Map struct {
	_   noCopy
	tab *mapTab
}

type noCopy struct{}

type mapTab struct {
	b    [][]*mapEntry
	n    int // entries in b
	all  []*mapEntry
	sync uint64 // what was deleted
}

type mapEntry struct {
	k, v any
	live bool
	h    uint64
	sync uint64
}

var mapSeed = maphash.MakeSeed() // decides nothing that shows

//go:noinline
func hashOf(k any) uint64 {
	switch x := k.(type) {
	case string:
		h := uint64(14695981039346656037)
		for i := 0; i < len(x); i++ {
			h = (h ^ uint64(x[i])) * 1099511628211
		}
		return h ^ h>>29
	case int:
		return uint64(x) * 0x9E3779B97F4A7C15 >> 7
	}
	return maphash.Comparable(mapSeed, k)
}

// at returns the entry of a key, if there is one or it is to be made.
//
//go:noinline
func (m *Map) at(k any, create bool) *mapEntry {
	simrt.YM(9)
	if m.tab == nil {
		m.tab = &mapTab{b: make([][]*mapEntry, 16)}
	}
	t := m.tab
	h := hashOf(k)
	for _, e := range t.b[h%uint64(len(t.b))] {
		if e.h == h && e.k == k {
			simrt.RaceAcquire(unsafe.Pointer(&e.sync))
			return e
		}
	}
	simrt.RaceAcquire(unsafe.Pointer(&t.sync))
	if !create {
		return nil
	}
	if t.n++; t.n > 4*len(t.b) {
		old := t.b
		t.b = make([][]*mapEntry, 2*len(old))
		for _, l := range old {
			for _, e := range l {
				i := e.h % uint64(len(t.b))
				t.b[i] = append(t.b[i], e)
			}
		}
	}
	e := &mapEntry{k: k, h: h}
	i := h % uint64(len(t.b))
	t.b[i] = append(t.b[i], e)
	t.all = append(t.all, e)
	return e
}

// set gives an entry its value.
//
//go:noinline
func (e *mapEntry) set(v any) {
	e.v, e.live = v, true
	simrt.RaceRelease(unsafe.Pointer(&e.sync))
}

// drop takes an entry out.
//
//go:noinline
func (m *Map) drop(e *mapEntry) {
	t := m.tab
	i := e.h % uint64(len(t.b))
	var rest []*mapEntry
	for _, x := range t.b[i] {
		if x != e {
			rest = append(rest, x)
		}
	}
	t.b[i] = rest
	t.n--
	e.k, e.v, e.live = nil, nil, false
	simrt.RaceRelease(unsafe.Pointer(&t.sync))
	if len(t.all) > 2*t.n+8 {
		var all []*mapEntry
		for _, x := range t.all {
			if x.live {
				all = append(all, x)
			}
		}
		t.all = all
	}
}

//go:noinline
func (m *Map) Load(key any) (value any, ok bool) {
	if e := m.at(key, false); e != nil && e.live {
		return e.v, true
	}
	return nil, false
}

//go:noinline
func (m *Map) Store(key, value any) { m.at(key, true).set(value) }

//go:noinline
func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	e := m.at(key, true)
	if e.live {
		return e.v, true
	}
	e.set(value)
	return value, false
}

//go:noinline
func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	e := m.at(key, false)
	if e == nil || !e.live {
		return nil, false
	}
	value = e.v
	m.drop(e)
	return value, true
}

//go:noinline
func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

//go:noinline
func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	e := m.at(key, true)
	previous, loaded = e.v, e.live
	e.set(value)
	return
}

//go:noinline
func (m *Map) CompareAndSwap(key, old, new any) bool {
	e := m.at(key, false)
	if e == nil || !e.live || e.v != old {
		return false
	}
	e.set(new)
	return true
}

//go:noinline
func (m *Map) CompareAndDelete(key, old any) bool {
	e := m.at(key, false)
	if e == nil || !e.live || e.v != old {
		return false
	}
	m.drop(e)
	return true
}

//go:noinline
func (m *Map) Clear() {
	simrt.YM(10)
	if m.tab == nil {
		return
	}
	t := m.tab
	for _, e := range t.all {
		if e.live {
			simrt.RaceAcquire(unsafe.Pointer(&e.sync))
			e.k, e.v, e.live = nil, nil, false
		}
	}
	t.b, t.n, t.all = make([][]*mapEntry, 16), 0, nil
	simrt.RaceRelease(unsafe.Pointer(&t.sync))
}

//go:noinline
func (m *Map) Range(f func(key, value any) bool) {
	simrt.YM(11)
	if m.tab == nil {
		return
	}
	all := m.tab.all[:len(m.tab.all):len(m.tab.all)]
	for _, i := range simrt.Order(len(all)) {
		e := all[i]
		simrt.RaceAcquire(unsafe.Pointer(&e.sync))
		if e.live && !f(e.k, e.v) {
			return
		}
		simrt.YM(12)
	}
}
