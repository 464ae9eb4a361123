// Package vsync has the API of package sync on top of the controlled scheduler. Outside of a
// controlled thread its types behave like those of package sync for a single goroutine.
package vsync

import (
	"sync"
	"unsafe"

	"verif.local/vlib/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	real   sync.Mutex
}

// Lock locks.
//
//go:norace
func (m *Mutex) Lock() {
	if !vsched.Active() {
		if m.locked {
			// left locked by an execution that was torn down, or a self deadlock
			panic("vsync: lock of a locked mutex outside of the scheduler")
		}
		m.locked = true
		vsched.Acquire(unsafe.Pointer(m))
		return
	}
	vsched.Point()
	for m.locked {
		vsched.Block(unsafe.Pointer(m))
	}
	m.locked = true
	vsched.Acquire(unsafe.Pointer(m))
}

// TryLock tries to lock.
//
//go:norace
func (m *Mutex) TryLock() bool {
	vsched.Point()
	if m.locked {
		return false
	}
	m.locked = true
	vsched.Acquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks.
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	vsched.Release(unsafe.Pointer(m))
	m.locked = false
	vsched.Wake(unsafe.Pointer(m))
	vsched.Point()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       bool
	readers int
	waiting int
	rsema   byte
}

// Lock locks for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	vsched.Point()
	m.waiting++
	for m.w || m.readers > 0 {
		vsched.Block(unsafe.Pointer(m))
	}
	m.waiting--
	m.w = true
	vsched.Acquire(unsafe.Pointer(m))
	vsched.Acquire(unsafe.Pointer(&m.rsema))
}

// TryLock tries to lock for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	vsched.Point()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	vsched.Acquire(unsafe.Pointer(m))
	vsched.Acquire(unsafe.Pointer(&m.rsema))
	return true
}

// Unlock unlocks a writer.
//
//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	vsched.Release(unsafe.Pointer(m))
	m.w = false
	vsched.Wake(unsafe.Pointer(m))
	vsched.Point()
}

// RLock locks for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	vsched.Point()
	for m.w {
		vsched.Block(unsafe.Pointer(m))
	}
	m.readers++
	vsched.Acquire(unsafe.Pointer(m))
}

// TryRLock tries to lock for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	vsched.Point()
	if m.w {
		return false
	}
	m.readers++
	vsched.Acquire(unsafe.Pointer(m))
	return true
}

// RUnlock unlocks a reader.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vsched.Release(unsafe.Pointer(&m.rsema))
	m.readers--
	vsched.Wake(unsafe.Pointer(m))
	vsched.Point()
}

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

// Do calls f once.
//
//go:norace
func (o *Once) Do(f func()) {
	vsched.Point()
	if o.done {
		vsched.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	vsched.Release(unsafe.Pointer(o))
	o.done = true
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

// Add adds.
//
//go:norace
func (w *WaitGroup) Add(d int) {
	vsched.Point()
	vsched.Release(unsafe.Pointer(w))
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		vsched.Wake(unsafe.Pointer(w))
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits for zero.
//
//go:norace
func (w *WaitGroup) Wait() {
	vsched.Point()
	for w.n > 0 {
		vsched.Block(unsafe.Pointer(w))
	}
	vsched.Acquire(unsafe.Pointer(w))
}

// Cond is sync.Cond.
type Cond struct {
	L   Locker
	gen int
	sig int
	w   int
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
//
//go:norace
func (c *Cond) Wait() {
	g := c.gen
	c.w++
	c.L.Unlock()
	for c.gen == g && c.sig == 0 {
		vsched.Block(unsafe.Pointer(c))
	}
	if c.gen == g {
		c.sig--
	}
	c.w--
	c.L.Lock()
}

// Signal wakes one.
//
//go:norace
func (c *Cond) Signal() {
	vsched.Point()
	if c.w > c.sig {
		c.sig++
	}
	vsched.Wake(unsafe.Pointer(c))
}

// Broadcast wakes all.
//
//go:norace
func (c *Cond) Broadcast() {
	vsched.Point()
	c.gen++
	c.sig = 0
	vsched.Wake(unsafe.Pointer(c))
}

// Map is sync.Map with a scheduling point before each operation. Only a load that sees a store is
// ordered after it.
type Map struct {
	first *entry
	known bool
	n     int
	idx   []*entry // of large maps, by hash; a power of two
}

type entry struct {
	k, v any
	next *entry
	h    uint32
	same *entry // with the same place in idx
}

//go:norace
func hash(k any) (h uint32) {
	s, ok := k.(string)
	if !ok {
		return 0
	}
	h = 2166136261
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return
}

//go:norace
func (m *Map) index(size int) {
	m.idx = make([]*entry, size)
	for e := m.first; e != nil; e = e.next {
		e.h = hash(e.k)
		p := &m.idx[e.h&uint32(size-1)]
		e.same = *p
		*p = e
	}
}

var (
	maps  [128]*Map
	nmaps int
)

// ResetMaps empties every map that was used, so that executions start alike.
//
//go:norace
func ResetMaps() {
	for k := 0; k < nmaps; k++ {
		maps[k].first, maps[k].idx, maps[k].n = nil, nil, 0
	}
}

//go:norace
func (m *Map) at(k any) *entry {
	vsched.Point()
	if !m.known {
		m.known = true
		if nmaps < len(maps) { // what does not fit is not reset: only the maps of globals matter
			maps[nmaps] = m
			nmaps++
		}
	}
	if m.idx != nil {
		for e := m.idx[hash(k)&uint32(len(m.idx)-1)]; e != nil; e = e.same {
			if e.k == k {
				return e
			}
		}
		return nil
	}
	for e := m.first; e != nil; e = e.next {
		if e.k == k {
			return e
		}
	}
	return nil
}

//go:norace
func (m *Map) set(e *entry, k, v any) {
	if e == nil {
		e = &entry{k: k, next: m.first}
		m.first = e
		if m.n++; m.idx != nil && m.n <= 2*len(m.idx) {
			e.h = hash(k)
			p := &m.idx[e.h&uint32(len(m.idx)-1)]
			e.same = *p
			*p = e
		} else if m.n > 32 {
			size := 128
			for size < 4*m.n {
				size *= 2
			}
			m.index(size)
		}
	}
	vsched.Release(unsafe.Pointer(e))
	e.v = v
}

//go:norace
func (m *Map) del(e *entry) {
	m.n--
	if m.idx != nil {
		p := &m.idx[e.h&uint32(len(m.idx)-1)]
		for *p != e {
			p = &(*p).same
		}
		*p = e.same
	}
	if m.first == e {
		m.first = e.next
		return
	}
	for p := m.first; p != nil; p = p.next {
		if p.next == e {
			p.next = e.next
			return
		}
	}
}

// Load is sync.Map.Load.
//
//go:norace
func (m *Map) Load(k any) (any, bool) {
	e := m.at(k)
	if e == nil {
		return nil, false
	}
	vsched.Acquire(unsafe.Pointer(e))
	return e.v, true
}

// Store is sync.Map.Store.
//
//go:norace
func (m *Map) Store(k, v any) { m.set(m.at(k), k, v) }

// LoadOrStore is sync.Map.LoadOrStore.
//
//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	e := m.at(k)
	if e != nil {
		vsched.Acquire(unsafe.Pointer(e))
		return e.v, true
	}
	m.set(nil, k, v)
	return v, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
//
//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	e := m.at(k)
	if e == nil {
		return nil, false
	}
	vsched.Acquire(unsafe.Pointer(e))
	m.del(e)
	return e.v, true
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Swap is sync.Map.Swap.
//
//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	e := m.at(k)
	if e == nil {
		m.set(nil, k, v)
		return nil, false
	}
	vsched.Acquire(unsafe.Pointer(e))
	old := e.v
	m.set(e, k, v)
	return old, true
}

// CompareAndSwap is sync.Map.CompareAndSwap.
//
//go:norace
func (m *Map) CompareAndSwap(k, o, n any) bool {
	e := m.at(k)
	if e == nil || e.v != o {
		return false
	}
	vsched.Acquire(unsafe.Pointer(e))
	m.set(e, k, n)
	return true
}

// CompareAndDelete is sync.Map.CompareAndDelete.
//
//go:norace
func (m *Map) CompareAndDelete(k, o any) bool {
	e := m.at(k)
	if e == nil || e.v != o {
		return false
	}
	vsched.Acquire(unsafe.Pointer(e))
	m.del(e)
	return true
}

// Clear is sync.Map.Clear.
//
//go:norace
func (m *Map) Clear() {
	m.at(nil)
	m.first, m.idx, m.n = nil, nil, 0
}

// Range is sync.Map.Range.
//
//go:norace
func (m *Map) Range(f func(k, v any) bool) {
	m.at(nil)
	for e := m.first; e != nil; e = e.next {
		vsched.Acquire(unsafe.Pointer(e))
		if !f(e.k, e.v) {
			return
		}
	}
}

// PoolPolicy decides what Get of a pool with n free items returns: an index of the free items
// (0 the most recently put), or n for none of them (a new item is made).
var PoolPolicy func(n int) int

var (
	pools  [128]*Pool
	npools int
)

// ResetPools empties every pool that was used, so that executions start alike.
//
//go:norace
func ResetPools() {
	for k := 0; k < npools; k++ {
		p := pools[k]
		p.n = 0
		for i := range p.items {
			p.items[i] = nil
		}
	}
}

// Pooled is the number of items that the pools hold.
//
//go:norace
func Pooled() (n int) {
	for k := 0; k < npools; k++ {
		n += pools[k].n
	}
	return
}

// Pool is sync.Pool whose reuse is decided by the harness.
type Pool struct {
	New   func() any
	items [64]any
	n     int
	known bool
	sync  byte
}

// Get takes an item.
//
//go:norace
func (p *Pool) Get() any {
	vsched.Point()
	p.register()
	n := p.n
	i := 0
	if n > 0 && PoolPolicy != nil {
		i = PoolPolicy(n)
	}
	if i >= n {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	k := n - 1 - i
	x := p.items[k]
	for j := k + 1; j < n; j++ {
		p.items[j-1] = p.items[j]
	}
	p.n--
	p.items[p.n] = nil
	vsched.Acquire(unsafe.Pointer(&p.sync))
	return x
}

//go:norace
func (p *Pool) register() {
	if !p.known {
		p.known = true
		if npools == len(pools) {
			panic("vsync: too many pools")
		}
		pools[npools] = p
		npools++
	}
}

// Put gives an item back.
//
//go:norace
func (p *Pool) Put(x any) {
	vsched.Point()
	p.register()
	if x == nil || p.n == len(p.items) {
		return
	}
	vsched.Release(unsafe.Pointer(&p.sync))
	p.items[p.n] = x
	p.n++
}
