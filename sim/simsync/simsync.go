// Package simsync replaces package sync in instrumented code: the real
// primitives, with every blocking decision taken by the simulator.
package simsync

import (
	"fmt"
	"sort"
	"sync"
	"unsafe"

	"zntr.io/solid/zz_verif/simrt"
)

type Locker = sync.Locker

// A lock that an earlier run left taken (its tasks are gone) counts as free:
// package-level locks of the code outlive a run.

type Mutex struct {
	mu  sync.Mutex
	run int64
}

//go:norace
func (m *Mutex) take() bool {
	if m.mu.TryLock() {
		m.run = simrt.E.ID
		return true
	}
	if m.run != 0 && m.run != simrt.E.ID {
		m.mu, m.run = sync.Mutex{}, 0
		return m.take()
	}
	return false
}

func (m *Mutex) Lock() {
	if !simrt.Active() {
		m.mu.Lock()
		return
	}
	simrt.Y()
	for !m.take() {
		simrt.BlockOn(unsafe.Pointer(m))
	}
}
func (m *Mutex) TryLock() bool { simrt.Y(); return m.take() }
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	if simrt.Active() {
		simrt.Wake(unsafe.Pointer(m))
		simrt.Y()
	}
}

type RWMutex struct {
	mu  sync.RWMutex
	run int64
}

//go:norace
func (m *RWMutex) take(try func(*sync.RWMutex) bool) bool {
	if try(&m.mu) {
		m.run = simrt.E.ID
		return true
	}
	if m.run != 0 && m.run != simrt.E.ID {
		m.mu, m.run = sync.RWMutex{}, 0
		return m.take(try)
	}
	return false
}

func (m *RWMutex) Lock() {
	if !simrt.Active() {
		m.mu.Lock()
		return
	}
	simrt.Y()
	for !m.take((*sync.RWMutex).TryLock) {
		simrt.BlockOn(unsafe.Pointer(m))
	}
}
func (m *RWMutex) TryLock() bool { simrt.Y(); return m.take((*sync.RWMutex).TryLock) }
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	if simrt.Active() {
		simrt.Wake(unsafe.Pointer(m))
		simrt.Y()
	}
}
func (m *RWMutex) RLock() {
	if !simrt.Active() {
		m.mu.RLock()
		return
	}
	simrt.Y()
	for !m.take((*sync.RWMutex).TryRLock) {
		simrt.BlockOn(unsafe.Pointer(m))
	}
}
func (m *RWMutex) TryRLock() bool { simrt.Y(); return m.take((*sync.RWMutex).TryRLock) }
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	if simrt.Active() {
		simrt.Wake(unsafe.Pointer(m))
		simrt.Y()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	mu Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	z := w.n
	w.mu.Unlock()
	if z < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if z == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}
func (w *WaitGroup) Wait() {
	for {
		w.mu.Lock()
		z := w.n
		w.mu.Unlock()
		if z == 0 {
			return
		}
		simrt.BlockOn(unsafe.Pointer(w))
	}
}

type Cond struct {
	L   Locker
	seq int
	_   [0]func()
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	s := c.seq
	c.L.Unlock()
	for s == c.seq {
		simrt.BlockOn(unsafe.Pointer(c))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal()    { c.seq++; simrt.Wake(unsafe.Pointer(c)); simrt.Y() }
func (c *Cond) Broadcast() { c.Signal() }

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { simrt.Y(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { simrt.Y(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { simrt.Y(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { simrt.Y(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { simrt.Y(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { simrt.Y(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { simrt.Y(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { simrt.Y(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { simrt.Y(); m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true }) }


// Range visits the entries in an order that the seed decides: the real map
// has one of its own in every process.
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Y()
	if !simrt.Active() {
		m.m.Range(f)
		return
	}
	type entry struct {
		k    any
		name string
	}
	var l []entry
	m.m.Range(func(k, _ any) bool { l = append(l, entry{k, name(k)}); return true })
	sort.SliceStable(l, func(i, j int) bool { return l[i].name < l[j].name })
	n := len(l)
	if n == 0 {
		return
	}
	for i, at := 0, simrt.Choose(simrt.StSched, n); i < n; i++ {
		k := l[(at+i)%n].k
		v, ok := m.m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		simrt.Y()
	}
}

func name(k any) string {
	switch x := k.(type) {
	case string:
		return x
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, bool, [16]byte, [32]byte:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%T", k)
}

// Pool hands back what was put last, so that an object that is still in use
// after it was put is found, and starts every run empty.
type Pool struct {
	New func() any

	mu    sync.Mutex
	items []any
	run   int64
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	if p.run != simrt.E.ID {
		p.items, p.run = nil, simrt.E.ID
	}
	p.items = append(p.items, x)
	p.mu.Unlock()
	if simrt.Active() {
		simrt.Y()
	}
}

func (p *Pool) Get() any {
	if simrt.Active() {
		simrt.Y()
	}
	var x any
	p.mu.Lock()
	if n := len(p.items); n > 0 && p.run == simrt.E.ID {
		x, p.items = p.items[n-1], p.items[:n-1]
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}
