// Package simsync has the API of sync with every blocking decided by the
// simulator, and with the happens-before edges of the real primitives
// reported to the race detector.
package simsync

import (
	"sync"
	"unsafe"

	"verifsim/simrt"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
	_      [8]byte
}

//go:norace
func (m *Mutex) Lock() {
	simrt.Y(0)
	for m.locked {
		simrt.Count("lock-wait")
		simrt.Block(unsafe.Pointer(m))
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.Y(0)
}

type RWMutex struct {
	w       bool
	readers int
	rel     byte
	_       [8]byte
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Y(0)
	for m.w || m.readers > 0 {
		simrt.Block(unsafe.Pointer(m))
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	simrt.RaceAcquire(unsafe.Pointer(&m.rel))
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.w = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.Y(0)
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Y(0)
	for m.w {
		simrt.Block(unsafe.Pointer(m))
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.rel))
	m.readers--
	simrt.Wake(unsafe.Pointer(m))
	simrt.Y(0)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.w || m.readers > 0 {
		return false
	}
	m.Lock()
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.RLock()
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
	rel  byte
}

//go:norace
func (o *Once) Do(f func()) {
	simrt.Y(0)
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(&o.rel))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

//go:norace
func (o *Once) set() {
	simrt.RaceRelease(unsafe.Pointer(&o.rel))
	o.done = true
}

func OnceFunc(f func()) func() {
	var o Once
	var p interface{}
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

type WaitGroup struct {
	n int
	_ [8]byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
	simrt.Y(0)
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Y(0)
	for w.n > 0 {
		simrt.Block(unsafe.Pointer(w))
	}
	simrt.RaceAcquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L    Locker
	wait []*int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	tok := new(int)
	c.wait = simrt.Push(c.wait, tok)
	c.L.Unlock()
	for *tok == 0 {
		simrt.Block(unsafe.Pointer(tok))
	}
	simrt.RaceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	simrt.RaceReleaseMerge(unsafe.Pointer(c))
	if len(c.wait) > 0 {
		*c.wait[0] = 1
		simrt.Wake(unsafe.Pointer(c.wait[0]))
		c.wait = c.wait[1:]
	}
}

//go:norace
func (c *Cond) Broadcast() {
	for len(c.wait) > 0 {
		c.Signal()
	}
}

// Map is a locked map; it orders more operations than the real one does.
type Map struct {
	m map[interface{}]interface{}
	k []interface{}
}

//go:norace
func (m *Map) acq() {
	simrt.Y(0)
	simrt.RaceAcquire(unsafe.Pointer(m))
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}

//go:norace
func (m *Map) rel() { simrt.RaceReleaseMerge(unsafe.Pointer(m)) }

//go:norace
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.acq()
	v, ok := m.m[k]
	m.rel()
	return v, ok
}

//go:norace
func (m *Map) put(k, v interface{}) {
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}

//go:norace
func (m *Map) Store(k, v interface{}) { m.acq(); m.put(k, v); m.rel() }

//go:norace
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.acq()
	if old, ok := m.m[k]; ok {
		m.rel()
		return old, true
	}
	m.put(k, v)
	m.rel()
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.acq()
	v, ok := m.m[k]
	if ok {
		m.drop(k)
	}
	m.rel()
	return v, ok
}

//go:norace
func (m *Map) drop(k interface{}) {
	delete(m.m, k)
	for i, x := range m.k {
		if x == k {
			m.k = append(m.k[:i:i], m.k[i+1:]...)
			break
		}
	}
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.acq()
	old, ok := m.m[k]
	m.put(k, v)
	m.rel()
	return old, ok
}

//go:norace
func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	m.acq()
	if v, ok := m.m[k]; !ok || v != old {
		m.rel()
		return false
	}
	m.put(k, new)
	m.rel()
	return true
}

//go:norace
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.acq()
	v, ok := m.m[k]
	if ok = ok && v == old; ok {
		m.drop(k)
	}
	m.rel()
	return ok
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.acq()
	keys := append([]interface{}(nil), m.k...)
	m.rel()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.acq()
	m.m, m.k = nil, nil
	m.rel()
}

// Pool hands out any earlier item or a new one: the seed decides, as the
// garbage collector and the scheduler would.
type Pool struct {
	New   func() interface{}
	items []interface{}
	_     byte
}

//go:norace
func (p *Pool) Get() interface{} {
	simrt.Y(0)
	if n := len(p.items); n > 0 && !simrt.Buggify("pool-drop", 8) {
		simrt.RaceAcquire(unsafe.Pointer(p))
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(p))
	p.items = simrt.Push(p.items, v)
	simrt.Y(0)
}
