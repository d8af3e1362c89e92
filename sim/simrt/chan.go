package simrt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
	"unsafe"
)

// Channels of instrumented code live in a side table keyed by the real
// channel, so that blocking is a decision of the scheduler. Channels made
// outside instrumented code are polled.

type waiter struct {
	t    *Task
	val  interface{}
	ok   bool
	done bool
	sel  int // clause of a select
	grp  *waitGroup
}

type waitGroup struct{ fired bool }

type simChan struct {
	key    unsafe.Pointer
	cap    int
	buf    []interface{}
	closed bool
	sendq  []*waiter
	recvq  []*waiter
}

func chanKey[T any](ch T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func (s *Sim) ch(k unsafe.Pointer, capacity int) *simChan {
	for i := len(s.chans) - 1; i >= 0; i-- { // the newest are the busiest
		if s.chans[i].key == k {
			return s.chans[i]
		}
	}
	c := &simChan{key: k, cap: capacity}
	s.chans = Push(s.chans, c)
	return c
}

//go:norace
func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.grp != nil && w.grp.fired {
			continue
		}
		if w.grp != nil {
			w.grp.fired = true
		}
		return w
	}
	return nil
}

//go:norace
func (c *simChan) trySend(k unsafe.Pointer, v interface{}) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := pop(&c.recvq); w != nil {
		w.val, w.ok, w.done = v, true, true
		RaceReleaseMerge(k)
		Wake(unsafe.Pointer(w.grp))
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = Push(c.buf, v)
		RaceReleaseMerge(k)
		return true
	}
	return false
}

//go:norace
func (c *simChan) tryRecv(k unsafe.Pointer) (v interface{}, ok, got bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w := pop(&c.sendq); w != nil {
			c.buf = Push(c.buf, w.val)
			w.done, w.ok = true, true
			Wake(unsafe.Pointer(w.grp))
		}
		RaceAcquire(k)
		return v, true, true
	}
	if w := pop(&c.sendq); w != nil {
		w.done, w.ok = true, true
		RaceAcquire(k)
		RaceReleaseMerge(k)
		Wake(unsafe.Pointer(w.grp))
		return w.val, true, true
	}
	if c.closed {
		RaceAcquire(k)
		return nil, false, true
	}
	return nil, false, false
}

// SelCase is one clause of a select.
type SelCase struct {
	key  unsafe.Pointer
	cap  int
	send bool
	val  interface{}
	poll func() (interface{}, bool, bool)
}

func CaseRecv[T any](ch <-chan T) *SelCase {
	return &SelCase{key: chanKey(ch), cap: cap(ch), poll: func() (interface{}, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}}
}

func CaseSend[T any](ch chan<- T) func(T) *SelCase {
	return func(v T) *SelCase { return &SelCase{key: chanKey(ch), cap: cap(ch), send: true, val: v} }
}

// Select performs one ready clause, or blocks; -1 is the default clause.
//
//go:norace
func Select(hasDefault bool, cases ...*SelCase) (int, interface{}, bool) {
	s := Active()
	if s == nil {
		panic("simrt: channel operation outside a simulation")
	}
	cases = cases[:len(cases)-1]
	n := len(cases)
	start := 0
	if n > 1 {
		start = s.Aux.Intn(n)
	}
	idle := false // looked again in vain
	for {
		s = Active() // a background goroutine can outlive a simulation
		for i := 0; i < n; i++ {
			k := (start + i) % n
			c := cases[k]
			if c.key == nil {
				continue
			}
			sc := s.ch(c.key, c.cap)
			if c.send {
				if sc.trySend(c.key, c.val) {
					return k, nil, false
				}
			} else {
				if v, ok, got := sc.tryRecv(c.key); got {
					return k, v, ok
				}
				if c.poll != nil {
					if v, ok, got := c.poll(); got {
						return k, v, ok
					}
				}
			}
		}
		if hasDefault {
			return -1, nil, false
		}
		g := &waitGroup{}
		var ws []*waiter
		for k, c := range cases {
			if c.key == nil {
				continue
			}
			w := &waiter{t: Cur(), val: c.val, sel: k, grp: g}
			ws = Push(ws, w)
			sc := s.ch(c.key, c.cap)
			if c.send {
				sc.sendq = Push(sc.sendq, w)
				RaceReleaseMerge(c.key)
			} else {
				sc.recvq = Push(sc.recvq, w)
			}
		}
		blockPoll(unsafe.Pointer(g), idle)
		idle = true
		g.fired = true // what is still queued is stale
		for _, w := range ws {
			if w.done {
				RaceAcquire(cases[w.sel].key)
				if cases[w.sel].send && !w.ok {
					panic("send on closed channel")
				}
				return w.sel, w.val, w.ok
			}
		}
	}
}

//go:norace
func Val[T any](ch <-chan T, v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if Active() == nil {
			ch <- v
			return
		}
		Select(false, CaseSend(ch)(v), nil)
	}
}

func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

func Recv2[T any](ch <-chan T) (T, bool) {
	if Active() == nil {
		v, ok := <-ch
		return v, ok
	}
	_, v, ok := Select(false, CaseRecv(ch), nil)
	return Val(ch, v), ok
}

func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

//go:norace
func Close[T any](ch chan<- T) {
	s := Active()
	if s == nil {
		close(ch)
		return
	}
	k := chanKey(ch)
	c := s.ch(k, cap(ch))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	RaceReleaseMerge(k)
	for w := pop(&c.recvq); w != nil; w = pop(&c.recvq) {
		w.done, w.ok, w.val = true, false, nil
		Wake(unsafe.Pointer(w.grp))
	}
	for w := pop(&c.sendq); w != nil; w = pop(&c.sendq) {
		w.done, w.ok = true, false
		Wake(unsafe.Pointer(w.grp))
	}
}

//go:norace
func ChanLen[T any](ch <-chan T) int {
	if s := Active(); s != nil {
		return len(s.ch(chanKey(ch), cap(ch)).buf)
	}
	return len(ch)
}

func ChanCap[T any](ch <-chan T) int { return cap(ch) }

// MapsKeys and MapsValues stand for maps.Keys and maps.Values.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range RangeMap[M, K, V](m) {
			if !yield(k) {
				return
			}
		}
	}
}
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range RangeMap[M, K, V](m) {
			if !yield(v) {
				return
			}
		}
	}
}

// RangeMap iterates in an order the simulator chooses: any order is legal, so
// the seed picks one. Like the language, it skips entries deleted meanwhile.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
		if s := Active(); s != nil && len(keys) > 1 {
			p := auxPerm(s, len(keys))
			q := make([]K, len(keys))
			for i, j := range p {
				q[i] = keys[j]
			}
			keys = q
			s.count("map-order")
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

//go:norace
func auxPerm(s *Sim, n int) []int {
	p := make([]int, n)
	for i := range p {
		j := s.Aux.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func keyLess(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Kind() == y.Kind() {
		switch x.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return x.Int() < y.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return x.Uint() < y.Uint()
		case reflect.Float32, reflect.Float64:
			return x.Float() < y.Float()
		case reflect.String:
			return x.String() < y.String()
		}
	}
	return fmt.Sprintf("%#v", a) < fmt.Sprintf("%#v", b)
}

// Blob gives an embedded, compressed literal; the simulator may hand out a
// damaged copy of it.
func Blob(key, lit string) string {
	if f := BlobFunc; f != nil {
		return f(key, lit)
	}
	return lit
}

// BlobFunc is installed by the harness before VerifReset.
var BlobFunc func(key, lit string) string
