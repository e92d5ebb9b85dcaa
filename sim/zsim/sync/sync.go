// Package sync blocks in the simulated scheduler. The real primitives are used underneath so that
// the race detector sees their happens-before edges.
package sync

import (
	real "sync"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
)

// Locker is the same interface.
type Locker = real.Locker

// Mutex is a mutual exclusion lock.
type Mutex struct {
	m real.Mutex
	q simrt.WaitQ
}

func (m *Mutex) Lock() {
	simrt.Yield()
	for !m.m.TryLock() {
		if !simrt.Active() {
			m.m.Lock()
			return
		}
		m.q.Wait("mutex")
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock() {
	m.m.Unlock()
	m.q.WakeOne()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	m real.RWMutex
	q simrt.WaitQ
}

func (m *RWMutex) Lock() {
	simrt.Yield()
	for !m.m.TryLock() {
		m.q.Wait("rwmutex")
	}
}
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); m.q.WakeAll() }
func (m *RWMutex) RLock() {
	simrt.Yield()
	for !m.m.TryRLock() {
		m.q.Wait("rwmutex read")
	}
}
func (m *RWMutex) RUnlock() { m.m.RUnlock(); m.q.WakeAll() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker locks for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup counts.
type WaitGroup struct {
	w real.WaitGroup
	n int
	q simrt.WaitQ
}

func (w *WaitGroup) Add(d int) {
	simrt.Yield()
	w.w.Add(d)
	w.n += d
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Yield()
	for w.n > 0 {
		w.q.Wait("waitgroup")
	}
	w.w.Wait()
}

// Go runs f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go simrt.Wrap(func() {
		defer w.Done()
		f()
	})()
	simrt.Started()
}

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc, OnceValue and OnceValues.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is a condition variable.
type Cond struct {
	L Locker
	q simrt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.L.Unlock()
	c.q.Wait("cond")
	c.L.Lock()
}
func (c *Cond) Signal()    { c.q.WakeOne() }
func (c *Cond) Broadcast() { c.q.WakeAll() }

// Pool keeps objects; which one Get returns is up to the simulator.
type Pool struct {
	New func() interface{}
	m   real.Mutex
	x   []interface{}
}

func (p *Pool) Get() interface{} {
	simrt.Yield()
	p.m.Lock()
	if n := len(p.x); n > 0 {
		i := int(simrt.Rand() % uint64(n+1))
		if i < n {
			v := p.x[i]
			p.x = append(p.x[:i:i], p.x[i+1:]...)
			p.m.Unlock()
			return v
		}
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	p.m.Lock()
	p.x = append(p.x, v)
	p.m.Unlock()
}

// Map is a concurrent map.
type Map struct {
	m real.RWMutex
	d map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	simrt.Yield()
	m.m.RLock()
	defer m.m.RUnlock()
	v, ok := m.d[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) { m.Swap(k, v) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	simrt.Yield()
	m.m.Lock()
	defer m.m.Unlock()
	if m.d == nil {
		m.d = map[interface{}]interface{}{}
	}
	o, ok := m.d[k]
	m.d[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	simrt.Yield()
	m.m.Lock()
	defer m.m.Unlock()
	if m.d == nil {
		m.d = map[interface{}]interface{}{}
	}
	if o, ok := m.d[k]; ok {
		return o, true
	}
	m.d[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	simrt.Yield()
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.d[k]
	delete(m.d, k)
	return v, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.d = nil
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	simrt.Yield()
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.d[k]; ok && v == o {
		m.d[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	simrt.Yield()
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.d[k]; ok && v == o {
		delete(m.d, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.m.RLock()
	keys := simrt.Keys[map[interface{}]interface{}, interface{}, interface{}](m.d)
	m.m.RUnlock()
	for _, k := range keys {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
