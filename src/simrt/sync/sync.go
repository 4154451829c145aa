// Package sync stands in for the standard library's sync package inside the simulation.
package sync

import (
	"simrt"
	gosync "sync"
)

type Locker = gosync.Locker

// WaitGroup

type WaitGroup struct {
	n int
}

func (w *WaitGroup) Add(d int) {
	if simrt.Inert() {
		return
	}
	simrt.SP()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.SP()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	simrt.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Mutex

// A lock held by a task of a crashed node is free: nodes share the package-level variables of the code under
// test only because they live in one process here.

type Mutex struct {
	locked bool
	owner  *simrt.Task
}

func (m *Mutex) free() bool { return !m.locked || m.owner.Gone() }

func (m *Mutex) Lock() {
	simrt.Block("Mutex.Lock", m.free)
	m.locked, m.owner = true, simrt.Self()
	simrt.SP()
}

func (m *Mutex) TryLock() bool {
	simrt.SP()
	if !m.free() {
		return false
	}
	m.locked, m.owner = true, simrt.Self()
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Inert() {
		m.locked = false
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.SP()
}

// RWMutex

type RWMutex struct {
	w       bool
	owner   *simrt.Task
	waiting int
	readers []*simrt.Task
}

func (m *RWMutex) writing() bool { return m.w && !m.owner.Gone() }

func (m *RWMutex) reading() bool {
	for _, r := range m.readers {
		if !r.Gone() {
			return true
		}
	}
	return false
}

func (m *RWMutex) Lock() {
	m.waiting++
	done := false
	defer func() {
		if !done {
			m.waiting--
		}
	}()
	simrt.Block("RWMutex.Lock", func() bool { return !m.writing() && !m.reading() })
	done = true
	m.waiting--
	m.w, m.owner, m.readers = true, simrt.Self(), nil
	simrt.SP()
}

func (m *RWMutex) TryLock() bool {
	simrt.SP()
	if m.writing() || m.reading() {
		return false
	}
	m.w, m.owner, m.readers = true, simrt.Self(), nil
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Inert() {
		m.w = false
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	simrt.SP()
}

func (m *RWMutex) RLock() {
	simrt.Block("RWMutex.RLock", func() bool { return !m.writing() && m.waiting == 0 })
	m.readers = append(m.readers, simrt.Self())
	simrt.SP()
}

func (m *RWMutex) TryRLock() bool {
	simrt.SP()
	if m.writing() || m.waiting > 0 {
		return false
	}
	m.readers = append(m.readers, simrt.Self())
	return true
}

func (m *RWMutex) RUnlock() {
	if len(m.readers) == 0 {
		if simrt.Inert() {
			return
		}
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	// the entry of the calling task, or any other one: a read lock may be released by somebody else
	k := len(m.readers) - 1
	for i, t := range m.readers {
		if t == simrt.Self() {
			k = i
		}
	}
	m.readers = append(m.readers[:k:k], m.readers[k+1:]...)
	if !simrt.Inert() {
		simrt.SP()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once

type Once struct {
	done, running bool
}

func (o *Once) Do(f func()) {
	simrt.Block("Once.Do", func() bool { return !o.running })
	if o.done {
		return
	}
	o.running = true
	defer func() { o.running, o.done = false, !simrt.Inert() }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond

type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	sig := new(bool)
	simrt.SP()
	c.waiters = append(c.waiters, sig)
	c.L.Unlock()
	simrt.Block("Cond.Wait", func() bool { return *sig })
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.SP()
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	simrt.SP()
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

// Pool hands out what was put in last (the most adversarial reuse).

type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	simrt.SP()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil || simrt.Inert() {
		return
	}
	simrt.SP()
	p.items = append(p.items, x)
}

// Map

type Map struct {
	m map[any]any
	k []any
}

func (m *Map) Load(k any) (any, bool) { simrt.SP(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	simrt.SP()
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.SP()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.k = append(m.k, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.SP()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.k {
			if x == k {
				m.k = append(m.k[:i:i], m.k[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	p, ok := m.Load(k)
	m.Store(k, v)
	return p, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.SP()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	simrt.SP()
	if v, ok := m.m[k]; ok && v == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.k...) {
		simrt.SP()
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
func (m *Map) Clear() { simrt.SP(); m.m, m.k = nil, nil }
