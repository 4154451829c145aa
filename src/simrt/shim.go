package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"time"
)

/* time */

var epoch = time.Unix(1650000000, 0)

func Now() time.Time {
	s := cur
	if s == nil {
		return epoch
	}
	Y()
	return epoch.Add(time.Duration(s.Now() + s.cur.Node.Skew))
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { timerSleep(int64(d)) }
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	Go(func() { Sleep(d); c <- Now() })
	return c
}

// Timer mimics the part of time.Timer that is commonly used.
type Timer struct {
	C       <-chan time.Time
	stopped *bool
}

func (t *Timer) Stop() bool { was := !*t.stopped; *t.stopped = true; return was }
func AfterFunc(d time.Duration, f func()) *Timer {
	st := new(bool)
	Go(func() {
		Sleep(d)
		if !*st {
			*st = true
			f()
		}
	})
	return &Timer{stopped: st}
}
func NewTimer(d time.Duration) *Timer {
	st := new(bool)
	c := make(chan time.Time, 1)
	Go(func() {
		Sleep(d)
		if !*st {
			*st = true
			c <- Now()
		}
	})
	return &Timer{C: c, stopped: st}
}

/* runtime */

func Gosched()             { Y() }
func NumCPU() int          { return 4 }
func GOMAXPROCS(n int) int { return 4 }
func NumGoroutine() int {
	if cur == nil {
		return 1
	}
	return len(cur.tasks)
}

/* maps: iteration order comes from the seed; overlapping accesses crash as they do in Go */

type mapUse struct{ readers, writers int }

func ptr(m interface{}) uintptr { return reflect.ValueOf(m).Pointer() }

// MapRace is the panic value of a concurrent map access (in Go: a fatal error that cannot be recovered).
type MapRace string

func fatalMap(msg string) {
	s := cur
	t := s.cur
	t.Node.Dead = true
	if t.Node.OnCrash != nil {
		t.Node.OnCrash(MapRace("fatal error: "+msg), shortStack())
	} else {
		s.abort = &Abort{"crash", "fatal error: " + msg + "\n" + shortStack()}
		s.stop = true
	}
	s.KillNode(t.Node)
	Y()
}

func use(m interface{}, write bool) func() {
	s := cur
	if s == nil || len(s.tasks) < 2 || s.cur.killed {
		return func() {}
	}
	p := ptr(m)
	if p == 0 {
		return func() {}
	}
	u := s.maps[p]
	if u == nil {
		u = &mapUse{}
		s.maps[p] = u
	}
	if u.writers > 0 {
		if write {
			fatalMap("concurrent map writes")
		}
		fatalMap("concurrent map read and map write")
	}
	if write {
		if u.readers > 0 {
			fatalMap("concurrent map read and map write")
		}
		u.writers++
	} else {
		u.readers++
	}
	end := func() {
		if write {
			u.writers--
		} else {
			u.readers--
		}
		if u.writers+u.readers == 0 {
			delete(s.maps, p)
		}
	}
	func() {
		ok := false
		defer func() {
			if !ok {
				end()
			}
		}()
		Y()
		ok = true
	}()
	return end
}

func MGet[M ~map[K]V, K comparable, V any](m M, k K) V {
	defer use(m, false)()
	return m[k]
}

func MGet2[M ~map[K]V, K comparable, V any](m M, k K) (V, bool) {
	defer use(m, false)()
	v, ok := m[k]
	return v, ok
}

func MSet[M ~map[K]V, K comparable, V any](m M, k K, v V) {
	defer use(m, true)()
	m[k] = v
}

func MDel[M ~map[K]V, K comparable, V any](m M, k K) {
	defer use(m, true)()
	delete(m, k)
}

// Iter iterates a map in an order chosen by the seed.
type Iter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	i    int
	k    K
	v    V
}

func MIter[M ~map[K]V, K comparable, V any](m M) *Iter[M, K, V] {
	defer use(m, false)()
	it := &Iter[M, K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) < 2 {
		return it
	}
	switch any(it.keys[0]).(type) {
	case uint16:
		ks := any(it.keys).([]uint16)
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	case string:
		sort.Strings(any(it.keys).([]string))
	case int:
		sort.Ints(any(it.keys).([]int))
	default:
		names := make(map[any]string, len(it.keys))
		for _, k := range it.keys {
			names[k] = fmt.Sprintf("%v", k)
		}
		sort.Slice(it.keys, func(i, j int) bool { return names[it.keys[i]] < names[it.keys[j]] })
	}
	var r *Rng
	if s := cur; s != nil {
		s.tick++
		r = NewRng(Mix(s.mapSeed, s.tick))
	} else {
		r = NewRng(1)
	}
	for i := len(it.keys) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
	}
	return it
}

func (it *Iter[M, K, V]) Next() bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.m[k]; ok {
			it.k, it.v = k, v
			return true
		}
	}
	return false
}
func (it *Iter[M, K, V]) KV() (K, V) { return it.k, it.v }
func (it *Iter[M, K, V]) K() K       { return it.k }

func MZero[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }
func MZeroK[M ~map[K]V, K comparable, V any](m M) (k K)     { return }

/* channels: buffered and closed channels use the native object without blocking; unbuffered
   hand-over goes through a table of waiting senders and receivers */

type waiter struct {
	val  interface{}
	done bool
	ok   bool
}

type chanState struct {
	senders, receivers []*waiter
	closed             bool
	ref                interface{} // keeps the address from being reused
}

func cst(ch interface{}) *chanState {
	s := cur
	p := ptr(ch)
	c := s.chans[p]
	if c == nil {
		c = &chanState{ref: ch}
		s.chans[p] = c
	}
	return c
}

func drop(l *[]*waiter, w *waiter) {
	for i, x := range *l {
		if x == w {
			*l = append((*l)[:i:i], (*l)[i+1:]...)
			return
		}
	}
}

func pop(l *[]*waiter) *waiter {
	w := (*l)[0]
	*l = (*l)[1:]
	return w
}

func trySend[T any](ch chan<- T, v T) bool {
	c := cst(ch)
	if c.closed {
		panic("send on closed channel")
	}
	if len(c.receivers) > 0 {
		w := pop(&c.receivers)
		w.val, w.ok, w.done = v, true, true
		return true
	}
	if cap(ch) > 0 {
		select {
		case ch <- v:
			return true
		default:
		}
	}
	return false
}

func tryRecv[T any](ch <-chan T) (v T, ok, got bool) {
	select {
	case v, ok = <-ch:
		// a buffered slot became free: let a waiting sender in is done by its own predicate
		return v, ok, true
	default:
	}
	c := cst(ch)
	if len(c.senders) > 0 {
		w := pop(&c.senders)
		w.done = true
		if w.val != nil {
			v = w.val.(T)
		}
		return v, true, true
	}
	return
}

func Send[T any](ch chan<- T, v T) {
	s := cur
	if s == nil {
		ch <- v
		return
	}
	if Inert() {
		return
	}
	SP()
	if ch == nil {
		Block("send on nil channel", func() bool { return false })
	}
	if trySend(ch, v) {
		return
	}
	c := cst(ch)
	w := &waiter{val: v}
	if cap(ch) == 0 {
		c.senders = append(c.senders, w)
	}
	sent := false
	Block("channel send", func() bool {
		if w.done || c.closed {
			return true
		}
		if cap(ch) > 0 && len(ch) < cap(ch) {
			return true
		}
		return false
	})
	_ = sent
	if w.done {
		return
	}
	drop(&c.senders, w)
	if !trySend(ch, v) {
		Send(ch, v)
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	s := cur
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	if Inert() {
		var z T
		return z, false
	}
	SP()
	if ch == nil {
		Block("receive on nil channel", func() bool { return false })
	}
	for {
		if v, ok, got := tryRecv(ch); got {
			return v, ok
		}
		c := cst(ch)
		w := &waiter{}
		c.receivers = append(c.receivers, w)
		Block("channel receive", func() bool { return w.done || c.closed || len(ch) > 0 || len(c.senders) > 0 })
		if w.done {
			var v T
			if w.val != nil {
				v = w.val.(T)
			}
			return v, w.ok
		}
		drop(&c.receivers, w)
	}
}

func Close[T any](ch chan<- T) {
	if cur != nil {
		if Inert() {
			return
		}
		SP()
		cst(ch).closed = true
	}
	close(ch)
	SP()
}

// Sel is a select statement.
type Sel struct {
	try []func() bool
	rdy []func() bool
}

type SelCase[T any] struct {
	V  T
	OK bool
}

func NewSel() *Sel { return &Sel{} }

func SRecv[T any](s *Sel, ch <-chan T) *SelCase[T] {
	c := &SelCase[T]{}
	s.try = append(s.try, func() bool {
		if ch == nil {
			return false
		}
		v, ok, got := tryRecv(ch)
		if got {
			c.V, c.OK = v, ok
		}
		return got
	})
	s.rdy = append(s.rdy, func() bool {
		if ch == nil {
			return false
		}
		st := cst(ch)
		return st.closed || len(ch) > 0 || len(st.senders) > 0
	})
	return c
}

func SSend[T any](s *Sel, ch chan<- T, v T) {
	s.try = append(s.try, func() bool { return ch != nil && trySend(ch, v) })
	s.rdy = append(s.rdy, func() bool {
		if ch == nil {
			return false
		}
		st := cst(ch)
		return st.closed || len(st.receivers) > 0 || (cap(ch) > 0 && len(ch) < cap(ch))
	})
}

// Wait returns the index of the chosen case, -1 for default.
func (s *Sel) Wait(hasDefault bool) int {
	sc := cur
	if sc == nil {
		panic("simrt: select outside of a simulation")
	}
	if Inert() {
		SleepNS(1)
	}
	SP()
	for {
		sc.tick++
		for _, i := range NewRng(Mix(sc.mapSeed, sc.tick)).Perm(len(s.try)) {
			if s.try[i]() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		Block("select", func() bool {
			for _, r := range s.rdy {
				if r() {
					return true
				}
			}
			return false
		})
	}
}
