package simrt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// hchan is the simulated state of a channel; the real channel only gives it its identity.
type hchan struct {
	ref    interface{}
	cap    int
	buf    []*elem
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	sync   byte // address for the race detector's happens-before edges (close)
	id     int
	poll   func() (interface{}, bool, bool)
}

type elem struct {
	v    interface{}
	sync byte
}

// waiter is one goroutine waiting with one or several channel operations.
type waiter struct {
	g     *G
	cases []*Case
	done  int
}

// Case is one communication.
type Case struct {
	c    *hchan
	send bool
	e    *elem
	ok   bool
	nilc bool
	poll func() (interface{}, bool, bool)
}

type caser interface{ base() *Case }

func (s *Sim) ch(p unsafe.Pointer, ref interface{}, cap int) *hchan {
	k := uintptr(p)
	c := s.chans[k]
	if c == nil {
		c = &hchan{ref: ref, cap: cap, id: len(s.chans)}
		s.chans[k] = c
	}
	return c
}

// SendT is a pending send on a channel.
type SendT[T any] struct{ ch chan<- T }

// RecvT is a pending receive.
type RecvT[T any] struct{ ch <-chan T }

// S prepares a send.
func S[T any](ch chan<- T) SendT[T] { return SendT[T]{ch} }

// R prepares a receive.
func R[T any](ch <-chan T) RecvT[T] { return RecvT[T]{ch} }

// The generic functions are compiled into the packages under test, where the race detector watches every
// access; all that touches the state of the simulator is therefore done by functions that are not generic.

func newSend[T any](ch chan<- T, v T) *Case {
	return mkCase(true, *(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch, cap(ch), v)
}

func newRecv[T any](ch <-chan T) *Case {
	return mkCase(false, *(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch, cap(ch), nil)
}

func mkCase(send bool, p unsafe.Pointer, ref interface{}, n int, v interface{}) *Case {
	c := &Case{send: send}
	if send {
		c.e = &elem{v: v}
	}
	if p == nil {
		c.nilc = true
		return c
	}
	Do(func() {
		c.c = sim.ch(p, ref, n)
		if !send && c.c.poll == nil {
			rv := reflect.ValueOf(ref)
			c.c.poll = func() (interface{}, bool, bool) {
				v, ok := rv.TryRecv()
				if !ok && !v.IsValid() {
					return nil, false, false
				}
				return v.Interface(), ok, true
			}
		}
	})
	return c
}

func (c *Case) value() (interface{}, bool) {
	if !c.ok {
		return nil, false
	}
	return c.e.v, true
}

// Send performs the send.
func (s SendT[T]) Send(v T) {
	if sim == nil {
		s.ch <- v
		return
	}
	c := newSend(s.ch, v)
	sel(false, []*Case{c})
	c.after()
}

// Recv performs the receive.
func (r RecvT[T]) Recv() T {
	v, _ := r.Recv2()
	return v
}

// Recv2 performs the receive and reports whether a value was sent.
func (r RecvT[T]) Recv2() (T, bool) {
	if sim == nil {
		v, ok := <-r.ch
		return v, ok
	}
	c := newRecv(r.ch)
	sel(false, []*Case{c})
	c.after()
	e, ok := c.value()
	v, _ := e.(T)
	return v, ok
}

// SendCase is a send in a select statement.
type SendCase struct{ c *Case }

func (s *SendCase) base() *Case { return s.c }

// RecvCase is a receive in a select statement; V and Ok are set when it is chosen.
type RecvCase[T any] struct {
	c  *Case
	V  T
	Ok bool
}

func (r *RecvCase[T]) base() *Case { return r.c }
func (r *RecvCase[T]) finish() {
	e, ok := r.c.value()
	r.Ok = ok
	r.V, _ = e.(T)
}

// With completes a send case.
func (s SendT[T]) With(v T) *SendCase { return &SendCase{newSend(s.ch, v)} }

// Case makes a receive case.
func (r RecvT[T]) Case() *RecvCase[T] { return &RecvCase[T]{c: newRecv(r.ch)} }

// Select performs a select statement and returns the index of the chosen case, -1 for default.
func Select(def bool, cs ...caser) int {
	if sim == nil {
		panic("simrt: select outside a simulation")
	}
	cases := make([]*Case, len(cs))
	for i, c := range cs {
		cases[i] = c.base()
	}
	i := sel(def, cases)
	if i >= 0 {
		cases[i].after()
		if f, ok := cs[i].(interface{ finish() }); ok {
			f.finish()
		}
	}
	return i
}

// after runs in the goroutine that performed the communication and gives the race detector the
// happens-before edges a real channel has.
func (c *Case) after() {
	if c.send && c.c != nil && c.c.closed && c.e == nil {
		panic("send on closed channel")
	}
	if !RaceOn {
		return
	}
	if c.send {
		if c.c.cap == 0 {
			raceAcquire(unsafe.Pointer(&c.e.sync))
		}
		return
	}
	if c.ok {
		raceAcquire(unsafe.Pointer(&c.e.sync))
	} else {
		raceAcquire(unsafe.Pointer(&c.c.sync))
	}
}

func (s *Sim) try(c *Case) bool {
	if c.nilc {
		return false
	}
	h := c.c
	if c.send {
		if h.closed {
			c.e = nil
			return true
		}
		if w, i := popWaiter(&h.recvq); w != nil {
			r := w.cases[i]
			r.e = c.e
			r.ok = true
			w.done = i
			s.ready(w.g)
			return true
		}
		if len(h.buf) < h.cap {
			h.buf = append(h.buf, c.e)
			return true
		}
		return false
	}
	if len(h.buf) > 0 {
		c.e = h.buf[0]
		c.ok = true
		h.buf = append([]*elem(nil), h.buf[1:]...)
		if w, i := popWaiter(&h.sendq); w != nil {
			h.buf = append(h.buf, w.cases[i].e)
			w.done = i
			s.ready(w.g)
		}
		return true
	}
	if w, i := popWaiter(&h.sendq); w != nil {
		c.e = w.cases[i].e
		c.ok = true
		w.done = i
		s.ready(w.g)
		return true
	}
	if h.closed {
		c.ok = false
		return true
	}
	if h.poll != nil {
		if v, ok, got := h.poll(); got {
			c.ok = ok
			c.e = &elem{v: v}
			return true
		}
	}
	return false
}

func popWaiter(q *[]*waiter) (*waiter, int) {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done >= 0 {
			continue
		}
		for i, c := range w.cases {
			if !c.nilc && (q == &c.c.sendq && c.send || q == &c.c.recvq && !c.send) {
				return w, i
			}
		}
	}
	return nil, 0
}

func sel(def bool, cs []*Case) int {
	s := sim
	if RaceOn {
		for _, c := range cs {
			if c.send {
				raceRelease(unsafe.Pointer(&c.e.sync))
			}
		}
	}
	res := -1
	var w *waiter
	op(func(g *G) {
		var can []int
		for i, c := range cs {
			if s.can(c) {
				can = append(can, i)
			}
		}
		if len(can) > 0 {
			i := 0
			if len(can) > 1 {
				i = s.rng.Intn(len(can))
			}
			res = can[i]
			if !s.try(cs[res]) {
				panic("simrt: channel state")
			}
			s.hash(uint64(g.ID), 3)
			return
		}
		if def {
			return
		}
		w = &waiter{g: g, cases: cs, done: -1}
		why := ""
		for _, c := range cs {
			if c.nilc {
				why += "nil channel "
				continue
			}
			if c.send {
				c.c.sendq = append(c.c.sendq, w)
				why += fmt.Sprintf("send c%d ", c.c.id)
			} else {
				c.c.recvq = append(c.c.recvq, w)
				why += fmt.Sprintf("receive c%d ", c.c.id)
			}
		}
		if len(cs) == 0 {
			why = "select {}"
		}
		g.sel = w
		s.block(g, why)
	})
	if w != nil {
		res = w.done
	}
	return res
}

// can reports whether the communication can proceed.
func (s *Sim) can(c *Case) bool {
	if c.nilc {
		return false
	}
	h := c.c
	if c.send {
		return h.closed || len(h.buf) < h.cap || waiting(h.recvq)
	}
	if len(h.buf) > 0 || h.closed || waiting(h.sendq) {
		return true
	}
	if h.poll != nil {
		if v, ok, got := h.poll(); got {
			if !ok {
				h.closed = true
			} else {
				h.buf = append(h.buf, &elem{v: v})
			}
			return true
		}
	}
	return false
}

func waiting(q []*waiter) bool {
	for _, w := range q {
		if w.done < 0 {
			return true
		}
	}
	return false
}

// repoll looks for real channels that became ready (closed by library code).
func (s *Sim) repoll() bool {
	any := false
	for _, g := range s.gs {
		if g.st != gBlocked || g.sel == nil || g.sel.done >= 0 {
			continue
		}
		for i, c := range g.sel.cases {
			if !c.send && s.can(c) {
				g.sel.done = i
				s.try(c)
				s.ready(g)
				any = true
				break
			}
		}
	}
	return any
}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	if sim == nil {
		close(ch)
		return
	}
	closeCh(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch, cap(ch))
}

func closeCh(p unsafe.Pointer, ref interface{}, n int) {
	if p == nil {
		panic("close of nil channel")
	}
	s := sim
	var h *hchan
	Do(func() { h = s.ch(p, ref, n) })
	if RaceOn {
		raceRelease(unsafe.Pointer(&h.sync))
	}
	bad := false
	op(func(g *G) {
		if h.closed {
			bad = true
			return
		}
		h.closed = true
		for {
			w, i := popWaiter(&h.recvq)
			if w == nil {
				break
			}
			w.cases[i].ok = false
			w.done = i
			s.ready(w.g)
		}
		for {
			w, i := popWaiter(&h.sendq)
			if w == nil {
				break
			}
			w.cases[i].e = nil
			w.done = i
			s.ready(w.g)
		}
	})
	if bad {
		panic("close of closed channel")
	}
}

// ChanLen is len of a channel.
func ChanLen[T any](ch <-chan T) int {
	if sim == nil {
		return len(ch)
	}
	return lenCh(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch, cap(ch))
}

func lenCh(p unsafe.Pointer, ref interface{}, c int) int {
	if p == nil {
		return 0
	}
	n := 0
	Do(func() { n = len(sim.ch(p, ref, c).buf) })
	return n
}

// ChanCap is cap of a channel.
func ChanCap[T any](ch <-chan T) int { return cap(ch) }

// ChanIter iterates over a channel.
type ChanIter[T any] struct{ r RecvT[T] }

// RangeChan prepares a range over a channel.
func RangeChan[T any](ch <-chan T) *ChanIter[T] { return &ChanIter[T]{R(ch)} }

// RangeChanV also declares the loop variable.
func RangeChanV[T any](ch <-chan T) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{R(ch)}, z
}

// Next receives the next value.
func (it *ChanIter[T]) Next(p *T) bool {
	v, ok := it.r.Recv2()
	if ok && p != nil {
		*p = v
	}
	return ok
}
