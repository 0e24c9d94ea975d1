package vrt

import (
	"runtime"
	"unsafe"
)

type item struct {
	v any
	h uint64
}

// chanState is the model of one channel: the native channel is only its identity.
type chanState struct {
	Obj
	p      uintptr
	keep   any
	buf    []item
	cap    int
	closed bool
	timer  *Timer
	sends  int // pending send cases
}

func hchan[C any](ch C) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

//go:noinline
func (s *Sched) state(p uintptr, capacity int, keep any) *chanState {
	if p == 0 {
		return nil
	}
	if c := s.chans.get(p); c != nil {
		return c
	}
	c := &chanState{p: p, cap: capacity, keep: keep}
	s.chans.put(p, c)
	return c
}

// Case is one select alternative.
type Case struct {
	c    *chanState
	send bool
	v    any
	// results of a receive
	rv any
	ok bool
	// direct mode
	native func(block bool) bool
}

// Recver is a typed receive case.
type Recver[T any] struct {
	Case
	ch <-chan T
	nv T
}

// Get returns the received value and ok.
func (r *Recver[T]) Get() (T, bool) {
	if s == nil {
		return r.nv, r.ok
	}
	v, _ := r.rv.(T)
	return v, r.ok
}

// V returns the received value.
func (r *Recver[T]) V() T { v, _ := r.Get(); return v }

func (r *Recver[T]) base() *Case { return &r.Case }

// Sender is a typed channel to send on.
type Sender[T any] struct {
	Case
	ch chan<- T
	nv T
}

func (r *Sender[T]) base() *Case { return &r.Case }

// V sets the value to be sent.
func (r *Sender[T]) V(v T) *Sender[T] { r.nv = v; r.v = v; return r }

// Go performs the send.
func (r *Sender[T]) Go(v T) {
	if s == nil {
		r.ch <- v
		return
	}
	r.v = v
	sel(false, "send", &r.Case)
}

// SendOn prepares a send on ch.
func SendOn[T any](ch chan<- T) *Sender[T] {
	r := &Sender[T]{ch: ch}
	r.send = true
	if s != nil {
		r.c = s.state(hchan(ch), cap(ch), ch)
	}
	return r
}

// CaseRecv prepares a receive from ch.
func CaseRecv[T any](ch <-chan T) *Recver[T] {
	r := &Recver[T]{ch: ch}
	if s != nil {
		r.c = s.state(hchan(ch), cap(ch), ch)
	}
	return r
}

// Recv2 receives from ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	r := CaseRecv(ch)
	sel(false, "recv", &r.Case)
	return r.Get()
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Close closes ch.
func Close[T any](ch chan<- T) {
	if s == nil {
		close(ch)
		return
	}
	closeChan(s.state(hchan(ch), cap(ch), ch))
}

//go:noinline
func closeChan(c *chanState) {
	if s.killing {
		return
	}
	t := s.cur
	if c == nil {
		panic("close of nil channel")
	}
	s.point(t, "close", nil)
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	s.wr(t, &c.Obj, 0x21)
	raceRelease(unsafe.Pointer(c))
	// Senders blocked on a closed channel become enabled and panic.
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if s == nil {
		return len(ch)
	}
	return lenChan(s.state(hchan(ch), cap(ch), ch))
}

//go:noinline
func lenChan(c *chanState) int {
	if s.killing || c == nil {
		return 0
	}
	t := s.cur
	s.point(t, "len(chan)", nil)
	s.rd(t, &c.Obj, 0x22)
	return len(c.buf)
}

// Ranger iterates over a channel (for v := range ch).
func Ranger[T any](ch <-chan T) func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// BlockForever is select {}.
func BlockForever() {
	if s == nil {
		select {}
	}
	s.point(s.cur, "select{}", func() bool { return false })
}

type caser interface{ base() *Case }

// Select performs a select statement; -1 means the default case.
func Select(def bool, cs ...caser) int {
	if s == nil {
		return directSelect(def, cs)
	}
	bs := make([]*Case, len(cs))
	for i, c := range cs {
		bs[i] = c.base()
	}
	return sel(def, "select", bs...)
}

func sel(def bool, what string, cs ...*Case) int {
	if s.killing {
		if def {
			return -1
		}
		runtime.Goexit()
	}
	t := s.cur
	t.cases, t.def, t.done = cs, def, false
	if len(cs) == 0 {
		t.cases = []*Case{}
	}
	t.what = what
	for _, c := range cs {
		if c.send && c.c != nil {
			c.c.sends++
		}
	}
	if RaceEnabled {
		// Whoever completes a rendezvous with this thread sees what it did before.
		for _, c := range cs {
			if c.c != nil && c.c.cap == 0 {
				raceReleaseMerge(unsafe.Pointer(c.c))
			}
		}
	}
	s.reschedule(t)
	var idx int
	if t.done {
		idx = t.doneIdx
		t.clear()
		t.done = false
		c := cs[idx]
		raceAcquire(unsafe.Pointer(c.c))
		raceRelease(unsafe.Pointer(c.c))
		return idx
	}
	// Gather the ready cases.
	var r [8]int
	ready := r[:0]
	weak := 0 // cases that need a rendezvous we would have to initiate although a default exists
	for i, c := range cs {
		if s.caseReady(t, c) {
			ready = append(ready, i)
		} else if def && c.send && c.c != nil && c.c.cap == 0 && s.partner(t, c) != nil {
			ready = append(ready, i)
			weak++
		}
	}
	if len(ready) == 0 {
		t.clear()
		if !def {
			panic("vrt: scheduled select is not ready")
		}
		s.setT(t, mix(t.h, 0x2d))
		return -1
	}
	if def && weak > 0 && weak == len(ready) {
		if s.choose(t, 2, kPreemp) == 1 {
			t.clear()
			s.setT(t, mix(t.h, 0x2d))
			return -1
		}
	}
	k := 0
	if len(ready) > 1 {
		k = s.choose(t, len(ready), kFree)
	}
	idx = ready[k]
	t.clear()
	s.perform(t, cs[idx])
	return idx
}

// clear ends the offer of t's cases.
func (t *Thread) clear() {
	for _, c := range t.cases {
		if c.send && c.c != nil {
			c.c.sends--
		}
	}
	t.cases = nil
}

func (s *Sched) anyReady(t *Thread) bool {
	for _, c := range t.cases {
		if s.caseReady(t, c) {
			return true
		}
	}
	return false
}

// caseReady reports whether t can complete c now. An unbuffered transfer is
// always initiated by its receiver.
func (s *Sched) caseReady(t *Thread, c *Case) bool {
	if c.c == nil {
		return false
	}
	if c.send {
		return c.c.closed || len(c.c.buf) < c.c.cap
	}
	if len(c.c.buf) > 0 || c.c.closed {
		return true
	}
	return c.c.cap == 0 && s.partner(t, c) != nil
}

// partner returns the thread whose pending operation complements c, in arrival order.
func (s *Sched) partner(t *Thread, c *Case) *Thread {
	if !c.send && c.c.sends == 0 {
		return nil
	}
	var best *Thread
	for _, o := range s.live {
		if o == t || o.dead || o.cases == nil || o.done {
			continue
		}
		for _, oc := range o.cases {
			if oc.c == c.c && oc.send != c.send {
				// Two parties that both have a default never meet.
				if o.def && t.def {
					continue
				}
				if best == nil || o.seq < best.seq {
					best = o
				}
			}
		}
	}
	return best
}

func (s *Sched) perform(t *Thread, c *Case) {
	ch := c.c
	if c.send {
		if ch.closed {
			panic("send on closed channel")
		}
		if len(ch.buf) < ch.cap {
			ch.buf = push(ch.buf, item{c.v, 0})
			s.wr(t, &ch.Obj, 0x23)
			raceAcquire(unsafe.Pointer(ch))
			raceRelease(unsafe.Pointer(ch))
			return
		}
		o := s.partner(t, c)
		s.transfer(t, c, o, false)
		return
	}
	if len(ch.buf) > 0 {
		c.rv, c.ok = ch.buf[0].v, true
		ch.buf = ch.buf[1:]
		s.wr(t, &ch.Obj, 0x24)
		raceAcquire(unsafe.Pointer(ch))
		raceRelease(unsafe.Pointer(ch))
		return
	}
	if ch.cap == 0 {
		if o := s.partner(t, c); o != nil {
			s.transfer(t, c, o, true)
			return
		}
	}
	if ch.closed {
		c.rv, c.ok = nil, false
		s.rd(t, &ch.Obj, 0x25)
		raceAcquire(unsafe.Pointer(ch))
		return
	}
	panic("vrt: receive not ready")
}

// transfer completes a rendezvous between t (performing c) and the parked o.
func (s *Sched) transfer(t *Thread, c *Case, o *Thread, recv bool) {
	for i, oc := range o.cases {
		if oc.c != c.c || oc.send == c.send {
			continue
		}
		if recv {
			c.rv, c.ok = oc.v, true
		} else {
			oc.rv, oc.ok = c.v, true
		}
		o.done, o.doneIdx = true, i
		s.wr(t, &c.c.Obj, 0x26)
		s.wr(o, &c.c.Obj, 0x27+uint64(i))
		s.wr(t, &c.c.Obj, 0x26)
		raceAcquire(unsafe.Pointer(c.c))
		raceRelease(unsafe.Pointer(c.c))
		return
	}
	panic("vrt: rendezvous partner vanished")
}
