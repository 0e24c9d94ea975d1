package vrt

import (
	"runtime"
	"unsafe"
)

// Timer is a virtual timer.
type Timer struct {
	Obj
	at     int64
	seq    int
	period int64
	active bool
	ch     *chanState // delivers the fire time, or
	f      func()     // runs as a new thread, or
	wake   bool       // wakes a sleeper
	mk     func(int64) any
}

// Now returns the virtual time in nanoseconds.
func Now() int64 {
	if s.killing {
		return s.now
	}
	s.rd(s.cur, &s.clock, 0x61)
	return s.now
}

func (s *Sched) arm(t *Timer, d int64) {
	if d < 0 {
		d = 0
	}
	if now := s.now; now+d < now {
		d = 1<<62 - now
	}
	s.seq++
	t.at, t.seq, t.active = s.now+d, s.seq, true
	// insert sorted by (at, seq)
	i := len(s.timers)
	s.timers = push(s.timers, t)
	for i > 0 && s.timers[i-1].at > t.at {
		s.timers[i] = s.timers[i-1]
		i--
	}
	s.timers[i] = t
}

func (s *Sched) disarm(t *Timer) bool {
	if !t.active {
		return false
	}
	t.active = false
	for i, x := range s.timers {
		if x == t {
			for ; i+1 < len(s.timers); i++ {
				s.timers[i] = s.timers[i+1]
			}
			s.timers = s.timers[:len(s.timers)-1]
			break
		}
	}
	return true
}

// fire advances the clock to the earliest deadline and fires all timers due.
func (s *Sched) fire() {
	s.now = s.timers[0].at
	if s.opt.Trace {
		s.trace = push(s.trace, "clock -> "+itoa(s.now))
	}
	s.clock.touch(s)
	s.setO(&s.clock, mix(mix(s.clock.h, 0x62), uint64(s.now)))
	for len(s.timers) > 0 && s.timers[0].at <= s.now {
		t := s.timers[0]
		s.timers = s.timers[1:]
		t.active = false
		t.Obj.touch(s)
		s.setO(&t.Obj, mix(mix(t.Obj.h, 0x63), s.clock.h))
		switch {
		case t.ch != nil:
			if len(t.ch.buf) < t.ch.cap {
				t.ch.buf = push(t.ch.buf, item{t.mk(s.now), 0})
				t.ch.Obj.touch(s)
				s.setO(&t.ch.Obj, mix(mix(t.ch.Obj.h, 0x64), t.Obj.h))
			}
		case t.f != nil:
			th := s.newTimerThread(t)
			_ = th
		default:
			t.wake = true
		}
		if t.period > 0 {
			s.arm(t, t.period)
		}
	}
}

func (s *Sched) newTimerThread(t *Timer) *Thread {
	th := &Thread{id: len(s.threads), name: "timer", wake: make(chan struct{}, 1), exit: make(chan struct{}, 1)}
	th.order = "~" + itoa(int64(t.seq))
	th.h = mix(t.Obj.h, 0x65)
	s.fp += mix(th.h, 7)
	th.what = "start"
	s.seq++
	th.seq = s.seq
	s.threads = push(s.threads, th)
	s.live = push(s.live, th)
	f := t.f
	go th.run(s, func() { raceAcquire(unsafe.Pointer(t)); f() })
	return th
}

func itoa(n int64) string {
	if n == 0 {
		return "0"
	}
	var b [24]byte
	i := len(b)
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

// Sleep blocks for d of virtual time.
func Sleep(d int64) {
	if s.killing {
		runtime.Goexit()
	}
	t := s.cur
	if d <= 0 {
		s.point(t, "sleep(0)", nil)
		s.setT(t, mix(t.h, 0x66))
		return
	}
	tm := &Timer{}
	tm.Obj.touch(s)
	s.wr(t, &tm.Obj, 0x67+uint64(d)<<8)
	s.arm(tm, d)
	s.point(t, "sleep", func() bool { return tm.wake })
	s.rd(t, &s.clock, 0x68)
}

// NewTimer arms a timer; with ch it delivers mk(now) on ch, with f it runs f.
func NewTimer[T any](d, period int64, ch chan T, mk func(int64) any, f func()) *Timer {
	tm := &Timer{period: period, f: f, mk: mk}
	if s.killing {
		return tm
	}
	tm.Obj.touch(s)
	if ch != nil {
		tm.ch = s.state(hchan(ch), cap(ch), ch)
	}
	t := s.cur
	s.wr(t, &tm.Obj, 0x69)
	s.rd(t, &s.clock, 0x6a+uint64(d)<<8)
	raceReleaseMerge(unsafe.Pointer(tm))
	s.arm(tm, d)
	return tm
}

// Stop stops the timer; pending ticks are discarded (Go >= 1.23 semantics).
func (t *Timer) Stop() bool {
	if s == nil || s.killing {
		return false
	}
	if t.Obj.epoch != s.epoch {
		return false
	}
	th := s.cur
	s.point(th, "timer.stop", nil)
	was := s.disarm(t)
	if t.ch != nil && len(t.ch.buf) > 0 {
		t.ch.buf = nil
		was = true
	}
	s.wr(th, &t.Obj, 0x6b)
	if t.ch != nil {
		s.wr(th, &t.ch.Obj, 0x6c)
	}
	return was
}

// Reset re-arms the timer.
func (t *Timer) Reset(d, period int64) bool {
	if s == nil || s.killing {
		return false
	}
	th := s.cur
	s.point(th, "timer.reset", nil)
	was := s.disarm(t)
	if t.ch != nil && len(t.ch.buf) > 0 {
		t.ch.buf = nil
		was = true
	}
	t.period = period
	s.wr(th, &t.Obj, 0x6d)
	if t.ch != nil {
		s.wr(th, &t.ch.Obj, 0x6e)
	}
	s.rd(th, &s.clock, 0x6f+uint64(d)<<8)
	raceReleaseMerge(unsafe.Pointer(t))
	s.arm(t, d)
	return was
}

// Armed reports whether any timer is pending.
func Armed() int { return len(s.timers) }
