package vtime

import (
	"time"

	"github.com/openconfig/gnmi/zz_verif/vrt"
)

type Timer struct {
	C    <-chan time.Time
	r    *vrt.Timer
	real *time.Timer
}

type Ticker struct {
	C    <-chan time.Time
	r    *vrt.Timer
	real *time.Ticker
}

// DirectNow, if set, replaces the wall clock while no scheduler is active.
var DirectNow func() time.Time

func Now() time.Time {
	if vrt.Active() {
		return time.Unix(0, vrt.Now())
	}
	if DirectNow != nil {
		return DirectNow()
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if vrt.Active() {
		vrt.Sleep(int64(d))
		return
	}
	time.Sleep(d)
}

func mk(now int64) any { return time.Unix(0, now) }

func NewTimer(d time.Duration) *Timer {
	if vrt.Active() {
		c := make(chan time.Time, 1)
		return &Timer{C: c, r: vrt.NewTimer(int64(d), 0, c, mk, nil)}
	}
	t := time.NewTimer(d)
	return &Timer{C: t.C, real: t}
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if vrt.Active() {
		return &Timer{r: vrt.NewTimer[time.Time](int64(d), 0, nil, nil, f)}
	}
	return &Timer{real: time.AfterFunc(d, f)}
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.r != nil {
		return t.r.Stop()
	}
	return t.real.Stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.r != nil {
		return t.r.Reset(int64(d), 0)
	}
	return t.real.Reset(d)
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if vrt.Active() {
		c := make(chan time.Time, 1)
		return &Ticker{C: c, r: vrt.NewTimer(int64(d), int64(d), c, mk, nil)}
	}
	t := time.NewTicker(d)
	return &Ticker{C: t.C, real: t}
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	if t.r != nil {
		t.r.Stop()
		return
	}
	t.real.Stop()
}

func (t *Ticker) Reset(d time.Duration) {
	if t.r != nil {
		t.r.Reset(int64(d), int64(d))
		return
	}
	t.real.Reset(d)
}
