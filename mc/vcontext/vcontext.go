// Package vcontext replaces context in instrumented code: the same interface
// type, with cancellation expressed through the controlled scheduler.
package vcontext

import (
	"context"
	"errors"
	"time"

	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vsync"
	"github.com/openconfig/gnmi/zz_verif/vtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }
func WithValue(parent Context, key, val any) Context {
	return context.WithValue(parent, key, val)
}

type key int

var selfKey key

type cancelCtx struct {
	parent   Context
	mu       vsync.Mutex
	done     chan struct{}
	err      error
	cause    error
	children []*cancelCtx
	deadline time.Time
	hasDL    bool
	timer    *vtime.Timer
	after    func() // AfterFunc
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *cancelCtx) Done() <-chan struct{} { return c.done }

func (c *cancelCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *cancelCtx) Value(k any) any {
	if k == &selfKey {
		return c
	}
	return c.parent.Value(k)
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&selfKey).(*cancelCtx); ok && p.done == parent.Done() {
		p.mu.Lock()
		if p.err != nil {
			err, cause := p.err, p.cause
			p.mu.Unlock()
			c.cancel(err, cause)
			return c
		}
		p.children = append(p.children, c)
		p.mu.Unlock()
		return c
	}
	if parent.Done() == nil {
		return c
	}
	vrt.Go(func() {
		a, b := vrt.CaseRecv(parent.Done()), vrt.CaseRecv((<-chan struct{})(c.done))
		if vrt.Select(false, a, b) == 0 {
			c.cancel(parent.Err(), context.Cause(parent))
		}
	})
	return c
}

func (c *cancelCtx) cancel(err, cause error) {
	if cause == nil {
		cause = err
	}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.cause = err, cause
	vrt.Close(c.done)
	kids := c.children
	c.children = nil
	c.mu.Unlock()
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if p, ok := c.parent.Value(&selfKey).(*cancelCtx); ok {
		p.mu.Lock()
		for i, k := range p.children {
			if k == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				break
			}
		}
		p.mu.Unlock()
	}
	if c.timer != nil {
		c.timer.Stop()
	}
	if c.after != nil {
		f := c.after
		vrt.Go(f)
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newCancel(parent)
	c.deadline, c.hasDL = d, true
	dur := vtime.Until(d)
	if dur <= 0 {
		c.cancel(DeadlineExceeded, cause)
		return c, func() { c.cancel(Canceled, nil) }
	}
	c.mu.Lock()
	if c.err == nil {
		c.timer = vtime.AfterFunc(dur, func() { c.cancel(DeadlineExceeded, cause) })
	}
	c.mu.Unlock()
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}

type noCancel struct{ Context }

func (noCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (noCancel) Done() <-chan struct{}       { return nil }
func (noCancel) Err() error                  { return nil }
func (n noCancel) Value(k any) any {
	if k == &selfKey {
		return nil
	}
	return n.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return noCancel{parent} }

func Cause(c Context) error {
	if p, ok := c.Value(&selfKey).(*cancelCtx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		if p.cause != nil {
			return p.cause
		}
		if p.err != nil {
			return p.err
		}
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCancel(ctx)
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		vrt.Go(f)
		return func() bool { return false }
	}
	c.after = f
	c.mu.Unlock()
	return func() bool {
		c.mu.Lock()
		stopped := c.err == nil
		if stopped {
			c.after = nil
		}
		c.mu.Unlock()
		if stopped {
			c.cancel(Canceled, nil)
		}
		return stopped
	}
}

var _ = errors.New
