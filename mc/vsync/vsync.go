// Package vsync replaces sync in instrumented code.
package vsync

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"
	"unsafe"

	"github.com/openconfig/gnmi/zz_verif/vrt"
)

type Locker = sync.Locker

// wait waits for a lock outside the scheduler, where nothing but the code under
// test, run by one goroutine, takes it: a lock that stays taken is a deadlock.
// The process ends as if ended by its watchdog, but sooner.
//
//go:noinline
func wait(try func() bool) {
	for i := 0; i < 20000; i++ {
		if try() {
			return
		}
		time.Sleep(time.Millisecond)
	}
	buf := make([]byte, 1<<16)
	fmt.Fprintf(os.Stderr, "no progress: a lock is not released\n%s\n", buf[:runtime.Stack(buf, false)])
	os.Exit(97)
}

type Mutex struct {
	st   vrt.Mutex
	real sync.Mutex
}

func (m *Mutex) Lock() {
	if vrt.Active() {
		m.st.Lock()
		return
	}
	if !m.real.TryLock() {
		wait(m.real.TryLock)
	}
}

func (m *Mutex) Unlock() {
	if vrt.Active() {
		m.st.Unlock()
		return
	}
	m.real.Unlock()
}

func (m *Mutex) TryLock() bool {
	if vrt.Active() {
		return m.st.TryLock()
	}
	return m.real.TryLock()
}

type RWMutex struct {
	st   vrt.RWMutex
	real sync.RWMutex
}

func (m *RWMutex) Lock() {
	if vrt.Active() {
		m.st.Lock()
		return
	}
	if !m.real.TryLock() {
		wait(m.real.TryLock)
	}
}

func (m *RWMutex) Unlock() {
	if vrt.Active() {
		m.st.Unlock()
		return
	}
	m.real.Unlock()
}

func (m *RWMutex) RLock() {
	if vrt.Active() {
		m.st.RLock()
		return
	}
	if !m.real.TryRLock() {
		wait(m.real.TryRLock)
	}
}

func (m *RWMutex) RUnlock() {
	if vrt.Active() {
		m.st.RUnlock()
		return
	}
	m.real.RUnlock()
}

func (m *RWMutex) TryLock() bool {
	if vrt.Active() {
		return m.st.TryLock()
	}
	return m.real.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	if vrt.Active() {
		return m.st.TryRLock()
	}
	return m.real.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs a function once. The first caller holds the lock while running, as
// in package sync, so a recursive Do deadlocks.
type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	st   vrt.WaitGroup
	real sync.WaitGroup
}

func (w *WaitGroup) Add(n int) {
	if vrt.Active() {
		w.st.Add(n)
		return
	}
	w.real.Add(n)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if vrt.Active() {
		w.st.Wait()
		return
	}
	w.real.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L    Locker
	st   vrt.Cond
	once sync.Once
	real *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) rc() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

func (c *Cond) Wait() {
	if vrt.Active() {
		c.st.Wait(c.L.Unlock, c.L.Lock)
		return
	}
	c.rc().Wait()
}

func (c *Cond) Signal() {
	if vrt.Active() {
		c.st.Signal(1)
		return
	}
	c.rc().Signal()
}

func (c *Cond) Broadcast() {
	if vrt.Active() {
		c.st.Signal(-1)
		return
	}
	c.rc().Broadcast()
}

// Pool is a LIFO free list, emptied at the start of every execution.
type Pool struct {
	New   func() any
	mu    Mutex
	epoch uint64
	l     []any
}

func (p *Pool) Get() any {
	p.mu.Lock()
	p.reset()
	var v any
	if n := len(p.l); n > 0 {
		v = p.l[n-1]
		p.l = p.l[:n-1]
	}
	p.mu.Unlock()
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.mu.Lock()
	p.reset()
	p.l = append(p.l, v)
	p.mu.Unlock()
}

func (p *Pool) reset() {
	var e uint64
	if vrt.Active() {
		e = vrt.Epoch()
	}
	if e != p.epoch {
		p.epoch, p.l = e, nil
	}
}

// Map is sync.Map: every operation is atomic; Range is not a snapshot.
type Map struct {
	mu Mutex
	ks []any
	m  map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.ks = append(m.ks, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.ks {
		if x == k {
			m.ks = append(m.ks[:i:i], m.ks[i+1:]...)
			return
		}
	}
}

func (m *Map) Store(k, v any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.store(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	m.store(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	ks := append([]any(nil), m.ks...)
	m.mu.Unlock()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.ks = nil, nil
}

var _ = unsafe.Pointer(nil)
var _ = runtime.Goexit
