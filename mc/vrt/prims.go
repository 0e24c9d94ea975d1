package vrt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"unsafe"
)

// Mutex is the model of sync.Mutex.
type Mutex struct {
	Obj
	locked bool
}

func (m *Mutex) reset() {
	if m.epoch != s.epoch {
		m.Obj.touch(s)
		m.locked = false
	}
}

// Lock acquires m.
func (m *Mutex) Lock() {
	if s.killing {
		runtime.Goexit()
	}
	m.reset()
	t := s.cur
	s.point(t, "lock", func() bool { return !m.locked })
	if s.opt.Trace {
		s.tracef(t, "  acquired mutex#%d", s.oid(&m.Obj))
	}
	m.locked = true
	s.wr(t, &m.Obj, 0x31)
	raceAcquire(unsafe.Pointer(m))
}

// TryLock tries to acquire m.
func (m *Mutex) TryLock() bool {
	if s.killing {
		return false
	}
	m.reset()
	t := s.cur
	s.point(t, "trylock", nil)
	if m.locked {
		s.rd(t, &m.Obj, 0x32)
		return false
	}
	m.locked = true
	s.wr(t, &m.Obj, 0x31)
	raceAcquire(unsafe.Pointer(m))
	return true
}

// Unlock releases m.
func (m *Mutex) Unlock() {
	if s.killing {
		return
	}
	m.reset()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	s.wr(s.cur, &m.Obj, 0x33)
	raceRelease(unsafe.Pointer(m))
}

// RWMutex is the model of sync.RWMutex, including its writer preference: a
// waiting writer blocks new readers.
type RWMutex struct {
	Obj
	wheld   bool // a writer holds or has announced itself
	readers int
	rsem    byte
}

func (m *RWMutex) reset() {
	if m.epoch != s.epoch {
		m.Obj.touch(s)
		m.wheld, m.readers = false, 0
	}
}

// Lock acquires m for writing.
func (m *RWMutex) Lock() {
	if s.killing {
		runtime.Goexit()
	}
	m.reset()
	t := s.cur
	s.point(t, "rw.lock(announce)", func() bool { return !m.wheld })
	m.wheld = true
	s.setT(t, mix(t.h, 0x34))
	if m.readers > 0 {
		s.point(t, "rw.lock(wait for readers)", func() bool { return m.readers == 0 })
	}
	if s.opt.Trace {
		s.tracef(t, "  acquired rwmutex#%d for writing", s.oid(&m.Obj))
	}
	s.wr(t, &m.Obj, 0x35)
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rsem))
}

// TryLock tries to acquire m for writing.
func (m *RWMutex) TryLock() bool {
	if s.killing {
		return false
	}
	m.reset()
	t := s.cur
	s.point(t, "rw.trylock", nil)
	if m.wheld || m.readers > 0 {
		s.rd(t, &m.Obj, 0x36)
		return false
	}
	m.wheld = true
	s.wr(t, &m.Obj, 0x35)
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rsem))
	return true
}

// Unlock releases m from writing.
func (m *RWMutex) Unlock() {
	if s.killing {
		return
	}
	m.reset()
	if !m.wheld || m.readers > 0 {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.wheld = false
	s.wr(s.cur, &m.Obj, 0x37)
	raceRelease(unsafe.Pointer(m))
}

// RLock acquires m for reading.
func (m *RWMutex) RLock() {
	if s.killing {
		runtime.Goexit()
	}
	m.reset()
	t := s.cur
	s.point(t, "rw.rlock", func() bool { return !m.wheld })
	if s.opt.Trace {
		s.tracef(t, "  acquired rwmutex#%d for reading", s.oid(&m.Obj))
	}
	m.readers++
	s.rd(t, &m.Obj, 0x38)
	raceAcquire(unsafe.Pointer(m))
}

// TryRLock tries to acquire m for reading.
func (m *RWMutex) TryRLock() bool {
	if s.killing {
		return false
	}
	m.reset()
	t := s.cur
	s.point(t, "rw.tryrlock", nil)
	if m.wheld {
		s.setT(t, mix(t.h, 0x39))
		return false
	}
	m.readers++
	s.rd(t, &m.Obj, 0x38)
	raceAcquire(unsafe.Pointer(m))
	return true
}

// RUnlock releases m from reading.
func (m *RWMutex) RUnlock() {
	if s.killing {
		return
	}
	m.reset()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	s.setT(s.cur, mix(s.cur.h, 0x3a))
	raceReleaseMerge(unsafe.Pointer(&m.rsem))
}

// WaitGroup is the model of sync.WaitGroup.
type WaitGroup struct {
	Obj
	n int
}

func (w *WaitGroup) reset() {
	if w.epoch != s.epoch {
		w.Obj.touch(s)
		w.n = 0
	}
}

// Add adds d.
func (w *WaitGroup) Add(d int) {
	if s.killing {
		return
	}
	w.reset()
	s.wr(s.cur, &w.Obj, 0x41)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(w))
	}
}

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	if s.killing {
		runtime.Goexit()
	}
	w.reset()
	t := s.cur
	s.point(t, "wg.wait", func() bool { return w.n == 0 })
	s.rd(t, &w.Obj, 0x42)
	raceAcquire(unsafe.Pointer(w))
}

// Cond is the model of sync.Cond.
type Cond struct {
	Obj
	q []*condWait
}

type condWait struct{ woken bool }

// Wait waits; unlock/lock release and reacquire the associated lock.
func (c *Cond) Wait(unlock, lock func()) {
	if s.killing {
		runtime.Goexit()
	}
	if c.epoch != s.epoch {
		c.Obj.touch(s)
		c.q = nil
	}
	t := s.cur
	w := &condWait{}
	c.q = push(c.q, w)
	s.wr(t, &c.Obj, 0x43)
	unlock()
	s.point(t, "cond.wait", func() bool { return w.woken })
	s.rd(t, &c.Obj, 0x44)
	lock()
}

// Signal wakes n waiters (all if n < 0).
func (c *Cond) Signal(n int) {
	if s.killing {
		return
	}
	if c.epoch != s.epoch {
		c.Obj.touch(s)
		c.q = nil
	}
	t := s.cur
	s.point(t, "cond.signal", nil)
	for n != 0 && len(c.q) > 0 {
		c.q[0].woken = true
		c.q = c.q[1:]
		n--
	}
	s.wr(t, &c.Obj, 0x45)
}

// AtomicObj is the identity of an atomic location.
type AtomicObj struct{ Obj }

// AtomicRd is the scheduling point of an atomic load at address p.
func AtomicRd(o *Obj) {
	if s.killing {
		return
	}
	t := s.cur
	s.point(t, "atomic load", nil)
	s.rd(t, o, 0x51)
}

// AtomicWr is the scheduling point of an atomic store or read-modify-write.
func AtomicWr(o *Obj) {
	if s.killing {
		return
	}
	t := s.cur
	s.point(t, "atomic write", nil)
	s.wr(t, o, 0x52)
}

// ObjAt returns the model object of a raw address (old style sync/atomic
// functions, sync.Map, sync.Pool, ...).
func ObjAt(p unsafe.Pointer) *Obj {
	return &s.state(uintptr(p), 0, p).Obj
}

// AcquireAt and ReleaseAt annotate a modelled happens-before edge for the race detector.
func AcquireAt(p unsafe.Pointer) { raceAcquire(p) }

// ReleaseAt is the release side of AcquireAt.
func ReleaseAt(p unsafe.Pointer) { raceReleaseMerge(p) }

// Point is a scheduling point for an operation on o that is enabled when ready holds.
func Point(what string, o *Obj, write bool, ready func() bool) {
	t := s.cur
	s.point(t, what, ready)
	if write {
		s.wr(t, o, 0x53)
	} else {
		s.rd(t, o, 0x54)
	}
}

// Epoch identifies the current execution.
func Epoch() uint64 { return s.epoch }

// ---- deterministic map iteration ----

// Key registers a map key so that later iterations order keys without natural
// order (pointers, interfaces) by first insertion.
func Key[K comparable](k K) K {
	if s != nil && !s.killing {
		s.keyID(k)
	}
	return k
}

func (s *Sched) keyID(k any) int {
	for i, x := range s.keys {
		if x == k {
			return i
		}
	}
	s.keys = push(s.keys, k)
	return len(s.keys) - 1
}

// RangeMap iterates over m in a deterministic (or explored) order.
func RangeMap[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		if s == nil && !DirectOrder {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		ks := make([]K, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sortKeys(ks)
		for len(ks) > 0 {
			i := 0
			if s != nil && !s.killing && s.opt.MapDev && len(ks) > 1 {
				i = s.choose(s.cur, len(ks), kPreemp)
			} else if s == nil && OrderChoice != nil && len(ks) > 1 {
				i = OrderChoice(len(ks))
			}
			k := ks[i]
			ks = append(ks[:i:i], ks[i+1:]...)
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// DirectOrder makes map iteration in direct mode deterministic, with
// OrderChoice picking among the remaining keys (ascending order if nil).
var (
	DirectOrder bool
	OrderChoice func(n int) int
)

func sortKeys[K comparable](ks []K) {
	if len(ks) < 2 {
		return
	}
	switch reflect.TypeOf(ks[0]) {
	case nil:
	default:
	}
	kind := reflect.TypeOf((*K)(nil)).Elem().Kind()
	switch kind {
	case reflect.Pointer, reflect.Interface, reflect.Chan, reflect.UnsafePointer:
		if kind == reflect.Interface {
			allNat := true
			for _, k := range ks {
				switch reflect.ValueOf(k).Kind() {
				case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Struct, reflect.Array:
					allNat = false
				}
			}
			if allNat {
				break
			}
		}
		if s == nil {
			return
		}
		ids := make([]int, len(ks))
		for i, k := range ks {
			ids[i] = s.keyID(k)
		}
		sort.Sort(&byID[K]{ids, ks})
		return
	}
	sort.Slice(ks, func(i, j int) bool { return less(reflect.ValueOf(ks[i]), reflect.ValueOf(ks[j])) })
}

type byID[K any] struct {
	ids []int
	ks  []K
}

func (b *byID[K]) Len() int           { return len(b.ids) }
func (b *byID[K]) Less(i, j int) bool { return b.ids[i] < b.ids[j] }
func (b *byID[K]) Swap(i, j int) {
	b.ids[i], b.ids[j] = b.ids[j], b.ids[i]
	b.ks[i], b.ks[j] = b.ks[j], b.ks[i]
}

func less(a, b reflect.Value) bool {
	if a.Kind() != b.Kind() {
		return a.Kind() < b.Kind()
	}
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	}
	return fmt.Sprintf("%+v", a) < fmt.Sprintf("%+v", b)
}
