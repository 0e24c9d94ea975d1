// Package vrt is a cooperative scheduler used to model check Go code whose
// synchronisation operations have been redirected to it (see mc/instr and the
// v* shim packages).
//
// Exactly one goroutine ("thread") runs at a time. Before every operation that
// can observe another thread (lock acquisition, channel operation, atomic,
// clock read, ...) the running thread announces the operation and the
// scheduler decides which enabled thread goes on. Every decision is recorded,
// so an execution is a list of small integers and can be replayed exactly; the
// explorer (package vh) enumerates all of them within a deviation bound.
//
// With no scheduler active ("direct mode": package initialisation and the
// sequential harnesses) all shims fall back to the real primitives.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

// Options configure one execution.
type Options struct {
	Delay    bool // delay bounding (cost = position in round-robin order) instead of preemption bounding
	ClockDev bool // letting time pass although threads can run is offered, as a deviation
	MapDev   bool // map iteration orders other than ascending are offered, as deviations
	MaxSteps int  // horizon
	Trace    bool
}

// Kinds of decision: they define the deviation cost of the alternatives.
const (
	kFree   uint8 = iota // alternatives are free (blocked thread, select among ready cases, scripted environment)
	kPreemp              // any alternative costs one deviation
	kDelay               // alternative i costs i deviations
)

// Decision is one recorded branching point.
type Decision struct {
	N      int32
	Chosen int32
	Kind   uint8
	Clock  int32 // index of the clock option, or -1 (costs one deviation)
}

// Cost returns the deviation cost of taking alternative alt at d.
func (d *Decision) Cost(alt int32) int {
	c := 0
	if alt == d.Clock {
		c = 1
		return c
	}
	switch d.Kind {
	case kPreemp:
		if alt != 0 {
			c = 1
		}
	case kDelay:
		c = int(alt)
	}
	return c
}

// Failure describes a property violation observed in one execution.
type Failure struct {
	Key string // stable classification, matched against the known-findings file
	Msg string
}

// Result is what one execution produced.
type Result struct {
	Decisions []Decision
	Pruned    bool // reached an already expanded state
	Horizon   bool // cut at Options.MaxSteps
	Fail      *Failure
	Diverged  string // replaying the prefix did not reproduce the recorded decisions (harness error)
	Steps     int
	Hash      uint64 // hash of the happens-before relation of the execution
	Events    []any
	Trace     []string
	Races     int
	Threads   int
}

// Choices lists the choices taken.
func (r *Result) Choices() []int32 {
	c := make([]int32, len(r.Decisions))
	for i := range r.Decisions {
		c[i] = r.Decisions[i].Chosen
	}
	return c
}

// Obj is the modelled part of a synchronisation object: the hash of the
// happens-before history of its last writing operation.
type Obj struct {
	epoch uint64
	h     uint64
	id    int
}

// Thread is one scheduled goroutine.
type Thread struct {
	id    int
	order string // creation path; canonical across equivalent executions
	name  string
	h     uint64
	nsub  int
	wake  chan struct{}
	exit  chan struct{}

	// Pending operation.
	ready   func() bool
	cases   []*Case
	def     bool
	quiesce bool
	done    bool // a pending channel operation was completed by its counterpart
	doneIdx int
	seq     int // arrival order of the pending operation
	what    string
	started bool
	dead    bool
	main    bool
}

// Sched is the state of one execution.
type Sched struct {
	opt     Options
	epoch   uint64
	prefix  []int32
	visited *u64set
	threads []*Thread
	live    []*Thread // without those long dead
	ndead   int       // dead threads in live
	cur     *Thread
	dec     []Decision
	fp      uint64
	steps   int
	seq     int
	nobj    int
	now     int64
	timers  []*Timer
	clock   Obj
	evobj   Obj
	events  []any
	chans   ptrTab
	keys    []any
	fail    *Failure
	pruned  bool
	horizon bool
	diverge string
	ended   bool
	killing bool
	frozen  bool
	endC    chan struct{}
	killObj byte
	trace   []string
	optbuf  []*Thread
	cleanup []func()
}

var (
	s          *Sched
	epochs     uint64
	races      int
	progressed uint64
)

// StepCount is the number of scheduled operations of the execution so far.
func StepCount() int { return s.steps }

// Active reports whether a scheduler is running (and so the caller is one of
// its threads).
func Active() bool { return s != nil }

// Killing reports whether the current execution is being torn down.
func Killing() bool { return s != nil && s.killing }

// Progress is a counter that advances with every scheduled operation.
func Progress() uint64 { return progressed }

// Run performs one execution of body as the main thread.
func Run(opt Options, prefix []int32, visited *u64set, body func()) *Result {
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 20000
	}
	epochs++
	sc := &Sched{opt: opt, epoch: epochs, prefix: prefix, visited: visited, endC: make(chan struct{}, 1)}
	sc.now = 1_000_000_000_000 // an arbitrary positive virtual time origin
	s = sc
	before := raceErrors()
	t := sc.newThread(nil, "main", body)
	t.main = true
	sc.cur = t
	raceReleaseMerge(unsafe.Pointer(&sc.killObj))
	t.wake <- struct{}{}
	<-sc.endC
	nr := raceErrors() - before
	sc.killing = true
	for i := 0; i < len(sc.threads); i++ {
		if t := sc.threads[i]; !t.dead {
			t.wake <- struct{}{}
			<-t.exit
		}
	}
	for i := len(sc.cleanup) - 1; i >= 0; i-- {
		sc.cleanup[i]()
	}
	s = nil
	r := &Result{Decisions: sc.dec, Pruned: sc.pruned, Horizon: sc.horizon, Fail: sc.fail, Diverged: sc.diverge,
		Steps: sc.steps, Hash: sc.fp, Events: sc.events, Trace: sc.trace, Races: nr, Threads: len(sc.threads)}
	if r.Diverged == "" && !r.Pruned && r.Fail == nil && len(sc.dec) < len(prefix) {
		r.Diverged = fmt.Sprintf("execution ended after %d decisions, prefix has %d", len(sc.dec), len(prefix))
	}
	return r
}

// push is append without the runtime's race instrumentation, which would take
// the scheduler's own state for shared data of the program.
func push[T any](b []T, v T) []T {
	n := len(b)
	if n == cap(b) {
		nb := make([]T, n, 2*n+16)
		for i := range b {
			nb[i] = b[i]
		}
		b = nb
	}
	b = b[: n+1 : cap(b)]
	b[n] = v
	return b
}

// OnExit registers f to run after the execution has been torn down.
func OnExit(f func()) { s.cleanup = push(s.cleanup, f) }

func (s *Sched) newThread(parent *Thread, name string, body func()) *Thread {
	t := &Thread{id: len(s.threads), name: name, wake: make(chan struct{}, 1), exit: make(chan struct{}, 1)}
	if parent == nil {
		t.order = ""
		t.h = 1
	} else {
		t.order = parent.order + string(rune('0'+parent.nsub))
		parent.nsub++
		t.h = mix(parent.h, uint64(0x100+parent.nsub))
		s.setT(parent, mix(parent.h, 0x5fa))
	}
	s.fp += mix(t.h, 7)
	t.what = "start"
	s.seq++
	t.seq = s.seq
	s.threads = push(s.threads, t)
	s.live = push(s.live, t)
	go t.run(s, body)
	return t
}

func (t *Thread) run(s *Sched, body func()) {
	defer func() {
		r := recover()
		t.dead = true
		s.ndead++
		if s.killing {
			raceReleaseMerge(unsafe.Pointer(&s.killObj))
			t.exit <- struct{}{}
			return
		}
		if r != nil && s.fail == nil {
			st := string(debug.Stack())
			s.fail = &Failure{Key: "panic", Msg: fmt.Sprintf("panic in %s: %v\n%s", t.label(), r, trimStack(st))}
		}
		s.setT(t, mix(t.h, 0xdead))
		if s.opt.Trace {
			s.tracef(t, "exit")
		}
		raceReleaseMerge(unsafe.Pointer(&s.killObj))
		if s.fail != nil || t.main {
			s.end()
			return
		}
		next := s.pick(t)
		if next == nil {
			s.end()
			return
		}
		s.cur = next
		raceDisable()
		next.wake <- struct{}{}
		raceEnable()
	}()
	t.park(s)
	t.started = true
	body()
}

func trimStack(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	if len(st) > 3000 {
		st = st[:3000]
	}
	return st
}

func (t *Thread) label() string { return fmt.Sprintf("T%d(%s)", t.id, t.name) }

func (t *Thread) park(s *Sched) {
	raceReleaseMerge(unsafe.Pointer(&s.killObj))
	raceDisable()
	<-t.wake
	raceEnable()
	if s.killing {
		raceAcquire(unsafe.Pointer(&s.killObj))
		runtime.Goexit()
	}
}

// end signals the runner, once.
func (s *Sched) end() {
	if !s.ended {
		s.ended = true
		s.endC <- struct{}{}
	}
}

func (s *Sched) setT(t *Thread, h uint64) {
	s.fp += mix(h, 7) - mix(t.h, 7)
	t.h = h
}

func (o *Obj) touch(s *Sched) {
	if o.epoch != s.epoch {
		o.epoch = s.epoch
		o.h = 0
		o.id = 0
	}
}

func (s *Sched) setO(o *Obj, h uint64) {
	if o.h != 0 {
		s.fp -= mix(o.h, 13)
	}
	s.fp += mix(h, 13)
	o.h = h
}

// wr records that t performed a writing operation on o.
func (s *Sched) wr(t *Thread, o *Obj, op uint64) {
	o.touch(s)
	n := mix(mix(t.h, op), o.h)
	s.setT(t, n)
	s.setO(o, mix(n, 3))
}

// rd records that t performed a reading operation on o.
func (s *Sched) rd(t *Thread, o *Obj, op uint64) {
	o.touch(s)
	s.setT(t, mix(mix(t.h, op), o.h))
}

func (s *Sched) tracef(t *Thread, f string, a ...any) {
	s.trace = push(s.trace, t.label()+" "+fmt.Sprintf(f, a...))
}

func (s *Sched) oid(o *Obj) int {
	o.touch(s)
	if o.id == 0 {
		s.nobj++
		o.id = s.nobj
	}
	return o.id
}

// point announces the pending operation of the running thread and returns once
// the scheduler lets it proceed. ready == nil means always enabled.
func (s *Sched) point(t *Thread, what string, ready func() bool) {
	if s.killing {
		runtime.Goexit()
	}
	t.ready, t.what = ready, what
	s.reschedule(t)
	t.ready = nil
}

func (s *Sched) reschedule(t *Thread) {
	s.steps++
	progressed++
	s.seq++
	t.seq = s.seq
	if s.steps > s.opt.MaxSteps {
		s.horizon = true
		s.end()
		t.park(s)
	}
	next := s.pick(t)
	if next == nil {
		s.end()
		t.park(s)
	}
	if next != t {
		s.cur = next
		raceDisable()
		next.wake <- struct{}{}
		raceEnable()
		t.park(s)
	}
	if s.opt.Trace {
		s.tracef(t, "%s", t.what)
	}
}

func (s *Sched) enabled(t *Thread) bool {
	if t.dead || t.quiesce {
		return false
	}
	if t.cases != nil {
		return t.done || t.def || s.anyReady(t)
	}
	return t.ready == nil || t.ready()
}

// compact drops the dead from the live threads, now and then.
func (s *Sched) compact() {
	if s.ndead < 8 || 2*s.ndead < len(s.live) {
		return
	}
	k := 0
	for _, t := range s.live {
		if !t.dead {
			s.live[k] = t
			k++
		}
	}
	for i := k; i < len(s.live); i++ {
		s.live[i] = nil
	}
	s.live = s.live[:k]
	s.ndead = 0
}

// pick decides which thread runs next; nil means the execution ends here.
func (s *Sched) pick(cur *Thread) *Thread {
	for {
		opts := s.optbuf[:0]
		curEn := s.enabled(cur)
		if curEn {
			opts = push(opts, cur)
		}
		first := len(opts)
		s.compact()
		for _, t := range s.live {
			if t != cur && s.enabled(t) {
				opts = push(opts, t)
			}
		}
		rest := opts[first:]
		// Canonical order: by creation path; for delay bounding, round robin from cur.
		for i := 1; i < len(rest); i++ {
			for j := i; j > 0 && rest[j].order < rest[j-1].order; j-- {
				rest[j], rest[j-1] = rest[j-1], rest[j]
			}
		}
		if s.opt.Delay && len(rest) > 1 {
			k := 0
			for k < len(rest) && rest[k].order < cur.order {
				k++
			}
			rot := make([]*Thread, 0, len(rest))
			for i := range rest {
				rot = push(rot, rest[(k+i)%len(rest)])
			}
			for i := range rot {
				rest[i] = rot[i]
			}
		}
		if len(opts) == 0 {
			for _, t := range s.live {
				if !t.dead && t.quiesce {
					opts = push(opts, t)
				}
			}
			if len(opts) > 0 {
				s.optbuf = opts
				return opts[0]
			}
			if len(s.timers) == 0 {
				s.deadlock()
				return nil
			}
			s.fire()
			continue
		}
		s.optbuf = opts
		n, clock := len(opts), int32(-1)
		if s.opt.ClockDev && len(s.timers) > 0 {
			clock = int32(n)
			n++
		}
		if n == 1 {
			return opts[0]
		}
		kind := kFree
		if s.opt.Delay {
			kind = kDelay
		} else if curEn {
			kind = kPreemp
		}
		i := s.decide(cur, n, kind, clock)
		if i < 0 {
			return nil
		}
		if int32(i) == clock {
			s.fire()
			continue
		}
		return opts[i]
	}
}

// decide takes (or replays) one branching decision; -1 ends the execution.
func (s *Sched) decide(cur *Thread, n int, kind uint8, clock int32) int {
	if s.frozen {
		return 0
	}
	d := len(s.dec)
	ch := int32(0)
	if d < len(s.prefix) {
		ch = s.prefix[d]
		if ch < 0 || int(ch) >= n {
			s.diverge = fmt.Sprintf("decision %d: prefix wants alternative %d of %d", d, ch, n)
			return -1
		}
	} else if s.visited != nil {
		if !s.visited.add(mix(mix(s.fp, cur.h), uint64(kind)<<32|uint64(n))) {
			s.pruned = true
			return -1
		}
	}
	s.dec = push(s.dec, Decision{N: int32(n), Chosen: ch, Kind: kind, Clock: clock})
	return int(ch)
}

func (s *Sched) choose(t *Thread, n int, kind uint8) int {
	if n <= 1 {
		return 0
	}
	i := s.decide(t, n, kind, -1)
	if i < 0 {
		s.end()
		t.park(s)
	}
	s.setT(t, mix(mix(t.h, 0xc4), uint64(i)))
	return i
}

func (s *Sched) deadlock() {
	if s.fail != nil {
		return
	}
	var b strings.Builder
	for _, t := range s.threads {
		if !t.dead {
			fmt.Fprintf(&b, "  %s waits: %s\n", t.label(), t.what)
		}
	}
	s.fail = &Failure{Key: "deadlock", Msg: "no thread can make progress, main thread not finished:\n" + b.String()}
}

// ---- operations used by harnesses ----

// Go starts a thread.
func Go(f func()) {
	if s == nil {
		go f()
		return
	}
	goNamed("", f)
}

// GoN starts a named thread.
func GoN(name string, f func()) { goNamed(name, f) }

func goNamed(name string, f func()) *Thread {
	if s.killing {
		return nil
	}
	if name == "" && s.opt.Trace {
		if _, file, line, ok := runtime.Caller(2); ok {
			if i := strings.LastIndex(file, "/"); i >= 0 {
				file = file[i+1:]
			}
			name = fmt.Sprintf("%s:%d", file, line)
		}
	}
	return s.newThread(s.cur, name, f)
}

// Yield is a plain scheduling point.
func Yield() {
	if s == nil {
		return
	}
	t := s.cur
	s.point(t, "yield", nil)
	s.setT(t, mix(t.h, 0x11))
}

// Quiesce blocks the caller until no other thread can run without time passing.
func Quiesce() {
	if s.killing {
		runtime.Goexit()
	}
	t := s.cur
	t.quiesce, t.what = true, "quiesce"
	s.reschedule(t)
	t.quiesce = false
	// For the race detector as well: every other thread is parked or finished.
	raceAcquire(unsafe.Pointer(&s.killObj))
	// The caller has observed everything.
	s.setT(t, mix(mix(t.h, 0x12), s.fp))
}

// Await blocks until cond (over harness state recorded with Event) holds.
func Await(what string, cond func() bool) {
	t := s.cur
	s.point(t, what, cond)
	s.rd(t, &s.evobj, 0x13)
}

// Explore turns branching decisions on (the initial state) or off: while off,
// the default schedule is taken.
func Explore(on bool) { s.frozen = !on }

// Choose explores n alternatives, at no deviation cost.
func Choose(n int) int { return s.choose(s.cur, n, kFree) }

// ChooseDev explores n alternatives; any but 0 costs one deviation.
func ChooseDev(n int) int { return s.choose(s.cur, n, kPreemp) }

// Event appends e to the execution's totally ordered log (without a scheduling
// point) and returns its index.
func Event(e any) int {
	if s == nil {
		return -1
	}
	if s.killing {
		return -1
	}
	t := s.cur
	s.wr(t, &s.evobj, 0xe0)
	s.events = push(s.events, e)
	if s.opt.Trace {
		s.tracef(t, "event %+v", e)
	}
	return len(s.events) - 1
}

// Events returns the log.
func Events() []any { return s.events }

// NumEvents is the number of recorded events.
func NumEvents() int { return len(s.events) }

// Touch marks harness state as accessed by the running thread, so that
// executions differing in the order of such accesses are told apart.
func Touch() {
	if s == nil || s.killing {
		return
	}
	s.wr(s.cur, &s.evobj, 0xe1)
}

// Fail reports a property violation and ends the execution.
func Fail(key, format string, a ...any) {
	if s == nil {
		panic(DirectFail{key, fmt.Sprintf(format, a...)})
	}
	if s.killing {
		runtime.Goexit()
	}
	if s.fail == nil {
		s.fail = &Failure{Key: key, Msg: fmt.Sprintf(format, a...)}
	}
	s.end()
	s.cur.park(s)
}

// DirectFail is what Fail panics with in direct mode.
type DirectFail struct{ Key, Msg string }

// ThreadID returns the running thread's id.
func ThreadID() int {
	if s == nil {
		return -1
	}
	return s.cur.id
}

// Blocked lists, for every unfinished thread but the caller, what it waits for.
func Blocked() []string {
	var out []string
	for _, t := range s.threads {
		if !t.dead && t != s.cur {
			out = push(out, t.label()+" "+t.what)
		}
	}
	return out
}

// Live reports how many threads other than the caller have not finished.
func Live() int {
	n := 0
	for _, t := range s.threads {
		if !t.dead && t != s.cur {
			n++
		}
	}
	return n
}

// NewVisited returns an empty set of visited states.
func NewVisited() *u64set { return newU64set() }

// Visited is the set of visited state fingerprints.
type Visited = u64set

// Len returns the number of states.
func (s *u64set) Len() int { return s.len() }
