// Package vh is the explorer and the command-line front end shared by all
// checks: it enumerates the executions of concurrent scenarios within a
// deviation bound, runs the exhaustive sequential enumerations, distributes
// both over worker processes, re-confirms violations and writes the evidence.
package vh

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// Scenario is one closed system to explore.
type Scenario struct {
	Name string
	// Concurrent scenario: Body is the main thread of every execution.
	Body     func(x *X)
	Opt      vrt.Options
	MaxBound int  // largest deviation bound to attempt
	Declared int  // bound the check claims to complete (default 1; MaxBound if smaller); deeper bounds use the time left
	NoPrune  bool // do not prune on happens-before state fingerprints
	// Race: also explore this scenario (up to RaceBound) in the binary built with
	// the race detector.
	Race      bool
	RaceBound int
	// Sequential scenario: enumerates on its own.
	Seq func(q *Q)
	// Weight > 1 asks for a larger share of the time budget.
	Weight float64
	// Heavy sequential scenarios are started first.
	First bool
}

// Check describes one property's check.
type Check struct {
	Property    string
	Scenarios   func(tier string) []Scenario
	Assumptions []string
	Rule        string
	QuickSec    float64 // exploration budget (all workers together run this long), quick tier
	ThoroughSec float64
	Workers     int
}

// X is the context of one execution of a concurrent scenario.
type X struct {
	outcome string
	failKey string
}

// Fail reports a violation.
func (x *X) Fail(key, format string, a ...any) { vrt.Fail(key, format, a...) }

// Outcome records what was observed, for counting distinct outcomes.
func (x *X) Outcome(format string, a ...any) { x.outcome = fmt.Sprintf(format, a...) }

// Violation is one reported failure.
type Violation struct {
	Scenario string   `json:"scenario"`
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Choices  []int32  `json:"choices,omitempty"`
	Race     bool     `json:"race,omitempty"`
	Bound    int      `json:"bound"`
	Runs     int      `json:"confirmed_runs"`
	Of       int      `json:"of_runs"`
	Trace    []string `json:"trace,omitempty"`
	Seq      bool     `json:"sequential,omitempty"`
}

// JobResult is what exploring one scenario produced.
type JobResult struct {
	Scenario   string            `json:"scenario"`
	Bound      int               `json:"bound"`
	Race       bool              `json:"race,omitempty"`
	Done       bool              `json:"done"`     // everything within Bound was explored
	Complete   bool              `json:"complete"` // and nothing lies beyond Bound: the space is exhausted
	Execs      int64             `json:"execs"`
	Pruned     int64             `json:"pruned"`
	States     int64             `json:"states"`
	Trans      int64             `json:"transitions"`
	Horizon    int64             `json:"horizon"`
	Diverged   int64             `json:"diverged"`
	DivMsg     string            `json:"divmsg,omitempty"`
	Redone     int64             `json:"replayed"`
	MaxThreads int               `json:"threads"`
	MaxSteps   int               `json:"steps"`
	Outcomes   int               `json:"outcomes"`
	OutHash    []uint64          `json:"outhash,omitempty"`
	Samples    []string          `json:"samples,omitempty"`
	Violations []Violation       `json:"violations,omitempty"`
	Known      map[string]string `json:"known,omitempty"`
	Wall       float64           `json:"wall"`
	Notes      map[string]int64  `json:"notes,omitempty"`
	Seq        bool              `json:"seq,omitempty"`
	Crash      string            `json:"crash,omitempty"`
}

var liveCounter atomic.Int64 // advanced by sequential scenarios, watched by the watchdog

type entry struct {
	parent []int32
	n      int32 // choices taken from parent
	alt    int32
}

func (e entry) choices() []int32 {
	if e.n < 0 {
		return nil
	}
	c := make([]int32, e.n+1)
	copy(c, e.parent[:e.n])
	c[e.n] = e.alt
	return c
}

func runOne(sc *Scenario, opt vrt.Options, prefix []int32, vis *vrt.Visited) (*vrt.Result, *X) {
	x := &X{}
	r := vrt.Run(opt, prefix, vis, func() { sc.Body(x) })
	if r.Fail == nil && r.Races > 0 {
		r.Fail = &vrt.Failure{Key: "race", Msg: "data race detected by the race detector in this schedule"}
	}
	return r, x
}

// explore enumerates the executions of sc with at most bound deviations.
func explore(sc *Scenario, bound int, budget time.Duration, seed int64, known map[string]string, logf *os.File) *JobResult {
	start := time.Now()
	jr := &JobResult{Scenario: sc.Name, Bound: bound, Known: map[string]string{}, Race: vrt.RaceEnabled}
	var vis *vrt.Visited
	if !sc.NoPrune {
		vis = vrt.NewVisited()
	}
	outs := map[uint64]bool{}
	rng := rand.New(rand.NewSource(seed))
	buckets := make([][]entry, bound+2)
	buckets[0] = []entry{{n: -1}}
	deadline := start.Add(budget)
	beyond := false
	done := true
	const maxVis = 30_000_000
	knownDup := map[string]int{}
outer:
	for b := 0; b <= bound; b++ {
		for len(buckets[b]) > 0 {
			q := buckets[b]
			i := len(q) - 1
			if b == bound && len(q) < 500_000 {
				i = rng.Intn(len(q))
			}
			e := q[i]
			q[i] = q[len(q)-1]
			q[len(q)-1] = entry{}
			buckets[b] = q[:len(q)-1]
			prefix := e.choices()
			if vis != nil && vis.Len() > maxVis {
				vis = vrt.NewVisited()
				done = false // states were forgotten: completeness is still fine, but counting restarts
				jr.note("visited_reset", 1)
			}
			if logf != nil {
				logf.WriteAt([]byte(fmt.Sprintf("%-8d%v\n", len(prefix), prefix)), 0)
			}
			r, x := runOne(sc, sc.Opt, prefix, vis)
			jr.Execs++
			jr.Trans += int64(r.Steps)
			if r.Steps > jr.MaxSteps {
				jr.MaxSteps = r.Steps
			}
			if r.Threads > jr.MaxThreads {
				jr.MaxThreads = r.Threads
			}
			if r.Diverged != "" {
				jr.Diverged++
				jr.DivMsg = r.Diverged
				continue
			}
			if r.Horizon {
				jr.Horizon++
				done = false
			}
			if r.Pruned {
				jr.Pruned++
			}
			choices := r.Choices()
			if r.Fail != nil {
				if what, ok := known[sc.Name+"|"+r.Fail.Key]; ok {
					jr.Known[r.Fail.Key] = what
				} else if what, ok := known["*|"+r.Fail.Key]; ok {
					jr.Known[r.Fail.Key] = what
				} else {
					jr.Violations = append(jr.Violations, Violation{Scenario: sc.Name, Key: r.Fail.Key, Msg: r.Fail.Msg, Choices: choices, Bound: b, Race: vrt.RaceEnabled})
					done = false
					break outer
				}
				knownDup[r.Fail.Key]++
			}
			if !r.Pruned && r.Fail == nil && !r.Horizon {
				h := fnv(x.outcome)
				if !outs[h] {
					outs[h] = true
					if len(jr.Samples) < 3 {
						jr.Samples = append(jr.Samples, fmt.Sprintf("%s: choices=%v -> %s", sc.Name, compact(choices), clip(x.outcome, 400)))
					}
				}
				// Determinism: replay a completed schedule and compare.
				if jr.Execs <= 5 || jr.Execs%1009 == 0 {
					r2, x2 := runOne(sc, sc.Opt, choices, nil)
					jr.Redone++
					if r2.Diverged != "" || r2.Hash != r.Hash || x2.outcome != x.outcome || len(r2.Decisions) != len(choices) {
						jr.Diverged++
						jr.DivMsg = fmt.Sprintf("replay differs: %s; hash %x/%x; outcomes %q / %q", r2.Diverged, r.Hash, r2.Hash, x.outcome, x2.outcome)
					}
				}
			}
			// Alternatives of the decisions beyond the prefix.
			cost := 0
			for i := range r.Decisions {
				d := &r.Decisions[i]
				if i >= len(prefix) {
					for alt := int32(1); alt < d.N; alt++ {
						c := cost + d.Cost(alt)
						if c > bound {
							beyond = true
							continue
						}
						if c < b { // cannot happen: costs only grow
							c = b
						}
						buckets[c] = append(buckets[c], entry{choices, int32(i), alt})
					}
				}
				cost += d.Cost(d.Chosen)
			}
			if jr.Execs&15 == 0 && time.Now().After(deadline) {
				for _, bk := range buckets {
					if len(bk) > 0 {
						done = false
					}
				}
				if !done {
					jr.note("frontier_left", int64(frontier(buckets)))
				}
				break outer
			}
		}
	}
	jr.Done = done && jr.Diverged == 0
	jr.Complete = jr.Done && !beyond
	if vis != nil {
		jr.States = int64(vis.Len())
	} else {
		jr.States = int64(len(outs))
	}
	jr.Outcomes = len(outs)
	for h := range outs {
		if len(jr.OutHash) < 2000 {
			jr.OutHash = append(jr.OutHash, h)
		}
	}
	for k, n := range knownDup {
		jr.note("known:"+k, int64(n))
	}
	jr.Wall = time.Since(start).Seconds()
	return jr
}

func frontier(b [][]entry) int {
	n := 0
	for _, x := range b {
		n += len(x)
	}
	return n
}

func (j *JobResult) note(k string, n int64) {
	if j.Notes == nil {
		j.Notes = map[string]int64{}
	}
	j.Notes[k] += n
}

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func compact(c []int32) string {
	var b strings.Builder
	zeros := 0
	for _, x := range c {
		if x == 0 {
			zeros++
			continue
		}
		if zeros > 0 {
			fmt.Fprintf(&b, "0*%d ", zeros)
			zeros = 0
		}
		fmt.Fprintf(&b, "%d ", x)
	}
	if zeros > 0 {
		fmt.Fprintf(&b, "0*%d", zeros)
	}
	return strings.TrimSpace(b.String())
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Q is the context of a sequential (single-threaded, exhaustive) scenario.
type Q struct {
	jr       *JobResult
	deadline time.Time
	known    map[string]string
	seen     map[uint64]struct{}
	cur      func() string
	stopped  bool
	expired  bool
	outs     map[uint64]bool
	tick     int
	Thorough bool
}

// Expired reports that the time budget is used up (the enumeration must stop
// and is then reported as not exhaustive) or that a violation was recorded.
func (q *Q) Expired() bool {
	if q.stopped || q.expired {
		return true
	}
	q.tick++
	liveCounter.Add(1)
	if q.tick&31 == 0 && time.Now().After(q.deadline) {
		q.expired = true
	}
	return q.expired
}

// State records a state (by canonical key) and reports whether it is new.
func (q *Q) State(key string) bool {
	h := fnv(key) ^ fnv(key+"#")*31
	if _, ok := q.seen[h]; ok {
		return false
	}
	q.seen[h] = struct{}{}
	return true
}

// States adds n states counted elsewhere.
func (q *Q) States(n int64) { q.jr.States += n }

// Tick tells the watchdog that a long case is making progress.
func Tick() { liveCounter.Add(1) }

// Trans counts n transitions (operations executed on the implementation).
func (q *Q) Trans(n int) { q.jr.Trans += int64(n); liveCounter.Add(1) }

// Outcome records an observed outcome.
func (q *Q) Outcome(s string) { q.outs[fnv(s)] = true }

// Sample keeps s as an example case.
func (q *Q) Sample(f string, a ...any) {
	if len(q.jr.Samples) < 4 {
		q.jr.Samples = append(q.jr.Samples, clip(fmt.Sprintf(f, a...), 600))
	}
}

// Note adds to a named counter in the evidence.
func (q *Q) Note(k string, n int64) { q.jr.note(k, n) }

// Err is a classified violation.
type Err struct{ Key, Msg string }

func (e *Err) Error() string { return e.Key + ": " + e.Msg }

// Errf makes an Err.
func Errf(key, f string, a ...any) error { return &Err{key, fmt.Sprintf(f, a...)} }

// Protect runs f, turning a panic into an error.
func Protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if d, ok := r.(vrt.DirectFail); ok {
				err = &Err{d.Key, d.Msg}
				return
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			err = &Err{"panic", fmt.Sprintf("panic: %v\n%s", r, clip(st, 2500))}
		}
	}()
	return f()
}

// Do executes one case: f builds everything afresh, runs the case against the
// implementation and returns an error if the property is violated. It reports
// whether the case passed. desc is only called for a violation.
func (q *Q) Do(desc func() string, f func() error) bool {
	q.jr.Execs++
	liveCounter.Add(1)
	q.cur = desc
	err := Protect(f)
	if err == nil {
		return true
	}
	key := "violation"
	if e, ok := err.(*Err); ok {
		key = e.Key
	}
	for _, pre := range []string{q.jr.Scenario + "|", "*|"} {
		if what, ok := q.known[pre+key]; ok {
			q.jr.Known[key] = what
			q.jr.note("known:"+key, 1)
			return true
		}
	}
	n := 1
	for i := 0; i < 4; i++ {
		if e2 := Protect(f); e2 != nil {
			n++
		}
	}
	q.jr.Violations = append(q.jr.Violations, Violation{Scenario: q.jr.Scenario, Key: key, Msg: err.Error(), Seq: true, Runs: n, Of: 5,
		Trace: strings.Split(desc(), "\n")})
	q.stopped = true
	return false
}

// Exec runs body as one execution under the controlled scheduler with the
// default schedule. To be called from a sequential scenario (inside Do).
func (q *Q) Exec(body func(x *X)) error {
	return q.ExecN(200000, body)
}

// ExecN is Exec with a horizon.
func (q *Q) ExecN(steps int, body func(x *X)) error {
	x := &X{}
	r := vrt.Run(vrt.Options{MaxSteps: steps}, nil, nil, func() { body(x) })
	q.jr.Trans += int64(r.Steps)
	switch {
	case r.Fail != nil:
		return &Err{r.Fail.Key, r.Fail.Msg}
	case r.Horizon:
		return &Err{"horizon", "the execution does not end"}
	}
	if x.outcome != "" {
		q.Outcome(x.outcome)
	}
	return nil
}

// Sizes are the sizes up to max at which implementations tend to change
// their behaviour: small ones, and those around powers of two and round
// decimal numbers.
func Sizes(max int) []int {
	m := map[int]bool{}
	for i := 1; i <= 9; i++ {
		m[i] = true
	}
	for p := 16; p <= max; p *= 2 {
		m[p-1], m[p], m[p+1] = true, true, true
	}
	for p := 10; p <= max; p *= 10 {
		for _, k := range []int{1, 2, 5} {
			m[k*p], m[k*p+1] = true, true
		}
	}
	var out []int
	for n := range m {
		if n <= max {
			out = append(out, n)
		}
	}
	sort.Ints(out)
	return out
}

// ForSizes runs f for every size up to max.
func (q *Q) ForSizes(max int, what string, f func(n int) error) {
	for _, n := range Sizes(max) {
		if q.Expired() || !q.Do(func() string { return fmt.Sprintf("%s, size %d", what, n) }, func() error { return f(n) }) {
			return
		}
		q.Trans(n)
		q.State(fmt.Sprint(what, n))
	}
	q.Sample("%s, sizes up to %d", what, max)
}

// ExecAll explores every execution of body with at most bound deviations.
func (q *Q) ExecAll(opt vrt.Options, bound int, body func(x *X)) error {
	jr := explore(&Scenario{Name: q.jr.Scenario, Opt: opt, Body: body}, bound, time.Until(q.deadline), 1, q.known, nil)
	q.jr.Execs += jr.Execs
	q.jr.States += jr.States
	q.jr.Trans += jr.Trans
	q.jr.Diverged += jr.Diverged
	if jr.DivMsg != "" {
		q.jr.DivMsg = jr.DivMsg
	}
	if len(jr.Violations) > 0 {
		v := jr.Violations[0]
		return &Err{v.Key, v.Msg + "\n" + strings.Join(v.Trace, "\n")}
	}
	if !jr.Done {
		q.expired = true
	}
	return nil
}

func runSeq(sc *Scenario, budget time.Duration, known map[string]string, tier string) (jr *JobResult) {
	start := time.Now()
	jr = &JobResult{Scenario: sc.Name, Known: map[string]string{}, Seq: true}
	q := &Q{jr: jr, deadline: start.Add(budget), known: known, seen: map[uint64]struct{}{}, outs: map[uint64]bool{}, Thorough: tier == "thorough"}
	if err := Protect(func() error { sc.Seq(q); return nil }); err != nil {
		d := ""
		if q.cur != nil {
			d = q.cur()
		}
		jr.Violations = append(jr.Violations, Violation{Scenario: sc.Name, Key: "panic", Msg: err.Error(), Seq: true, Runs: 1, Of: 1, Trace: strings.Split(d, "\n")})
	}
	jr.States += int64(len(q.seen))
	jr.Done = !q.expired && !q.stopped
	jr.Complete = jr.Done
	jr.Outcomes = len(q.outs)
	for h := range q.outs {
		if len(jr.OutHash) < 2000 {
			jr.OutHash = append(jr.OutHash, h)
		}
	}
	jr.Wall = time.Since(start).Seconds()
	return jr
}

// Trace replays choices with tracing.
func traceOf(sc *Scenario, choices []int32) (*vrt.Result, *X) {
	opt := sc.Opt
	opt.Trace = true
	return runOne(sc, opt, choices, nil)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// EventLog renders the events recorded so far, one per line.
func EventLog() string {
	var b strings.Builder
	for _, e := range vrt.Events() {
		fmt.Fprintf(&b, "%v\n", e)
	}
	return b.String()
}
