// Check C11: the per-subscriber coalescing queue.
package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/openconfig/gnmi/coalesce"
	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// ---- reference model ----

type ent struct {
	item string
	dup  int
}

type mq struct {
	q      []ent
	closed bool
}

func (m mq) key() string { return fmt.Sprint(m.q, m.closed) }

func (m mq) insert(it string) (mq, bool) {
	n := mq{append([]ent(nil), m.q...), m.closed}
	for i := range n.q {
		if n.q[i].item == it {
			n.q[i].dup++
			return n, false
		}
	}
	n.q = append(n.q, ent{it, 0})
	return n, true
}

type insRes struct {
	added   bool
	refused bool
}

type nextRes struct {
	item   string
	dup    int
	closed bool
	cancel bool
}

// event kinds recorded by the threads
type call struct {
	t    int
	op   string
	arg  string
	poss int
}
type ret struct {
	t   int
	res any
}

type conf struct {
	prods  [][]string
	close  string // "", "conc", "after"
	cancel string // "", "stop", "resume"
	len    bool
	n      int // consumer reads at most n items without waiting for closure (0: until closed)
}

func (c conf) name() string {
	return fmt.Sprintf("prods=%v close=%s cancel=%s len=%v", c.prods, c.close, c.cancel, c.len)
}

func body(c conf) func(x *vh.X) {
	return func(x *vh.X) {
		q := coalesce.NewQueue()
		ctx, cancel := vcontext.WithCancel(context.Background())
		prodsDone := 0
		for i, items := range c.prods {
			i, items := i, items
			vrt.GoN(fmt.Sprintf("producer%d", i), func() {
				for _, it := range items {
					vrt.Yield()
					vrt.Event(call{t: i, op: "Insert", arg: it})
					added, err := q.Insert(it)
					if err != nil && !coalesce.IsClosedQueue(err) {
						x.Fail("insert-error", "Insert returned unexpected error %v", err)
					}
					vrt.Event(ret{i, insRes{added, err != nil}})
				}
				vrt.Touch()
				prodsDone++
			})
		}
		const cons, clos, lenr = 100, 101, 102
		consumerDone := false
		vrt.GoN("consumer", func() {
			cctx := ctx
			for {
				vrt.Event(call{t: cons, op: "Next"})
				v, dup, err := q.Next(cctx)
				switch {
				case err == nil:
					s, _ := v.(string)
					vrt.Event(ret{cons, nextRes{item: s, dup: int(dup)}})
				case coalesce.IsClosedQueue(err):
					vrt.Event(ret{cons, nextRes{closed: true}})
					consumerDone = true
					return
				default:
					if cctx.Err() == nil {
						x.Fail("next-error", "Next returned %v although its context is not cancelled", err)
					}
					vrt.Event(ret{cons, nextRes{cancel: true}})
					if c.cancel != "resume" {
						consumerDone = true
						return
					}
					cctx = context.Background()
				}
			}
		})
		doClose := func() {
			vrt.Event(call{t: clos, op: "Close"})
			q.Close()
			vrt.Event(ret{clos, nil})
		}
		switch c.close {
		case "conc":
			vrt.GoN("closer", func() { vrt.Yield(); doClose() })
		case "after":
			vrt.GoN("closer", func() {
				vrt.Await("producers done", func() bool { return prodsDone == len(c.prods) })
				doClose()
			})
		}
		if c.cancel != "" {
			vrt.GoN("canceller", func() { vrt.Yield(); vrt.Event("cancel"); cancel() })
		}
		if c.len {
			vrt.GoN("len", func() {
				vrt.Yield()
				vrt.Event(call{t: lenr, op: "Len"})
				n := q.Len()
				vrt.Event(ret{lenr, n})
			})
		}
		vrt.Quiesce()
		// Nothing can run any more without a further operation: the consumer must
		// not be left waiting with something to do.
		ops, hist := history(vrt.Events())
		if !consumerDone {
			st := replayPending(ops)
			if st.closed {
				x.Fail("lost-wakeup", "queue is closed but the consumer is still waiting\n%s", hist)
			}
			if c.cancel == "stop" {
				x.Fail("lost-wakeup", "context is cancelled but the consumer is still waiting\n%s", hist)
			}
			if st.pending > 0 {
				x.Fail("lost-wakeup", "%d accepted insertions undelivered but the consumer is still waiting\n%s", st.pending, hist)
			}
		}
		if prodsDone != len(c.prods) {
			x.Fail("blocked-producer", "a producer is blocked\n%s", hist)
		}
		// Whatever was cancelled, what was accepted before closing is still there.
		if c.close == "" {
			vrt.Event(call{t: clos, op: "Close"})
			q.Close()
			vrt.Event(ret{clos, nil})
		}
		vrt.Quiesce()
		if consumerDone && c.cancel == "stop" {
			// drain from here
			for i := 0; i < 20; i++ {
				vrt.Event(call{t: cons, op: "Next"})
				v, dup, err := q.Next(context.Background())
				if err != nil {
					if !coalesce.IsClosedQueue(err) {
						x.Fail("next-error", "Next on a closed queue: %v", err)
					}
					vrt.Event(ret{cons, nextRes{closed: true}})
					break
				}
				s, _ := v.(string)
				vrt.Event(ret{cons, nextRes{item: s, dup: int(dup)}})
			}
		} else if !consumerDone {
			_, hist = history(vrt.Events())
			x.Fail("lost-wakeup", "queue is closed but the consumer is still waiting\n%s", hist)
		}
		if !q.IsClosed() {
			x.Fail("not-closed", "IsClosed is false after Close")
		}
		if ok, err := q.Insert("z"); !coalesce.IsClosedQueue(err) || ok {
			x.Fail("insert-after-close", "Insert after Close returned %v, %v", ok, err)
		}
		ops, hist = history(vrt.Events())
		if !check(ops, hist) {
			x.Fail("order", "history is not explained by a first-insertion-order queue with exact counts that delivers everything before reporting closure:\n%s", hist)
		}
		x.Outcome("%s", hist)
	}
}

type pendingState struct {
	pending int
	closed  bool
}

func replayPending(ops []vh.Op) pendingState {
	var st pendingState
	for _, o := range ops {
		switch o.Name {
		case "Insert":
			if o.Ret != vh.Pending {
				if r := o.Res.(insRes); r.added && !r.refused {
					st.pending++
				}
			}
		case "Next":
			if o.Ret != vh.Pending {
				if r := o.Res.(nextRes); !r.closed && !r.cancel {
					st.pending--
				}
			}
		case "Close":
			if o.Ret != vh.Pending {
				st.closed = true
			}
		}
	}
	return st
}

func history(evs []any) ([]vh.Op, string) {
	var ops []vh.Op
	open := map[int]int{}
	var b strings.Builder
	for i, e := range evs {
		switch e := e.(type) {
		case call:
			open[e.t] = len(ops)
			ops = append(ops, vh.Op{Thread: e.t, Call: i, Ret: vh.Pending, Name: e.op, Arg: e.arg})
			fmt.Fprintf(&b, "%d:%s(%s) ", e.t, e.op, e.arg)
		case ret:
			o := &ops[open[e.t]]
			o.Ret, o.Res = i, e.res
			fmt.Fprintf(&b, "%d->%+v ", e.t, e.res)
		default:
			fmt.Fprintf(&b, "%v ", e)
		}
	}
	return ops, b.String()
}

var memo = map[string]bool{}

func check(ops []vh.Op, hist string) bool {
	if ok, seen := memo[hist]; seen {
		return ok
	}
	closeRet := vh.Pending
	for _, o := range ops {
		if o.Name == "Close" && o.Ret < closeRet {
			closeRet = o.Ret
		}
	}
	ok := vh.Linearizable(ops, mq{}, func(s mq, o *vh.Op) []mq {
		if o.Ret == vh.Pending {
			return nil
		}
		switch o.Name {
		case "Insert":
			r := o.Res.(insRes)
			if r.refused {
				if s.closed && !r.added {
					return []mq{s}
				}
				return nil
			}
			// An insertion that overlaps Close may still be accepted.
			if s.closed && o.Call > closeRet {
				return nil
			}
			n, added := s.insert(o.Arg.(string))
			if added != r.added {
				return nil
			}
			return []mq{n}
		case "Next":
			r := o.Res.(nextRes)
			switch {
			case r.cancel:
				return []mq{s}
			case r.closed:
				if s.closed && len(s.q) == 0 {
					return []mq{s}
				}
				return nil
			}
			if len(s.q) == 0 || s.q[0].item != r.item || s.q[0].dup != r.dup {
				return nil
			}
			return []mq{{s.q[1:], s.closed}}
		case "Len":
			if o.Res.(int) == len(s.q) {
				return []mq{s}
			}
			return nil
		case "Close":
			return []mq{{s.q, true}}
		}
		return nil
	}, mq.key, nil)
	if len(memo) > 200000 {
		memo = map[string]bool{}
	}
	memo[hist] = ok
	return ok
}

// ---- exhaustive operation sequences ----

type ptr struct{ n int }

func seq(items []any, depth int) func(q *vh.Q) {
	names := map[any]string{}
	for i, it := range items {
		names[it] = string(rune('a' + i))
	}
	// ops: 0..k-1 insert, k next, k+1 close, k+2 next(cancelled), k+3 Len/IsClosed
	k := len(items)
	nops := k + 4
	return func(q *vh.Q) {
		buf := make([]int, depth)
		run := func() error {
			qu := coalesce.NewQueue()
			m := mq{}
			for i, op := range buf {
				switch {
				case op < k:
					added, err := qu.Insert(items[op])
					if m.closed {
						if !coalesce.IsClosedQueue(err) || added {
							return vh.Errf("insert-after-close", "step %d: Insert on closed queue: %v %v", i, added, err)
						}
						break
					}
					n, wa := m.insert(names[items[op]])
					if err != nil || added != wa {
						return vh.Errf("insert", "step %d: Insert(%s) = %v,%v want %v,nil", i, names[items[op]], added, err, wa)
					}
					m = n
				case op == k, op == k+2:
					ctx := context.Background()
					if op == k+2 {
						c, cancel := context.WithCancel(ctx)
						cancel()
						ctx = c
					} else if len(m.q) == 0 && !m.closed {
						break // would block
					}
					v, dup, err := qu.Next(ctx)
					switch {
					case len(m.q) > 0 && err == nil:
						if names[v] != m.q[0].item || int(dup) != m.q[0].dup {
							return vh.Errf("next", "step %d: Next = %v,%d want %+v", i, names[v], dup, m.q[0])
						}
						m = mq{m.q[1:], m.closed}
					case len(m.q) > 0:
						if op == k || coalesce.IsClosedQueue(err) {
							return vh.Errf("next", "step %d: Next = error %v want %+v", i, err, m.q[0])
						}
					case err == nil:
						return vh.Errf("next", "step %d: Next = %v on empty queue", i, v)
					case coalesce.IsClosedQueue(err) && !m.closed, !coalesce.IsClosedQueue(err) && op == k:
						return vh.Errf("next", "step %d: Next on empty queue, closed=%v: %v", i, m.closed, err)
					}
				case op == k+1:
					qu.Close()
					m.closed = true
				default:
					if qu.Len() != len(m.q) || qu.IsClosed() != m.closed {
						return vh.Errf("len", "step %d: Len=%d IsClosed=%v want %d %v", i, qu.Len(), qu.IsClosed(), len(m.q), m.closed)
					}
				}
				q.Trans(1)
				if i == len(buf)-1 {
					q.State(m.key())
				}
			}
			q.Outcome(m.key())
			return nil
		}
		for {
			if q.Expired() {
				return
			}
			if !q.Do(func() string {
				return fmt.Sprintf("ops %v (0..%d insert item, %d next, %d close, %d next(cancelled), %d len)", buf, k-1, k, k+1, k+2, k+3)
			}, run) {
				return
			}
			i := depth - 1
			for ; i >= 0; i-- {
				if buf[i]++; buf[i] < nops {
					break
				}
				buf[i] = 0
			}
			if i < 0 {
				q.Sample("all %d^%d sequences over items %v", nops, depth, names)
				return
			}
		}
	}
}

func main() {
	vh.Main(vh.Check{
		Property: "C11",
		QuickSec: 40, ThoroughSec: 420,
		Rule: "concurrent: producers with fixed insertion lists over 2-3 items, one consumer looping on Next, optional concurrent/late Close, optional cancellation (consumer stops, or resumes with a live context); every interleaving of lock/channel/select operations within the deviation bound; each history must be linearizable against a first-insertion-order queue with duplicate counts, no thread may stay blocked. sequential: all operation sequences of the stated length, compared step by step with the model.",
		Assumptions: []string{
			"one consumer, as the server uses it",
			"an insertion that overlaps Close may be accepted or refused",
			"sync, channels and select behave as modelled by the controlled scheduler (sequentially consistent; data races are looked for by the race-detector pass)",
		},
		Scenarios: func(tier string) []vh.Scenario {
			deep := tier == "thorough"
			var out []vh.Scenario
			cs := []conf{
				{prods: [][]string{{"a"}}},
				{prods: [][]string{{"a", "a"}}, close: "conc"},
				{prods: [][]string{{"a", "b"}, {"a"}}, close: "conc"},
				{prods: [][]string{{"a", "b"}, {"b", "a"}}, close: "after"},
				{prods: [][]string{{"a", "a"}, {"a"}}, close: "after"},
				{prods: [][]string{{"a", "b", "a"}}, close: "after"},
				{prods: [][]string{{"a"}, {"a"}, {"a"}}},
				{prods: [][]string{{"a"}, {"b"}, {"c"}}, close: "conc"},
				{prods: [][]string{{"a"}, {"b"}}, cancel: "stop"},
				{prods: [][]string{{"a", "b"}}, cancel: "resume"},
				{prods: [][]string{{"a"}, {"a"}}, cancel: "resume", close: "conc"},
				{prods: [][]string{{"a", "a"}, {"b"}}, cancel: "stop", close: "conc"},
				{prods: [][]string{{"a"}, {"b"}}, close: "conc", len: true},
				{prods: [][]string{{"a", "b", "c"}, {"c", "b", "a"}}},
			}
			if deep {
				cs = append(cs,
					conf{prods: [][]string{{"a", "b", "a"}, {"b", "a", "b"}}, close: "conc"},
					conf{prods: [][]string{{"a", "b"}, {"a", "b"}, {"a"}}, close: "conc"},
					conf{prods: [][]string{{"a", "b"}, {"b", "c"}, {"c", "a"}}, close: "after"},
					conf{prods: [][]string{{"a", "a", "a", "a"}, {"a", "b"}}, close: "after"},
					conf{prods: [][]string{{"a"}, {"b"}, {"c"}, {"a"}}, close: "conc", cancel: "resume"},
				)
			}
			b := 3
			if deep {
				b = 6
			}
			for _, c := range cs {
				out = append(out, vh.Scenario{Name: c.name(), Body: body(c), MaxBound: b, Declared: b - 2, Race: true, RaceBound: 1})
			}
			p1, p2 := &ptr{1}, &ptr{1}
			d := 7
			if deep {
				d = 8
			}
			out = append(out,
				vh.Scenario{Name: "sizes", Seq: sizes, First: true},
				vh.Scenario{Name: fmt.Sprintf("seq strings depth %d", d), Seq: seq([]any{"a", "b", "c"}, d), First: true},
				vh.Scenario{Name: fmt.Sprintf("seq pointers depth %d", d+1), Seq: seq([]any{p1, p2}, d+1), First: true},
			)
			return out
		},
	})
}
