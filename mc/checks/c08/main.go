//go:build go1.23

// Check C08: a stalled subscriber cannot stall the collector or other
// subscribers.
package main

import (
	"fmt"
	"time"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vs"
)

const timeout = 10 * time.Second

var (
	short   = timeout - 1
	long    = timeout + timeout/2
	forever = time.Duration(-1)
)

func newWorld(x *vh.X, targets []string, noDup bool) *vs.World {
	o := []subscribe.Option{subscribe.WithTimeout(timeout), subscribe.WithStats()}
	if noDup {
		o = append(o, subscribe.WithoutDupReport())
	}
	return vs.New(x, targets, []cache.Option{cache.WithExcludedMeta(vs.NoMeta)}, o)
}

func accepted(w *vs.World) {
	if st := w.StuckOps(); st != "" {
		w.Fail("stalled-collector", "cache operations wait for a subscriber: %s; %v", st, vrt.Blocked())
	}
}

// end judges whether a subscriber ended because of a stalled send, and only
// then.
func end(w *vs.World, s *vs.Sub) {
	var stuck *vs.Item
	for i := range s.Sent {
		if i < len(s.Stalls) && (s.Stalls[i] < 0 || s.Stalls[i] > timeout) {
			stuck = &s.Sent[i]
			break
		}
	}
	if stuck == nil {
		if s.Ended {
			w.Fail("ended", "subscriber %d, whose sends never stall for the timeout, ended: %v", s.ID, s.Err)
		}
		return
	}
	if !s.Ended || s.Err == nil {
		w.Fail("timeout", "subscriber %d: a send blocked for longer than the timeout; ended=%v with %v", s.ID, s.Ended, s.Err)
	}
	if d := s.EndT - stuck.T; d < int64(timeout) || d > 2*int64(timeout) {
		w.Fail("timeout", "subscriber %d: a send blocked since %v, the subscription ended %v later with a timeout of %v", s.ID, stuck.T, time.Duration(d), timeout)
	}
}

func queueSize(w *vs.World) int64 {
	for _, c := range w.S.ClientStats() {
		return c.QueueSize
	}
	return -1
}

type named struct {
	name string
	vs.Act
}

func ops() []named {
	ts := func(w *vs.World) int64 { return 100 + int64(len(w.Ops)) }
	return []named{
		{"set a/b", func(w *vs.World) { w.Set("t", ts(w), ts(w), "a", "b") }},
		{"set a/c", func(w *vs.World) { w.Set("t", ts(w), ts(w), "a", "c") }},
		{"del a/b", func(w *vs.World) { w.Del("t", ts(w), "a", "b") }},
		{"set a/b, a/d", func(w *vs.World) {
			vs.ANotif("t", "", []string{"a"}, ts(w), false, [][]string{{"b"}, {"d"}}, ts(w))(w)
		}},
		{"atomic a/e", func(w *vs.World) {
			vs.ANotif("t", "", []string{"a", "e"}, ts(w), true, [][]string{{"x"}, {"y"}}, ts(w))(w)
		}},
	}
}

type plan struct {
	req    *pb.SubscribeRequest
	stalls []time.Duration
	gap    time.Duration // virtual time between operations
	seq    []named
	noDup  bool
}

// patterns of stalls of the first sends.
func stallPatterns(n int) [][]time.Duration {
	out := [][]time.Duration{nil}
	for i := 0; i < n; i++ {
		var next [][]time.Duration
		for _, p := range out {
			for _, d := range []time.Duration{0, short, long, forever} {
				next = append(next, append(append([]time.Duration(nil), p...), d))
				if d > timeout || d < 0 {
					continue
				}
			}
		}
		out = next
	}
	// What follows a fatal stall does not matter.
	var res [][]time.Duration
	seen := map[string]bool{}
	for _, p := range out {
		for i, d := range p {
			if d > timeout || d < 0 {
				p = p[:i+1]
				break
			}
		}
		if k := fmt.Sprint(p); !seen[k] {
			seen[k] = true
			res = append(res, p)
		}
	}
	return res
}

// stalled runs one stalling subscriber next to a healthy one.
func stalled(x *vh.X, p plan) {
	w := newWorld(x, []string{"t"}, p.noDup)
	w.Set("t", 0, 1, "a", "b")
	w.Set("t", 0, 2, "a", "c")
	ok := w.Subscribe(vs.Stream("t", "", false, "a"), false)
	w.Settle()
	s := w.Prepare(vs.CloneReq(p.req))
	s.Stalls = p.stalls
	uo := p.req.GetSubscribe().GetUpdatesOnly()
	walked := map[string]bool{}
	if !uo {
		for _, k := range w.Keys() {
			walked[k] = true
		}
	}
	from := len(w.Feed)
	s.Start()
	w.Settle()
	t0 := vrt.Now()
	for _, o := range p.seq {
		now := vrt.Now()
		o.Act(w)
		w.Settle()
		accepted(w)
		if vrt.Now() != now {
			w.Fail("stalled-collector", "accepting an update took %v", time.Duration(vrt.Now()-now))
		}
		w.JudgeStream(ok, nil, false)
		if p.gap > 0 {
			vrt.Sleep(int64(p.gap))
		}
	}
	_ = t0
	// All stalls pass; being idle for longer than the timeout is no stall.
	vrt.Sleep(int64(20 * timeout))
	w.Settle()
	end(w, s)
	if s.Ended {
		w.Set("t", 900, 900, "a", "b")
		w.Settle()
		accepted(w)
		w.JudgeStream(ok, nil, false)
		x.Outcome("%v", s.Err)
		return
	}
	w.JudgeStream(s, nil, false)
	if p.noDup {
		for _, it := range s.Sent {
			for _, u := range it.Resp.GetUpdate().GetUpdate() {
				if u.GetDuplicates() != 0 {
					w.Fail("duplicates", "duplicates are reported although disabled")
				}
			}
		}
	} else {
		w.JudgeDup(s, from, walked)
	}
	w.Set("t", 900, 900, "a", "b")
	vrt.Sleep(int64(20 * timeout))
	w.Settle()
	end(w, s)
	if !s.Ended {
		w.JudgeStream(s, nil, false)
	}
	x.Outcome("%v", s.Responses())
}

// backlog blocks a subscriber, applies operations and bounds what is pending.
func backlog(x *vh.X, req *pb.SubscribeRequest, seq []named, early bool) {
	w := newWorld(x, []string{"t"}, false)
	w.Set("t", 0, 1, "a", "b")
	w.Set("t", 0, 2, "a", "c")
	s := w.Prepare(vs.CloneReq(req))
	uo := req.GetSubscribe().GetUpdatesOnly()
	from := len(w.Feed)
	if early {
		s.Block()
	}
	walked := map[string]bool{}
	s.Start()
	w.Settle()
	if !uo {
		for _, k := range w.Keys() {
			walked[k] = true
		}
	}
	if !early {
		s.Block()
	}
	for _, o := range seq {
		o.Act(w)
		w.Settle()
		accepted(w)
	}
	// One send is in progress; everything else is queued.
	bound := w.Pending(s, from)
	if early {
		bound++ // sync response
		for k := range walked {
			set := false
			for _, f := range w.Feed[from:] {
				if _, st, del := vs.About(f.N, k); st || del {
					set = st
					break
				}
			}
			if !set {
				bound++
			}
		}
	}
	at := len(s.Sent)
	if at == 0 {
		return // nothing to send yet
	}
	s.Allow(1)
	w.Settle()
	if n := queueSize(w); len(s.Sent) > at && n+1 > int64(bound) {
		w.Fail("backlog", "subscriber %d: %d entries are queued behind the send in progress, %d distinct leaves and deletes are pending", s.ID, n, bound)
	}
	s.Unblock()
	w.Settle()
	first := at - 1
	if !early && first < 0 {
		first = 0
	}
	if early || at > 0 {
		n := len(s.Sent) - at
		if n > bound {
			w.Fail("backlog", "subscriber %d: %d entries were pending, at most %d distinct leaves and deletes", s.ID, n, bound)
		}
	}
	w.JudgeStream(s, nil, false)
	w.JudgeDup(s, from, walked)
	// Newest values: what is sent after resuming is current.
	x.Outcome("%v", s.Responses())
}

// stuckModes: ONCE and POLL subscribers that stall.
func stuckModes(x *vh.X, req *pb.SubscribeRequest, stalls []time.Duration) {
	w := newWorld(x, []string{"t"}, false)
	w.Set("t", 0, 1, "a", "b")
	w.Set("t", 0, 2, "a", "c")
	s := w.Prepare(vs.CloneReq(req))
	s.Stalls = stalls
	s.Start()
	w.Settle()
	w.Set("t", 1, 5, "a", "b")
	w.Settle()
	accepted(w)
	vrt.Sleep(int64(20 * timeout))
	w.Settle()
	once := req.GetSubscribe().GetMode() == pb.SubscriptionList_ONCE
	fatal := false
	for i := range s.Sent {
		fatal = fatal || i < len(stalls) && (stalls[i] < 0 || stalls[i] > timeout)
	}
	switch {
	case fatal:
		end(w, s)
	case once:
		w.JudgeOnce(s, nil)
	default:
		end(w, s)
		w.JudgePoll(s, nil, nil)
	}
	x.Outcome("%v %v", s.Responses(), s.Err)
}

type conf struct {
	name    string
	targets []string
	reqs    []*pb.SubscribeRequest
	writers [][]vs.Act
	block   []bool          // initially blocked
	free    int             // sends the blocked ones are allowed
	toggle  bool            // a thread unblocks (and blocks) subscriber 0 meanwhile
	stalls  []time.Duration // of subscriber 0
	before  bool            // subscriptions are settled before the writers start
	later   []vs.Act        // applied (from the main thread) while still blocked
}

func body(c conf) func(x *vh.X) {
	return func(x *vh.X) {
		ts := c.targets
		if ts == nil {
			ts = []string{"t"}
		}
		w := newWorld(x, ts, false)
		for _, t := range ts {
			w.Set(t, 0, 1, "a", "b")
		}
		from := len(w.Feed)
		for i, r := range c.reqs {
			s := w.Prepare(vs.CloneReq(r))
			if i == 0 {
				s.Stalls = c.stalls
			}
			if c.block[i] && !c.before {
				s.Block()
				s.Allow(c.free)
			}
			s.Start()
		}
		walked := map[string]bool{}
		if c.before {
			w.Settle()
			if !vrt.RaceEnabled {
				for _, k := range w.Keys() {
					walked[k] = true
				}
			}
			for i, s := range w.Subs {
				if c.block[i] {
					s.Block()
					s.Allow(c.free)
				}
			}
		}
		for i, th := range c.writers {
			th := th
			vrt.GoN(fmt.Sprintf("writer%d", i), func() {
				for _, a := range th {
					a(w)
				}
			})
		}
		if c.toggle {
			vrt.GoN("toggler", func() {
				vrt.Yield()
				w.Subs[0].Unblock()
				vrt.Yield()
				w.Subs[0].Block()
			})
		}
		now := vrt.Now()
		w.Settle()
		for _, a := range c.later {
			a(w)
		}
		w.Settle()
		accepted(w)
		if vrt.Now() != now {
			w.Fail("stalled-collector", "time passed")
		}
		for i, s := range w.Subs {
			if !c.block[i] && (i > 0 || c.stalls == nil) {
				w.JudgeStream(s, nil, false)
			}
		}
		if c.stalls != nil {
			vrt.Sleep(int64(20 * timeout))
			w.Settle()
			if !vrt.RaceEnabled {
				end(w, w.Subs[0])
			}
		}
		out := ""
		for i, s := range w.Subs {
			if c.block[i] {
				s.Unblock()
			}
		}
		w.Settle()
		for _, s := range w.Subs {
			if !s.Ended {
				w.JudgeStream(s, nil, false)
				if c.before {
					w.JudgeDup(s, from, walkedOf(s, walked))
				}
			}
			out += s.Responses() + "|"
		}
		for _, s := range w.Subs {
			s.Cancel()
		}
		w.Settle()
		x.Outcome("%s", out)
	}
}

func walkedOf(s *vs.Sub, walked map[string]bool) map[string]bool {
	if s.Req.GetSubscribe().GetUpdatesOnly() {
		return nil
	}
	return walked
}

func main() {
	vh.Main(vh.Check{
		Property: "C08", QuickSec: 45, ThoroughSec: 800,
		Rule: "every pattern of stalls (none, just below the timeout, above it, for ever) of a subscriber's first sends x every operation sequence to the stated length x pauses between operations, next to a healthy subscriber, in virtual time through the real cache and Subscribe server: operations return without time passing, the healthy one converges, the stalled one ends exactly when a send outlasts the timeout and otherwise converges with exact duplicate counts and a bounded backlog; plus every interleaving within the delay bound of writers with blocked, toggling and healthy subscribers.",
		Assumptions: []string{
			"a blocked stream is a Send call that does not return",
			"one update stream per target",
			"virtual time: threads run infinitely fast compared to the timeout",
		},
		Scenarios: func(tier string) []vh.Scenario {
			var out []vh.Scenario
			deep := tier == "thorough"
			out = append(out, vh.Scenario{Name: "sizes", Seq: sizes, First: true})
			length, sends := 3, 3
			if deep {
				length, sends = 4, 4
			}
			reqs := []*pb.SubscribeRequest{vs.Stream("t", "", false, "a"), vs.Stream("t", "", true, "a"), vs.Stream("*", "", false, "a/b", "*"), vs.Stream("t", "", true, "a/b", "a", "*/c")}
			seqs := func(n int, f func([]named, string) bool) {
				os := ops()
				total := 1
				for i := 0; i < n; i++ {
					total *= len(os)
				}
				for i := 0; i < total; i++ {
					var seq []named
					what := ""
					for j, m := 0, i; j < n; j, m = j+1, m/len(os) {
						seq = append(seq, os[m%len(os)])
						what += os[m%len(os)].name + "; "
					}
					if !f(seq, what) {
						return
					}
				}
			}
			for ri, r := range reqs {
				for gi, gap := range []time.Duration{0, short, timeout / 2} {
					r, gap := r, gap
					out = append(out, vh.Scenario{Name: fmt.Sprintf("stalls, request %d, pause %d", ri, gi), Seq: func(q *vh.Q) {
						for _, st := range stallPatterns(sends) {
							seqs(length, func(seq []named, what string) bool {
								if q.Expired() {
									return false
								}
								d := fmt.Sprintf("stalls %v, request %v, pause %v: %s", st, vc.Msg(r), gap, what)
								q.State(d)
								q.Sample("%s", d)
								return q.Do(func() string { return d }, func() error {
									return q.Exec(func(x *vh.X) { stalled(x, plan{req: r, stalls: st, gap: gap, seq: seq}) })
								})
							})
						}
					}})
				}
				r := r
				out = append(out, vh.Scenario{Name: fmt.Sprintf("backlog, request %d", ri), Seq: func(q *vh.Q) {
					for _, early := range []bool{false, true} {
						for n := 1; n <= length+1; n++ {
							seqs(n, func(seq []named, what string) bool {
								if q.Expired() {
									return false
								}
								d := fmt.Sprintf("blocked from the start %v, request %v: %s", early, vc.Msg(r), what)
								q.State(d)
								return q.Do(func() string { return d }, func() error {
									return q.Exec(func(x *vh.X) { backlog(x, r, seq, early) })
								})
							})
						}
					}
				}})
			}
			out = append(out, vh.Scenario{Name: "ONCE and POLL stalls, duplicates not reported", Seq: func(q *vh.Q) {
				for _, st := range stallPatterns(3) {
					for _, r := range []*pb.SubscribeRequest{vs.Once("t", "", "a"), vs.Poll("t", "", "a"), vs.Once("t", "", "z"), vs.Poll("t", "", "z")} {
						if q.Expired() {
							return
						}
						d := fmt.Sprintf("stalls %v, request %v", st, vc.Msg(r))
						q.State(d)
						if !q.Do(func() string { return d }, func() error { return q.Exec(func(x *vh.X) { stuckModes(x, r, st) }) }) {
							return
						}
					}
					seqs(2, func(seq []named, what string) bool {
						d := fmt.Sprintf("no duplicate reports, stalls %v: %s", st, what)
						return q.Do(func() string { return d }, func() error {
							return q.Exec(func(x *vh.X) { stalled(x, plan{req: reqs[0], stalls: st, seq: seq, noDup: true}) })
						})
					})
				}
			}})
			R := func(x ...*pb.SubscribeRequest) []*pb.SubscribeRequest { return x }
			ws := func(x ...[]vs.Act) [][]vs.Act { return x }
			B := func(b ...bool) []bool { return b }
			w1 := []vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ASet("t", 2, 3, "a", "b"), vs.ADel("t", 3, "a"), vs.ASet("t", 4, 4, "a", "b")}
			w2 := []vs.Act{vs.ASet("s", 1, 2, "a", "b"), vs.ASet("s", 2, 3, "a", "c")}
			st := vs.Stream("t", "", false, "a")
			all := vs.Stream("*", "", false, "a", "*/b")
			uo := vs.Stream("t", "", true, "a", "a/b")
			cs := []conf{
				{name: "blocked from the start", reqs: R(st, st), block: B(true, false), writers: ws(w1)},
				{name: "blocked after the start", reqs: R(st, st), block: B(true, false), writers: ws(w1), before: true},
				{name: "blocked in the snapshot", reqs: R(all, st), targets: []string{"t", "s"}, block: B(true, false), free: 1, writers: ws(w1, w2)},
				{name: "two blocked", reqs: R(all, uo, st), targets: []string{"t", "s"}, block: B(true, true, false), before: true, writers: ws(w1, w2)},
				{name: "toggling", reqs: R(st, st), block: B(true, false), before: true, toggle: true, writers: ws(w1)},
				{name: "toggling updates only", reqs: R(uo), block: B(true), before: true, toggle: true, writers: ws(w1)},
				{name: "slow", reqs: R(uo), block: B(false), before: true, writers: ws(w1)},
				{name: "stalled for ever", reqs: R(st, uo), block: B(false, false), stalls: []time.Duration{0, 0, forever}, before: true, writers: ws(w1)},
				{name: "stalled for long", reqs: R(st, uo), block: B(false, false), stalls: []time.Duration{0, long}, writers: ws(w1)},
				{name: "stalled shortly", reqs: R(st, uo), block: B(false, false), stalls: []time.Duration{0, short, short, short}, before: true, writers: ws(w1)},
				{name: "reset and removal while blocked", reqs: R(all, st), targets: []string{"t", "s"}, block: B(true, false), before: true, writers: ws([]vs.Act{vs.AReset("t"), vs.ASet("t", 1, 2, "a", "b")}, []vs.Act{vs.ARemove("s")})},
			}
			b, decl := 6, 2
			if deep {
				b, decl = 9, 3
			}
			for _, c := range cs {
				sc := vh.Scenario{Name: c.name, Body: body(c), MaxBound: b, Declared: decl, Race: true, RaceBound: 1}
				sc.Opt.Delay = true
				out = append(out, sc)
			}
			return out
		},
	})
}
