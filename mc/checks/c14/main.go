//go:build go1.23

// Check C14: Reset and Remove clear exactly one target and announce it;
// targets are isolated.
package main

import (
	"fmt"
	"strings"
	"time"

	"google.golang.org/grpc/codes"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/metadata"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vm"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vs"
)

var counters = []string{metadata.LeafCount, metadata.AddCount, metadata.DelCount, metadata.UpdateCount, metadata.SuppressedCount, metadata.StaleCount, metadata.EmptyCount, metadata.FutureCount}

// noTime is how the latest timestamp of a target without updates is exported.
var noTime = time.Time{}.UnixNano()

// fresh checks that a target shows its initial state.
func fresh(w *vs.World, t string, zero bool) {
	md := w.C.Metadata()[t]
	for _, k := range []string{metadata.Sync, metadata.Connected} {
		if v, err := md.GetBool(k); err != nil || v {
			w.Fail("reset-meta", "after a reset of %q: %s is %v (%v)", t, k, v, err)
		}
	}
	if v, err := md.GetInt(metadata.LatestTimestamp); zero && (err != nil || (v != 0 && v != noTime)) {
		w.Fail("reset-meta", "after a reset of %q: %s is %d (%v)", t, metadata.LatestTimestamp, v, err)
	}
	if zero {
		for _, k := range counters {
			if v, err := md.GetInt(k); err != nil || v != 0 {
				w.Fail("reset-meta", "after a reset of %q: %s is %d (%v)", t, k, v, err)
			}
		}
	}
	w.C.Query(t, []string{"*"}, func(p []string, _ *ctree.Leaf, v any) error {
		n := v.(*pb.Notification)
		ix := vm.P(vs.NKey(n))[1:]
		if ix[0] != metadata.Root {
			w.Fail("reset-left", "after a reset of %q the leaf %q is stored", t, ix)
		}
		if b, ok := n.GetUpdate()[0].GetVal().GetValue().(*pb.TypedValue_BoolVal); ok && b.BoolVal {
			w.Fail("reset-meta-leaf", "after a reset of %q the metadata leaf %q is true", t, ix)
		}
		return nil
	})
}

// stored renders what is stored for a target.
func stored(w *vs.World, t string) string {
	var b strings.Builder
	for _, n := range w.Stored() {
		if n.GetPrefix().GetTarget() == t {
			fmt.Fprintf(&b, "%q=%s@%d ", vm.P(vs.NKey(n)), vs.Value(n), n.GetTimestamp())
		}
	}
	return b.String()
}

type op struct {
	name   string
	target string
	kind   string
	run    func(w *vs.World)
}

func ops(targets []string) []op {
	var out []op
	ts := func(w *vs.World) int64 { return 100 + int64(len(w.Ops)) }
	for _, t := range targets {
		t := t
		out = append(out,
			op{"set " + t, t, "set", func(w *vs.World) { w.Set(t, ts(w), ts(w), "a", "b") }},
			op{"set more " + t, t, "set", func(w *vs.World) {
				vs.ANotif(t, "o", nil, ts(w), false, [][]string{{"a", "b"}, {"c"}}, ts(w))(w)
			}},
			op{"reset " + t, t, "reset", vs.AReset(t)},
			op{"remove " + t, t, "remove", vs.ARemove(t)},
			op{"add " + t, t, "add", func(w *vs.World) {
				if !w.C.HasTarget(t) {
					w.Add(t)
				}
			}},
			op{"connect and sync " + t, t, "life", func(w *vs.World) { w.Connect(t); w.Sync(t) }},
		)
	}
	return out
}

// attached runs a sequence of operations with subscribers starting at a point.
func attached(x *vh.X, seq []op, at int, uo bool) {
	w := vs.New(x, []string{"t", "s"}, nil, nil)
	for _, a := range []vs.Act{vs.ASet("t", 0, 1, "a", "b"), vs.ASet("s", 0, 1, "a", "b"), vs.ANotif("s", "o", nil, 0, false, [][]string{{"a", "b"}}, 5)} {
		a(w)
	}
	type att struct {
		s      *vs.Sub
		target string
		gone   bool // its target was removed since
		known  bool // the target was known when it subscribed
	}
	var subs []*att
	attach := func() {
		for _, r := range []*pb.SubscribeRequest{vs.Stream("t", "", uo, ""), vs.Stream("s", "", uo, "a/b", "o/a"), vs.Stream("*", "", uo, "*/b", "o"), vs.Stream("t", "o", uo, "a", "c")} {
			tg := r.GetSubscribe().GetPrefix().GetTarget()
			subs = append(subs, &att{target: tg, known: w.C.HasTarget(tg)})
			subs[len(subs)-1].s = w.Subscribe(r, false)
			w.Settle()
		}
	}
	judge := func() {
		for _, a := range subs {
			switch {
			case a.target == "*":
				w.JudgeStream(a.s, nil, false)
			case !a.known:
				if !a.s.Ended || a.s.Code() != codes.NotFound || len(a.s.Sent) > 0 {
					w.Fail("unknown-target", "subscription to the unknown target %q: ended=%v %v", a.target, a.s.Ended, a.s.Err)
				}
			case a.gone:
				if !a.s.Ended || a.s.Err != nil {
					w.Fail("not-ended", "subscriber %d of the removed target %q: ended=%v %v", a.s.ID, a.target, a.s.Ended, a.s.Err)
				}
				if got := a.s.Replay(a.s.Sent); len(got) > 0 {
					w.Fail("not-cleared", "subscriber %d of the removed target %q ended while holding %v", a.s.ID, a.target, got)
				}
			default:
				w.JudgeStream(a.s, nil, false)
			}
		}
	}
	if at == 0 {
		attach()
		judge()
	}
	for i, o := range seq {
		others := map[string]string{}
		for _, t := range []string{"t", "s"} {
			if t != o.target {
				others[t] = stored(w, t) + fmt.Sprint(w.C.HasTarget(t))
			}
		}
		var seen []int
		for _, a := range subs {
			seen = append(seen, len(a.s.Sent))
		}
		was := w.C.HasTarget(o.target)
		feed := len(w.Feed)
		o.run(w)
		w.Settle()
		for _, t := range []string{"t", "s"} {
			if t != o.target && others[t] != stored(w, t)+fmt.Sprint(w.C.HasTarget(t)) {
				w.Fail("isolation", "%s changed target %q from %s to %s", o.name, t, others[t], stored(w, t))
			}
		}
		for _, f := range w.Feed[feed:] {
			if f.N.GetPrefix().GetTarget() != o.target {
				w.Fail("isolation", "%s announced %s", o.name, vc.Msg(f.N))
			}
		}
		for k, a := range subs {
			if a.target != "*" && a.target != o.target && len(a.s.Sent) != seen[k] {
				w.Fail("isolation", "%s: a subscriber of %q received %s", o.name, a.target, vc.Msg(a.s.Sent[seen[k]].Resp))
			}
			if o.kind == "remove" && was && a.target == o.target {
				a.gone = true
			}
		}
		switch o.kind {
		case "reset":
			if was {
				fresh(w, o.target, true)
			}
		case "remove":
			if w.C.HasTarget(o.target) || stored(w, o.target) != "" || w.C.Query(o.target, []string{"*"}, func([]string, *ctree.Leaf, any) error { return nil }) == nil {
				w.Fail("still-known", "target %q is known after Remove", o.target)
			}
			if w.C.GnmiUpdate(vc.Note(500, vc.Prefix(o.target, "", nil), []*pb.Update{vc.U(vc.P("a", "b"), vc.I(1))}, nil)) == nil {
				w.Fail("still-known", "an update for the removed target %q is accepted", o.target)
			}
		}
		judge()
		if at == i+1 {
			attach()
			judge()
		}
	}
	out := ""
	for _, a := range subs {
		out += a.s.Responses() + fmt.Sprint(a.s.Err) + "|"
		a.s.Cancel()
	}
	w.Settle()
	x.Outcome("%s", out)
}

type conf struct {
	name    string
	targets []string
	init    []vs.Act
	reqs    []*pb.SubscribeRequest
	writers [][]vs.Act
	final   func(w *vs.World)
	racer   bool
}

func body(c conf) func(x *vh.X) {
	return func(x *vh.X) {
		w := vs.New(x, []string{"t", "s"}, []cache.Option{cache.WithExcludedMeta(vs.NoMeta)}, nil)
		for _, a := range []vs.Act{vs.ASet("t", 0, 1, "a", "b"), vs.ASet("s", 0, 1, "a", "b")} {
			a(w)
		}
		for _, a := range c.init {
			a(w)
		}
		for _, r := range c.reqs {
			w.Subscribe(vs.CloneReq(r), false)
		}
		for i, th := range c.writers {
			th := th
			vrt.GoN(fmt.Sprintf("writer%d", i), func() {
				for _, a := range th {
					a(w)
				}
			})
		}
		w.Settle()
		if st := w.StuckOps(); st != "" {
			w.Fail("stuck", "cache operations never returned: %s; %v", st, vrt.Blocked())
		}
		removed := map[string]bool{}
		for _, o := range w.Ops {
			if o.Kind == "remove" {
				removed[o.Target] = true
			}
		}
		out := ""
		for _, s := range w.Subs {
			tg := s.Req.GetSubscribe().GetPrefix().GetTarget()
			out += s.Responses() + fmt.Sprint(s.Ended, s.Err) + "|"
			if vrt.RaceEnabled {
				continue
			}
			switch {
			case s.Ended && removed[tg]:
				if s.Err != nil && s.Code() != codes.NotFound {
					w.Fail("not-clean", "subscriber %d of the removed target %q ended with %v", s.ID, tg, s.Err)
				}
				if got := s.Replay(s.Sent); len(got) > 0 {
					w.Fail("not-cleared", "subscriber %d of the removed target %q ended while holding %v", s.ID, tg, got)
				}
			case removed[tg] && !w.C.HasTarget(tg):
				w.Fail("not-ended", "subscriber %d of the removed target %q has not ended: %v", s.ID, tg, vrt.Blocked())
			default:
				w.JudgeStream(s, nil, false)
			}
		}
		if c.final != nil && !vrt.RaceEnabled {
			c.final(w)
			w.Settle()
			for _, s := range w.Subs {
				if !s.Ended {
					w.JudgeStream(s, nil, false)
				}
			}
		}
		for _, s := range w.Subs {
			s.Cancel()
		}
		w.Settle()
		x.Outcome("%s", out)
	}
}

func main() {
	vh.Main(vh.Check{
		Property: "C14", QuickSec: 50, ThoroughSec: 800,
		Rule: "breadth-first exploration of all histories of updates, deletes, lifecycle events, Reset, Remove and Add over one and two targets to a depth or fixpoint with the effects on the stored leaves, metadata, feed and other targets judged after every operation; every operation sequence to the stated length with single-target and all-targets STREAM subscribers attached at every point; plus every interleaving within the delay bound of Reset/Remove/Add with starting subscribers, metadata refreshes and other targets' updates.",
		Assumptions: []string{
			"one update stream per target; it has ended when the target is removed",
			"single-target subscriptions that end at a removal are STREAM subscriptions; POLL subscriptions answer further polls with an empty snapshot",
			"Add is not applied to a target that is already known",
		},
		Scenarios: func(tier string) []vh.Scenario {
			out := vc.Sizes(vc.Cfg{Check: "C14"}, 1025)
			deep := tier == "thorough"
			d1, d2, length, d3 := 12, 5, 3, 3
			if deep {
				d1, d2, length, d3 = 40, 8, 4, 4
			}
			for _, ne := range []bool{false, true} {
				ne := ne
				out = append(out,
					vh.Scenario{Name: fmt.Sprintf("one target eventdriven=%v", !ne), Seq: func(q *vh.Q) {
						vc.BFS(q, vc.Cfg{Targets: []string{"t"}, NoEvent: ne, Check: "C14"}, append(vc.LifeOps("t"), vc.Op{Name: "size", Kind: "size", Do: func(w *vc.World) error { return w.Life("t", "size") }}), d1)
					}},
					vh.Scenario{Name: fmt.Sprintf("two targets eventdriven=%v", !ne), Seq: func(q *vh.Q) {
						vc.BFS(q, vc.Cfg{Targets: []string{"t", "s"}, NoEvent: ne, Check: "C14"}, vc.LifeOps("t", "s"), d2)
					}},
					vh.Scenario{Name: fmt.Sprintf("contents of one, another present eventdriven=%v", !ne), Seq: func(q *vh.Q) {
						o := append(vc.SharedOps(true, 0), vc.AtomicOps(!ne)...)
						o = append(o,
							vc.Op{Name: "reset t", Kind: "reset", Do: func(w *vc.World) error { return w.Reset("t") }},
							vc.Op{Name: "remove s", Kind: "remove", Do: func(w *vc.World) error { return w.Remove("s") }},
							vc.Op{Name: "add s", Kind: "add", Do: func(w *vc.World) error { return w.Add("s") }},
							vc.NewOp("u", func(w *vc.World) *pb.Notification {
								return vc.Note(0, vc.Prefix("s", "", nil), []*pb.Update{vc.U(vc.P("a", "b"), vc.I(1))}, nil)
							}, "update s a/b"),
						)
						vc.BFS(q, vc.Cfg{Targets: []string{"t", "s"}, NoEvent: ne, Check: "C14"}, o, d3)
					}},
					vh.Scenario{Name: fmt.Sprintf("origins eventdriven=%v", !ne), Seq: func(q *vh.Q) {
						o := vc.PathOps([]vc.Pth{{nil, []string{"a"}, false, false}, {[]string{"o"}, []string{"a"}, false, false}, {nil, []string{"b[k=2][j=1]"}, false, false}}, []string{"", "o"}, []int64{0})
						o = append(o, vc.Op{Name: "reset t", Kind: "reset", Do: func(w *vc.World) error { return w.Reset("t") }})
						vc.BFS(q, vc.Cfg{Targets: []string{"t", "s"}, NoEvent: ne, Check: "C14"}, o, 5)
					}},
				)
			}
			// Names that resemble each other and reserved ones.
			for _, nm := range []struct{ t, s string }{{"t", "tt"}, {"tt", "t"}, {"a", "meta"}, {"*t", "t"}} {
				nm := nm
				out = append(out, vh.Scenario{Name: fmt.Sprintf("names %q %q", nm.t, nm.s), Seq: func(q *vh.Q) {
					var o []vc.Op
					for _, t := range []string{nm.t, nm.s} {
						t := t
						for _, r := range [][]string{{"metal"}, {"metadata", "sync"}, {"Meta", "a"}, {"met"}, {t, "meta", "sync"}, {"openconfig"}} {
							r := r
							o = append(o, vc.NewOp("u", func(w *vc.World) *pb.Notification {
								return vc.Note(0, vc.Prefix(t, "", nil), []*pb.Update{vc.U(vc.P(r...), vc.I(1))}, nil)
							}, "update %s %q", t, r))
						}
						o = append(o, vc.Op{Name: "reset " + t, Kind: "reset", Do: func(w *vc.World) error { return w.Reset(t) }},
							vc.NewOp("u", func(w *vc.World) *pb.Notification {
								return vc.Note(0, vc.Prefix(t, "meta", nil), []*pb.Update{vc.U(vc.P("a"), vc.I(1))}, nil)
							}, "update %s origin meta", t),
							vc.Op{Name: "connect " + t, Kind: "connect", Do: func(w *vc.World) error { return w.Life(t, "connect") }},
							vc.Op{Name: "remove " + t, Kind: "remove", Do: func(w *vc.World) error { return w.Remove(t) }},
							vc.Op{Name: "add " + t, Kind: "add", Do: func(w *vc.World) error { return w.Add(t) }})
					}
					vc.BFS(q, vc.Cfg{Targets: []string{nm.t, nm.s}, Check: "C14"}, o, d3)
				}})
			}
			os := ops([]string{"t", "s"})
			for k := 0; k < len(os); k++ {
				k := k
				out = append(out, vh.Scenario{Name: "subscribers attached, first " + os[k].name, Seq: func(q *vh.Q) {
					n := 1
					for i := 1; i < length; i++ {
						n *= len(os)
					}
					for i := 0; i < n; i++ {
						seq := []op{os[k]}
						what := os[k].name
						for j, m := 1, i; j < length; j, m = j+1, m/len(os) {
							seq = append(seq, os[m%len(os)])
							what += ", " + os[m%len(os)].name
						}
						for at := 0; at < length; at++ {
							if q.Expired() {
								return
							}
							d := fmt.Sprintf("%s; subscribers after %d operations", what, at)
							q.State(d)
							q.Sample("%s", d)
							if !q.Do(func() string { return d }, func() error {
								return q.Exec(func(x *vh.X) { attached(x, seq, at, i%2 == 1) })
							}) {
								return
							}
						}
					}
				}})
			}
			R := func(x ...*pb.SubscribeRequest) []*pb.SubscribeRequest { return x }
			ws := func(x ...[]vs.Act) [][]vs.Act { return x }
			A := func(a ...vs.Act) []vs.Act { return a }
			st, all := vs.Stream("t", "", false, "a"), vs.Stream("*", "", false, "a")
			whole := vs.Stream("t", "", false, "")
			isFresh := func(w *vs.World) { fresh(w, "t", false) }
			cs := []conf{
				{name: "remove, subscribe", reqs: R(st), writers: ws(A(vs.ARemove("t")))},
				{name: "remove, subscribe to updates only", reqs: R(vs.Stream("t", "", true, "a")), writers: ws(A(vs.ARemove("t")))},
				{name: "remove, two subscribers", reqs: R(st, all), writers: ws(A(vs.ARemove("t")), A(vs.ASet("s", 1, 2, "a", "b")))},
				{name: "remove and add, subscribe", reqs: R(st), writers: ws(A(vs.ARemove("t"), vs.AAdd("t"), vs.ASet("t", 1, 5, "a", "b")))},
				{name: "remove, added back by another", reqs: R(all), writers: ws(A(vs.ARemove("t")), A(func(w *vs.World) {
					if !w.C.HasTarget("t") {
						w.Add("t")
						w.Set("t", 1, 5, "a", "b")
					}
				}))},
				{name: "add, subscribe", reqs: R(all), writers: ws(A(vs.ARemove("t"), vs.AAdd("t"), vs.ASet("t", 1, 5, "a", "b"), vs.ARemove("t")))},
				{name: "reset, subscribe", reqs: R(whole), writers: ws(A(vs.AReset("t"))), final: isFresh},
				{name: "reset, refresh", reqs: R(whole), init: A(vs.AConnect("t"), vs.ASync("t")), writers: ws(A(vs.AReset("t")), A(vs.ARefresh())), final: isFresh},
				{name: "reset, refresh twice", init: A(vs.AConnect("t"), vs.ASync("t")), writers: ws(A(vs.AReset("t")), A(vs.ARefresh(), vs.ARefresh())), final: isFresh},
				{name: "sync, reset, refresh", reqs: R(vs.Stream("t", "", false, "meta")), writers: ws(A(vs.AConnect("t"), vs.ASync("t"), vs.AReset("t")), A(vs.ARefresh())), final: isFresh},
				{name: "remove, refresh", reqs: R(all), init: A(vs.AConnect("t")), writers: ws(A(vs.ARemove("t")), A(vs.ARefresh()))},
				{name: "remove, refresh, whole", reqs: R(vs.Stream("*", "", false, "")), init: A(vs.AConnect("t")), writers: ws(A(vs.ARemove("t")), A(vs.ARefresh()))},
				{name: "reset of one, updates of the other", reqs: R(vs.Stream("s", "", false, "")), writers: ws(A(vs.AReset("t"), vs.ASet("t", 1, 2, "a", "b")), A(vs.ASet("s", 1, 2, "a", "b"), vs.ASet("s", 1, 2, "a", "c"))), final: func(w *vs.World) {
					if got := stored(w, "s"); strings.Count(got, "@") != 2 {
						w.Fail("isolation", "target s holds %s", got)
					}
				}},
				{name: "removals of both", reqs: R(st, vs.Stream("s", "", false, "a")), writers: ws(A(vs.ARemove("t")), A(vs.ARemove("s")))},
				{name: "reset of both", reqs: R(all), writers: ws(A(vs.AReset("t")), A(vs.AReset("s")))},
			}
			b, decl := 6, 2
			if deep {
				b, decl = 9, 3
			}
			for _, c := range cs {
				sc := vh.Scenario{Name: c.name, Body: body(c), MaxBound: b, Declared: decl, Race: true, RaceBound: 1}
				sc.Opt.Delay = true
				out = append(out, sc)
			}
			return out
		},
	})
}
