//go:build go1.23

// Check C04: STREAM subscribers converge; sync marks the snapshot.
package main

import (
	"fmt"
	"time"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vs"
)

type conf struct {
	name    string
	targets []string
	init    []vs.Act
	reqs    []*pb.SubscribeRequest
	writers [][]vs.Act
	noED    bool
	dressed bool          // a server with options
	allMeta bool          // keep all metadata
	thresh  time.Duration // future threshold
	mayEnd  bool
	later   []vs.Act // after everything has settled
}

func stream(target, origin string, uo bool, paths ...string) *pb.SubscribeRequest {
	return vs.Req(pb.SubscriptionList_STREAM, target, origin, uo, paths...)
}

// bare is a stream request whose only subscription has no path.
func bare(target string, prefix ...string) *pb.SubscribeRequest {
	q := stream(target, "", false, "")
	if len(prefix) > 0 {
		q.GetSubscribe().Prefix.Elem = vc.P(prefix...).Elem
	}
	q.GetSubscribe().Subscription[0].Path = nil
	return q
}

func body(c conf) func(x *vh.X) {
	return func(x *vh.X) {
		var opts []cache.Option
		if !c.allMeta {
			opts = append(opts, cache.WithExcludedMeta(vs.NoMeta))
		}
		if c.thresh > 0 {
			opts = append(opts, cache.WithFutureThreshold(c.thresh))
		}
		if c.noED {
			opts = append(opts, cache.DisableEventDrivenEmulation())
		}
		ts := c.targets
		if ts == nil {
			ts = []string{"t"}
		}
		var so []subscribe.Option
		if c.dressed {
			so = vs.Dressed()
		}
		w := vs.New(x, ts, opts, so)
		for _, a := range c.init {
			a(w)
		}
		for _, r := range c.reqs {
			w.Subscribe(r, false)
		}
		for i, th := range c.writers {
			th := th
			vrt.GoN(fmt.Sprintf("writer%d", i), func() {
				for _, a := range th {
					a(w)
				}
			})
		}
		w.Settle()
		judge := func() {
			if st := w.StuckOps(); st != "" {
				w.Fail("stuck", "cache operations never returned: %s; %v", st, vrt.Blocked())
			}
			for _, s := range w.Subs {
				w.JudgeStream(s, nil, c.mayEnd)
			}
		}
		judge()
		if len(c.later) > 0 {
			for _, a := range c.later {
				a(w)
			}
			w.Settle()
			judge()
		}
		out := ""
		for _, s := range w.Subs {
			out += s.Responses() + "|"
		}
		for _, s := range w.Subs {
			s.Cancel()
		}
		w.Settle()
		for _, s := range w.Subs {
			if !s.Ended {
				w.Fail("not-ended", "subscriber %d did not end when its stream was cancelled: %v", s.ID, vrt.Blocked())
			}
		}
		x.Outcome("%s", out)
	}
}

func main() {
	vh.Main(vh.Check{
		Property: "C04", QuickSec: 80, ThoroughSec: 800,
		Rule: "1-2 STREAM subscribers starting against 1-2 concurrent update streams (updates, deletes, re-adds, atomic and multi-update notifications, Reset, Remove/Add, metadata events, refreshes) on the real cache and Subscribe server over in-memory streams; every interleaving within the delay bound; judged at the quiescent point, and again after later changes.",
		Assumptions: []string{
			"one update stream per target",
			"the gRPC stream is an in-memory stand-in that accepts every send",
		},
		Scenarios: func(tier string) []vh.Scenario {
			r := func(x ...*pb.SubscribeRequest) []*pb.SubscribeRequest { return x }
			ws := func(x ...[]vs.Act) [][]vs.Act { return x }
			ab, ac := vs.ASet("t", 0, 1, "a", "b"), vs.ASet("t", 0, 1, "a", "c")
			cs := []conf{
				{name: "update", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b")})},
				{name: "update twice", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "a/b")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ASet("t", 2, 3, "a", "b")}), later: []vs.Act{vs.ASet("t", 3, 4, "a", "b"), vs.ADel("t", 4, "a")}},
				{name: "add", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "")), writers: ws([]vs.Act{ac, vs.ASet("t", 1, 2, "a", "c")}), later: []vs.Act{vs.ASet("t", 2, 5, "d")}},
				{name: "delete", init: []vs.Act{ab, ac}, reqs: r(stream("t", "", false, "a")), writers: ws([]vs.Act{vs.ADel("t", 1, "a", "b")})},
				{name: "delete subtree and add", init: []vs.Act{ab, ac}, reqs: r(stream("t", "", false, "a")), writers: ws([]vs.Act{vs.ADel("t", 1, "a"), vs.ASet("t", 2, 2, "a", "b")})},
				{name: "delete and become a leaf", init: []vs.Act{ab, ac}, reqs: r(stream("t", "", false, "")), writers: ws([]vs.Act{vs.ADel("t", 1, "*"), vs.ASet("t", 2, 2, "a")}), later: []vs.Act{vs.ADel("t", 3, "a"), vs.ASet("t", 4, 1, "a", "b")}},
				{name: "update delete update", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "a/b")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ADel("t", 2, "a", "b"), vs.ASet("t", 3, 3, "a", "b")})},
				{name: "reset", init: []vs.Act{ab, vs.ASet("t", 0, 1, "d", "e")}, reqs: r(stream("t", "", false, "*/b", "d")), writers: ws([]vs.Act{vs.AReset("t"), vs.ASet("t", 1, 2, "a", "b")})},
				{name: "reset with origins", init: []vs.Act{vs.ANotif("t", "o", nil, 0, false, [][]string{{"a", "b"}, {"c"}}, 1)}, reqs: r(stream("t", "o", false, "a", "c")), writers: ws([]vs.Act{vs.AReset("t"), vs.ANotif("t", "o", nil, 1, false, [][]string{{"a", "b"}}, 5)})},
				{name: "overlapping paths", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "a", "a/b", "*/b")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), ac})},
				{name: "updates only", init: []vs.Act{ab}, reqs: r(stream("t", "", true, "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), ac}), later: []vs.Act{vs.ASet("t", 2, 3, "a", "b"), vs.ADel("t", 3, "a")}},
				{name: "multi", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "a")), writers: ws([]vs.Act{vs.ANotif("t", "", []string{"a"}, 1, false, [][]string{{"b"}, {"c"}}, 5, []string{"d"}), vs.ANotif("t", "", []string{"a"}, 2, false, [][]string{{"d"}}, 7, []string{"b"})})},
				{name: "atomic", init: []vs.Act{vs.ANotif("t", "", []string{"a"}, 0, true, [][]string{{"x"}, {"y"}}, 1)}, reqs: r(stream("t", "", false, "a"), stream("t", "", false, "*")), writers: ws([]vs.Act{vs.ANotif("t", "", []string{"a"}, 1, true, [][]string{{"x"}, {"y"}}, 5), vs.ADel("t", 2, "a")})},
				{name: "atomic replaced", init: []vs.Act{vs.ANotif("t", "", []string{"a"}, 0, true, [][]string{{"x"}, {"y"}}, 1)}, reqs: r(stream("t", "", false, "a")), writers: ws([]vs.Act{vs.ANotif("t", "", []string{"a"}, 1, true, [][]string{{"z"}}, 5)})},
				{name: "path origin", init: []vs.Act{vs.ANotif("t", "o", nil, 0, false, [][]string{{"a"}}, 1)}, reqs: r(stream("t", "", false, "o:a", "p:b")), writers: ws([]vs.Act{vs.ANotif("t", "o", nil, 1, false, [][]string{{"a"}}, 2), vs.ANotif("t", "p", nil, 1, false, [][]string{{"b"}, {"c"}}, 3)})},
				{name: "meta", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "")), writers: ws([]vs.Act{vs.AConnect("t"), vs.ASet("t", 1, 2, "a", "b"), vs.ASync("t")})},
				{name: "meta refresh", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "meta", "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ASync("t")}, []vs.Act{vs.ARefresh()})},
				{name: "not event driven", noED: true, init: []vs.Act{ab}, reqs: r(stream("t", "", false, "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 1, "a", "b"), vs.ASet("t", 2, 1, "a", "b")})},
				{name: "unchanged values", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 1, "a", "b"), vs.ASet("t", 2, 2, "a", "b")})},
				{name: "all targets", targets: []string{"t", "s"}, init: []vs.Act{ab, vs.ASet("s", 0, 1, "a", "b")}, reqs: r(stream("*", "", false, "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b")}, []vs.Act{vs.ASet("s", 1, 2, "a", "b"), vs.ADel("s", 2, "a")})},
				{name: "all targets, one removed", targets: []string{"t", "s"}, init: []vs.Act{ab, vs.ASet("s", 0, 1, "a", "b")}, reqs: r(stream("*", "", false, "a")), writers: ws([]vs.Act{vs.ARemove("s"), vs.AAdd("s"), vs.ASet("s", 1, 2, "a", "b")})},
				{name: "all targets, one added", targets: []string{"t"}, init: []vs.Act{ab}, reqs: r(stream("*", "", false, "*/b")), writers: ws([]vs.Act{vs.AAdd("s"), vs.ASet("s", 0, 3, "a", "b")})},
				{name: "one of two targets", targets: []string{"t", "s"}, init: []vs.Act{ab, vs.ASet("s", 0, 1, "a", "b")}, reqs: r(stream("t", "", false, "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b")}, []vs.Act{vs.ASet("s", 1, 2, "a", "b"), vs.AReset("s")})},
				{name: "two subscribers", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "a"), stream("t", "", false, "a/b")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ADel("t", 2, "a")})},
				{name: "prefix path", init: []vs.Act{ab, ac}, reqs: r(func() *pb.SubscribeRequest {
					q := stream("t", "", false, "b", "c")
					q.GetSubscribe().Prefix.Elem = vc.P("a").Elem
					return q
				}()), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ASet("t", 1, 2, "a", "c")})},
				{name: "no path", init: []vs.Act{ab}, reqs: r(bare("t"), bare("t", "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), ac, vs.ASet("t", 1, 3, "d"), vs.ADel("t", 2, "a", "b")})},
				{name: "no path, all targets", targets: []string{"t", "s"}, init: []vs.Act{ab}, reqs: r(bare("*")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b")}, []vs.Act{vs.ASet("s", 1, 2, "a", "b")})},
				{name: "keyed", init: []vs.Act{vs.ASet("t", 0, 1, "l[k=1]", "x"), vs.ASet("t", 0, 1, "l[k=2]", "x")}, reqs: r(stream("t", "", false, "l[k=1]", "l[k=*]/y")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "l[k=1]", "x"), vs.ASet("t", 1, 2, "l[k=2]", "y"), vs.ADel("t", 2, "l[k=1]")})},
				{name: "stale and same time", init: []vs.Act{vs.ASet("t", 2, 1, "a", "b"), ac}, reqs: r(stream("t", "", false, "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ASet("t", 2, 3, "a", "b"), vs.ADel("t", 1, "a"), vs.ASet("t", 2, 3, "a", "b")})},
				{name: "future", thresh: 10, init: []vs.Act{vs.ASet("t", vc.Base, 1, "a", "b"), ac}, reqs: r(stream("t", "", false, "a")), writers: ws([]vs.Act{vs.ASet("t", vc.Base*2, 2, "a", "b"), vs.ASet("t", vc.Base+5, 3, "a", "b"), vs.ASet("t", vc.Base+8, 3, "a", "c")})},
				{name: "deprecated encoding", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "a")), writers: ws([]vs.Act{
					vs.ARaw(func() *pb.Notification {
						return vc.Note(1, vc.Prefix("t", "", vc.E("a")), []*pb.Update{vc.U(vc.E("b"), vc.I(2)), vc.U(vc.E("c", "d"), vc.I(2))}, nil)
					}),
					vs.ARaw(func() *pb.Notification {
						return vc.Note(2, vc.Prefix("t", "", vc.E("a")), nil, []*pb.Path{vc.E("c"), vc.E("b")})
					}),
				})},
				{name: "deprecated encoding, path only", init: []vs.Act{ab}, reqs: r(stream("t", "", false, "a/*")), writers: ws([]vs.Act{
					vs.ARaw(func() *pb.Notification {
						return vc.Note(1, vc.Prefix("t", "", nil), []*pb.Update{vc.U(vc.E("a", "b"), vc.I(2)), vc.U(vc.E("a", "d"), vc.I(2))}, nil)
					}),
					vs.ARaw(func() *pb.Notification { return vc.Note(2, vc.Prefix("t", "", nil), nil, []*pb.Path{vc.E("a", "d")}) }),
				})},
				{name: "metadata only", allMeta: true, init: []vs.Act{ab}, reqs: r(stream("t", "", false, "meta")), writers: ws([]vs.Act{vs.AConnErr("t"), vs.AConnect("t"), vs.ASet("t", 1, 2, "a", "b")}), later: []vs.Act{vs.ARefresh(), vs.ASize(), vs.AReset("t"), vs.ARefresh(), vs.AConnErr("t")}},
				{name: "connection error", allMeta: true, reqs: r(stream("t", "", false, "meta/connectError")), writers: ws([]vs.Act{vs.AConnErr("t"), vs.AConnect("t"), vs.AConnErr("t")})},
				{name: "atomic, not event driven", noED: true, init: []vs.Act{vs.ANotif("t", "", []string{"a"}, 0, true, [][]string{{"x"}, {"y"}}, 1)}, reqs: r(stream("t", "", false, "a/x", "a")), writers: ws([]vs.Act{vs.ANotif("t", "", []string{"a"}, 1, true, [][]string{{"x"}, {"y"}}, 1), vs.ANotif("t", "", []string{"a"}, 2, true, [][]string{{"x"}, {"y"}}, 3)})},
				{name: "keyed prefix", init: []vs.Act{vs.ASet("t", 0, 1, "l[k=1]", "x"), vs.ASet("t", 0, 1, "l[k=2]", "x")}, reqs: r(func() *pb.SubscribeRequest {
					q := stream("t", "", false, "x", "y")
					q.GetSubscribe().Prefix.Elem = vc.P("l[k=*]").Elem
					return q
				}()), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "l[k=1]", "x"), vs.ASet("t", 1, 2, "l[k=2]", "y"), vs.ADel("t", 2, "l[k=1]")})},
				{name: "origin and prefix path", init: []vs.Act{vs.ANotif("t", "o", []string{"a"}, 0, false, [][]string{{"b"}}, 1)}, reqs: r(func() *pb.SubscribeRequest {
					q := stream("t", "o", false, "b", "*/c")
					q.GetSubscribe().Prefix.Elem = vc.P("a").Elem
					return q
				}()), writers: ws([]vs.Act{vs.ANotif("t", "o", nil, 1, false, [][]string{{"a", "b"}, {"a", "d", "c"}}, 2), vs.ANotif("t", "o", []string{"a", "d"}, 2, false, nil, 0, []string{"c"})})},
				{name: "deep subtree and parents deleted", init: []vs.Act{vs.ASet("t", 0, 1, "a", "b", "c", "d"), vs.ASet("t", 0, 1, "a", "b", "e")}, reqs: r(stream("t", "", false, "a/b/c/d", "*/*/e")), writers: ws([]vs.Act{vs.ADel("t", 1, "a", "*", "c"), vs.ASet("t", 2, 2, "a", "b", "c"), vs.ADel("t", 3, "a", "b"), vs.ASet("t", 4, 5, "a", "b", "c", "d")})},
				{name: "server options", dressed: true, targets: []string{"t", "s"}, init: []vs.Act{ab}, reqs: r(stream("t", "", false, "a"), stream("*", "", true, "*/b")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ADel("t", 2, "a")}, []vs.Act{vs.ASet("s", 1, 2, "a", "b"), vs.AReset("s")})},
				{name: "root deleted", init: []vs.Act{ab, ac}, reqs: r(stream("t", "", false, "a/b"), stream("*", "", true, "*")), writers: ws([]vs.Act{vs.ADel("t", 1), vs.ASet("t", 2, 2, "a", "b")})},
			}
			b, decl := 6, 2
			if tier == "thorough" {
				b, decl = 9, 3
			}
			out := vs.SizeScenarios(1025, func(x *vh.X, sh *vs.Shape, n int) {
				for _, uo := range []bool{false, true} {
					sh.Stream(vs.New(x, sh.Targets(n), []cache.Option{cache.WithExcludedMeta(vs.NoMeta)}, nil), n, uo, nil)
				}
			})
			n := 2
			if tier == "thorough" {
				n = 3
			}
			for k := 0; k < 16; k++ {
				out = append(out, vh.Scenario{Name: fmt.Sprintf("requests and operations %d", k), Seq: grid(k, 16, n)})
			}
			for _, c := range cs {
				sc := vh.Scenario{Name: c.name, Body: body(c), MaxBound: b, Declared: decl, Race: true, RaceBound: 1}
				sc.Opt.Delay = true
				out = append(out, sc)
			}
			return out
		},
	})
}
