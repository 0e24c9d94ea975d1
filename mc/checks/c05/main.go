//go:build go1.23

// Check C05: ONCE and POLL return exactly the matching snapshot, then sync.
package main

import (
	"fmt"
	"strings"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vs"
)

func opts() []cache.Option { return []cache.Option{cache.WithExcludedMeta(vs.NoMeta)} }

// contents enumerates the prefix-free sets of paths over {a,b} up to a depth.
func contents(depth int) [][][]string {
	if depth == 0 {
		return [][][]string{nil, {{}}}
	}
	sub := contents(depth - 1)
	var out [][][]string
	for _, l := range sub {
		for _, r := range sub {
			var c [][]string
			for _, p := range l {
				c = append(c, append([]string{"a"}, p...))
			}
			for _, p := range r {
				c = append(c, append([]string{"b"}, p...))
			}
			out = append(out, c)
		}
	}
	return append(out, [][]string{{}})
}

// patterns enumerates the paths over {a,b,*} up to a length.
func patterns(n int) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range last {
			for _, e := range []string{"a", "b", "*"} {
				if p == "" {
					next = append(next, e)
				} else {
					next = append(next, p+"/"+e)
				}
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// once runs a ONCE subscription to its end and judges it.
func once(w *vs.World, req *pb.SubscribeRequest) {
	s := w.Subscribe(req, false)
	w.Settle()
	w.JudgeOnce(s, nil)
}

// poll runs a POLL subscription; between its polls acts are applied. It
// polls once more than there are acts.
func poll(w *vs.World, req *pb.SubscribeRequest, acts []vs.Act) {
	s := w.Subscribe(req, false)
	w.Settle()
	var polls []int
	for i := 0; i <= len(acts); i++ {
		if i < len(acts) {
			acts[i](w)
		}
		s.Trigger()
		polls = append(polls, vrt.Event("poll"))
		w.Settle()
	}
	w.JudgePoll(s, polls, nil)
	if s.Ended {
		w.Fail("ended", "POLL subscriber ended: %v", s.Err)
	}
	s.EOF()
	w.Settle()
	if !s.Ended || s.Err != nil {
		w.Fail("poll-end", "POLL subscriber ended=%v with %v after the client closed its side", s.Ended, s.Err)
	}
}

func run(q *vh.Q, what string, targets []string, init []vs.Act, f func(w *vs.World)) bool {
	if q.Expired() {
		return false
	}
	return q.Do(func() string { return what }, func() error {
		return q.Exec(func(x *vh.X) {
			w := vs.New(x, targets, opts(), nil)
			for _, a := range init {
				a(w)
			}
			f(w)
		})
	})
}

func fill(target string, c [][]string) []vs.Act {
	var out []vs.Act
	for i, p := range c {
		if len(p) > 0 {
			out = append(out, vs.ASet(target, 0, int64(i+1), p...))
		}
	}
	return out
}

func text(c [][]string) string {
	var out []string
	for _, p := range c {
		out = append(out, strings.Join(p, "/"))
	}
	return strings.Join(out, " ")
}

// all runs every request against one content, a fresh world per batch.
func all(q *vh.Q, what string, targets []string, init []vs.Act, reqs []*pb.SubscribeRequest) bool {
	for len(reqs) > 0 {
		n := min(len(reqs), 40)
		batch := reqs[:n]
		reqs = reqs[n:]
		q.State(what + fmt.Sprint(len(reqs)))
		if !run(q, what, targets, init, func(w *vs.World) {
			for _, r := range batch {
				once(w, r)
			}
		}) {
			return false
		}
		q.Sample("%s: %d requests, e.g. %v", what, n, vc.Msg(batch[0]))
	}
	return true
}

func prefixed(r *pb.SubscribeRequest, elems ...string) *pb.SubscribeRequest {
	r.GetSubscribe().Prefix.Elem = vc.P(elems...).Elem
	return r
}

func sequential(tier string) []vh.Scenario {
	var out []vh.Scenario
	deep := tier == "thorough"
	const parts = 4
	cs := contents(3)
	for k := 0; k < parts; k++ {
		k := k
		out = append(out, vh.Scenario{Name: fmt.Sprintf("every content, every pattern %d", k), Seq: func(q *vh.Q) {
			for i := k; i < len(cs); i += parts {
				var reqs []*pb.SubscribeRequest
				for _, p := range patterns(3) {
					reqs = append(reqs, vs.Once("t", "", p), vs.Once("*", "", p))
				}
				if !all(q, "t: "+text(cs[i])+"; s: a/b b", []string{"t", "s"}, append(fill("t", cs[i]), fill("s", [][]string{{"a", "b"}, {"b"}})...), reqs) {
					return
				}
			}
		}})
	}
	two := contents(2)
	for k := 0; k < parts; k++ {
		k := k
		out = append(out, vh.Scenario{Name: fmt.Sprintf("every pair of patterns %d", k), Seq: func(q *vh.Q) {
			ps := patterns(2)
			if deep {
				ps = patterns(3)
			}
			for i := k; i < len(two); i += parts {
				for _, tg := range []string{"t", "s", "*"} {
					var reqs []*pb.SubscribeRequest
					for _, p := range ps {
						for _, p2 := range ps {
							reqs = append(reqs, vs.Once(tg, "", p, p2))
						}
					}
					if !all(q, "t: "+text(two[i])+"; s: b/a a", []string{"t", "s"}, append(fill("t", two[i]), fill("s", [][]string{{"b", "a"}, {"a"}})...), reqs) {
						return
					}
				}
			}
		}})
	}
	out = append(out, vh.Scenario{Name: "origins and prefixes", Seq: func(q *vh.Q) {
		var init []vs.Act
		for i, o := range []string{"", "o", "p"} {
			for _, t := range []string{"t", "s"} {
				v := int64(10 * i)
				init = append(init, vs.ANotif(t, o, nil, 0, false, [][]string{{"a", "b"}, {"a", "o"}, {"b"}}, v))
			}
		}
		init = append(init, vs.ANotif("t", "", nil, 0, false, [][]string{{"o2", "a", "b"}}, 7), vs.ANotif("t", "a", nil, 0, false, [][]string{{"z"}}, 8))
		var reqs []*pb.SubscribeRequest
		ps := append(patterns(2), "o", "o/a", "*/a/b", "o/*/b", "a/o", "a/z", "*/*/*", "o2")
		for _, tg := range []string{"t", "*"} {
			for _, p := range ps {
				for _, o := range []string{"", "o", "p", "a", "x"} {
					reqs = append(reqs, vs.Once(tg, o, p))
					for _, pre := range []string{"a", "*", "b"} {
						reqs = append(reqs, prefixed(vs.Once(tg, o, p), pre))
					}
					if o != "" {
						reqs = append(reqs, vs.Once(tg, "", o+":"+p))
						for _, o2 := range []string{"", "p:", "a:"} {
							reqs = append(reqs, vs.Once(tg, "", o+":"+p, o2+"a"))
						}
					}
				}
				reqs = append(reqs, prefixed(vs.Once(tg, "", p), "a", "b"), prefixed(vs.Once(tg, "", p), "*", "b"))
			}
			reqs = append(reqs, vs.Once(tg, "", "nil"), vs.Once(tg, "o", "nil"), prefixed(vs.Once(tg, "", "nil"), "a"), vs.Once(tg, ""))
		}
		all(q, "origins", []string{"t", "s"}, init, reqs)
	}})
	out = append(out, vh.Scenario{Name: "keys, atomic containers, deprecated encoding", Seq: func(q *vh.Q) {
		init := []vs.Act{
			vs.ASet("t", 0, 1, "l[k=1]", "x"), vs.ASet("t", 0, 2, "l[k=2]", "x"), vs.ASet("t", 0, 3, "l[k=2]", "y"), vs.ASet("t", 0, 3, "m[j=3][i=4]", "y"),
			vs.ANotif("t", "", []string{"c", "at[k=1]"}, 0, true, [][]string{{"x"}, {"y", "z"}}, 5),
			vs.ANotif("t", "o", []string{"c"}, 0, true, [][]string{{"x"}}, 5),
			func(w *vs.World) {
				w.Update(&pb.Notification{Timestamp: vc.Base, Prefix: &pb.Path{Target: "t", Element: []string{"e"}}, Update: []*pb.Update{{Path: vc.E("f", "g"), Val: vc.I(4)}, {Path: vc.P("f", "h"), Val: vc.I(5)}}})
			},
		}
		var reqs []*pb.SubscribeRequest
		for _, tg := range []string{"t", "*"} {
			for _, p := range []string{"", "l", "l[k=1]", "l[k=*]", "l[k=*]/x", "l[k=*]/y", "l[k=3]", "*", "*/*", "*/*/*", "*/*/x", "l/*/x", "m", "m[j=3][i=4]", "m[j=4][i=3]", "m[j=*][i=4]", "m[j=3][i=*]", "m[j=*][i=*]/y",
				"c", "c/at", "c/at[k=1]", "c/at[k=1]/x", "c/at[k=1]/y/z", "c/*", "c/at[k=2]", "e", "e/f", "e/f/g", "e/*/h", "e/f/*", "*/f", "*/f/*"} {
				for _, o := range []string{"", "o"} {
					reqs = append(reqs, vs.Once(tg, o, p), vs.Once(tg, o, p, "*"), vs.Once(tg, o, "l", p))
				}
				e := vs.Once(tg, "", "")
				e.GetSubscribe().Subscription[0].Path = vc.E(vc.Strs(vs.Path(p))...)
				reqs = append(reqs, e)
			}
			for _, p := range []string{"", "x", "*", "[k=1]"} {
				reqs = append(reqs, prefixed(vs.Once(tg, "", p), "l[k=1]"), prefixed(vs.Once(tg, "", p), "l[k=*]"), prefixed(vs.Once(tg, "", p), "c", "at[k=1]"))
			}
		}
		all(q, "keys", []string{"t", "s"}, init, reqs)
	}})
	changes := []vs.Act{func(w *vs.World) {}, vs.ASet("t", 1, 5, "a", "b"), vs.ASet("t", 1, 6, "b"), vs.ASet("t", 1, 7, "a", "c"), vs.ADel("t", 1, "a"), vs.ADel("t", 1, "*"), vs.ASet("s", 1, 8, "a", "b"), vs.AReset("t"), func(w *vs.World) { w.Remove("s"); w.Add("s") }}
	n := 2
	if deep {
		n = 3
	}
	for k, p := range [][]string{{"a"}, {""}, {"*/b", "b"}, {"a/b", "a"}, {"*/*", "c"}} {
		p := p
		out = append(out, vh.Scenario{Name: fmt.Sprintf("polls %d", k), Seq: func(q *vh.Q) {
			for _, tg := range []string{"t", "*"} {
				for i := 0; i < pow(len(changes), n); i++ {
					var acts []vs.Act
					for j, m := 0, i; j < n; j, m = j+1, m/len(changes) {
						acts = append(acts, changes[m%len(changes)])
					}
					what := fmt.Sprintf("polls of %s %v, changes %d", tg, p, i)
					q.State(what)
					if !run(q, what, []string{"t", "s"}, append(fill("t", [][]string{{"a", "b"}, {"b"}}), fill("s", [][]string{{"a", "b"}})...), func(w *vs.World) { poll(w, vs.Poll(tg, "", p...), acts) }) {
						return
					}
				}
			}
		}})
	}
	return out
}

func pow(a, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= a
	}
	return r
}

type conf struct {
	name    string
	targets []string
	init    []vs.Act
	reqs    []*pb.SubscribeRequest
	writers [][]vs.Act
	polls   int
	dressed bool // a server with options
	nowait  bool // poll without waiting for the writers to finish
}

func body(c conf) func(x *vh.X) {
	return func(x *vh.X) {
		ts := c.targets
		if ts == nil {
			ts = []string{"t"}
		}
		var so []subscribe.Option
		if c.dressed {
			so = vs.Dressed()
		}
		w := vs.New(x, ts, opts(), so)
		for _, a := range c.init {
			a(w)
		}
		polls := make([][]int, len(c.reqs))
		for i, r := range c.reqs {
			i := i
			s := w.Subscribe(r, false)
			if r.GetSubscribe().GetMode() != pb.SubscriptionList_POLL {
				continue
			}
			polls[i] = make([]int, 0, 8)
			vrt.GoN(fmt.Sprintf("poller%d", i), func() {
				for k := 0; k < c.polls; k++ {
					vrt.Await("sync", func() bool { return s.Syncs() > k || s.Ended })
					polls[i] = append(polls[i], vrt.Event("poll"))
					s.Trigger()
				}
			})
		}
		for i, th := range c.writers {
			th := th
			vrt.GoN(fmt.Sprintf("writer%d", i), func() {
				for _, a := range th {
					a(w)
				}
			})
		}
		w.Settle()
		if st := w.StuckOps(); st != "" {
			w.Fail("stuck", "cache operations never returned: %s; %v", st, vrt.Blocked())
		}
		out := ""
		for i, s := range w.Subs {
			if c.reqs[i].GetSubscribe().GetMode() == pb.SubscriptionList_ONCE {
				w.JudgeOnce(s, nil)
			} else {
				if s.Ended {
					w.Fail("ended", "POLL subscriber %d ended: %v", s.ID, s.Err)
				}
				w.JudgePoll(s, polls[i], nil)
				s.EOF()
				w.Settle()
				if !s.Ended || s.Err != nil {
					w.Fail("poll-end", "POLL subscriber ended=%v with %v after the client closed its side", s.Ended, s.Err)
				}
			}
			out += s.Responses() + "|"
		}
		x.Outcome("%s", out)
	}
}

func main() {
	vh.Main(vh.Check{
		Property: "C05", QuickSec: 45, ThoroughSec: 800,
		Rule: "every content (prefix-free path sets over {a,b} to depth 3, further targets, origins, keys, atomic containers) queried with every pattern over {a,b,*} to length 3, every pair to length 2, prefix/path origins and splits, through the real Subscribe server (ONCE) and POLL with every change sequence between polls; plus every interleaving within the delay bound of ONCE and POLL subscribers with 1-2 writers (updates, deletes, re-adds, Reset, Remove/Add).",
		Assumptions: []string{
			"one update stream per target",
			"the gRPC stream is an in-memory stand-in that accepts every send",
			"updates_only is not combined with ONCE or POLL",
		},
		Scenarios: func(tier string) []vh.Scenario {
			out := sequential(tier)
			out = append(out, vs.SizeScenarios(1025, func(x *vh.X, sh *vs.Shape, n int) {
				sh.Once(vs.New(x, sh.Targets(n), []cache.Option{cache.WithExcludedMeta(vs.NoMeta)}, nil), n, nil)
			})...)
			r := func(x ...*pb.SubscribeRequest) []*pb.SubscribeRequest { return x }
			ws := func(x ...[]vs.Act) [][]vs.Act { return x }
			ab, ac := vs.ASet("t", 0, 1, "a", "b"), vs.ASet("t", 0, 1, "a", "c")
			sab := vs.ASet("s", 0, 1, "a", "b")
			cs := []conf{
				{name: "once, updates", init: []vs.Act{ab, ac}, reqs: r(vs.Once("t", "", "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ASet("t", 1, 2, "a", "c")})},
				{name: "once, overlapping paths", init: []vs.Act{ab, ac}, reqs: r(vs.Once("t", "", "a", "*/b", "a/b")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ADel("t", 2, "a", "b"), vs.ASet("t", 3, 3, "a", "b")})},
				{name: "once, subtree deleted", init: []vs.Act{ab, ac}, reqs: r(vs.Once("t", "", "")), writers: ws([]vs.Act{vs.ADel("t", 1, "a"), vs.ASet("t", 2, 2, "a")})},
				{name: "once, reset", init: []vs.Act{ab, ac}, reqs: r(vs.Once("t", "", "*/b")), writers: ws([]vs.Act{vs.AReset("t"), vs.ASet("t", 1, 2, "a", "b")})},
				{name: "once, all targets", targets: []string{"t", "s"}, init: []vs.Act{ab, sab}, reqs: r(vs.Once("*", "", "a")), writers: ws([]vs.Act{vs.ARemove("s"), vs.AAdd("s"), vs.ASet("s", 1, 2, "a", "b")}, []vs.Act{vs.ASet("t", 1, 2, "a", "b")})},
				{name: "once, target removed", targets: []string{"t", "s"}, init: []vs.Act{ab, sab}, reqs: r(vs.Once("t", "", "a")), writers: ws([]vs.Act{vs.ARemove("s")}, []vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ASet("t", 1, 2, "a", "c")})},
				{name: "once, atomic", init: []vs.Act{vs.ANotif("t", "", []string{"a"}, 0, true, [][]string{{"x"}, {"y"}}, 1)}, reqs: r(vs.Once("t", "", "a"), vs.Once("t", "", "*")), writers: ws([]vs.Act{vs.ANotif("t", "", []string{"a"}, 1, true, [][]string{{"x"}, {"y"}}, 5)})},
				{name: "once, many leaves", init: []vs.Act{ab, ac, vs.ASet("t", 0, 1, "a", "d"), vs.ASet("t", 0, 1, "e")}, reqs: r(vs.Once("t", "", "")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "d"), vs.ASet("t", 1, 2, "e")})},
				{name: "poll", init: []vs.Act{ab}, reqs: r(vs.Poll("t", "", "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ADel("t", 2, "a", "b")}), polls: 2},
				{name: "poll, overlapping paths", init: []vs.Act{ab}, reqs: r(vs.Poll("t", "", "a", "a/b")), writers: ws([]vs.Act{ac, vs.ASet("t", 1, 2, "a", "b")}), polls: 2},
				{name: "poll alone", init: []vs.Act{ab, ac}, reqs: r(vs.Poll("t", "", "a", "*")), polls: 3},
				{name: "poll empty", reqs: r(vs.Poll("t", "", "a")), writers: ws([]vs.Act{ab}), polls: 2},
				{name: "poll, all targets", targets: []string{"t", "s"}, init: []vs.Act{ab, sab}, reqs: r(vs.Poll("*", "", "*/b")), writers: ws([]vs.Act{vs.AReset("s"), vs.ASet("s", 1, 2, "a", "b")}), polls: 2},
				{name: "once and poll and stream", init: []vs.Act{ab}, reqs: r(vs.Once("t", "", "a"), vs.Poll("t", "", "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b")}), polls: 1},
				{name: "server options", dressed: true, targets: []string{"t", "s"}, init: []vs.Act{ab, sab}, reqs: r(vs.Once("*", "", "a"), vs.Poll("t", "", "a", "b")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ASet("s", 1, 2, "a", "b")}), polls: 2},
				{name: "once next to a stream", init: []vs.Act{ab, ac}, reqs: r(vs.Once("t", "", "a"), vs.Once("t", "", "*/c", "a/c")), writers: ws([]vs.Act{vs.ADel("t", 1, "a", "c"), vs.ASet("t", 2, 2, "a", "c", "d"), vs.ADel("t", 3, "*")})},
			}
			b, decl := 6, 2
			if tier == "thorough" {
				b, decl = 9, 3
			}
			for _, c := range cs {
				sc := vh.Scenario{Name: c.name, Body: body(c), MaxBound: b, Declared: decl, Race: true, RaceBound: 1}
				sc.Opt.Delay = true
				out = append(out, sc)
			}
			return out
		},
	})
}
