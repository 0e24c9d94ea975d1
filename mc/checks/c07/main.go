//go:build go1.23

// Check C07: subscribers never receive data for targets their ACL denies.
package main

import (
	"context"
	"errors"
	"fmt"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/peer"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vs"
)

// table says which targets a client may see; fail: no ACL can be made for it.
type table struct {
	fail  bool
	part  bool // fails with an ACL besides the error
	allow []string
}

func (t table) ok(target string) bool {
	for _, a := range t.allow {
		if a == target {
			return true
		}
	}
	return false
}

func (t table) String() string {
	switch {
	case t.part:
		return "identity half known"
	case t.fail:
		return "no identity"
	}
	return fmt.Sprint(t.allow)
}

type acl struct{ tabs []table }

type rpcACL struct{ t table }

func (r *rpcACL) Check(target string) bool { return r.t.ok(target) }

func (a *acl) NewRPCACL(ctx context.Context) (subscribe.RPCACL, error) {
	p, ok := peer.FromContext(ctx)
	if !ok {
		return nil, errors.New("no peer")
	}
	var id int
	fmt.Sscanf(p.Addr.String(), "client%d", &id)
	if a.tabs[id].part {
		return &rpcACL{table{allow: []string{"t", "s", "r"}}}, errors.New("scripted partial authorisation failure")
	}
	if a.tabs[id].fail {
		return nil, errors.New("scripted authorisation failure")
	}
	return &rpcACL{a.tabs[id]}, nil
}

func (a *acl) Check(user, target string) bool { return false }

func newWorld(x *vh.X, targets []string, tabs []table) *vs.World {
	return vs.New(x, targets, []cache.Option{cache.WithExcludedMeta(vs.NoMeta)}, []subscribe.Option{subscribe.WithACL(&acl{tabs})})
}

// safety judges what was sent so far, whatever the state of the subscriber.
func safety(w *vs.World, s *vs.Sub, t table) {
	if vrt.RaceEnabled {
		return
	}
	for _, it := range s.Sent {
		if n := it.Resp.GetUpdate(); n != nil && (t.fail || !t.ok(n.GetPrefix().GetTarget())) {
			w.Fail("leak", "subscriber %d (%v) was sent %s", s.ID, t, vc.Msg(n))
		}
	}
	target := s.Req.GetSubscribe().GetPrefix().GetTarget()
	switch {
	case t.fail:
		if !s.Ended || s.Code() != codes.Unauthenticated || len(s.Sent) > 0 {
			w.Fail("unauthenticated", "subscriber %d without identity: ended=%v %v after %d responses", s.ID, s.Ended, s.Err, len(s.Sent))
		}
	case target != "*" && !t.ok(target):
		if !s.Ended || s.Code() != codes.PermissionDenied || len(s.Sent) > 0 {
			w.Fail("denied", "subscriber %d of denied target: ended=%v %v after %d responses", s.ID, s.Ended, s.Err, len(s.Sent))
		}
	}
}

// judge is the whole oracle at a quiescent point.
func judge(w *vs.World, s *vs.Sub, t table, polls []int, mayEnd bool) {
	safety(w, s, t)
	target := s.Req.GetSubscribe().GetPrefix().GetTarget()
	if t.fail || (target != "*" && !t.ok(target)) {
		return
	}
	switch s.Req.GetSubscribe().GetMode() {
	case pb.SubscriptionList_ONCE:
		w.JudgeOnce(s, t.ok)
	case pb.SubscriptionList_POLL:
		w.JudgePoll(s, polls, t.ok)
	default:
		w.JudgeStream(s, t.ok, mayEnd)
	}
}

func reqs() []*pb.SubscribeRequest {
	var out []*pb.SubscribeRequest
	for _, tg := range []string{"*", "t", "s"} {
		for _, ps := range [][]string{{""}, {"a"}, {"a/b", "*/b", "d"}} {
			out = append(out, vs.Once(tg, "", ps...), vs.Poll(tg, "", ps...), vs.Stream(tg, "", false, ps...), vs.Stream(tg, "", true, ps...))
		}
	}
	return out
}

func subsets(ts ...string) []table {
	out := []table{{fail: true}, {fail: true, part: true}}
	for m := 0; m < 1<<len(ts); m++ {
		var t table
		for i, x := range ts {
			if m>>i&1 != 0 {
				t.allow = append(t.allow, x)
			}
		}
		out = append(out, t)
	}
	return out
}

type named struct {
	name string
	vs.Act
}

func ops() []named {
	return []named{
		{"nothing", func(*vs.World) {}},
		{"set t", func(w *vs.World) { w.Set("t", 100+int64(len(w.Ops)), int64(len(w.Ops)), "a", "b") }},
		{"set s", func(w *vs.World) { w.Set("s", 100+int64(len(w.Ops)), int64(len(w.Ops)), "a", "b") }},
		{"set t new", func(w *vs.World) { w.Set("t", 100+int64(len(w.Ops)), 9, "d") }},
		{"set s new", func(w *vs.World) { w.Set("s", 100+int64(len(w.Ops)), 9, "d") }},
		{"del t", func(w *vs.World) { w.Del("t", 100+int64(len(w.Ops)), "a") }},
		{"del s", func(w *vs.World) { w.Del("s", 100+int64(len(w.Ops)), "*") }},
		{"reset t", vs.AReset("t")},
		{"reset s", vs.AReset("s")},
		{"atomic s", func(w *vs.World) {
			vs.ANotif("s", "", []string{"a", "at"}, 100+int64(len(w.Ops)), true, [][]string{{"x"}, {"b"}}, int64(len(w.Ops)))(w)
		}},
		{"atomic t", func(w *vs.World) {
			vs.ANotif("t", "", []string{"a", "at"}, 100+int64(len(w.Ops)), true, [][]string{{"x"}, {"b"}}, int64(len(w.Ops)))(w)
		}},
		{"connect s", vs.AConnect("s")},
		{"remove s", vs.ARemove("s")},
		{"add s", func(w *vs.World) {
			if !w.C.HasTarget("s") {
				w.Add("s")
			}
		}},
	}
}

var initial = []vs.Act{vs.ASet("t", 0, 1, "a", "b"), vs.ASet("t", 0, 2, "a", "c"), vs.ASet("s", 0, 1, "a", "b"), vs.ASet("s", 0, 2, "e", "b"), vs.ASet("r", 0, 3, "a", "b")}

// history runs one request through a sequence of operations, each settled.
// stall: the stream's sends are blocked while the operations happen.
func history(x *vh.X, t table, req *pb.SubscribeRequest, seq []named, stall bool) {
	w := newWorld(x, []string{"t", "s", "r"}, []table{t})
	for _, a := range initial {
		a(w)
	}
	req = vs.CloneReq(req)
	poll := req.GetSubscribe().GetMode() == pb.SubscriptionList_POLL
	s := w.Subscribe(req, stall)
	var polls []int
	mayEnd := false
	w.Settle()
	safety(w, s, t)
	for _, o := range seq {
		o.Act(w)
		if o.name == "remove s" && req.GetSubscribe().GetPrefix().GetTarget() == "s" {
			mayEnd = true
		}
		if poll && !stall && !s.Ended {
			polls = append(polls, vrt.Event("poll"))
			s.Trigger()
		}
		w.Settle()
		safety(w, s, t)
		if !stall {
			judge(w, s, t, polls, mayEnd)
		}
	}
	if stall {
		s.Unblock()
		w.Settle()
	}
	judge(w, s, t, polls, mayEnd)
	x.Outcome("%v %v", s.Responses(), s.Err)
}

type conf struct {
	name    string
	tabs    []table
	reqs    []*pb.SubscribeRequest
	writers [][]vs.Act
	mayEnd  bool
}

func body(c conf) func(x *vh.X) {
	return func(x *vh.X) {
		w := newWorld(x, []string{"t", "s"}, c.tabs)
		for _, a := range []vs.Act{vs.ASet("t", 0, 1, "a", "b"), vs.ASet("s", 0, 1, "a", "b")} {
			a(w)
		}
		polls := make([][]int, len(c.reqs))
		for i, r := range c.reqs {
			i := i
			s := w.Subscribe(vs.CloneReq(r), false)
			if r.GetSubscribe().GetMode() != pb.SubscriptionList_POLL {
				continue
			}
			polls[i] = make([]int, 0, 4)
			vrt.GoN(fmt.Sprintf("poller%d", i), func() {
				vrt.Await("sync", func() bool { return s.Syncs() > 0 || s.Ended })
				if s.Ended {
					return
				}
				polls[i] = append(polls[i], vrt.Event("poll"))
				s.Trigger()
			})
		}
		for i, th := range c.writers {
			th := th
			vrt.GoN(fmt.Sprintf("writer%d", i), func() {
				for _, a := range th {
					a(w)
				}
			})
		}
		w.Settle()
		if st := w.StuckOps(); st != "" {
			w.Fail("stuck", "cache operations never returned: %s; %v", st, vrt.Blocked())
		}
		out := ""
		for i, s := range w.Subs {
			judge(w, s, c.tabs[i], polls[i], c.mayEnd)
			out += s.Responses() + "|"
			s.Cancel()
		}
		w.Settle()
		x.Outcome("%s", out)
	}
}

func main() {
	vh.Main(vh.Check{
		Property: "C07", QuickSec: 40, ThoroughSec: 700,
		Rule: "every access table over three targets (and a caller whose ACL cannot be made) x every mode, updates_only, single target or '*', path sets x every sequence of operations (updates, deletes, atomic containers, Reset, Remove, Add, metadata on allowed and denied targets) to the stated length, with sends flowing or stalled meanwhile, through the real Subscribe server; plus every interleaving within the delay bound of 1-3 differently authorised subscribers with concurrent writers.",
		Assumptions: []string{
			"a per-RPC ACL answers consistently during the RPC",
			"one update stream per target",
			"the gRPC stream is an in-memory stand-in",
		},
		Scenarios: func(tier string) []vh.Scenario {
			var out []vh.Scenario
			length := 2
			if tier == "thorough" {
				length = 3
			}
			for i := range vs.Shapes {
				if vs.Shapes[i].Name != "targets" {
					continue
				}
				sh := &vs.Shapes[i]
				out = append(out, vh.Scenario{Name: "size: targets", First: true, Seq: func(q *vh.Q) {
					for _, mod := range []int{1, 2, 3} {
						q.ForSizes(513, fmt.Sprintf("targets, every %d. denied", mod), func(n int) error {
							t := table{}
							for k, name := range sh.Targets(n) {
								if k%mod != mod-1 {
									t.allow = append(t.allow, name)
								}
							}
							ok := func(target string) bool { return t.ok(target) }
							for _, uo := range []bool{false, true} {
								if err := q.ExecN(100000+5000*n, func(x *vh.X) {
									w := newWorld(x, sh.Targets(n), []table{t, t, t, t, t, t, t, t, t, t, t, t})
									sh.Stream(w, n, uo, ok)
								}); err != nil {
									return err
								}
							}
							return q.ExecN(100000+5000*n, func(x *vh.X) {
								w := newWorld(x, sh.Targets(n), []table{t, t, t, t, t, t, t, t, t, t, t, t})
								sh.Once(w, n, ok)
							})
						})
					}
				}})
			}
			tabs := subsets("t", "s", "r")
			for ti, t := range tabs {
				t := t
				_ = ti
				out = append(out, vh.Scenario{Name: "histories, allowed " + t.String(), Seq: func(q *vh.Q) {
					os := ops()
					n := 1
					for i := 0; i < length; i++ {
						n *= len(os)
					}
					for _, r := range reqs() {
						for i := 0; i < n; i++ {
							var seq []named
							what := ""
							for j, m := 0, i; j < length; j, m = j+1, m/len(os) {
								seq = append(seq, os[m%len(os)])
								what += os[m%len(os)].name + ", "
							}
							for _, stall := range []bool{false, true} {
								if q.Expired() {
									return
								}
								d := fmt.Sprintf("allowed %v, request %v: %sstalled=%v", t, vc.Msg(r), what, stall)
								q.State(d)
								q.Sample("%s", d)
								if !q.Do(func() string { return d }, func() error {
									return q.Exec(func(x *vh.X) { history(x, t, r, seq, stall) })
								}) {
									return
								}
							}
						}
					}
				}})
			}
			T := func(a ...string) table { return table{allow: a} }
			R := func(x ...*pb.SubscribeRequest) []*pb.SubscribeRequest { return x }
			ws := func(x ...[]vs.Act) [][]vs.Act { return x }
			both := ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b"), vs.ADel("t", 2, "a")}, []vs.Act{vs.ASet("s", 1, 2, "a", "b"), vs.ADel("s", 2, "a")})
			cs := []conf{
				{name: "one of two, stream", tabs: []table{T("t")}, reqs: R(vs.Stream("*", "", false, "a")), writers: both},
				{name: "none, stream", tabs: []table{T()}, reqs: R(vs.Stream("*", "", false, "a")), writers: both},
				{name: "one of two, updates only", tabs: []table{T("s")}, reqs: R(vs.Stream("*", "", true, "a")), writers: both},
				{name: "one of two, once", tabs: []table{T("s")}, reqs: R(vs.Once("*", "", "a", "*/b")), writers: both},
				{name: "one of two, poll", tabs: []table{T("s")}, reqs: R(vs.Poll("*", "", "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b")}, []vs.Act{vs.ASet("s", 1, 2, "a", "b")})},
				{name: "two subscribers", tabs: []table{T("t"), T("s")}, reqs: R(vs.Stream("*", "", false, "a"), vs.Stream("*", "", false, "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b")}, []vs.Act{vs.ASet("s", 1, 2, "a", "b")})},
				{name: "two subscribers, all and none", tabs: []table{T("t", "s"), T()}, reqs: R(vs.Stream("*", "", false, "a"), vs.Stream("*", "", false, "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b")}, []vs.Act{vs.ASet("s", 1, 2, "a", "b")})},
				{name: "denied and allowed single", tabs: []table{T("t"), T("t")}, reqs: R(vs.Stream("s", "", false, "a"), vs.Stream("t", "", false, "a")), writers: both},
				{name: "failing identity next to others", tabs: []table{{fail: true}, T("t")}, reqs: R(vs.Stream("*", "", false, "a"), vs.Once("*", "", "a")), writers: ws([]vs.Act{vs.ASet("t", 1, 2, "a", "b")}, []vs.Act{vs.ASet("s", 1, 2, "a", "b")})},
				{name: "resets and removals", tabs: []table{T("t")}, reqs: R(vs.Stream("*", "", false, "a")), writers: ws([]vs.Act{vs.AReset("s"), vs.ARemove("s")}, []vs.Act{vs.AReset("t"), vs.ASet("t", 1, 2, "a", "b")})},
				{name: "path origins", tabs: []table{T("s"), T("t")}, reqs: R(vs.Stream("*", "", false, "o:a", "p:b"), vs.Once("*", "", "o:a", "b")), writers: ws([]vs.Act{vs.ANotif("t", "o", nil, 1, false, [][]string{{"a"}}, 2), vs.ANotif("t", "p", nil, 1, false, [][]string{{"b"}}, 3)}, []vs.Act{vs.ANotif("s", "o", nil, 1, false, [][]string{{"a"}, {"b"}}, 2), vs.ANotif("s", "o", nil, 2, false, nil, 0, []string{"a"})})},
				{name: "metadata", tabs: []table{T("s")}, reqs: R(vs.Stream("*", "", false, "meta", "*")), writers: ws([]vs.Act{vs.AConnect("t"), vs.ASync("t"), vs.ARefresh()}, []vs.Act{vs.AConnect("s"), vs.ASync("s")})},
				{name: "removal of the allowed", tabs: []table{T("s")}, reqs: R(vs.Stream("*", "", false, "a")), writers: ws([]vs.Act{vs.ARemove("s")}, []vs.Act{vs.ASet("t", 1, 2, "a", "b")})},
			}
			b, decl := 6, 2
			if tier == "thorough" {
				b, decl = 9, 3
			}
			for _, c := range cs {
				sc := vh.Scenario{Name: c.name, Body: body(c), MaxBound: b, Declared: decl, Race: true, RaceBound: 1}
				sc.Opt.Delay = true
				out = append(out, sc)
			}
			return out
		},
	})
}
