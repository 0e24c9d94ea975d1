//go:build go1.23

package main

import (
	"context"
	"fmt"
	"io"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/latency"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vx"
)

// ---- the Subscribe handler ----

// contents are cache contents; the messages refused by the cache stay out.
var contents = []struct {
	name    string
	targets []string
	msgs    []*pb.Notification
}{
	{"no targets", nil, nil},
	{"no data", []string{"t", "u"}, nil},
	{"data", []string{"t", "u"}, base},
	{"root leaf", []string{"t", "u"}, []*pb.Notification{vc.Note(5, &pb.Path{Target: "t"}, []*pb.Update{vc.U(&pb.Path{}, vc.I(1))}, nil)}},
	{"no values", []string{"t", "u"}, []*pb.Notification{vc.Note(5, &pb.Path{Target: "t"}, []*pb.Update{{Path: elems("a", "b")}, {Path: elems("")}, {Path: elems("a", "c", ""), Val: &pb.TypedValue{}}}, nil)}},
	{"atomic", []string{"t", "u"}, []*pb.Notification{
		{Timestamp: 5, Atomic: true, Prefix: &pb.Path{Target: "t", Origin: "o"}, Update: []*pb.Update{vc.U(elems("x"), vc.I(1)), vc.U(elems("x", "y"), vc.I(2)), {}}},
		{Timestamp: 5, Atomic: true, Prefix: with(elems("a"), func(p *pb.Path) { p.Target = "t" }), Update: []*pb.Update{{}}, Delete: []*pb.Path{{}}},
		{Timestamp: 5, Atomic: true, Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{vc.U(elems("z"), vc.I(1))}},
	}},
	{"metadata written", []string{"t", "u"}, []*pb.Notification{
		vc.Note(5, &pb.Path{Target: "t"}, []*pb.Update{vc.U(elems("meta", "sync"), vc.I(1)), vc.U(elems("meta", "targetLeaves"), vc.S("x")), vc.U(elems("meta", "new", "leaf"), vc.J("{"))}, nil),
		vc.Note(5, &pb.Path{Target: "t"}, nil, []*pb.Path{elems("meta", "connected")}),
	}},
}

type rstream struct {
	grpc.ServerStream
	ctx    context.Context
	cancel context.CancelFunc
	reqs   []*pb.SubscribeRequest
	k      int
	hold   bool // stay open after the requests
	sent   []*pb.SubscribeResponse
	ended  bool
	err    error
	raw    int
}

func (s *rstream) Context() context.Context { return s.ctx }

func (s *rstream) Recv() (*pb.SubscribeRequest, error) {
	vrt.Yield()
	if s.ctx.Err() != nil {
		return nil, status.Error(codes.Canceled, "context canceled")
	}
	if s.k < len(s.reqs) {
		s.k++
		return s.reqs[s.k-1], nil
	}
	if s.hold {
		vrt.Recv2(s.ctx.Done())
		return nil, status.Error(codes.Canceled, "context canceled")
	}
	return nil, io.EOF
}

func (s *rstream) Send(r *pb.SubscribeResponse) error {
	if s.ctx.Err() != nil {
		return status.Error(codes.Canceled, "context canceled")
	}
	b, err := proto.Marshal(r) // as the transport does
	if err != nil {
		return status.Error(codes.Internal, err.Error())
	}
	s.raw += len(b)
	s.sent = append(s.sent, r)
	return nil
}

type addr string

func (addr) Network() string  { return "mem" }
func (a addr) String() string { return string(a) }

func open(srv *subscribe.Server, hold bool, reqs ...*pb.SubscribeRequest) *rstream {
	ctx, cancel := vcontext.WithCancel(peer.NewContext(context.Background(), &peer.Peer{Addr: addr("c")}))
	s := &rstream{ctx: ctx, cancel: cancel, hold: hold}
	for _, r := range reqs {
		s.reqs = append(s.reqs, proto.Clone(r).(*pb.SubscribeRequest))
	}
	vrt.GoN("subscribe", func() {
		err := srv.Subscribe(s)
		vrt.Touch()
		s.err, s.ended = err, true
	})
	return s
}

func list(l *pb.SubscriptionList) *pb.SubscribeRequest {
	return vx.Wire(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: l}})
}

// requests is the request grammar.
func requests(thorough bool) []*pb.SubscribeRequest {
	out := []*pb.SubscribeRequest{{}, {Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}}
	modes := []pb.SubscriptionList_Mode{pb.SubscriptionList_STREAM, pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL, 7}
	add := func(pre *pb.Path, subs ...*pb.Subscription) {
		for _, m := range modes {
			for _, uo := range []bool{false, true} {
				out = append(out, list(&pb.SubscriptionList{Prefix: pre, Mode: m, UpdatesOnly: uo, Subscription: subs}))
			}
		}
	}
	for i, pre := range prefixes {
		add(pre)
		for _, p := range paths {
			add(pre, &pb.Subscription{Path: p})
		}
		few := fewPaths
		if !thorough {
			few = pick(fewPaths, 0, 1, 3, 5)
			if i > 7 {
				few = nil
			}
		}
		for _, a := range few {
			for _, b := range few {
				add(pre, &pb.Subscription{Path: a}, &pb.Subscription{Path: b})
			}
		}
	}
	// Other fields.
	for _, m := range modes {
		l := &pb.SubscriptionList{Prefix: &pb.Path{Target: "*"}, Mode: m, AllowAggregation: true, Encoding: 77, Qos: &pb.QOSMarking{Marking: 1<<32 - 1}, UseModels: []*pb.ModelData{{}},
			Subscription: []*pb.Subscription{{Path: elems("a"), Mode: 9, SampleInterval: 1<<64 - 1, HeartbeatInterval: 1<<64 - 1, SuppressRedundant: true}}}
		out = append(out, list(l))
	}
	out = append(out, list(nil), vx.Wire(&pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{}}))
	return out
}

// later are the requests that may follow in a stream.
var later = [][]*pb.SubscribeRequest{
	{},
	{{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}},
	{{}},
	{{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{}}}},
	{{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}, {Request: &pb.SubscribeRequest_Poll{}}, {}},
}

// events happen while a stream is open.
var events = []struct {
	name string
	f    func(c *cache.Cache)
}{
	{"update", upd(vc.Note(9, &pb.Path{Target: "t"}, []*pb.Update{vc.U(elems("a", "b"), vc.S("new"))}, nil))},
	{"root update", upd(vc.Note(9, &pb.Path{Target: "t"}, []*pb.Update{vc.U(nil, vc.S("new"))}, nil))},
	{"valueless update", upd(vc.Note(9, &pb.Path{Target: "t"}, []*pb.Update{{Path: elems("a", "b")}}, nil))},
	{"atomic update", upd(&pb.Notification{Timestamp: 9, Atomic: true, Prefix: with(elems("a"), func(p *pb.Path) { p.Target = "t" }), Update: []*pb.Update{{}, vc.U(elems("b"), vc.I(2))}})},
	{"metadata update", upd(vc.Note(9, &pb.Path{Target: "t"}, []*pb.Update{vc.U(elems("meta", "sync"), vc.I(7))}, nil))},
	{"deletes", upd(vc.Note(9, &pb.Path{Target: "t"}, nil, []*pb.Path{elems("a"), {}, elems("*"), elems("meta")}))},
	{"reset", func(c *cache.Cache) { c.Reset("t") }},
	{"remove", func(c *cache.Cache) { c.Remove("t") }},
	{"refresh", func(c *cache.Cache) { c.UpdateMetadata(); c.UpdateSize() }},
}

func upd(n *pb.Notification) func(*cache.Cache) {
	return func(c *cache.Cache) { c.GnmiUpdate(proto.Clone(n).(*pb.Notification)) }
}

// good is a subscription that must keep working whatever others ask for.
var good = list(&pb.SubscriptionList{Prefix: &pb.Path{Target: "u"}, Mode: pb.SubscriptionList_STREAM, Subscription: []*pb.Subscription{{Path: elems("g")}}})

// serve runs one request against a content, with the events evs while the
// stream is open.
func serve(content int, req *pb.SubscribeRequest, follow []*pb.SubscribeRequest, evs []int, opts ...subscribe.Option) func(x *vh.X) {
	return func(x *vh.X) {
		w := &world{}
		now := func() time.Time { w.n++; return time.Unix(0, int64(1000+w.n)) }
		cache.Now, latency.Now = now, now
		ct := contents[content]
		w.c = cache.New(ct.targets)
		w.s, _ = subscribe.NewServer(w.c, opts...)
		w.c.SetClient(func(l *ctree.Leaf) { w.s.Update(l) })
		for _, m := range ct.msgs {
			w.c.GnmiUpdate(proto.Clone(m).(*pb.Notification))
		}
		var g *rstream
		if len(ct.targets) > 0 {
			g = open(w.s, true, good)
			vrt.Quiesce()
		}
		before := w.dump()
		s := open(w.s, len(evs) > 0, append([]*pb.SubscribeRequest{req}, follow...)...)
		vrt.Quiesce()
		after := w.dump()
		if stateKey(before) != stateKey(after) {
			x.Fail("request-changes", "a subscribe request changed the cache")
		}
		for _, e := range evs {
			events[e].f(w.c)
			vrt.Quiesce()
		}
		s.cancel()
		vrt.Quiesce()
		if !s.ended {
			// STREAM subscriptions notice the end of a stream by a failing send.
			if req.GetSubscribe().GetMode() != pb.SubscriptionList_STREAM {
				x.Fail("open", "the handler does not return although its stream is over")
			}
			if len(ct.targets) > 0 {
				upd(vc.Note(20, &pb.Path{Target: "t"}, []*pb.Update{vc.U(elems("a", "b"), vc.S("last"))}, nil))(w.c)
				vrt.Quiesce()
			}
		}
		if g == nil {
			return
		}
		n := len(g.sent)
		if g.ended {
			x.Fail("good", "another subscription ended with %v", g.err)
		}
		upd(vc.Note(30, &pb.Path{Target: "u"}, []*pb.Update{vc.U(elems("g"), vc.S("last"))}, nil))(w.c)
		vrt.Quiesce()
		if len(g.sent) != n+1 {
			x.Fail("good", "another subscription no longer gets updates (%d new responses, ended %v %v)", len(g.sent)-n, g.ended, g.err)
		}
		g.cancel()
		upd(vc.Note(31, &pb.Path{Target: "u"}, []*pb.Update{vc.U(elems("g"), vc.S("more"))}, nil))(w.c)
		vrt.Quiesce()
	}
}

type acl struct{}

func (acl) NewRPCACL(context.Context) (subscribe.RPCACL, error) { return rpcACL{}, nil }
func (acl) Check(_, t string) bool                             { return t == "u" }

type rpcACL struct{}

func (rpcACL) Check(t string) bool { return t == "u" }

func reqText(content int, r *pb.SubscribeRequest, follow []*pb.SubscribeRequest, evs []int) string {
	s := fmt.Sprintf("cache: %s; request %s", contents[content].name, vc.Msg(r))
	for _, f := range follow {
		s += "; then " + vc.Msg(f)
	}
	for _, e := range evs {
		s += "; " + events[e].name
	}
	return s
}

func serveAll(content int, thorough bool, shard, shards int) func(q *vh.Q) {
	return func(q *vh.Q) {
		evs := [][]int{nil}
		all := make([]int, len(events))
		for i := range events {
			all[i] = i
			if thorough {
				evs = append(evs, []int{i})
				for j := range events {
					evs = append(evs, []int{i, j})
				}
			}
		}
		evs = append(evs, all)
		if content == 0 {
			evs = evs[:1]
		}
		for i, r := range requests(thorough) {
			if i%shards != shard {
				continue
			}
			if q.Expired() {
				return
			}
			q.State(string(vc.Msg(r)))
			fs := later[:1]
			if r.GetSubscribe().GetMode() == pb.SubscriptionList_POLL {
				fs = later
			}
			es := evs
			if r.GetSubscribe() == nil {
				es = evs[:1]
			}
			for _, f := range fs {
				for _, e := range es {
					if len(e) > 0 && len(f) > 1 {
						continue
					}
					if !q.Do(func() string { return reqText(content, r, f, e) }, func() error { return q.Exec(serve(content, r, f, e)) }) {
						return
					}
				}
			}
			opts := []subscribe.Option{subscribe.WithACL(acl{}), subscribe.WithStats(), subscribe.WithoutDupReport(), subscribe.WithTimeout(time.Second)}
			if !q.Do(func() string { return "with options: " + reqText(content, r, nil, es[len(es)-1]) }, func() error { return q.Exec(serve(content, r, nil, es[len(es)-1], opts...)) }) {
				return
			}
		}
	}
}

// serveEdits edits the encodings of well-formed requests.
func serveEdits(content int) func(q *vh.Q) {
	return func(q *vh.Q) {
		for _, r := range []*pb.SubscribeRequest{
			list(&pb.SubscriptionList{Prefix: &pb.Path{Target: "t"}, Mode: pb.SubscriptionList_STREAM, Subscription: []*pb.Subscription{{Path: elems("a", "b")}}}),
			list(&pb.SubscriptionList{Prefix: &pb.Path{Target: "*", Origin: "o"}, Mode: pb.SubscriptionList_ONCE, Subscription: []*pb.Subscription{{Path: depr("a")}, {Path: &pb.Path{Elem: []*pb.PathElem{{Name: "a", Key: map[string]string{"k": "v"}}}}}}}),
			list(&pb.SubscriptionList{Prefix: &pb.Path{Target: "t"}, Mode: pb.SubscriptionList_POLL, UpdatesOnly: true, Subscription: []*pb.Subscription{{Path: &pb.Path{Origin: "o", Elem: []*pb.PathElem{{Name: "x"}}}}}}),
		} {
			edits(r, func(e *pb.SubscribeRequest, what func() string) bool {
				if q.Expired() {
					return false
				}
				return q.Do(func() string { return what() + "\n" + reqText(content, e, nil, nil) }, func() error { return q.Exec(serve(content, e, nil, []int{0, 5})) })
			})
		}
	}
}
