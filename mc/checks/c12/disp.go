//go:build go1.23

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cli"
	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vgrpc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vx"
)

// ---- the client receive path and the CLI display ----

// script is the client end of a stream that brings the given responses.
type script struct {
	ctx   context.Context
	msgs  []*pb.SubscribeResponse
	k     int
	end   error
	onMsg func(k int) // before message k is handed out; k == len(msgs) at the end
}

func (s *script) Header() (metadata.MD, error) { return nil, nil }
func (s *script) Trailer() metadata.MD         { return nil }
func (s *script) CloseSend() error             { return nil }
func (s *script) Context() context.Context     { return s.ctx }
func (s *script) SendMsg(any) error            { return nil }
func (s *script) RecvMsg(m any) error {
	vrt.Yield()
	if s.onMsg != nil {
		s.onMsg(s.k)
	}
	if s.k >= len(s.msgs) {
		return s.end
	}
	// The bytes of a message are handed to each receiver.
	proto.Merge(m.(proto.Message), s.msgs[s.k])
	s.k++
	return nil
}

func dial(msgs []*pb.SubscribeResponse, end error, onMsg func(int)) {
	client.ResetRegisteredImpls()
	client.RegisterTest(gclient.Type, gclient.New)
	vgrpc.OnDial = func(ctx context.Context, a string, _ []grpc.DialOption) (*vgrpc.ClientConn, error) {
		cc := &vgrpc.ClientConn{Addr: a}
		cc.OnNewStream = func(ctx context.Context, _ *vgrpc.ClientConn) (grpc.ClientStream, error) {
			return &script{ctx: ctx, msgs: msgs, end: end, onMsg: onMsg}, nil
		}
		return cc, nil
	}
}

func up(n *pb.Notification) *pb.SubscribeResponse { return vx.Upd(n) }

// odd responses.
var oddResponses = []*pb.SubscribeResponse{
	{},
	{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}},
	{Response: &pb.SubscribeResponse_SyncResponse{}},
	{Response: &pb.SubscribeResponse_Error{}},
	{Response: &pb.SubscribeResponse_Error{Error: &pb.Error{Message: "m"}}},
	{Response: &pb.SubscribeResponse_Update{}},
}

// responses is the response grammar: prefixes × paths × values.
func responses(pres, ps []*pb.Path, vs []val) []*pb.SubscribeResponse {
	out := append([]*pb.SubscribeResponse(nil), oddResponses...)
	for _, n := range single(pres, ps, vs, []int64{5}) {
		if n.Atomic && len(n.Update) == 0 { // the client does not read the flag
			continue
		}
		out = append(out, vx.Wire(up(n)))
	}
	return out
}

// shown is one way to show a response stream.
type shown struct {
	disp, ts  string
	typ       client.Type
	count     uint
	size, lat bool
	loc       *time.Location
	dur       time.Duration
}

var shows = []shown{
	{disp: "GROUP", typ: client.Once},
	{disp: "GROUP", typ: client.Once, ts: "on", size: true},
	{disp: "GROUP", typ: client.Poll, count: 2},
	{disp: "GROUP", typ: client.Stream},
	{disp: "GROUP", typ: client.Stream, ts: "raw"},
	{disp: "SINGLE", typ: client.Stream, lat: true},
	{disp: "SINGLE", typ: client.Once, ts: time.RFC3339},
	{disp: "PROTO", typ: client.Stream, size: true},
	{disp: "SHORTPROTO", typ: client.Once},
	{disp: "SINGLE", typ: client.Stream, count: 2, ts: "on", loc: time.FixedZone("z", 5*3600), dur: time.Minute},
}

func (s shown) String() string { return fmt.Sprintf("%s %v timestamps %q", s.disp, s.typ, s.ts) }

func query(typ client.Type) client.Query {
	return client.Query{Addrs: []string{"x"}, Target: "t", Queries: []client.Path{{"a"}}, Type: typ, Timeout: time.Second}
}

// show runs the CLI display over a stream.
func show(s shown, msgs []*pb.SubscribeResponse, end error) error {
	dial(msgs, end, nil)
	var out []byte
	cfg := &cli.Config{
		PollingInterval: time.Second, Count: s.count, Delimiter: "/", DisplayIndent: "  ", DisplayType: s.disp,
		DisplayPeer: true, Timestamp: s.ts, DisplaySize: s.size, Latency: s.lat, Location: s.loc, StreamingDuration: s.dur, ClientTypes: []string{gclient.Type},
		Display: func(b []byte) { out = append(append(out, b...), '\n') },
	}
	cli.QueryDisplay(vcontext.Background(), query(s.typ), cfg)
	return nil
}

// receive runs the client library over a stream and judges what the
// application sees.
func receive(x *vh.X, cached bool, typ client.Type, msgs []*pb.SubscribeResponse, end error) {
	var cl client.Client
	var cc *client.CacheClient
	if cached {
		cc = client.New()
		cl = cc
	} else {
		cl = &client.BaseClient{}
	}
	view := func() map[string]string {
		out := map[string]string{}
		if cc != nil {
			for _, l := range cc.Leaves() {
				out[fmt.Sprintf("%q", l.Path)] = fmt.Sprintf("%#v %v", l.Val, l.TS.UnixNano())
			}
		}
		return out
	}
	before := view()
	cur := -1 // the message being processed
	check := func(next int) {
		now := view()
		if cur >= 0 && cur < len(msgs) {
			rejected := next < 0
			judgeView(x, before, now, msgs[cur], rejected)
		}
		before, cur = now, next
	}
	dial(msgs, end, check)
	q := query(typ)
	var seen []client.Notification // an update without any value is handed on as nil
	q.NotificationHandler = func(n client.Notification) error {
		seen = append(seen, n)
		return nil
	}
	err := cl.Subscribe(vcontext.Background(), q, gclient.Type)
	if typ == client.Poll && err == nil {
		for range 2 {
			cur = -1 // a poll starts a new view
			if err = cl.Poll(); err != nil {
				break
			}
		}
	}
	if typ == client.Stream && err != nil && cur < len(msgs) && cur >= 0 {
		check(-1) // message cur was rejected
	}
	cl.Close()
	view()
}

// judgeView judges what one response did to the view of the client.
func judgeView(x *vh.X, before, after map[string]string, r *pb.SubscribeResponse, rejected bool) {
	n := r.GetUpdate()
	parts := len(n.GetUpdate()) + len(n.GetDelete())
	for k, v := range before {
		if a, ok := after[k]; ok && a == v {
			continue
		}
		if n == nil || rejected && parts == 1 {
			x.Fail("view", "leaf %s = %s of the client's view changed", k, v)
		}
		if !aboutLeaf(n, k) {
			x.Fail("view", "leaf %s = %s of the client's view changed, which the message does not address", k, v)
		}
	}
	if n == nil || rejected && parts == 1 {
		for k := range after {
			if _, ok := before[k]; !ok {
				x.Fail("view", "leaf %s of the client's view appeared", k)
			}
		}
	}
}

// aboutLeaf says whether the leaf (a quoted view path) may be addressed by n:
// some part of it is compatible with it.
func aboutLeaf(n *pb.Notification, leaf string) bool {
	elems := strings.Split(strings.Trim(leaf, "[]"), " ")
	full := func(p *pb.Path) []string {
		var out []string
		if t := n.GetPrefix().GetTarget(); t != "" {
			out = append(out, t)
		}
		if o := n.GetPrefix().GetOrigin(); o != "" {
			out = append(out, o)
		}
		out = append(append(out, vc.Strs(n.GetPrefix())...), vc.Strs(p)...)
		for i := range out {
			if out[i] != "*" {
				out[i] = fmt.Sprintf("%q", out[i])
			}
		}
		return out
	}
	for _, u := range n.GetUpdate() {
		if comparable(full(u.GetPath()), elems) {
			return true
		}
	}
	for _, d := range n.GetDelete() {
		if comparable(full(d), elems) {
			return true
		}
	}
	return false
}

func respText(msgs []*pb.SubscribeResponse) string {
	var s []string
	for _, m := range msgs {
		s = append(s, "{"+vc.Msg(m)+"}")
	}
	return strings.Join(s, ", ")
}

var (
	goodResp = up(vc.Note(5, &pb.Path{Target: "t"}, []*pb.Update{vc.U(elems("a", "b"), vc.I(1)), vc.U(elems("c"), vc.S("x"))}, nil))
	sync     = vx.Sync()
	errEnd   = errors.New("stream broken")
)

// oneStream runs everything over one stream.
func oneStream(q *vh.Q, msgs []*pb.SubscribeResponse, end error) bool {
	for _, s := range shows {
		if !q.Do(func() string { return fmt.Sprintf("CLI %v: %s, then %v", s, respText(msgs), end) }, func() error {
			return q.Exec(func(x *vh.X) { show(s, msgs, end) })
		}) {
			return false
		}
	}
	for _, cached := range []bool{true, false} {
		for _, typ := range []client.Type{client.Stream, client.Once, client.Poll} {
			if !q.Do(func() string { return fmt.Sprintf("client (cached %v, %v): %s, then %v", cached, typ, respText(msgs), end) }, func() error {
				return q.Exec(func(x *vh.X) { receive(x, cached, typ, msgs, end) })
			}) {
				return false
			}
		}
	}
	return true
}

// streams shows the streams around each of the given responses.
func streams(rs []*pb.SubscribeResponse, shard, shards int) func(q *vh.Q) {
	return func(q *vh.Q) {
		for i, r := range rs {
			if i%shards != shard {
				continue
			}
			if q.Expired() {
				return
			}
			q.State(string(vc.Msg(r)))
			if !oneStream(q, []*pb.SubscribeResponse{goodResp, r, sync, r}, io.EOF) ||
				!oneStream(q, []*pb.SubscribeResponse{r, sync, r, goodResp, sync}, errEnd) {
				return
			}
		}
	}
}

// pairs shows the streams of two of the given responses.
func pairs(rs []*pb.SubscribeResponse, shard, shards int) func(q *vh.Q) {
	return func(q *vh.Q) {
		for i, a := range rs {
			if i%shards != shard {
				continue
			}
			for _, b := range rs {
				if q.Expired() {
					return
				}
				if !oneStream(q, []*pb.SubscribeResponse{a, b, sync, a, b}, io.EOF) {
					return
				}
			}
		}
	}
}

func respEdits(i int) func(q *vh.Q) {
	return func(q *vh.Q) {
		edits(up(corpus[i]), func(e *pb.SubscribeResponse, what func() string) bool {
			if q.Expired() {
				return false
			}
			return oneStream(q, []*pb.SubscribeResponse{goodResp, e, sync, e}, io.EOF)
		})
	}
}
