// Package vs drives the real Subscribe server over in-memory streams under the
// controlled scheduler: scripted subscribers, cache operations with their call
// and return positions in the execution's event order, and the model of what
// the cache holds.
package vs

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/latency"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vm"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// World is a cache with a subscribe server.
type World struct {
	X    *vh.X
	C    *cache.Cache
	S    *subscribe.Server
	Subs []*Sub
	Ops  []*Op
	Feed []Fed
	tick int64

	infos map[*pb.Notification]*info
	hist  map[string][]Ver
	histN int
	histE int
}

// Fed is one call of the change feed.
type Fed struct {
	N      *pb.Notification
	At     int  // event index when the cache made the call
	Ret    int  // and when the server returned from it
	OK     bool // returned
	thread int
}

// Op is one operation on the cache.
type Op struct {
	Name      string
	Kind      string // update, reset, remove, add, ...
	Target    string
	N         *pb.Notification
	Call, Ret int
	Done      bool
	Err       error
	thread    int
}

// Item is one response.
type Item struct {
	Resp *pb.SubscribeResponse // nil in race builds: other threads must not read it
	Sync bool
	T    int64 // virtual time of the Send call
	At   int   // event index of the Send call
	Done bool
}

// Sub is one subscriber.
type Sub struct {
	w        *World
	ID       int
	Req      *pb.SubscribeRequest
	Ctx      context.Context
	cancel   context.CancelFunc
	taken    int
	triggers int
	eof      bool
	gone     bool
	blocked  bool
	budget   int // sends allowed while blocked
	Sent     []Item
	Open     int // event index of the Subscribe call
	Ended    bool
	End      int
	Err      error
	RecvAt   []int // event indices at which poll triggers were handed out
	RecvErr  error // error of the first Recv
	// Stalls holds the virtual time the i-th send blocks for; negative: forever.
	Stalls []time.Duration
	EndT   int64 // virtual time of the end

	arrow, sentText string
}

// ev and ret are events rendered only when needed.
type ev struct {
	what string
	m    proto.Message
}

func (e ev) String() string {
	if e.m == nil || !e.m.ProtoReflect().IsValid() {
		return e.what
	}
	return e.what + " " + vc.Msg(e.m)
}

type ret struct {
	what string
	err  error
}

func (r ret) String() string { return fmt.Sprintf("return %s %v", r.what, r.err) }

type addr string

func (addr) Network() string  { return "mem" }
func (a addr) String() string { return string(a) }

var _ net.Addr = addr("")

// New builds a world. The clock of the cache advances with every reading.
func New(x *vh.X, targets []string, copts []cache.Option, sopts []subscribe.Option) *World {
	w := &World{X: x, Subs: make([]*Sub, 0, 8), Ops: make([]*Op, 0, 64), Feed: make([]Fed, 0, 256)}
	now := func() time.Time { vrt.Touch(); w.tick++; return time.Unix(0, vc.Base+w.tick) }
	cache.Now = now
	latency.Now = func() time.Time { return time.Unix(0, vc.Base) }
	w.C = cache.New(targets, copts...)
	w.S, _ = subscribe.NewServer(w.C, sopts...)
	w.C.SetClient(w.feed)
	return w
}

func (w *World) feed(l *ctree.Leaf) {
	n, ok := l.Value().(*pb.Notification)
	if !ok {
		w.X.Fail("feed-type", "feed entry of type %T", l.Value())
	}
	i := len(w.Feed)
	f := Fed{N: proto.Clone(n).(*pb.Notification), thread: vrt.ThreadID()}
	if vrt.RaceEnabled {
		f.N = nil // other threads must not read it
	}
	w.Feed = append(w.Feed, f)
	w.Feed[i].At = vrt.Event(ev{"feed", w.Feed[i].N})
	w.S.Update(l)
	w.Feed[i].Ret = vrt.Event("fed")
	w.Feed[i].OK = true
}

// Do runs one cache operation with its call and return recorded.
func (w *World) Do(o *Op, f func() error) {
	vrt.Yield()
	o.thread = vrt.ThreadID()
	w.Ops = append(w.Ops, o)
	o.Call = vrt.Event(ev{"call " + o.Name, o.N})
	o.Err = f()
	o.Ret = vrt.Event(ret{o.Name, o.Err})
	o.Done = true
}

// Update submits a notification.
func (w *World) Update(n *pb.Notification) {
	o := &Op{Name: "update", Kind: "update", Target: n.GetPrefix().GetTarget()}
	if !vrt.RaceEnabled {
		o.N = proto.Clone(n).(*pb.Notification)
	}
	w.Do(o, func() error { return w.C.GnmiUpdate(n) })
}

// Set updates one leaf.
func (w *World) Set(target string, ts, v int64, p ...string) {
	w.Update(vc.Note(ts, vc.Prefix(target, "", nil), []*pb.Update{vc.U(vc.P(p...), vc.I(v))}, nil))
}

// Del deletes.
func (w *World) Del(target string, ts int64, p ...string) {
	w.Update(vc.Note(ts, vc.Prefix(target, "", nil), nil, []*pb.Path{vc.P(p...)}))
}

// Reset, Remove, Add, Sync, Connect, Refresh are the other operations.
func (w *World) Reset(t string) {
	w.Do(&Op{Name: "reset " + t, Kind: "reset", Target: t}, func() error { w.C.Reset(t); return nil })
}
func (w *World) Remove(t string) {
	w.Do(&Op{Name: "remove " + t, Kind: "remove", Target: t}, func() error { w.C.Remove(t); return nil })
}
func (w *World) Add(t string) {
	w.Do(&Op{Name: "add " + t, Kind: "add", Target: t}, func() error { w.C.Add(t); return nil })
}
func (w *World) Sync(t string) {
	w.Do(&Op{Name: "sync " + t, Kind: "sync", Target: t}, func() error { w.C.Sync(t); return nil })
}
func (w *World) Connect(t string) {
	w.Do(&Op{Name: "connect " + t, Kind: "connect", Target: t}, func() error { w.C.Connect(t); return nil })
}
func (w *World) Refresh() {
	w.Do(&Op{Name: "refresh", Kind: "refresh"}, func() error { w.C.UpdateMetadata(); return nil })
}
func (w *World) RefreshSize() {
	w.Do(&Op{Name: "refresh size", Kind: "refresh"}, func() error { w.C.UpdateSize(); return nil })
}
func (w *World) ConnectError(t string) {
	w.Do(&Op{Name: "connect error " + t, Kind: "connect error", Target: t}, func() error { w.C.ConnectError(t, errors.New("refused")); return nil })
}

// Req builds a subscribe request; a path "o:a/b" has origin o.
func Req(mode pb.SubscriptionList_Mode, target, origin string, updatesOnly bool, paths ...string) *pb.SubscribeRequest {
	l := &pb.SubscriptionList{Mode: mode, UpdatesOnly: updatesOnly, Prefix: &pb.Path{Target: target, Origin: origin}}
	for _, p := range paths {
		l.Subscription = append(l.Subscription, &pb.Subscription{Path: Path(p)})
	}
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: l}}
}

// Path parses "o:a/b"; "" is the root path, "nil" no path at all.
func Path(p string) *pb.Path {
	if p == "nil" {
		return nil
	}
	o, rest, ok := strings.Cut(p, ":")
	if !ok {
		o, rest = "", p
	}
	r := &pb.Path{}
	if rest != "" {
		r = vc.P(strings.Split(rest, "/")...)
	}
	r.Origin = o
	return r
}

// Subscribe opens a subscription in a new thread. blocked subscribers start
// with their sends blocked.
func (w *World) Subscribe(req *pb.SubscribeRequest, blocked bool) *Sub {
	s := w.Prepare(req)
	s.blocked = blocked
	s.Start()
	return s
}

// Prepare makes a subscriber without starting it.
func (w *World) Prepare(req *pb.SubscribeRequest) *Sub {
	id := len(w.Subs)
	ctx, cancel := vcontext.WithCancel(peer.NewContext(context.Background(), &peer.Peer{Addr: addr(fmt.Sprintf("client%d", id))}))
	s := &Sub{w: w, ID: id, Req: req, Ctx: ctx, cancel: cancel, Sent: make([]Item, 0, 256), RecvAt: make([]int, 0, 16), Open: -1, End: -1,
		arrow: fmt.Sprintf("sub%d <-", id), sentText: fmt.Sprintf("sub%d sent", id)}
	w.Subs = append(w.Subs, s)
	return s
}

// Start runs Subscribe in its own thread.
func (s *Sub) Start() {
	vrt.GoN(fmt.Sprintf("sub%d", s.ID), s.Run)
}

// Run calls Subscribe.
func (s *Sub) Run() {
	vrt.Yield()
	s.Open = vrt.Event(fmt.Sprintf("sub%d opens", s.ID))
	err := s.w.S.Subscribe(&stream{s: s})
	s.Err, s.Ended, s.EndT = err, true, vrt.Now()
	s.End = vrt.Event(fmt.Sprintf("sub%d ends: %v", s.ID, err))
	s.gone = true
	s.cancel()
}

// Cancel ends the client's side.
func (s *Sub) Cancel() {
	vrt.Event(fmt.Sprintf("sub%d cancelled", s.ID))
	s.gone = true
	s.cancel()
}

// Trigger issues a poll trigger.
func (s *Sub) Trigger() {
	s.triggers++
	vrt.Event(fmt.Sprintf("sub%d polls", s.ID))
}

// EOF closes the client's send side.
func (s *Sub) EOF() {
	s.eof = true
	vrt.Event(fmt.Sprintf("sub%d half-closes", s.ID))
}

// Block and Unblock the stream's sends.
func (s *Sub) Block() {
	s.blocked = true
	vrt.Event(fmt.Sprintf("sub%d blocks", s.ID))
}
func (s *Sub) Unblock() {
	s.blocked = false
	vrt.Event(fmt.Sprintf("sub%d unblocks", s.ID))
}

// Allow lets n sends through although the stream is blocked.
func (s *Sub) Allow(n int) {
	s.budget += n
	vrt.Event(fmt.Sprintf("sub%d allows %d", s.ID, n))
}

// Syncs counts the sync responses received so far.
func (s *Sub) Syncs() int {
	n := 0
	for _, i := range s.Sent {
		if i.Done && i.Sync {
			n++
		}
	}
	return n
}

type stream struct {
	grpc.ServerStream
	s *Sub
}

var _ pb.GNMI_SubscribeServer = (*stream)(nil)

func (t *stream) Context() context.Context { return t.s.Ctx }

func (t *stream) Recv() (*pb.SubscribeRequest, error) {
	s := t.s
	s.taken++
	if s.taken == 1 {
		if s.RecvErr != nil {
			return nil, s.RecvErr
		}
		return s.Req, nil
	}
	vrt.Await("recv", func() bool { return s.gone || s.triggers > s.taken-2 || s.eof })
	switch {
	case s.gone:
		return nil, status.Error(codes.Canceled, "context canceled")
	case s.triggers > s.taken-2:
		s.RecvAt = append(s.RecvAt, vrt.Event(fmt.Sprintf("sub%d server receives poll", s.ID)))
		return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}, nil
	}
	return nil, io.EOF
}

func (t *stream) Send(r *pb.SubscribeResponse) error {
	s := t.s
	if s.gone {
		return status.Error(codes.Canceled, "context canceled")
	}
	i := len(s.Sent)
	c := proto.Clone(r).(*pb.SubscribeResponse)
	s.Sent = append(s.Sent, Item{Resp: c, Sync: c.GetSyncResponse(), T: vrt.Now()})
	if vrt.RaceEnabled {
		s.Sent[i].Resp = nil
	}
	s.Sent[i].At = vrt.Event(ev{s.arrow, s.Sent[i].Resp})
	if i < len(s.Stalls) && s.Stalls[i] != 0 {
		if d := s.Stalls[i]; d < 0 {
			vrt.Await(fmt.Sprintf("sub%d send", s.ID), func() bool { return s.gone })
		} else {
			vrt.Sleep(int64(d))
		}
		if s.gone {
			return status.Error(codes.Canceled, "context canceled")
		}
	}
	if s.blocked {
		vrt.Await(fmt.Sprintf("sub%d send", s.ID), func() bool { return s.gone || !s.blocked || s.budget > 0 })
		if s.gone {
			return status.Error(codes.Canceled, "context canceled")
		}
		if s.blocked {
			s.budget--
		}
	} else {
		vrt.Yield()
	}
	s.Sent[i].Done = true
	vrt.Event(s.sentText)
	return nil
}

// Log renders the events.
func (w *World) Log() string { return vh.EventLog() }

// Fail reports a violation with the event log.
func (w *World) Fail(key, f string, a ...any) {
	w.X.Fail(key, "%s\n%s", fmt.Sprintf(f, a...), w.Log())
}

// Patterns are the index patterns (below the target) of a subscription.
func Patterns(req *pb.SubscribeRequest) [][]string {
	var out [][]string
	l := req.GetSubscribe()
	for _, s := range l.GetSubscription() {
		pre := l.GetPrefix()
		var ix []string
		o := pre.GetOrigin()
		if o == "" {
			o = s.GetPath().GetOrigin()
		}
		if o != "" {
			ix = append(ix, o)
		}
		ix = append(ix, vc.Strs(pre)...)
		out = append(out, append(ix, vc.Strs(s.GetPath())...))
	}
	return out
}

// Matches reports whether a leaf of target is selected by the request.
func Matches(req *pb.SubscribeRequest, target string, leaf []string) bool {
	t := req.GetSubscribe().GetPrefix().GetTarget()
	if t != "*" && t != target {
		return false
	}
	for _, p := range Patterns(req) {
		if vm.Match(p, leaf) {
			return true
		}
	}
	return false
}

// LeafKey is the key of a leaf with its target.
func LeafKey(target string, ix []string) string {
	return vm.K(append([]string{target}, ix...))
}

// Value renders the content of an update notification.
func Value(n *pb.Notification) string { return vc.Content(n) }

// NKey is the leaf key and content of an update notification as the cache
// stores it.
func NKey(n *pb.Notification) string {
	var p *pb.Path
	if !n.GetAtomic() {
		p = n.GetUpdate()[0].GetPath()
	}
	return LeafKey(n.GetPrefix().GetTarget(), vc.Index(n.GetPrefix(), p))
}

// Content returns the cache content matching req: leaf key to value text.
func (w *World) Content(req *pb.SubscribeRequest) map[string]string {
	out := map[string]string{}
	for _, n := range w.Stored() {
		k := NKey(n)
		if p := vm.P(k); Matches(req, p[0], p[1:]) {
			out[k] = Value(n)
		}
	}
	return out
}

// Stored returns every stored notification.
func (w *World) Stored() []*pb.Notification {
	var out []*pb.Notification
	w.C.Query("*", []string{"*"}, func(_ []string, _ *ctree.Leaf, v any) error {
		out = append(out, v.(*pb.Notification))
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return NKey(out[i]) < NKey(out[j]) })
	return out
}

// Replay applies responses in order to an initially empty view and returns the
// part of it that req selects.
func (s *Sub) Replay(items []Item) map[string]string {
	view := vm.Tree{}
	for _, it := range items {
		n := it.Resp.GetUpdate()
		if n == nil {
			continue
		}
		pre := append([]string{n.GetPrefix().GetTarget()}, vc.Index(n.GetPrefix(), nil)...)
		if n.GetAtomic() && len(n.GetUpdate()) > 0 {
			view.Delete(pre, nil)
			view[vm.K(pre)] = Value(n)
		} else {
			for _, u := range n.GetUpdate() {
				view[LeafKey(n.GetPrefix().GetTarget(), vc.Index(n.GetPrefix(), u.GetPath()))] = Value(vc.Single(n, u))
			}
		}
		for _, d := range n.GetDelete() {
			view.Delete(append(append([]string(nil), pre...), vc.Strs(d)...), nil)
		}
	}
	out := map[string]string{}
	for k, v := range view {
		if p := vm.P(k); len(p) > 0 && Matches(s.Req, p[0], p[1:]) {
			out[k] = v.(string)
		}
	}
	return out
}

// Diff compares two views.
func Diff(want, got map[string]string) string {
	var out []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			out = append(out, fmt.Sprintf("missing %q = %s", vm.P(k), v))
		} else if g != v {
			out = append(out, fmt.Sprintf("%q is %s, want %s", vm.P(k), g, v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			out = append(out, fmt.Sprintf("extra %q = %s", vm.P(k), v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// Settle waits until nothing can run.
func (w *World) Settle() { vrt.Quiesce() }

// StuckOps lists cache operations that have not returned.
func (w *World) StuckOps() string {
	var out []string
	for _, o := range w.Ops {
		if !o.Done {
			out = append(out, fmt.Sprint(ev{o.Name, o.N}))
		}
	}
	return strings.Join(out, "; ")
}

// Responses renders what a subscriber received, for outcomes.
func (s *Sub) Responses() string {
	var b strings.Builder
	if vrt.RaceEnabled {
		return fmt.Sprint(len(s.Sent), " responses")
	}
	for _, it := range s.Sent {
		b.WriteString(Short(it.Resp))
		b.WriteByte(' ')
	}
	return b.String()
}

// Short renders one response.
func Short(r *pb.SubscribeResponse) string {
	if r.GetUpdate() == nil {
		return "sync"
	}
	var b strings.Builder
	n := r.GetUpdate()
	for _, u := range n.GetUpdate() {
		fmt.Fprintf(&b, "%s:%s=%v", n.GetPrefix().GetTarget(), strings.Join(vc.Index(n.GetPrefix(), u.GetPath()), "/"), u.GetVal().GetIntVal())
		if u.GetDuplicates() > 0 {
			fmt.Fprintf(&b, "(+%d)", u.GetDuplicates())
		}
	}
	for _, d := range n.GetDelete() {
		fmt.Fprintf(&b, "%s:-%s", n.GetPrefix().GetTarget(), strings.Join(vc.Index(n.GetPrefix(), d), "/"))
	}
	return b.String()
}

// ErrRecv is a scripted failure of the first Recv.
var ErrRecv = errors.New("scripted recv failure")

// CloneReq copies a request, so that executions do not share it.
func CloneReq(r *pb.SubscribeRequest) *pb.SubscribeRequest {
	return proto.Clone(r).(*pb.SubscribeRequest)
}

// CloneP copies a path.
func CloneP(p *pb.Path) *pb.Path { return proto.Clone(p).(*pb.Path) }
