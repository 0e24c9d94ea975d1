//go:build go1.23

// Check C18: Subscribe and Close of the clients terminate; the reconnecting
// client keeps its callback discipline.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"

	"github.com/openconfig/gnmi/client"
	fake "github.com/openconfig/gnmi/client/fake"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vgrpc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrand"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vtime"
	"google.golang.org/protobuf/proto"
)

// msg is a scripted message: u(pdate), U (two updates and a delete), s(ync),
// e(rror response), b(ad: a good update followed by one without a path).
type msg struct {
	kind byte
	wait time.Duration
}

type outcome struct {
	kind string // refuse, hang, nostream, nosend, stream
	msgs []msg
	end  string // err, eof, silent
	wait time.Duration
}

func (o outcome) String() string {
	if o.kind != "stream" {
		return o.kind
	}
	var b strings.Builder
	for _, m := range o.msgs {
		if m.wait > 0 {
			fmt.Fprintf(&b, "%v:", m.wait)
		}
		b.WriteByte(m.kind)
	}
	if o.wait > 0 {
		fmt.Fprintf(&b, " %v:", o.wait)
	}
	return "[" + b.String() + " " + o.end + "]"
}

func st(msgs string, end string) outcome {
	o := outcome{kind: "stream", end: end}
	for i := 0; i < len(msgs); i++ {
		o.msgs = append(o.msgs, msg{kind: msgs[i]})
	}
	return o
}

// ---- events ----

type evAtt struct { // an attempt reached the dialer
	n   int
	now int64
}
type evOpen struct{ s *stream }
type evRecv struct {
	s   *stream
	n   int
	err bool
}
type evNote struct {
	what string // C, S, or the path
	now  int64
}
type evCb struct {
	kind string // disconnect, reset
	now  int64
}
type evOp struct {
	th  int
	op  string
	ret bool
	err error
	now int64
}

func (e evNote) String() string { return e.what }

type stream struct {
	id    int
	out   outcome
	conn  *conn
	ctx   context.Context
	k     int
	ended bool
}

type conn struct {
	closed bool
	c      chan struct{}
}

type cfg struct {
	name  string
	inner string // base, cache
	recon bool
	impl  string // gnmi, fake
	proto bool   // raw messages
	typ   client.Type
	two   bool // two implementations, one of which always fails
	nilCB bool
	lax   bool
}

type world struct {
	x       *vh.X
	c       cfg
	script  []outcome
	cur     int
	streams []*stream
	nops    int
	subs    int // Subscribe calls under way
	cl      client.Client
	cancel  func()
	stopped bool // closed or cancelled: the application does not subscribe again
	ctx     context.Context
}

func (w *world) fail(key, f string, a ...any) { w.x.Fail(key, f+"\n%s", append(a, w.trace())...) }

func (w *world) trace() string {
	var b strings.Builder
	for _, e := range vrt.Events() {
		switch e := e.(type) {
		case evAtt:
			fmt.Fprintf(&b, "attempt %d; ", e.n)
		case evOpen:
			fmt.Fprintf(&b, "stream %d %v; ", e.s.id, e.s.out)
		case evRecv:
			if e.err {
				fmt.Fprintf(&b, "stream %d ends; ", e.s.id)
			} else {
				fmt.Fprintf(&b, "message %d.%d; ", e.s.id, e.n)
			}
		case evNote:
			fmt.Fprintf(&b, "<%s> ", e.what)
		case evCb:
			fmt.Fprintf(&b, "%s(%v); ", e.kind, time.Duration(e.now-t0))
		case evOp:
			if e.ret {
				fmt.Fprintf(&b, "T%d %s returned %v (%v); ", e.th, e.op, e.err, time.Duration(e.now-t0))
			} else {
				fmt.Fprintf(&b, "T%d %s (%v)...; ", e.th, e.op, time.Duration(e.now-t0))
			}
		}
	}
	return b.String()
}

var t0 int64

func (w *world) next() outcome {
	vrt.Touch()
	if w.cur >= len(w.script) {
		return st("", "silent")
	}
	return w.script[w.cur]
}

func (w *world) take() {
	if w.cur < len(w.script) {
		w.cur++
	}
}

// ---- the transport ----

func (w *world) dial(ctx context.Context) (*vgrpc.ClientConn, error) {
	vrt.Event(evAtt{w.cur, vrt.Now()})
	switch o := w.next(); o.kind {
	case "refuse":
		w.take()
		return nil, errors.New("refused")
	case "hang":
		w.take()
		vrt.Recv2(ctx.Done())
		return nil, ctx.Err()
	}
	if ctx.Err() != nil {
		return nil, ctx.Err()
	}
	c := &conn{c: make(chan struct{})}
	cc := &vgrpc.ClientConn{State: c}
	cc.OnClose = func(*vgrpc.ClientConn) error {
		if c.closed {
			return vgrpc.ErrClosing
		}
		c.closed = true
		vrt.Close(c.c)
		return nil
	}
	cc.OnNewStream = func(ctx context.Context, _ *vgrpc.ClientConn) (grpc.ClientStream, error) {
		vrt.Touch()
		if ctx.Err() != nil {
			return nil, ctx.Err()
		}
		if c.closed {
			return nil, vgrpc.ErrClosing
		}
		if w.next().kind == "nostream" {
			w.take()
			return nil, errors.New("no stream")
		}
		return &gstream{w: w, s: &stream{conn: c, ctx: ctx}}, nil
	}
	return cc, nil
}

type gstream struct {
	w *world
	s *stream
}

func (s *gstream) Header() (metadata.MD, error) { return nil, nil }
func (s *gstream) Trailer() metadata.MD         { return nil }
func (s *gstream) CloseSend() error             { return nil }
func (s *gstream) Context() context.Context     { return s.s.ctx }

func (w *world) open(s *stream) error {
	o := w.next()
	w.take()
	if o.kind != "stream" {
		return errors.New("send failed")
	}
	s.out = o
	s.id = len(w.streams)
	w.streams = append(w.streams, s)
	vrt.Event(evOpen{s})
	return nil
}

func (g *gstream) SendMsg(m any) error {
	vrt.Touch()
	if g.s.ctx.Err() != nil {
		return g.s.ctx.Err()
	}
	if g.s.conn.closed {
		return vgrpc.ErrClosing
	}
	return g.w.open(g.s)
}

// await waits for the next thing in the script: a message or the end.
func (s *stream) await() (final bool, err error) {
	vrt.Touch()
	wait, final := s.out.wait, true
	if s.k < len(s.out.msgs) {
		wait, final = s.out.msgs[s.k].wait, false
	}
	var ready <-chan time.Time
	if final && s.out.end == "silent" {
	} else if wait > 0 {
		tm := vtime.NewTimer(wait)
		defer tm.Stop()
		ready = tm.C
	} else if s.ctx.Err() == nil && (s.conn == nil || !s.conn.closed) {
		return final, nil
	}
	c1 := vrt.CaseRecv(s.ctx.Done())
	var closed <-chan struct{}
	if s.conn != nil {
		closed = s.conn.c
	} else {
		closed = make(chan struct{})
	}
	c2 := vrt.CaseRecv(closed)
	var i int
	if ready != nil {
		i = vrt.Select(false, c1, c2, vrt.CaseRecv(ready))
	} else {
		i = vrt.Select(false, c1, c2)
	}
	switch i {
	case 0:
		return true, s.ctx.Err()
	case 1:
		return true, vgrpc.ErrClosing
	}
	return final, nil
}

func (s *stream) end(err error) error {
	s.ended = true
	vrt.Event(evRecv{s, s.k, true})
	return err
}

func (s *stream) over() error {
	if s.out.end == "eof" {
		return s.end(io.EOF)
	}
	return s.end(errors.New("stream error"))
}

// path names the i-th update of message k of stream s.
func pth(s *stream, k, i int) []string {
	return []string{fmt.Sprint("s", s.id), fmt.Sprint("m", k), fmt.Sprint("u", i)}
}

func (g *gstream) RecvMsg(m any) error {
	s := g.s
	if s.ended {
		return errors.New("stream ended")
	}
	final, err := s.await()
	if err != nil {
		return s.end(err)
	}
	if final {
		return s.over()
	}
	r := m.(*pb.SubscribeResponse)
	r.Response = nil
	up := func(i int) *pb.Update { return vc.U(vc.P(pth(s, s.k, i)...), vc.I(int64(i))) }
	switch s.out.msgs[s.k].kind {
	case 'u':
		r.Response = &pb.SubscribeResponse_Update{Update: &pb.Notification{Timestamp: 1, Update: []*pb.Update{up(0)}}}
	case 'U':
		r.Response = &pb.SubscribeResponse_Update{Update: &pb.Notification{Timestamp: 1, Update: []*pb.Update{up(0), up(1)}, Delete: []*pb.Path{vc.P(pth(s, s.k, 2)...)}}}
	case 'b':
		r.Response = &pb.SubscribeResponse_Update{Update: &pb.Notification{Timestamp: 1, Update: []*pb.Update{up(0), {}}}}
	case 's':
		r.Response = &pb.SubscribeResponse_SyncResponse{SyncResponse: true}
	case 'e':
		r.Response = &pb.SubscribeResponse_Error{Error: &pb.Error{Message: "x"}}
	}
	s.k++
	vrt.Event(evRecv{s, s.k - 1, false})
	return nil
}

// items are the notifications message k of s stands for, and whether the
// stream ends with it.
func (w *world) items(s *stream, k int) []string {
	p := func(i int) string { return strings.Join(pth(s, k, i), "/") }
	if w.c.proto {
		return []string{fmt.Sprintf("s%d/m%d", s.id, k)}
	}
	switch s.out.msgs[k].kind {
	case 'u', 'b':
		return []string{p(0)}
	case 'U':
		return []string{p(0), p(1), "-" + p(2)}
	case 's':
		return []string{"S"}
	}
	return nil
}

// fimpl drives the repository's fake implementation from the script: one
// update is appended for every Recv.
type fimpl struct {
	*fake.Client
	w *world
	s *stream
}

func (f *fimpl) Subscribe(ctx context.Context, q client.Query) error {
	if f.w.next().kind == "nostream" {
		f.w.take()
		return errors.New("no stream")
	}
	f.s.ctx = ctx
	if err := f.w.open(f.s); err != nil {
		return err
	}
	return f.Client.Subscribe(ctx, q)
}

func (f *fimpl) Recv() error {
	s := f.s
	if s.ended {
		return errors.New("stream ended")
	}
	final, err := s.await()
	switch {
	case err != nil:
		s.end(err)
		f.Updates = append(f.Updates, err)
	case final:
		f.Updates = append(f.Updates, s.over())
	default:
		s.k++
		vrt.Event(evRecv{s, s.k - 1, false})
		switch s.out.msgs[s.k-1].kind {
		case 's':
			f.Updates = append(f.Updates, client.Sync{})
		case 'e':
			f.Updates = append(f.Updates, errors.New("x"))
		default:
			f.Updates = append(f.Updates, client.Update{Path: pth(s, s.k-1, 0)})
		}
	}
	return f.Client.Recv()
}

func (f *fimpl) Close() error {
	vrt.Touch()
	if !f.s.conn.closed {
		f.s.conn.closed = true
		vrt.Close(f.s.conn.c)
	}
	return f.Client.Close()
}

// ---- world ----

func newWorld(x *vh.X, c cfg, script []outcome) *world {
	w := &world{x: x, c: c, script: script}
	t0 = vrt.Now()
	vgrpc.OnDial = func(ctx context.Context, addr string, _ []grpc.DialOption) (*vgrpc.ClientConn, error) {
		return w.dial(ctx)
	}
	client.ResetRegisteredImpls()
	client.RegisterTest("gnmi", gclient.New)
	client.RegisterTest("fake", func(ctx context.Context, d client.Destination) (client.Impl, error) {
		dctx, cancel := vcontext.WithTimeout(ctx, d.Timeout)
		defer cancel()
		cc, err := w.dial(dctx)
		if err != nil {
			return nil, err
		}
		return &fimpl{Client: &fake.Client{Context: ctx}, w: w, s: &stream{conn: cc.State.(*conn)}}, nil
	})
	client.RegisterTest("broken", func(ctx context.Context, _ client.Destination) (client.Impl, error) {
		return nil, errors.New("broken")
	})
	switch c.inner {
	case "cache":
		w.cl = client.New()
	default:
		w.cl = &client.BaseClient{}
	}
	if c.recon {
		cb := func(k string) func() {
			if c.nilCB {
				return nil
			}
			return func() { vrt.Event(evCb{k, vrt.Now()}); vrt.Yield() }
		}
		w.cl = client.Reconnect(w.cl, cb("disconnect"), cb("reset"))
	}
	w.ctx, w.cancel = vcontext.WithCancel(context.Background())
	return w
}

func (w *world) query() client.Query {
	q := client.Query{Addrs: []string{"x"}, Target: "t", Queries: []client.Path{{"a"}}, Type: w.c.typ}
	if w.c.proto {
		n := 0
		var last *stream
		q.ProtoHandler = func(m proto.Message) error {
			s := w.streams[len(w.streams)-1]
			if s != last {
				last, n = s, 0
			}
			what := fmt.Sprintf("s%d/m%d", s.id, s.k-1)
			n++
			vrt.Event(evNote{what, vrt.Now()})
			vrt.Yield()
			if s.out.msgs[s.k-1].kind == 'e' {
				return errors.New("x")
			}
			return nil
		}
		return q
	}
	q.NotificationHandler = func(n client.Notification) error {
		what := fmt.Sprintf("%T", n)
		switch v := n.(type) {
		case client.Connected:
			what = "C"
		case client.Sync:
			what = "S"
		case client.Update:
			what = strings.Join(v.Path, "/")
		case client.Delete:
			what = "-" + strings.Join(v.Path, "/")
		}
		vrt.Event(evNote{what, vrt.Now()})
		vrt.Yield()
		return nil
	}
	return q
}

func (w *world) op(th int, op string) error {
	if d, err := time.ParseDuration(op); err == nil {
		vrt.Sleep(int64(d))
		return nil
	}
	vrt.Yield()
	if op == "subscribe" && w.stopped {
		return nil
	}
	vrt.Event(evOp{th: th, op: op, now: vrt.Now()})
	if op != "subscribe" {
		w.stopped = true
	}
	w.nops++
	var err error
	switch op {
	case "subscribe":
		if w.c.two {
			err = w.cl.Subscribe(w.ctx, w.query(), "broken", w.c.impl)
		} else {
			err = w.cl.Subscribe(w.ctx, w.query(), w.c.impl)
		}
	case "close":
		err = w.cl.Close()
	case "cancel":
		w.cancel()
	}
	w.nops--
	vrt.Event(evOp{th: th, op: op, ret: true, err: err, now: vrt.Now()})
	return err
}

// longest is the longest pause before attempt n.
func (w *world) longest(n int) int64 {
	if !w.c.recon {
		return int64(time.Minute) // the dial is not interrupted
	}
	d := float64(client.RetryBaseDelay)
	for i := 0; i < n; i++ {
		d *= 1.5
	}
	if d > float64(client.RetryMaxDelay) {
		d = float64(client.RetryMaxDelay)
	}
	return int64(d*(1+client.RetryRandomization)) + 1
}

// check judges the recorded history.
func (w *world) check(resting bool) {
	if vrt.RaceEnabled {
		return
	}
	evs := vrt.Events()
	w.notes(evs)
	w.afterClose(evs)
	if w.c.recon && !w.c.nilCB {
		w.callbacks(evs)
	}
	if !w.c.lax {
		w.times(evs)
	}
}

// notes: Connected first, everything in order.
func (w *world) notes(evs []any) {
	var s *stream
	var want []string
	conn := w.c.proto
	for _, e := range evs {
		switch e := e.(type) {
		case evOpen:
			s, want, conn = e.s, nil, w.c.proto
		case evRecv:
			if e.err || e.s != s {
				continue
			}
			if len(want) > 0 {
				w.fail("lost", "message %d of stream %d was received before %s was delivered", e.n, s.id, want[0])
			}
			want = w.items(e.s, e.n)
		case evNote:
			if e.what == "C" && !w.c.proto {
				if s == nil {
					w.fail("connected", "Connected without a stream")
				}
				if conn {
					w.fail("connected", "Connected twice on stream %d", s.id)
				}
				conn = true
				continue
			}
			if !conn {
				w.fail("connected", "%s before Connected", e.what)
			}
			if len(want) == 0 || want[0] != e.what {
				w.fail("order", "%s is delivered instead of %v", e.what, want)
			}
			want = want[1:]
		}
	}
}

// afterClose: at most one more message is delivered.
func (w *world) afterClose(evs []any) {
	last := -1 // the last Close that took effect
	sub, called := false, false
	for i, e := range evs {
		if e, ok := e.(evOp); ok {
			switch {
			case e.op == "close" && !e.ret && (w.c.recon || sub):
				called = true
			case e.op == "close" && e.ret && called:
				if last < 0 {
					last = i
				}
			}
		}
		if _, ok := e.(evAtt); ok {
			sub = true
			if !w.c.recon {
				last, called = -1, false
			}
		}
	}
	if last < 0 {
		return
	}
	msgs := map[string]bool{}
	var names []string
	cur := ""
	for i, e := range evs {
		switch e := e.(type) {
		case evRecv:
			cur = fmt.Sprintf("%d.%d", e.s.id, e.n)
		case evNote:
			if i > last && !msgs[cur] {
				msgs[cur] = true
				names = append(names, cur)
			}
		}
	}
	if len(names) > 1 {
		w.fail("after-close", "notifications of the messages %v are delivered after Close has returned", names)
	}
}

// callbacks: disconnect once per ended attempt, reset before each retry.
func (w *world) callbacks(evs []any) {
	state := "idle" // idle, attempt, down, reset
	for _, e := range evs {
		switch e := e.(type) {
		case evOp:
			if e.op != "subscribe" {
				continue
			}
			if !e.ret {
				state = "start"
			} else {
				if state != "down" && state != "stopped" {
					w.fail("no-disconnect", "Subscribe returned in state %q: the attempt has no disconnect callback", state)
				}
				state = "idle"
			}
		case evAtt:
			if state != "start" && state != "reset" {
				w.fail("no-reset", "an attempt in state %q", state)
			}
			state = "attempt"
		case evNote, evOpen:
			if state != "attempt" {
				w.fail("callbacks", "the stream is alive in state %q", state)
			}
		case evCb:
			switch e.kind {
			case "disconnect":
				// An attempt may end before it reaches the dialer.
				if state != "attempt" && state != "start" && state != "reset" {
					w.fail("extra-disconnect", "disconnect in state %q", state)
				}
				state = "down"
			case "reset":
				if state != "down" {
					w.fail("extra-reset", "reset in state %q", state)
				}
				state = "reset"
			}
		}
	}
}

// times: Subscribe and Close return within the current pause.
func (w *world) times(evs []any) {
	stop := int64(-1)
	stopped := ""
	atts := 0
	subscribed := false
	for _, e := range evs {
		switch e := e.(type) {
		case evAtt:
			atts++
			subscribed = true
			if !w.c.recon {
				stop = -1
			}
		case evOp:
			switch {
			case e.op == "subscribe" && !e.ret:
			case e.op == "subscribe":
				if w.c.recon && stop < 0 {
					w.fail("gave-up", "Subscribe returned %v although the client was not closed", e.err)
				}
				if stop >= 0 && e.now > stop+w.longest(atts) {
					w.fail("slow", "Subscribe returned %v after %s", time.Duration(e.now-stop), stopped)
				}
			case (e.op == "close" || e.op == "cancel") && !e.ret && stop < 0 && (w.c.recon || subscribed):
				stop, stopped = e.now, e.op
			case e.op == "close" && e.ret:
				if stop >= 0 && e.now > stop+w.longest(atts) {
					w.fail("slow", "Close returned %v after it was called", time.Duration(e.now-stop))
				}
			}
		}
	}
}

type trig struct {
	at  int
	ops []string
}

// run is one execution. main are the operations of the application's thread.
func run(c cfg, script []outcome, app []string, tr []trig, rest time.Duration) func(x *vh.X) {
	return func(x *vh.X) {
		w := newWorld(x, c, script)
		for i, g := range tr {
			g, th := g, i+2
			vrt.GoN(fmt.Sprintf("caller%d", th), func() {
				vrt.Await("trigger", func() bool { return vrt.NumEvents() >= g.at })
				for _, o := range g.ops {
					w.op(th, o)
				}
			})
		}
		vrt.GoN("app", func() {
			for _, o := range app {
				w.op(1, o)
			}
		})
		vrt.Quiesce()
		vrt.Sleep(int64(rest))
		vrt.Quiesce()
		stopped := false
		for _, e := range vrt.Events() {
			if o, ok := e.(evOp); ok && (o.op == "close" || o.op == "cancel") {
				stopped = true
			}
		}
		limit := 0
		if stopped && !c.recon {
			// A Close that comes before the Subscribe call does anything is not for it.
			under := false
			for _, e := range vrt.Events() {
				switch e := e.(type) {
				case evAtt:
					under, stopped = true, false
				case evOp:
					if e.op == "cancel" || e.op == "close" && under && !e.ret {
						stopped = true
					}
				}
			}
			if !stopped {
				limit = 1
			}
		}
		if !stopped {
			limit = 1 // Subscribe goes on
			if c.recon {
				if w.nops != 1 {
					w.fail("gave-up", "Subscribe returned although the client was not closed")
				}
				if w.cur < len(w.script) && (w.cur == 0 || w.script[w.cur-1].end != "silent") {
					w.fail("gave-up", "only %d of %d attempts were made: %v", w.cur, len(w.script), vrt.Blocked())
				}
			}
		}
		for i := 0; c.lax && stopped && i < 10 && w.nops > 0; i++ {
			vrt.Sleep(int64(rest))
			vrt.Quiesce()
		}
		if w.nops > limit {
			w.fail("hang", "%d calls do not return: %v", w.nops, vrt.Blocked())
		}
		w.check(true)
		// Whatever is still going on ends now.
		if w.nops > 0 {
			w.op(0, "close")
			for i := 0; i < 10 && w.nops > 0; i++ {
				vrt.Sleep(int64(rest))
				vrt.Quiesce()
			}
			if w.nops > 0 {
				w.fail("hang", "%d calls do not return: %v", w.nops, vrt.Blocked())
			}
			w.check(true)
		}
		w.cancel()
		vrt.Quiesce()
		x.Outcome("%s", w.trace())
	}
}

var alphabet = []outcome{
	{kind: "refuse"}, {kind: "nostream"}, {kind: "nosend"}, {kind: "hang"},
	st("", "err"), st("", "eof"), st("u", "err"), st("Us", "eof"), st("suU", "err"), st("ue", "err"), st("bu", "err"),
	{kind: "stream", msgs: []msg{{'u', 0}, {'u', 300 * time.Millisecond}, {'U', 2 * time.Minute}}, end: "err", wait: time.Second},
}

var silent = []outcome{st("", "silent"), st("us", "silent"), st("uUsu", "silent")}

func main() {
	vh.Main(vh.Check{
		Property: "C18", QuickSec: 45, ThoroughSec: 800,
		Rule: "every script of attempt outcomes to the stated length (dial refusal, hanging dial, stream or send failure, messages followed by error, end of stream or silence, bad messages) through the reconnecting, caching and plain clients on the gNMI and the fake implementation, alone and with Close, repeated Close, context cancellation or both injected after every observable event and in the middle of the backoff pause; plus ladders of sizes (failed attempts, sessions, messages, calls), plus every interleaving within the delay bound of Subscribe with one or two closers. Every trace of attempts, callbacks, notifications and returns is judged.",
		Assumptions: []string{
			"dials end when their context is cancelled; a stream's Recv fails once its context is cancelled or its connection closed",
			"Close of a client that is not reconnecting refers to the Subscribe call under way; a dial in progress is not interrupted by it",
			"handlers return",
		},
		Scenarios: func(tier string) []vh.Scenario {
			deep := tier == "thorough"
			var out []vh.Scenario
			length, opsLen := 3, 2
			if deep {
				length, opsLen = 4, 3
			}
			cfgs := []cfg{
				{name: "reconnecting gnmi", recon: true, impl: "gnmi", typ: client.Stream},
				{name: "reconnecting caching gnmi, poll", recon: true, impl: "gnmi", inner: "cache", typ: client.Poll},
				{name: "reconnecting gnmi, raw messages", recon: true, impl: "gnmi", proto: true, typ: client.Stream},
				{name: "reconnecting fake", recon: true, impl: "fake", typ: client.Stream},
				{name: "reconnecting gnmi, two types", recon: true, impl: "gnmi", typ: client.Stream, two: true},
				{name: "reconnecting gnmi, no callbacks", recon: true, impl: "gnmi", typ: client.Stream, nilCB: true},
			}
			app := []string{"subscribe"}
			half := func(impl string) []outcome {
				var a []outcome
				for _, o := range alphabet {
					bad := false
					for _, m := range o.msgs {
						bad = bad || impl == "fake" && (m.kind == 'U' || m.kind == 'b')
					}
					if !bad {
						a = append(a, o)
					}
				}
				return a
			}
			all := func(impl string) []outcome {
				a := half(impl)
				for _, o := range silent {
					if impl != "fake" || !strings.Contains(o.String(), "U") {
						a = append(a, o)
					}
				}
				return a
			}
			for _, c := range cfgs {
				c := c
				out = append(out, vh.Scenario{Name: "scripts, " + c.name, Seq: func(q *vh.Q) {
					a := half(c.impl)
					enum(len(a), length, func(ix []int) bool {
						sc := pick(a, ix)
						d := fmt.Sprintf("%s: %v", c.name, sc)
						q.Sample("%s", d)
						q.State(d)
						return !q.Expired() && q.Do(func() string { return d }, func() error {
							return q.Exec(run(c, sc, app, nil, 30*time.Minute))
						})
					})
				}})
			}
			opsets := [][]string{{"close"}, {"cancel"}, {"close", "close"}, {"cancel", "close"}, {"300ms", "close"}, {"1100ms", "close"}, {"300ms", "cancel"}}
			for _, c := range append(cfgs,
				cfg{name: "plain gnmi", impl: "gnmi", typ: client.Stream},
				cfg{name: "plain caching gnmi", impl: "gnmi", inner: "cache", typ: client.Stream},
				cfg{name: "plain fake", impl: "fake", typ: client.Stream},
			) {
				c := c
				for _, ops := range opsets {
					ops := ops
					if c.nilCB && len(ops) > 1 {
						continue
					}
					out = append(out, vh.Scenario{Name: fmt.Sprintf("scripts, %s, with %v at every event", c.name, ops), Seq: func(q *vh.Q) {
						a := all(c.impl)
						n, ap := opsLen, app
						if !c.recon {
							// The application subscribes again after a failure.
							ap = []string{"subscribe", "subscribe"}
						}
						enum(len(a), n, func(ix []int) bool {
							sc := pick(a, ix)
							if c.recon && sc[0].end == "silent" && sc[1].String() != a[0].String() {
								return true
							}
							for at := 0; ; at++ {
								d := fmt.Sprintf("%s: %v; %v after %d events", c.name, sc, ops, at)
								q.Sample("%s", d)
								q.State(d)
								n := 0
								if q.Expired() || !q.Do(func() string { return d }, func() error {
									body := run(c, sc, ap, []trig{{at, ops}}, 20*time.Minute)
									return q.Exec(func(x *vh.X) { body(x); n = vrt.NumEvents() })
								}) {
									return false
								}
								if at >= n {
									return true
								}
							}
						})
					}})
				}
			}
			// Long series of failures with every extreme of the random draws.
			out = append(out, vh.Scenario{Name: "backoff", Seq: func(q *vh.Q) {
				for _, f := range []outcome{{kind: "refuse"}, {kind: "nosend"}, st("", "err"), st("u", "eof")} {
					for r := 0; r < 3; r++ {
						for stop := 0; stop < 5; stop++ {
							sc := make([]outcome, 40)
							for i := range sc {
								sc[i] = f
							}
							var tr []trig
							switch stop {
							case 1:
								tr = []trig{{40, []string{"10s", "close"}}}
							case 2:
								tr = []trig{{30, []string{"5s", "cancel"}}}
							case 3:
								tr = []trig{{140, []string{"7s", "close"}}}
							case 4:
								tr = []trig{{144, []string{"7s", "cancel"}}}
							}
							d := fmt.Sprintf("40 x %v, random draw %d, %v", f, r, tr)
							q.State(d)
							q.Do(func() string { return d }, func() error {
								vrand.Pick = func(string, uint64) uint64 { return uint64(r) }
								defer func() { vrand.Pick = nil }()
								return q.Exec(run(cfgs[0], sc, app, tr, 2*time.Hour))
							})
						}
					}
				}
			}})
			// Interleavings.
			type il struct {
				name  string
				c     cfg
				s     []outcome
				app   []string
				tr    []trig
				clock bool
			}
			S := func(o ...outcome) []outcome { return o }
			g, fk := cfgs[0], cfgs[3]
			plain := cfg{impl: "gnmi", typ: client.Stream}
			cached := cfg{impl: "gnmi", inner: "cache", typ: client.Stream}
			cl := []string{"close"}
			w1 := outcome{kind: "stream", msgs: []msg{{'u', 0}, {'u', time.Second}}, end: "err"}
			ils := []il{
				{name: "close from the start", c: g, s: S(st("uUs", "err"), st("u", "silent")), tr: []trig{{0, cl}}},
				{name: "close from the start, fake", c: fk, s: S(st("us", "err"), st("u", "silent")), tr: []trig{{0, cl}}},
				{name: "close while streaming", c: g, s: S(st("uuuu", "silent")), tr: []trig{{4, cl}}},
				{name: "close while streaming, slow threads", c: g, s: S(st("uu", "silent")), tr: []trig{{4, cl}}, clock: true},
				{name: "close at the end of the pause", c: g, s: S(outcome{kind: "refuse"}, w1), tr: []trig{{3, []string{"1s", "close"}}}},
				{name: "close at a message", c: g, s: S(w1), tr: []trig{{3, []string{"1s", "close"}}}},
				{name: "cancel at a message", c: g, s: S(w1), tr: []trig{{3, []string{"1s", "cancel"}}}},
				{name: "two closers", c: g, s: S(st("uu", "err"), st("u", "silent")), tr: []trig{{0, cl}, {3, cl}}},
				{name: "close and cancel", c: g, s: S(st("uu", "err"), st("u", "silent")), tr: []trig{{0, cl}, {3, []string{"cancel"}}}},
				{name: "close during the connect", c: g, s: S(outcome{kind: "hang"}, st("u", "silent")), tr: []trig{{2, cl}}},
				{name: "close, two types", c: cfgs[4], s: S(st("uu", "silent")), tr: []trig{{1, cl}}},
				{name: "plain, close", c: plain, s: S(st("uuuu", "silent")), tr: []trig{{2, cl}}},
				{name: "plain, two closers", c: plain, s: S(st("uu", "silent")), tr: []trig{{2, cl}, {2, cl}}},
				{name: "plain, subscribe twice, close", c: plain, s: S(st("u", "err"), st("uuu", "silent")), app: []string{"subscribe", "subscribe"}, tr: []trig{{7, cl}}},
				{name: "caching, close", c: cached, s: S(st("uuUs", "silent")), tr: []trig{{2, cl}}},
				{name: "subscribe again after cancel", c: g, s: S(st("u", "silent")), tr: []trig{{3, []string{"cancel"}}, {4, cl}}},
			}
			b, decl := 8, 3
			if deep {
				b, decl = 12, 5
			}
			for _, l := range ils {
				if l.app == nil {
					l.app = app
				}
				l.c.lax = l.clock
				sc := vh.Scenario{Name: "interleavings: " + l.name, Body: run(l.c, l.s, l.app, l.tr, 5*time.Minute), MaxBound: b, Declared: decl, Race: true, RaceBound: 2}
				sc.Opt.Delay = true
				sc.Opt.ClockDev = l.clock
				out = append(out, sc)
			}
			return append(out, sizeScenarios(deep, cfgs)...)
		},
	})
}

// enum calls f with every tuple of n indices below k.
func enum(k, n int, f func(ix []int) bool) {
	ix := make([]int, n)
	for {
		if !f(ix) {
			return
		}
		i := n - 1
		for ; i >= 0; i-- {
			if ix[i]++; ix[i] < k {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func pick(a []outcome, ix []int) []outcome {
	var out []outcome
	for _, i := range ix {
		out = append(out, a[i])
	}
	return out
}
