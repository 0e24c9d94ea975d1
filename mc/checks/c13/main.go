//go:build go1.23

// Check C13: the target manager's session discipline.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"

	"github.com/openconfig/gnmi/connection"
	"github.com/openconfig/gnmi/manager"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/zz_verif/vgrpc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrand"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vtime"
)

const (
	recvTimeout = 5 * time.Second
	dialTimeout = 3 * time.Second
	outage      = 40 // attempts of a long outage: longer than any default of a backoff
)

// msg is a scripted message: u(pdate), s(ync), n(o response), e(rror response),
// sent a while after the receiver asks for it.
type msg struct {
	kind byte
	wait time.Duration
}

// outcome scripts one attempt.
type outcome struct {
	kind string // refuse, hang, cred, nostream, nosend, stream
	msgs []msg
	end  string // err, eof, silent, close (the connection breaks)
	wait time.Duration
}

func (o outcome) String() string {
	if o.kind != "stream" {
		return o.kind
	}
	var b strings.Builder
	for _, m := range o.msgs {
		if m.wait > 0 {
			fmt.Fprintf(&b, "%v:", m.wait)
		}
		b.WriteByte(m.kind)
	}
	if o.wait > 0 {
		fmt.Fprintf(&b, " %v:", o.wait)
	}
	return "[" + b.String() + " " + o.end + "]"
}

func st(msgs string, end string) outcome {
	o := outcome{kind: "stream", end: end}
	for i := 0; i < len(msgs); i++ {
		o.msgs = append(o.msgs, msg{kind: msgs[i]})
	}
	return o
}

// ---- events ----

type evOpen struct{ s *stream } // the request was sent
type evRecv struct {            // the stream handed over a message or ended
	s   *stream
	n   int
	err bool
}
type evCb struct {
	t, kind string
	id, n   int // for updates: what was delivered
	now     int64
}
type evDial struct {
	addr string
	now  int64
}
type evOp struct {
	th   int
	op   string
	t    string
	ret  bool
	ok   bool
	live *stream // reconnect: the stream live when it was called
	now  int64
}

type stream struct {
	id     int
	t      string
	out    outcome
	conn   *conn
	ctx    context.Context
	k      int // messages handed over
	sent   bool
	ended  bool
	start  int64
	last   int64
	endAt  int64
	silent bool
}

type conn struct {
	cc     *vgrpc.ClientConn
	addr   string
	closed bool
	c      chan struct{}
}

type world struct {
	x       *vh.X
	m       *manager.Manager
	scripts map[string][]outcome
	cur     map[string]*int
	addrOf  map[string][]string
	byAddr  map[string]string // unshared address -> target
	streams []*stream
	conns   int
	nops    int
	cfg     cfg
}

type cfg struct {
	name    string
	recv    time.Duration
	dial    time.Duration
	meta    string
	cred    bool
	addrs   map[string][]string
	nilCB   bool
	lax     bool // threads may be slow: no judgement of times
	dialers map[string]connection.Dial
}

func (w *world) fail(key, f string, a ...any) { w.x.Fail(key, f+"\n%s", append(a, w.trace())...) }

func (w *world) trace() string {
	var b strings.Builder
	for _, e := range vrt.Events() {
		switch e := e.(type) {
		case evOpen:
			fmt.Fprintf(&b, "stream %d of %s opened %v; ", e.s.id, e.s.t, e.s.out)
		case evRecv:
			if e.err {
				fmt.Fprintf(&b, "stream %d ends; ", e.s.id)
			} else {
				fmt.Fprintf(&b, "stream %d message %d; ", e.s.id, e.n)
			}
		case evCb:
			fmt.Fprintf(&b, "%s(%s", e.kind, e.t)
			if e.kind == "Update" {
				fmt.Fprintf(&b, " %d.%d", e.id, e.n)
			}
			b.WriteString("); ")
		case evDial:
			fmt.Fprintf(&b, "dial %s at %v; ", e.addr, time.Duration(e.now))
		case evOp:
			if e.ret {
				fmt.Fprintf(&b, "T%d %s %s = %v; ", e.th, e.op, e.t, e.ok)
			} else {
				fmt.Fprintf(&b, "T%d %s %s...; ", e.th, e.op, e.t)
			}
		}
	}
	return b.String()
}

// next is the outcome of the current attempt of a target.
func (w *world) next(t string) outcome {
	p := w.cur[t]
	if p == nil || *p >= len(w.scripts[t]) {
		if len(w.cfg.addrs) > 0 {
			return outcome{kind: "stream", end: "silent"}
		}
		return outcome{kind: "hang"}
	}
	return w.scripts[t][*p]
}

func (w *world) take(t string) {
	vrt.Touch()
	if p := w.cur[t]; p != nil && *p < len(w.scripts[t]) {
		*p++
	}
}

func (w *world) done(t string) bool { return *w.cur[t] >= len(w.scripts[t]) }

// owner finds the target a context or address belongs to.
func (w *world) owner(ctx context.Context, addr string) string {
	if t, ok := w.byAddr[addr]; ok {
		return t
	}
	md, _ := metadata.FromOutgoingContext(ctx)
	if v := md.Get(manager.Target); len(v) > 0 {
		return v[0]
	}
	return ""
}

func (w *world) dial(ctx context.Context, addr string) (*vgrpc.ClientConn, error) {
	vrt.Event(evDial{addr, vrt.Now()})
	t := w.owner(ctx, addr)
	switch o := w.next(t); o.kind {
	case "refuse":
		w.take(t)
		return nil, errors.New("refused")
	case "hang":
		w.take(t)
		vrt.Recv2(ctx.Done())
		return nil, ctx.Err()
	}
	c := &conn{addr: addr, c: make(chan struct{})}
	w.conns++
	c.cc = &vgrpc.ClientConn{Addr: addr, ID: w.conns, State: c}
	c.cc.OnClose = func(*vgrpc.ClientConn) error {
		if c.closed {
			return vgrpc.ErrClosing
		}
		c.closed = true
		vrt.Close(c.c)
		return nil
	}
	c.cc.OnNewStream = func(ctx context.Context, _ *vgrpc.ClientConn) (grpc.ClientStream, error) {
		vrt.Touch()
		if ctx.Err() != nil {
			return nil, ctx.Err()
		}
		if c.closed {
			return nil, vgrpc.ErrClosing
		}
		t := w.owner(ctx, addr)
		if w.next(t).kind == "nostream" {
			w.take(t)
			return nil, errors.New("no stream")
		}
		return &stream{conn: c, ctx: ctx, start: vrt.Now()}, nil
	}
	return c.cc, nil
}

// ---- client stream ----

func (s *stream) Header() (metadata.MD, error) { return nil, nil }
func (s *stream) Trailer() metadata.MD         { return nil }
func (s *stream) CloseSend() error             { return nil }
func (s *stream) Context() context.Context     { return s.ctx }

func (s *stream) SendMsg(m any) error {
	w := s.conn.cc.State.(*conn).w()
	vrt.Touch()
	if s.ctx.Err() != nil {
		return s.ctx.Err()
	}
	if s.conn.closed {
		return vgrpc.ErrClosing
	}
	s.t = m.(*pb.SubscribeRequest).GetSubscribe().GetPrefix().GetTarget()
	if w.cur[s.t] == nil {
		w.fail("wrong-target", "a subscription was sent for target %q, which is not managed", s.t)
	}
	if o := w.byAddr[s.conn.addr]; o != "" && o != s.t {
		w.fail("wrong-target", "target %q was subscribed to at the address of %q", s.t, o)
	}
	o := w.next(s.t)
	if o.kind == "hang" {
		// A shared connection: nothing further is scripted.
		o = outcome{kind: "stream", end: "silent"}
	}
	w.take(s.t)
	if o.kind != "stream" {
		return errors.New("send failed")
	}
	s.out = o
	s.id = len(w.streams)
	s.sent = true
	s.last = vrt.Now()
	w.streams = append(w.streams, s)
	vrt.Event(evOpen{s})
	return nil
}

var cur *world

func (c *conn) w() *world { return cur }

func (s *stream) end(err error) error {
	s.ended = true
	s.endAt = vrt.Now()
	vrt.Event(evRecv{s, s.k, true})
	return err
}

func (s *stream) RecvMsg(m any) error {
	vrt.Touch()
	wait, final := s.out.wait, true
	if s.k < len(s.out.msgs) {
		wait, final = s.out.msgs[s.k].wait, false
	}
	if s.ended {
		return errors.New("stream ended")
	}
	ready := (<-chan time.Time)(nil)
	if !(final && s.out.end == "silent") {
		if wait > 0 {
			tm := vtime.NewTimer(wait)
			defer tm.Stop()
			ready = tm.C
		} else {
			c := make(chan time.Time, 1)
			c <- time.Time{}
			vrt.Touch()
			select {
			case <-s.ctx.Done():
			default:
			}
			ready = nil
			if s.ctx.Err() == nil && !s.conn.closed {
				return s.deliver(m, final)
			}
		}
	} else {
		s.silent = true
	}
	var i int
	c1, c2 := vrt.CaseRecv(s.ctx.Done()), vrt.CaseRecv((<-chan struct{})(s.conn.c))
	if ready != nil {
		i = vrt.Select(false, c1, c2, vrt.CaseRecv(ready))
	} else {
		i = vrt.Select(false, c1, c2)
	}
	switch i {
	case 0:
		return s.end(s.ctx.Err())
	case 1:
		return s.end(vgrpc.ErrClosing)
	}
	return s.deliver(m, final)
}

func (s *stream) deliver(m any, final bool) error {
	if final {
		switch s.out.end {
		case "eof":
			return s.end(io.EOF)
		case "close":
			s.conn.cc.Close()
		}
		return s.end(errors.New("stream error"))
	}
	r := m.(*pb.SubscribeResponse)
	r.Response = nil
	switch s.out.msgs[s.k].kind {
	case 'u':
		r.Response = &pb.SubscribeResponse_Update{Update: &pb.Notification{Timestamp: int64(s.id<<20 + s.k)}}
	case 's':
		r.Response = &pb.SubscribeResponse_SyncResponse{SyncResponse: true}
	case 'e':
		r.Response = &pb.SubscribeResponse_Error{Error: &pb.Error{Message: "x"}}
	}
	s.k++
	s.last = vrt.Now()
	vrt.Event(evRecv{s, s.k - 1, false})
	return nil
}

type creds struct{ w *world }

func (c creds) Lookup(ctx context.Context, id string) (string, error) {
	if c.w.next(id).kind == "cred" {
		c.w.take(id)
		return "", errors.New("no credentials")
	}
	return "pw", nil
}

// ---- world ----

func newWorld(x *vh.X, c cfg, scripts map[string][]outcome, names []string) *world {
	w := &world{x: x, scripts: scripts, cur: map[string]*int{}, byAddr: map[string]string{}, cfg: c}
	cur = w
	shared := map[string]int{}
	for _, n := range names {
		w.cur[n] = new(int)
		for _, a := range w.addrs(n) {
			a = strings.Split(a, manager.AddrSeparator)[0]
			shared[a]++
			w.byAddr[a] = n
		}
	}
	for a, n := range shared {
		if n > 1 && len(names) > 1 {
			same := true
			for _, t := range names {
				for _, b := range w.addrs(t) {
					if strings.Split(b, manager.AddrSeparator)[0] == a && w.byAddr[a] != t {
						same = false
					}
				}
			}
			if !same {
				delete(w.byAddr, a)
			}
		}
	}
	vgrpc.OnDial = func(ctx context.Context, addr string, _ []grpc.DialOption) (*vgrpc.ClientConn, error) {
		return w.dial(ctx, addr)
	}
	cm, err := connection.NewManager()
	if err != nil {
		x.Fail("setup", "%v", err)
	}
	cb := func(kind string) func(string) {
		if c.nilCB {
			return nil
		}
		return func(t string) { vrt.Event(evCb{t: t, kind: kind, now: vrt.Now()}); vrt.Yield() }
	}
	cbe := func(kind string) func(string, error) {
		if c.nilCB {
			return nil
		}
		return func(t string, err error) {
			if err == nil {
				w.fail("nil-error", "%s(%s) reports no error", kind, t)
			}
			vrt.Event(evCb{t: t, kind: kind, now: vrt.Now()})
			vrt.Yield()
		}
	}
	mc := manager.Config{
		Connect: cb("Connect"), Reset: cb("Reset"), Sync: cb("Sync"),
		ConnectError: cbe("ConnectError"), MonitorError: cbe("MonitorError"),
		Timeout: c.dial, ReceiveTimeout: c.recv, ConnectionManager: cm,
	}
	if !c.nilCB {
		mc.Update = func(t string, n *pb.Notification) {
			vrt.Event(evCb{t: t, kind: "Update", id: int(n.GetTimestamp() >> 20), n: int(n.GetTimestamp() & (1<<20 - 1)), now: vrt.Now()})
			vrt.Yield()
		}
	}
	if c.cred {
		mc.Credentials = creds{w}
	}
	if w.m, err = manager.NewManager(mc); err != nil {
		x.Fail("setup", "%v", err)
	}
	return w
}

func (w *world) addrs(t string) []string {
	if a := w.cfg.addrs[t]; a != nil {
		return a
	}
	return []string{"addr-" + t}
}

var sr = &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{
	Mode: pb.SubscriptionList_STREAM, Subscription: []*pb.Subscription{{Path: &pb.Path{}}}}}}

func (w *world) target(t string) *tpb.Target {
	ta := &tpb.Target{Addresses: w.addrs(t), Meta: map[string]string{}}
	if w.cfg.meta != "" {
		ta.Meta["receive_timeout"] = w.cfg.meta
	}
	if w.cfg.cred {
		ta.Credentials = &tpb.Credentials{Username: "u", PasswordId: t}
	}
	return ta
}

// op runs an operation of a caller and records it.
func (w *world) op(th int, op, t string) error {
	vrt.Yield()
	e := evOp{th: th, op: op, t: t}
	if op == "reconnect" {
		for _, s := range w.streams {
			if s.t == t && !s.ended {
				e.live = s
			}
		}
	}
	e.now = vrt.Now()
	vrt.Event(e)
	w.nops++
	var err error
	switch op {
	case "add":
		err = w.m.Add(t, w.target(t), sr)
	case "remove":
		err = w.m.Remove(t)
	case "reconnect":
		err = w.m.Reconnect(t)
	}
	w.nops--
	vrt.Event(evOp{th: th, op: op, t: t, ret: true, ok: err == nil, live: e.live, now: vrt.Now()})
	return err
}

// check judges the recorded history. names are the targets; quiet tells that
// the execution has come to rest.
func (w *world) check(names []string, quiet bool) {
	if vrt.RaceEnabled || w.cfg.nilCB {
		return
	}
	evs := vrt.Events()
	var ops []vh.Op
	open := map[int]int{}
	for i, e := range evs {
		if o, ok := e.(evOp); ok {
			if !o.ret {
				open[o.th] = len(ops)
				ops = append(ops, vh.Op{Thread: o.th, Call: i, Ret: vh.Pending, Name: o.op, Arg: o.t})
			} else {
				ops[open[o.th]].Ret, ops[open[o.th]].Res = i, o.ok
			}
		}
	}
	if !vh.Linearizable(ops, map[string]bool{}, func(s map[string]bool, o *vh.Op) []map[string]bool {
		t := o.Arg.(string)
		n := map[string]bool{}
		for k, v := range s {
			if v {
				n[k] = true
			}
		}
		ok, known := o.Res.(bool)
		switch o.Name {
		case "add":
			if known && ok == s[t] {
				return nil
			}
			n[t] = true
		case "remove":
			if known && ok != s[t] {
				return nil
			}
			delete(n, t)
		}
		return []map[string]bool{n}
	}, func(s map[string]bool) string { return fmt.Sprint(s) }, nil) {
		w.fail("not-refused", "the results of Add and Remove are not those of any sequence of the calls")
	}
	for _, e := range evs {
		if e, ok := e.(evOp); ok && e.ret && e.ok && e.live != nil && quiet {
			if s := e.live; !s.ended || !w.cfg.lax && s.endAt > e.now {
				w.fail("no-reconnect", "stream %d of %s goes on after Reconnect: ended=%v", s.id, s.t, s.ended)
			}
		}
	}
	for _, t := range names {
		w.discipline(t, evs, quiet)
	}
}

func (w *world) discipline(t string, evs []any, quiet bool) {
	var (
		s         *stream // the current stream
		pend      []int   // messages of s received and not delivered
		connected bool
		due       []*stream // ended streams without a Reset
		removed   bool
		ended     = true // s has ended
		got       int    // messages of s received
		adding    = map[int]bool{}
	)
	for _, e := range evs {
		switch e := e.(type) {
		case evOp:
			if e.t != t {
				continue
			}
			switch {
			case e.op == "add" && !e.ret:
				// Callbacks may come as soon as Add is under way.
				adding[e.th] = true
				removed = false
			case e.op == "add":
				delete(adding, e.th)
			case e.op == "remove" && e.ret && e.ok && len(adding) == 0:
				removed = true
				if len(due) > 0 {
					w.fail("missing-reset", "Remove(%s) returned and stream %d was not followed by Reset", t, due[0].id)
				}
				if !ended {
					w.fail("open-stream", "Remove(%s) returned and its stream %d is still open", t, s.id)
				}
			}
		case evOpen:
			if e.s.t != t {
				continue
			}
			if !ended {
				w.fail("two-streams", "stream %d of %s was opened while stream %d is open", e.s.id, t, s.id)
			}
			s, pend, connected, ended = e.s, nil, false, false
			got = 0
		case evRecv:
			if e.s.t != t {
				continue
			}
			if !e.err && e.s == s {
				got++
			}
			if e.err {
				due = append(due, e.s)
				ended = ended || e.s == s
			} else if e.s == s && s.out.msgs[e.n].kind != 'n' && s.out.msgs[e.n].kind != 'e' {
				pend = append(pend, e.n)
			}
		case evCb:
			if e.t != t {
				continue
			}
			if removed {
				w.fail("not-silent", "%s(%s) after Remove returned", e.kind, t)
			}
			switch e.kind {
			case "Connect":
				if len(due) > 0 {
					w.fail("missing-reset", "Connect(%s) although stream %d was not followed by Reset", t, due[0].id)
				}
				if s == nil || ended {
					w.fail("connect", "Connect(%s) without an open stream", t)
				}
				if connected {
					w.fail("connect", "a second Connect(%s) on stream %d", t, s.id)
				}
				if got == 0 {
					w.fail("connect", "Connect(%s) before the first message of stream %d", t, s.id)
				}
				connected = true
			case "Update", "Sync":
				if !connected {
					w.fail("not-connected", "%s(%s) while not connected", e.kind, t)
				}
				if len(pend) == 0 {
					w.fail("order", "%s(%s) without a message of stream %d", e.kind, t, s.id)
				}
				k := s.out.msgs[pend[0]].kind
				if (k == 'u') != (e.kind == "Update") || k == 'u' && (e.id != s.id || e.n != pend[0]) {
					w.fail("order", "%s(%s %d.%d): the next message is %d.%d", e.kind, t, e.id, e.n, s.id, pend[0])
				}
				pend = pend[1:]
			case "Reset":
				if !ended {
					w.fail("early-reset", "Reset(%s) while stream %d is open", t, s.id)
				}
				if len(due) == 0 {
					w.fail("extra-reset", "Reset(%s) without an ended stream", t)
				}
				if len(due) > 1 {
					w.fail("missing-reset", "stream %d of %s was not followed by Reset before stream %d", due[0].id, t, due[1].id)
				}
				if connected && len(pend) > 0 && due[0] == s {
					w.fail("lost", "Reset(%s) before message %d of stream %d was delivered", t, pend[0], s.id)
				}
				due = nil
				connected = false
			}
		}
	}
	if quiet && len(due) > 0 {
		w.fail("missing-reset", "stream %d of %s was never followed by Reset", due[0].id, t)
	}
	if quiet && len(pend) > 0 && !ended {
		w.fail("lost", "message %d of stream %d was never delivered", pend[0], s.id)
	}
}

// attempts judges the pace of the dials of a target that has its own address.
func (w *world) attempts(t string) {
	if vrt.RaceEnabled {
		return
	}
	var fails []time.Duration
	last := int64(-1)
	prev := time.Duration(0)
	for _, e := range vrt.Events() {
		switch e := e.(type) {
		case evCb:
			if e.t == t {
				if e.kind == "Connect" {
					prev, fails = 0, nil
				}
				last = e.now
			}
		case evOp:
			if e.t == t && e.op == "add" {
				last, prev, fails = -1, 0, nil
			}
		case evDial:
			if w.byAddr[e.addr] != t {
				continue
			}
			if last >= 0 {
				d := time.Duration(e.now - last)
				switch {
				case d <= 0:
					w.fail("no-backoff", "target %s is dialled again %v after a failure", t, d)
				case float64(d) > float64(manager.RetryMaxDelay)*(1+manager.RetryRandomization)+1:
					w.fail("late-retry", "target %s is dialled again %v after a failure", t, d)
				case d < prev:
					w.fail("no-backoff", "the delay between attempts of %s shrinks from %v to %v", t, prev, d)
				}
				prev = d
				fails = append(fails, d)
				if len(fails) == 6 && fails[5] < 2*fails[0] && fails[5] < manager.RetryMaxDelay/2 {
					w.fail("no-backoff", "the delays between attempts of %s do not grow: %v", t, fails)
				}
			}
		}
	}
}

type trig struct {
	at  int // event count
	ops []string
}

// run is one execution: the targets are added, operations injected, time passes,
// everything is removed.
func run(c cfg, names []string, scripts map[string][]outcome, tr []trig, complete bool, rest time.Duration) func(x *vh.X) {
	return func(x *vh.X) {
		w := newWorld(x, c, scripts, names)
		ths := 0
		for i, g := range tr {
			g := g
			ths++
			th := i + 1
			vrt.GoN(fmt.Sprintf("caller%d", th), func() {
				vrt.Await("trigger", func() bool { return vrt.NumEvents() >= g.at })
				for _, o := range g.ops {
					f := strings.Fields(o)
					w.op(th, f[0], f[1])
				}
			})
		}
		for _, n := range names {
			if err := w.op(0, "add", n); err != nil && len(tr) == 0 {
				w.fail("add", "Add(%s): %v", n, err)
			}
		}
		vrt.Sleep(int64(rest))
		vrt.Quiesce()
		if w.nops > 0 {
			w.fail("stuck", "%d operations do not return: %v", w.nops, vrt.Blocked())
		}
		w.check(names, true)
		for _, n := range names {
			if complete && !w.done(n) {
				w.fail("not-retried", "target %s is managed but was not retried: %d of %d attempts; %v", n, *w.cur[n], len(scripts[n]), vrt.Blocked())
			}
			if len(c.addrs) == 0 && !c.nilCB && len(tr) == 0 {
				w.attempts(n)
			}
		}
		for _, s := range w.streams {
			to := c.recv
			if c.meta != "" {
				if d, err := time.ParseDuration(c.meta); err == nil {
					to = d
				}
			}
			if s.silent && to > 0 && !c.lax && !vrt.RaceEnabled {
				if at := time.Duration(s.endAt - s.last); !s.ended || at > 2*to {
					w.fail("no-timeout", "stream %d of %s is silent, receive timeout %v, ended=%v after %v", s.id, s.t, to, s.ended, at)
				}
			}
		}
		for _, n := range names {
			w.op(0, "remove", n)
		}
		vrt.Quiesce()
		vrt.Sleep(int64(rest))
		vrt.Quiesce()
		if w.nops > 0 {
			w.fail("stuck", "%d operations do not return: %v", w.nops, vrt.Blocked())
		}
		w.check(names, true)
		if c.nilCB && !vrt.RaceEnabled {
			for _, s := range w.streams {
				if !s.ended {
					w.fail("open-stream", "stream %d of the removed target %s is open", s.id, s.t)
				}
			}
		}
		x.Outcome("%s", w.trace())
	}
}

var alphabet = []outcome{
	{kind: "refuse"}, {kind: "nostream"}, {kind: "nosend"},
	st("", "err"), st("", "eof"), st("u", "err"), st("us", "eof"), st("su", "err"), st("n", "err"), st("eu", "eof"), st("unsu", "close"),
	{kind: "stream", msgs: []msg{{'u', 0}, {'s', recvTimeout}, {'u', recvTimeout - 1}}, end: "err", wait: recvTimeout - 1},
}

var (
	hang   = outcome{kind: "hang"}
	silent = st("", "silent")
	uSil   = st("us", "silent")
	cred   = outcome{kind: "cred"}
)

func main() {
	manager.RetryRandomization = 0.5
	vh.Main(vh.Check{
		Property: "C13", QuickSec: 45, ThoroughSec: 800,
		Rule: "every script of attempt outcomes to the stated length (dial refusal, hanging dial, credential failure, stream or send failure, messages in every mix followed by error, end of stream, breaking connection or silence) under every timeout configuration, alone and with Remove, Reconnect, duplicate Add or remove-and-add injected after every observable event; plus every interleaving within the delay bound of short scripts with concurrent callers and of targets sharing an address. Ladders of sizes take the length of outages, sessions, lives and the number of targets far beyond that, one at a time. The complete callback trace of every execution is judged against the session discipline.",
		Assumptions: []string{
			"dials end when their context is cancelled; a stream's Recv fails once its context is cancelled or its connection closed",
			"a stream on which the request could not be sent is not a session: it has no Reset",
			"callbacks return",
		},
		Scenarios: func(tier string) []vh.Scenario {
			deep := tier == "thorough"
			var out []vh.Scenario
			cfgs := []cfg{{name: "plain"}, {name: "receive timeout", recv: recvTimeout}, {name: "dial timeout", dial: dialTimeout}, {name: "both timeouts, credentials", recv: recvTimeout, dial: dialTimeout, cred: true}, {name: "receive timeout of the target", recv: time.Hour, meta: recvTimeout.String()}, {name: "wrong receive timeout of the target", recv: recvTimeout, meta: "x"}, {name: "no callbacks", recv: recvTimeout, nilCB: true}}
			alpha := func(c cfg) []outcome {
				a := append([]outcome(nil), alphabet...)
				if c.recv > 0 || c.meta != "" {
					a = append(a, silent, uSil)
				}
				if c.dial > 0 {
					a = append(a, hang)
				}
				if c.cred {
					a = append(a, cred)
				}
				return a
			}
			length, opsLen := 3, 2
			if deep {
				length, opsLen = 4, 3
			}
			names := []string{"t"}
			opsets := [][]string{{"remove t"}, {"reconnect t"}, {"add t"}, {"remove t", "add t"}, {"remove t", "remove t"}, {"reconnect t", "reconnect t", "remove t"}}
			for _, c := range cfgs {
				c := c
				a := alpha(c)
				out = append(out, vh.Scenario{Name: "scripts, " + c.name, Seq: func(q *vh.Q) {
					enum(len(a), length, func(ix []int) bool {
						sc := pick(a, ix)
						d := fmt.Sprintf("%s: %v", c.name, sc)
						q.Sample("%s", d)
						q.State(d)
						return !q.Expired() && q.Do(func() string { return d }, func() error {
							return q.Exec(run(c, names, map[string][]outcome{"t": sc}, nil, true, 10*time.Minute))
						})
					})
				}})
				if c.nilCB {
					continue
				}
				for oi, ops := range opsets {
					ops := ops
					if !deep && (c.meta != "" || oi > 3 && c.recv == 0) {
						continue
					}
					out = append(out, vh.Scenario{Name: fmt.Sprintf("scripts, %s, with %v at every event", c.name, ops), Seq: func(q *vh.Q) {
						// Without a timeout silence lasts until the operation.
						aa := a
						if c.recv == 0 && c.meta == "" {
							aa = append(append([]outcome(nil), a...), silent, uSil)
						}
						enum(len(aa), opsLen, func(ix []int) bool {
							sc := pick(aa, ix)
							for at := 0; ; at++ {
								d := fmt.Sprintf("%s: %v; %v after %d events", c.name, sc, ops, at)
								q.Sample("%s", d)
								q.State(d)
								n := 0
								if q.Expired() || !q.Do(func() string { return d }, func() error {
									body := run(c, names, map[string][]outcome{"t": sc}, []trig{{at, ops}}, false, 4*time.Minute)
									return q.Exec(func(x *vh.X) { body(x); n = triggered() })
								}) {
									return false
								}
								if at >= n {
									return true
								}
							}
						})
					}})
				}
			}
			out = append(out, vh.Scenario{Name: "backoff", Seq: func(q *vh.Q) {
				for _, f := range []outcome{{kind: "refuse"}, {kind: "nostream"}, {kind: "nosend"}, st("", "err"), silent} {
					for r := 0; r < 3; r++ {
						sc := make([]outcome, outage)
						for i := range sc {
							sc[i] = f
						}
						c := cfg{name: "backoff", recv: recvTimeout}
						d := fmt.Sprintf("%d x %v, random draw %d", outage, f, r)
						q.State(d)
						q.Do(func() string { return d }, func() error {
							vrand.Pick = func(string, uint64) uint64 { return uint64(r) }
							defer func() { vrand.Pick = nil }()
							return q.Exec(run(c, names, map[string][]outcome{"t": sc}, nil, true, 2*time.Hour))
						})
					}
				}
			}})
			// Refused calls.
			out = append(out, vh.Scenario{Name: "refused", Seq: func(q *vh.Q) {
				q.State("refused calls")
				q.Do(func() string { return "refused calls" }, func() error { return q.Exec(refused) })
			}})
			// Several targets.
			two := []string{"t", "u"}
			shared := map[string][]string{"t": {"x"}, "u": {"x"}}
			multi := map[string][]string{"t": {"x", "y"}, "u": {"y", "z;q"}}
			sa := []outcome{st("u", "err"), st("us", "eof"), st("", "err"), st("u", "close"), silent, uSil, {kind: "nosend"}}
			for _, c := range []cfg{{name: "two targets", recv: recvTimeout}, {name: "two targets sharing an address", recv: recvTimeout, addrs: shared}, {name: "two targets with several addresses", recv: recvTimeout, addrs: multi}} {
				c := c
				out = append(out, vh.Scenario{Name: c.name, Seq: func(q *vh.Q) {
					l := 2
					enum(len(sa), 2*l, func(ix []int) bool {
						s1, s2 := pick(sa, ix[:l]), pick(sa, ix[l:])
						for _, tr := range [][]trig{nil, {{12, []string{"remove t"}}}, {{9, []string{"reconnect u", "remove u", "add u"}}}} {
							d := fmt.Sprintf("%s: t %v, u %v; %v", c.name, s1, s2, tr)
							q.State(d)
							q.Sample("%s", d)
							if q.Expired() || !q.Do(func() string { return d }, func() error {
								return q.Exec(run(c, two, map[string][]outcome{"t": s1, "u": s2}, tr, tr == nil, 4*time.Minute))
							}) {
								return false
							}
						}
						return true
					})
				}})
			}
			// Interleavings.
			type il struct {
				name   string
				c      cfg
				names  []string
				s      map[string][]outcome
				tr     []trig
				clock  bool
				cmpl   bool
				lessBy int
			}
			S := func(o ...outcome) map[string][]outcome { return map[string][]outcome{"t": o} }
			tsc := outcome{kind: "stream", msgs: []msg{{'u', 0}, {'s', recvTimeout}}, end: "err", wait: recvTimeout}
			ils := []il{
				{name: "remove", s: S(st("us", "err"), st("u", "silent")), tr: []trig{{1, []string{"remove t"}}}},
				{name: "remove during a session", s: S(st("u", "silent")), tr: []trig{{8, []string{"remove t"}}}, clock: true},
				{name: "remove and timeout", c: cfg{recv: recvTimeout}, s: S(st("u", "silent")), tr: []trig{{8, []string{"remove t"}}}, clock: true},
				{name: "reconnect", s: S(st("us", "err"), st("u", "silent")), tr: []trig{{1, []string{"reconnect t"}}}},
				{name: "two reconnects", s: S(st("us", "silent"), st("u", "silent")), tr: []trig{{6, []string{"reconnect t"}}, {6, []string{"reconnect t"}}}, clock: true},
				{name: "reconnect and remove", s: S(st("us", "silent"), st("u", "silent")), tr: []trig{{6, []string{"reconnect t"}}, {6, []string{"remove t"}}}},
				{name: "timeout at the message", c: cfg{recv: recvTimeout}, s: S(tsc, tsc), cmpl: true},
				{name: "timeout at the message and remove", c: cfg{recv: recvTimeout}, s: S(tsc), tr: []trig{{7, []string{"remove t"}}}, clock: true},
				{name: "timeout and reconnect", c: cfg{recv: recvTimeout}, s: S(st("u", "silent"), st("u", "err")), tr: []trig{{7, []string{"reconnect t"}}}, clock: true},
				{name: "two removes", s: S(st("u", "silent")), tr: []trig{{5, []string{"remove t"}}, {5, []string{"remove t"}}}},
				{name: "two adds", s: S(st("u", "silent")), tr: []trig{{0, []string{"add t"}}, {0, []string{"add t"}}}},
				{name: "remove and add", s: S(st("us", "err"), st("u", "silent"), st("u", "err")), tr: []trig{{5, []string{"remove t"}}, {5, []string{"add t"}}}},
				{name: "remove then add", s: S(st("us", "err"), st("u", "silent"), st("u", "err")), tr: []trig{{5, []string{"remove t", "add t"}}}, clock: true},
				{name: "dial timeout and remove", c: cfg{dial: dialTimeout}, s: S(hang, st("u", "err")), tr: []trig{{3, []string{"remove t"}}}, clock: true},
				{name: "two targets at one address", c: cfg{addrs: shared}, names: two, s: map[string][]outcome{"t": {st("u", "err"), st("u", "silent")}, "u": {st("us", "silent")}}},
				{name: "two targets at one address, remove", c: cfg{addrs: shared}, names: two, s: map[string][]outcome{"t": {st("u", "silent")}, "u": {st("us", "silent")}}, tr: []trig{{10, []string{"remove t"}}}},
				{name: "two targets, remove both", c: cfg{}, names: two, s: map[string][]outcome{"t": {st("u", "err")}, "u": {st("us", "silent")}}, tr: []trig{{6, []string{"remove t"}}, {6, []string{"remove u"}}}},
			}
			b, decl := 6, 2
			if deep {
				b, decl = 10, 4
			}
			for _, l := range ils {
				if l.names == nil {
					l.names = names
				}
				l.c.lax = l.clock
				sc := vh.Scenario{Name: "interleavings: " + l.name, Body: run(l.c, l.names, l.s, l.tr, l.cmpl, 20*time.Second), MaxBound: b, Declared: decl, Race: true, RaceBound: 1}
				sc.Opt.Delay = true
				sc.Opt.ClockDev = l.clock
				out = append(out, sc)
			}
			return append(out, sizeScenarios(deep)...)
		},
	})
}

// triggered is the number of events before the callers' operations ended.
func triggered() int {
	n := 0
	for i, e := range vrt.Events() {
		if o, ok := e.(evOp); ok && o.th == 0 && o.op == "remove" && !o.ret {
			n = i
			break
		}
	}
	return n
}

func refused(x *vh.X) {
	w := newWorld(x, cfg{}, map[string][]outcome{"t": {st("u", "silent")}}, []string{"t"})
	for _, c := range []struct {
		what string
		err  error
	}{
		{"Add with an empty name", w.m.Add("", w.target("t"), sr)},
		{"Add without a request", w.m.Add("t", w.target("t"), nil)},
		{"Add without addresses", w.m.Add("t", &tpb.Target{}, sr)},
		{"Add without a target", w.m.Add("t", nil, sr)},
		{"Remove of an unknown target", w.m.Remove("t")},
		{"Remove of the empty name", w.m.Remove("")},
	} {
		if c.err == nil {
			w.fail("not-refused", "%s is not refused", c.what)
		}
	}
	vrt.Sleep(int64(5 * time.Minute))
	vrt.Quiesce()
	if n := vrt.NumEvents(); n > 0 {
		w.fail("not-silent", "refused calls have an effect")
	}
	if err := w.m.Add("t", w.target("t"), sr); err != nil {
		w.fail("add", "Add: %v", err)
	}
	if w.m.Add("t", w.target("t"), sr) == nil {
		w.fail("not-refused", "a duplicate Add is not refused")
	}
	if w.m.Remove("t") != nil {
		w.fail("add", "Remove of a managed target is refused")
	}
	if w.m.Remove("t") == nil {
		w.fail("not-refused", "a second Remove is not refused")
	}
	if err := w.m.Add("t", w.target("t"), sr); err != nil {
		w.fail("add", "Add after Remove: %v", err)
	}
	vrt.Sleep(int64(time.Minute))
	w.m.Remove("t")
	x.Outcome("refused")
}

// enum calls f with every tuple of n indices below k.
func enum(k, n int, f func(ix []int) bool) {
	ix := make([]int, n)
	for {
		if !f(ix) {
			return
		}
		i := n - 1
		for ; i >= 0; i-- {
			if ix[i]++; ix[i] < k {
				break
			}
			ix[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func pick(a []outcome, ix []int) []outcome {
	var out []outcome
	for _, i := range ix {
		out = append(out, a[i])
	}
	return out
}
