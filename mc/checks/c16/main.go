//go:build go1.23

// Check C16: reference-counted sharing of connections.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	rgrpc "google.golang.org/grpc"

	"github.com/openconfig/gnmi/connection"
	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vgrpc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

type step struct {
	addr   int
	double bool // release twice
	cancel bool // a canceller thread cancels this request's context
	pre    bool // the context is cancelled beforehand
	dialer string
	linger bool            // hold the connection over a scheduling point
	ctx    context.Context // the context to use, if not one of its own
	hold   func()          // called while the connection is held
}

type conf struct {
	name    string
	threads [][]step
	fails   int  // dials that may fail
	hang    bool // a dial may wait for its context
}

var addrs, addrIndex = []string{"addr0", "addr1"}, map[string]int{}

func init() {
	for i := 2; i < 4200; i++ {
		addrs = append(addrs, fmt.Sprintf("addr%d", i))
	}
	for i, a := range addrs {
		addrIndex[a] = i
	}
}

type cstate struct {
	addr    int
	closed  int
	holders int
}

type world struct {
	x        *vh.X
	inflight []int
	dials    []int
	fails    int
	hang     bool
	conns    []*cstate
	gate     func() error // decides a dial instead of a choice
	failed   int          // requests that failed
}

func (w *world) ev(f string, a ...any) {
	vrt.Event(fmt.Sprintf(f, a...))
}

func (w *world) fail(key, f string, a ...any) {
	w.x.Fail(key, "%s\n%s", fmt.Sprintf(f, a...), vh.EventLog())
}

var errDial = errors.New("scripted dial failure")

func (w *world) dial() connection.Dial {
	return func(ctx context.Context, target string, _ ...rgrpc.DialOption) (*vgrpc.ClientConn, error) {
		a, ok := addrIndex[target]
		if !ok {
			w.fail("dial-target", "dial of unexpected target %q", target)
		}
		w.inflight[a]++
		w.dials[a]++
		w.ev("dial %s start", target)
		if w.inflight[a] > 1 {
			w.fail("two-dials", "two dials to %s in flight", target)
		}
		for id, c := range w.conns {
			if c.addr == a && c.holders > 0 {
				w.fail("redial-held", "dialling %s although connection %d to it is held", target, id)
			}
		}
		n := 1
		if w.fails > 0 {
			n = 2
		}
		if w.hang {
			n++
		}
		var gerr error
		if w.gate != nil {
			gerr = w.gate()
			n = 1
		}
		out := vrt.Choose(n)
		if n == 2 && w.hang && w.fails == 0 && out == 1 {
			out = 2
		}
		switch out {
		case 1:
			w.fails--
			vrt.Yield()
		case 2:
			vrt.Recv2(ctx.Done())
		default:
			vrt.Yield()
		}
		w.inflight[a]--
		if gerr != nil {
			w.ev("dial %s fails", target)
			return nil, gerr
		}
		if out != 0 {
			w.ev("dial %s fails", target)
			if out == 2 {
				return nil, ctx.Err()
			}
			return nil, errDial
		}
		id := len(w.conns)
		cs := &cstate{addr: a}
		w.conns = append(w.conns, cs)
		w.ev("dial %s -> conn %d", target, id)
		return &vgrpc.ClientConn{Addr: target, ID: id, OnClose: func(*vgrpc.ClientConn) error {
			cs.closed++
			w.ev("close conn %d", id)
			if cs.closed > 1 {
				w.fail("closed-twice", "connection %d closed %d times", id, cs.closed)
			}
			if cs.holders > 0 {
				w.fail("closed-held", "connection %d closed while %d holders have not released it", id, cs.holders)
			}
			vrt.Yield()
			return nil
		}}, nil
	}
}

func (w *world) request(who string, m *connection.Manager, s step) {
	ctx, cancel := vcontext.WithCancel(context.Background())
	if s.ctx != nil {
		ctx = s.ctx
	}
	if s.pre {
		cancel()
	}
	if s.cancel {
		vrt.GoN(who+" canceller", func() { vrt.Yield(); w.ev("%s cancelled", who); cancel() })
	}
	vrt.Yield()
	w.ev("%s requests %s", who, addrs[s.addr])
	c, done, err := m.Connection(ctx, addrs[s.addr], s.dialer)
	if done == nil {
		w.fail("nil-done", "%s: release function is nil (err %v)", who, err)
	}
	if err != nil {
		w.failed++
		w.ev("%s gets error %v", who, err)
		if c != nil {
			w.fail("conn-and-error", "%s got both a connection and error %v", who, err)
		}
		vrt.Yield()
		done()
		done()
		return
	}
	if s.dialer == "nope" {
		// Another requester's connection may be shared, but only an existing one.
		if c == nil {
			w.fail("no-dialer", "%s: no error for an unknown dialer", who)
		}
	}
	if c == nil {
		w.fail("nil-conn", "%s got no connection and no error", who)
	}
	cs := w.conns[c.ID]
	w.ev("%s gets conn %d", who, c.ID)
	if cs.addr != s.addr {
		w.fail("wrong-address", "%s asked for %s and got connection %d to %s", who, addrs[s.addr], c.ID, addrs[cs.addr])
	}
	if cs.closed > 0 {
		w.fail("use-after-close", "%s was handed connection %d, which is closed", who, c.ID)
	}
	for id, o := range w.conns {
		if id != c.ID && o.addr == s.addr && o.holders > 0 {
			w.fail("not-shared", "%s got connection %d although connection %d to the same address is held", who, c.ID, id)
		}
	}
	cs.holders++
	if s.linger {
		vrt.Yield()
		vrt.Touch()
	}
	if s.hold != nil {
		s.hold()
	}
	cs.holders--
	w.ev("%s releases conn %d", who, c.ID)
	done()
	if s.double {
		w.ev("%s releases conn %d again", who, c.ID)
		done()
	}
}

func body(c conf) func(x *vh.X) {
	return func(x *vh.X) {
		w := &world{x: x, conns: make([]*cstate, 0, 64), inflight: make([]int, 2), dials: make([]int, 2), fails: c.fails, hang: c.hang}
		m, err := connection.NewManagerCustom(map[string]connection.Dial{connection.DEFAULT: w.dial(), "other": w.dial()})
		if err != nil {
			x.Fail("new", "%v", err)
		}
		for i, th := range c.threads {
			i, th := i, th
			vrt.GoN(fmt.Sprintf("r%d", i), func() {
				for k, s := range th {
					w.request(fmt.Sprintf("r%d.%d", i, k), m, s)
				}
			})
		}
		vrt.Quiesce()
		if vrt.Live() > 0 {
			w.fail("blocked", "requests never returned: %v", vrt.Blocked())
		}
		for id, cs := range w.conns {
			if cs.closed != 1 {
				w.fail("leak", "connection %d is released by all but was closed %d times", id, cs.closed)
			}
		}
		out := strings.ReplaceAll(vh.EventLog(), "\n", ";")
		w.fails, w.hang = 0, false
		for a := range addrs[:2] {
			n := w.dials[a]
			w.request(fmt.Sprintf("final%d", a), m, step{addr: a})
			if w.dials[a] != n+1 {
				w.fail("not-forgotten", "a request after the last release did not dial %s afresh", addrs[a])
			}
		}
		vrt.Quiesce()
		for id, cs := range w.conns {
			if cs.closed != 1 {
				w.fail("leak", "connection %d is released by all but was closed %d times", id, cs.closed)
			}
		}
		x.Outcome("%s", out)
	}
}

func main() {
	vh.Main(vh.Check{
		Property: "C16", QuickSec: 45, ThoroughSec: 600,
		Rule:        "2-4 requester threads with 1-3 requests over one or two addresses against a scripted dial function whose outcome (success, failure, waiting for its context) is a free choice at every dial; double releases, releases after failed requests, pre-cancelled and concurrently cancelled contexts; every interleaving within the deviation bound, then a final round of requests. Ladders of sizes take the number of requesters, rounds and addresses far beyond that, one at a time.",
		Assumptions: []string{"the connection object is a scripted stand-in for *grpc.ClientConn that records Close", "a dial that waits ends when its context is cancelled"},
		Scenarios: func(tier string) []vh.Scenario {
			L := true
			d := connection.DEFAULT
			st := func(a int) step { return step{addr: a, dialer: d, linger: L} }
			dbl := func(a int) step { return step{addr: a, dialer: d, linger: L, double: true} }
			can := func(a int) step { return step{addr: a, dialer: d, linger: L, cancel: true} }
			quick := func(a int) step { return step{addr: a, dialer: d} }
			cs := []conf{
				{name: "two share", threads: [][]step{{st(0)}, {st(0)}}, fails: 1},
				{name: "two share, double release", threads: [][]step{{dbl(0)}, {st(0)}}, fails: 1},
				{name: "three share, double release", threads: [][]step{{dbl(0)}, {st(0)}, {dbl(0)}}, fails: 1},
				{name: "three share", threads: [][]step{{st(0)}, {st(0)}, {quick(0)}}, fails: 2},
				{name: "two rounds", threads: [][]step{{st(0), st(0)}, {st(0), quick(0)}}, fails: 2},
				{name: "two rounds, double", threads: [][]step{{dbl(0), dbl(0)}, {st(0), st(0)}}, fails: 1},
				{name: "two addresses", threads: [][]step{{st(0), st(1)}, {st(1), st(0)}}, fails: 1},
				{name: "three requesters two addresses", threads: [][]step{{st(0)}, {st(1), st(0)}, {st(0)}}, fails: 1},
				{name: "cancelled dial", threads: [][]step{{can(0)}, {st(0)}}, hang: false, fails: 1},
				{name: "hanging dial, cancelled", threads: [][]step{{can(0)}, {can(0)}}, hang: true, fails: 1},
				{name: "hanging dial, three", threads: [][]step{{can(0)}, {can(0)}, {can(0), can(0)}}, hang: true},
				{name: "pre-cancelled", threads: [][]step{{{addr: 0, dialer: d, pre: true, linger: L}}, {st(0)}, {dbl(0)}}, fails: 1},
				{name: "unknown dialer", threads: [][]step{{{addr: 0, dialer: "nope", linger: L}}, {st(0)}, {st(0)}}, fails: 0},
				{name: "named dialer", threads: [][]step{{{addr: 0, dialer: "other", linger: L}, {addr: 1, dialer: "other"}}, {{addr: 0, dialer: "other", linger: L, double: true}}}, fails: 1},
				{name: "two dialers", threads: [][]step{{{addr: 0, dialer: "other", linger: L}, {addr: 0, dialer: d, linger: L}}, {st(0), {addr: 0, dialer: "other"}}}, fails: 1},
				{name: "two dialers two addresses", threads: [][]step{{{addr: 0, dialer: "other", linger: L}}, {st(1), {addr: 0, dialer: "other"}}, {dbl(0)}}, fails: 1},
				{name: "three rounds one", threads: [][]step{{quick(0), quick(0), quick(0)}, {quick(0), quick(0)}}, fails: 2},
			}
			b, decl := 5, 2
			if tier == "thorough" {
				b, decl = 9, 3
				cs = append(cs,
					conf{name: "four share", threads: [][]step{{dbl(0)}, {st(0)}, {st(0)}, {quick(0), st(0)}}, fails: 2},
					conf{name: "three two rounds", threads: [][]step{{st(0), st(0)}, {dbl(0), st(0)}, {st(0), quick(0)}}, fails: 2},
					conf{name: "three two rounds two addresses", threads: [][]step{{st(0), st(1)}, {dbl(1), st(0)}, {st(0), quick(1)}}, fails: 2},
					conf{name: "four hanging", threads: [][]step{{can(0)}, {can(0)}, {can(0)}, {can(0)}}, hang: true, fails: 1},
				)
			}
			var out []vh.Scenario
			for _, c := range cs {
				sc := vh.Scenario{Name: c.name, Body: body(c), MaxBound: b, Declared: decl, Race: true, RaceBound: 2}
				n := len(c.threads)
				for _, th := range c.threads {
					for _, s := range th {
						if s.cancel {
							n++
						}
					}
				}
				if n > 2 {
					sc.Opt.Delay = true
				}
				out = append(out, sc)
			}
			return append(out, sizeScenarios(tier == "thorough")...)
		},
	})
}
