//go:build go1.23

// Check C17: target configuration loads.
package main

import (
	"fmt"
	"math"
	"strings"

	"google.golang.org/protobuf/proto"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/target"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// conf is a configuration of the universe. The revision is set when it is loaded.
type conf struct {
	desc  string
	pb    *tpb.Configuration
	valid bool
	// What it stands for, per target: settings and request in canonical form.
	set map[string]string
}

func canon(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func entry(t *tpb.Target, r *pb.SubscribeRequest) string { return canon(t) + "\x00|" + canon(r) }

type named[T any] struct {
	name string
	v    T
}

func req(p string) *pb.SubscribeRequest {
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{
		Prefix: &pb.Path{Origin: "o"}, Subscription: []*pb.Subscription{{Path: vc.P(p)}}}}}
}

var reqs = []named[*pb.SubscribeRequest]{{"-", nil}, {"v1", req("a")}, {"v2", req("b")}, {"empty", &pb.SubscribeRequest{}}}

type topt struct {
	name string
	t    *tpb.Target // nil: see present
	here bool
}

func tg(request string, f func(t *tpb.Target), addrs ...string) *tpb.Target {
	t := &tpb.Target{Addresses: addrs, Request: request}
	if f != nil {
		f(t)
	}
	return t
}

var tgts = []topt{
	{"-", nil, false},
	{"a1/r1", tg("r1", nil, "a1"), true},
	{"a2/r1", tg("r1", nil, "a2"), true},
	{"a1/r2", tg("r2", nil, "a1"), true},
	{"a1,a2/r1", tg("r1", nil, "a1", "a2"), true},
	{"a2,a1/r1", tg("r1", nil, "a2", "a1"), true},
	{"a1/r1+cred", tg("r1", func(t *tpb.Target) { t.Credentials = &tpb.Credentials{Username: "u"} }, "a1"), true},
	{"a1/r1+pw", tg("r1", func(t *tpb.Target) { t.Credentials = &tpb.Credentials{Username: "u", Password: "p"} }, "a1"), true},
	{"a1/r1+meta", tg("r1", func(t *tpb.Target) { t.Meta = map[string]string{"k": "v"} }, "a1"), true},
	{"a1/r1+dialer", tg("r1", func(t *tpb.Target) { t.Dialer = "d" }, "a1"), true},
	{"nil", nil, true},
	{"noaddr/r1", tg("r1", nil), true},
	{"a1/-", tg("", nil, "a1"), true},
	{"a1/r9", tg("r9", nil, "a1"), true},
}

// build makes a configuration from options for targets and requests.
func build(names []string, ts []topt, rs []named[*pb.SubscribeRequest]) conf {
	c := conf{pb: &tpb.Configuration{Target: map[string]*tpb.Target{}, Request: map[string]*pb.SubscribeRequest{}}, valid: true, set: map[string]string{}}
	var d []string
	for i, r := range rs {
		k := fmt.Sprintf("r%d", i+1)
		if r.v != nil {
			c.pb.Request[k] = r.v
		}
		d = append(d, k+"="+r.name)
	}
	for i, t := range ts {
		d = append(d, fmt.Sprintf("%q=%s", names[i], t.name))
		if !t.here {
			continue
		}
		c.pb.Target[names[i]] = t.t
		switch {
		case names[i] == "", t.t == nil, len(t.t.GetAddresses()) == 0, t.t.GetRequest() == "", c.pb.Request[t.t.GetRequest()] == nil:
			c.valid = false
		default:
			c.set[names[i]] = entry(t.t, c.pb.Request[t.t.GetRequest()])
		}
	}
	c.desc = strings.Join(d, " ")
	return c
}

func universe(names []string, ts []topt, rs [][]named[*pb.SubscribeRequest]) []conf {
	var out []conf
	var rec func(tt []topt, rr []named[*pb.SubscribeRequest])
	rec = func(tt []topt, rr []named[*pb.SubscribeRequest]) {
		if len(tt) < len(names) {
			for _, t := range ts {
				rec(append(tt[:len(tt):len(tt)], t), rr)
			}
			return
		}
		if len(rr) < len(rs) {
			for _, r := range rs[len(rr)] {
				rec(tt, append(rr[:len(rr):len(rr)], r))
			}
			return
		}
		out = append(out, build(names, tt, rr))
	}
	rec(nil, nil)
	return out
}

// world is a Config with a replayed set of targets.
type world struct {
	c     *target.Config
	set   map[string]string
	calls []string
	names map[string]int
	err   error
	cur   *conf
	rev   int64
}

func (w *world) bad(key, f string, a ...any) {
	if w.err == nil {
		w.err = vh.Errf(key, f, a...)
	}
}

func (w *world) handler() target.Handler {
	up := func(kind string, want bool) func(target.Update) {
		return func(u target.Update) {
			w.calls = append(w.calls, kind+" "+u.Name)
			w.names[u.Name]++
			if _, ok := w.set[u.Name]; ok != want {
				w.bad("wrong-call", "%s(%s) while the target is known: %v", kind, u.Name, ok)
			}
			if u.Target == nil || u.Request == nil {
				w.bad("wrong-call", "%s(%s) without settings or request", kind, u.Name)
				return
			}
			w.set[u.Name] = entry(u.Target, u.Request)
		}
	}
	return target.Handler{
		Add:    up("Add", false),
		Update: up("Update", true),
		Delete: func(n string) {
			w.calls = append(w.calls, "Delete "+n)
			w.names[n]++
			if _, ok := w.set[n]; !ok {
				w.bad("wrong-call", "Delete(%s) of an unknown target", n)
			}
			delete(w.set, n)
		},
	}
}

func newWorld() *world {
	w := &world{set: map[string]string{}, names: map[string]int{}}
	w.c = target.NewConfig(w.handler())
	return w
}

// load loads a configuration and judges what happens.
func (w *world) load(c *conf, rev int64) error {
	p := proto.Clone(c.pb).(*tpb.Configuration)
	for k, t := range c.pb.Target {
		if t == nil {
			p.Target[k] = nil
		}
	}
	p.Revision = rev
	w.calls = w.calls[:0]
	clear(w.names)
	before := map[string]string{}
	for k, v := range w.set {
		before[k] = v
	}
	err := w.c.Load(p)
	if w.err != nil {
		return w.err
	}
	apply := c.valid && (w.cur == nil || rev > w.rev)
	if (err == nil) != apply {
		return vh.Errf("acceptance", "Load of a configuration (valid: %v, revision %d after %d) returned %v", c.valid, rev, w.rev, err)
	}
	if !apply {
		if len(w.calls) > 0 {
			return vh.Errf("rejected-calls", "a rejected load ran the handlers: %v", w.calls)
		}
		return w.current()
	}
	for k := range w.names {
		old, ok := before[k]
		now, ok2 := c.set[k]
		if ok == ok2 && old == now {
			return vh.Errf("unchanged-call", "target %s is unchanged, but handlers were called: %v", k, w.calls)
		}
	}
	w.cur, w.rev = c, rev
	if len(w.set) != len(c.set) {
		return vh.Errf("replay", "the handler calls give targets %q, the configuration has %q (last calls %v)", keys(w.set), keys(c.set), w.calls)
	}
	for k, v := range c.set {
		if w.set[k] != v {
			return vh.Errf("replay", "the handler calls give target %s as %q, the configuration has %q (last calls %v)", k, w.set[k], v, w.calls)
		}
	}
	return w.current()
}

func keys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return out
}

func (w *world) current() error {
	got := w.c.Current()
	if w.cur == nil {
		if len(got.GetTarget()) > 0 || len(got.GetRequest()) > 0 || got.GetRevision() != 0 {
			return vh.Errf("current", "Current is %v before any accepted load", got)
		}
		return nil
	}
	if got.GetRevision() != w.rev {
		return vh.Errf("current", "Current has revision %d, the last accepted one is %d", got.GetRevision(), w.rev)
	}
	if len(got.Target) != len(w.cur.pb.Target) || len(got.Request) != len(w.cur.pb.Request) {
		return vh.Errf("current", "Current is %v, loaded was %v", got, w.cur.pb)
	}
	for k, t := range w.cur.pb.Target {
		if !proto.Equal(got.Target[k], t) {
			return vh.Errf("current", "Current has target %s as %v, loaded was %v", k, got.Target[k], t)
		}
	}
	for k, r := range w.cur.pb.Request {
		if !proto.Equal(got.Request[k], r) {
			return vh.Errf("current", "Current has request %s as %v, loaded was %v", k, got.Request[k], r)
		}
	}
	want := proto.Clone(w.cur.pb).(*tpb.Configuration)
	want.Revision = w.rev
	if !proto.Equal(got, want) {
		return vh.Errf("current", "Current is %v, loaded was %v", got, want)
	}
	// It is a copy.
	for k := range got.Target {
		delete(got.Target, k)
	}
	for _, r := range got.Request {
		r.Request = nil
	}
	got.Revision = -77
	return nil
}

// step is a load.
type step struct {
	c   *conf
	rev int64
}

func (s step) String() string { return fmt.Sprintf("load {%s} revision %d", s.c.desc, s.rev) }

func desc(st []step) string {
	var d []string
	for _, s := range st {
		d = append(d, s.String())
	}
	return strings.Join(d, "\n")
}

func play(st []step) error {
	w := newWorld()
	if err := w.current(); err != nil {
		return err
	}
	for i := range st {
		if err := w.load(st[i].c, st[i].rev); err != nil {
			return err
		}
	}
	return nil
}

func main() {
	vh.Main(vh.Check{
		Property: "C17", QuickSec: 70, ThoroughSec: 700,
		Rule: "every pair of configurations of a universe (two targets with all settings, valid and invalid, two requests in all versions) in every revision order, every sequence of three (thorough: four) over a smaller universe including invalid ones and every revision order, single-step edits of larger configurations, ladders of sizes (targets, requests, loads, parts of a target or request), and every interleaving within the bound of concurrent loads: after each load the replayed handler calls are compared with the configuration.",
		Assumptions: []string{
			"handlers do not modify what they are given and do not call the Config",
			"a configuration is valid if every target has a name, settings, an address and the name of a request that exists",
		},
		Scenarios: func(tier string) []vh.Scenario {
			deep := tier == "thorough"
			var out []vh.Scenario
			r3 := [][]named[*pb.SubscribeRequest]{reqs[:3], reqs[:3]}
			big := universe([]string{"t", "u"}, tgts, r3)
			var valid []int
			for i, c := range big {
				if c.valid {
					valid = append(valid, i)
				}
			}
			shards := 24
			for s := 0; s < shards; s++ {
				s := s
				out = append(out, vh.Scenario{Name: fmt.Sprintf("pairs %d", s), Seq: func(q *vh.Q) {
					for vi := s; vi < len(valid); vi += shards {
						a := &big[valid[vi]]
						q.State(a.desc)
						q.Sample("%s, then every configuration", a.desc)
						for i := range big {
							b := &big[i]
							if q.Expired() {
								return
							}
							st := []step{{a, 5}, {b, 5 + int64(i+vi)%3 - 1}}
							if b.valid {
								st[1].rev = 6
							}
							if !q.Do(func() string { return desc(st) }, func() error { return play(st) }) {
								return
							}
							q.Trans(2)
						}
					}
				}})
			}
			// Sequences over a smaller universe; the index selects configurations and revisions.
			small := universe([]string{"t", "u"}, []topt{tgts[0], tgts[1], tgts[2], tgts[3]}, [][]named[*pb.SubscribeRequest]{reqs[1:3], reqs[:2]})
			small = append(small, build([]string{"t", "u"}, []topt{tgts[1], tgts[10]}, reqs[1:2]), build([]string{"t", ""}, []topt{tgts[2], tgts[1]}, reqs[1:2]), build(nil, nil, nil))
			revs := []int64{-1, 0, 1}
			length := 3
			if deep {
				length = 4
			}
			for s := range small {
				s := s
				out = append(out, vh.Scenario{Name: "sequences from " + small[s].desc, Seq: func(q *vh.Q) {
					var rec func(w []step) bool
					rec = func(w []step) bool {
						if len(w) == length {
							q.Trans(length)
							return !q.Expired() && q.Do(func() string { return desc(w) }, func() error { return play(w) })
						}
						last := w[len(w)-1]
						for i := range small {
							for _, r := range revs {
								// Lower and equal revisions need only be tried with some.
								if r <= 0 && (i+len(w))%5 != 0 {
									continue
								}
								if !rec(append(w[:len(w):len(w)], step{&small[i], last.rev + r})) {
									return false
								}
							}
						}
						return true
					}
					q.State(small[s].desc)
					q.Sample("%s, then every sequence", small[s].desc)
					rec([]step{{&small[s], 0}})
				}})
			}
			// Every edit the schema allows.
			for _, shared := range []bool{false, true} {
				ers, ets := editConfs(shared)
				for k := 0; k < 8; k++ {
					k := k
					out = append(out, vh.Scenario{Name: fmt.Sprintf("request edits, shared=%v, part %d", shared, k), Seq: func(q *vh.Q) { editPairs(q, ers, k, 8) }})
				}
				out = append(out, vh.Scenario{Name: fmt.Sprintf("target edits, shared=%v", shared), Seq: func(q *vh.Q) { editPairs(q, ets, 0, 1) }})
			}
			out = append(out, vh.Scenario{Name: "configuration edits", Seq: wholeEdits})
			// Extreme revisions.
			out = append(out, vh.Scenario{Name: "revisions", Seq: func(q *vh.Q) {
				vals := []int64{math.MinInt64, -1, 0, 1, 2, 1 << 32, math.MaxInt64 - 1, math.MaxInt64}
				one, two := &small[1], &small[6]
				for _, a := range vals {
					for _, b := range vals {
						for _, c := range vals {
							st := []step{{one, a}, {two, b}, {one, c}}
							q.State(desc(st))
							q.Trans(3)
							if !q.Do(func() string { return desc(st) }, func() error { return play(st) }) {
								return
							}
						}
					}
				}
			}})
			// The caller keeps using the message it has loaded.
			out = append(out, vh.Scenario{Name: "reused messages, nil, bases and missing handlers", Seq: func(q *vh.Q) {
				for i := range small {
					for j := range small {
						a, b := &small[i], &small[j]
						if !a.valid {
							continue
						}
						d := "load {" + a.desc + "}; then change that message to {" + b.desc + "} and load it again with the same and a higher revision"
						q.State(d)
						q.Trans(3)
						if !q.Do(func() string { return d }, func() error { return reused(a, b) }) {
							return
						}
						d2 := "base {" + a.desc + "}; load {" + b.desc + "}"
						if !q.Do(func() string { return d2 }, func() error { return based(a, b) }) {
							return
						}
					}
				}
			}})
			// Map iteration order and concurrency.
			for i, p := range [][3]int{{1, 22, 43}, {5, 50, 9}, {30, 13, 2}} {
				p := p
				body := func(x *vh.X) {
					w := newWorld()
					var errs [3]error
					for k := 0; k < 3; k++ {
						k := k
						vrt.GoN(fmt.Sprintf("loader%d", k), func() {
							m := proto.Clone(small[p[k]].pb).(*tpb.Configuration)
							m.Revision = int64(1 + (k+i)%2)
							vrt.Yield()
							errs[k] = w.c.Load(m)
							vrt.Touch()
						})
					}
					vrt.GoN("reader", func() {
						vrt.Yield()
						c := w.c.Current()
						if c.GetRevision() == 0 && len(c.GetTarget()) > 0 {
							x.Fail("current", "Current returned %v", c)
						}
					})
					vrt.Quiesce()
					if b := vrt.Live(); b > 1 {
						x.Fail("stuck", "a load does not return: %v", vrt.Blocked())
					}
					if w.err != nil {
						x.Fail("wrong-call", "%v", w.err)
					}
					cur := w.c.Current()
					want := map[string]string{}
					for n, t := range cur.GetTarget() {
						want[n] = entry(t, cur.GetRequest()[t.GetRequest()])
					}
					if len(want) != len(w.set) {
						x.Fail("replay", "the handler calls give %q, the configuration has %q", keys(w.set), keys(want))
					}
					for n, v := range want {
						if w.set[n] != v {
							x.Fail("replay", "the handler calls give %q for %s, the configuration has %q", w.set[n], n, v)
						}
					}
					ok := 0
					for _, e := range errs {
						if e == nil {
							ok++
						}
					}
					if ok == 0 || ok > 2 || cur.GetRevision() != 2 {
						x.Fail("acceptance", "%d of three loads with two revisions were accepted, the current revision is %d", ok, cur.GetRevision())
					}
					x.Outcome("%v %v", w.calls, errs)
				}
				sc := vh.Scenario{Name: fmt.Sprintf("concurrent loads %d", i), Body: body, MaxBound: 6, Declared: 3, Race: true, RaceBound: 1}
				sc.Opt.Delay = true
				sc.Opt.MapDev = true
				out = append(out, sc)
			}
			return append(out, sizeScenarios(deep)...)
		},
	})
}

func nilless[V any](m map[string]V) map[string]V {
	if m == nil {
		return map[string]V{}
	}
	return m
}

func reused(a, b *conf) error {
	w := newWorld()
	m := proto.Clone(a.pb).(*tpb.Configuration)
	m.Revision = 3
	if err := w.c.Load(m); err != nil {
		return vh.Errf("acceptance", "Load of a valid configuration: %v", err)
	}
	w.cur, w.rev = a, 3
	// A clone of an empty map is nil.
	m.Target, m.Request = nilless(m.Target), nilless(m.Request)
	clear(m.Target)
	clear(m.Request)
	for k, v := range b.pb.Target {
		m.Target[k] = v
	}
	for k, v := range b.pb.Request {
		m.Request[k] = v
	}
	if err := w.current(); err != nil {
		return err
	}
	w.calls = nil
	if w.c.Load(m) == nil {
		return vh.Errf("acceptance", "a load with the current revision is accepted")
	}
	if len(w.calls) > 0 {
		return vh.Errf("rejected-calls", "a rejected load ran the handlers: %v", w.calls)
	}
	if err := w.current(); err != nil {
		return err
	}
	if w.c.Load(nil) == nil {
		return vh.Errf("acceptance", "a nil configuration is accepted")
	}
	w.calls = nil
	return w.load(b, 4)
}

func based(a, b *conf) error {
	w := newWorld()
	m := proto.Clone(a.pb).(*tpb.Configuration)
	m.Revision = 3
	c, err := target.NewConfigWithBase(w.handler(), m)
	if err != nil {
		return vh.Errf("acceptance", "a valid base is refused: %v", err)
	}
	w.c, w.cur, w.rev = c, a, 3
	for k, v := range a.set {
		w.set[k] = v
	}
	if !b.valid {
		if _, err := target.NewConfigWithBase(w.handler(), b.pb); err == nil {
			return vh.Errf("acceptance", "an invalid base is accepted")
		}
	}
	for _, r := range []int64{3, 4} {
		if err := w.load(b, r); err != nil {
			return err
		}
	}
	// No handlers.
	n := target.NewConfig(target.Handler{})
	for i, x := range []*conf{a, b} {
		p := proto.Clone(x.pb).(*tpb.Configuration)
		for k, t := range x.pb.Target {
			if t == nil {
				p.Target[k] = nil
			}
		}
		p.Revision = int64(i + 1)
		if err := n.Load(p); (err == nil) != x.valid {
			return vh.Errf("acceptance", "Load without handlers: %v", err)
		}
	}
	return nil
}
