//go:build go1.23

// Check C01: the collector relays each target's state to its subscribers.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/openconfig/gnmi/client"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vx"
)

// ---- notifications ----

func el(names ...string) []*pb.PathElem {
	var out []*pb.PathElem
	for _, n := range names {
		e := &pb.PathElem{}
		name, keys, ok := strings.Cut(n, "[")
		e.Name = name
		if ok {
			e.Key = map[string]string{}
			for _, kv := range strings.Split(strings.TrimSuffix(keys, "]"), "][") {
				k, v, _ := strings.Cut(kv, "=")
				e.Key[k] = v
			}
		}
		out = append(out, e)
	}
	return out
}

func path(names ...string) *pb.Path { return &pb.Path{Elem: el(names...)} }

// depr is the path in the deprecated encoding.
func depr(names ...string) *pb.Path { return &pb.Path{Element: names} }

// step is one notification of a target.
type step struct {
	name string
	n    func() *pb.Notification
}

func up(p *pb.Path, v val) *pb.Update { return v.update(p) }

func note(pre *pb.Path, us []*pb.Update, ds ...*pb.Path) func() *pb.Notification {
	return func() *pb.Notification { return &pb.Notification{Prefix: pre, Update: us, Delete: ds} }
}

func us(u ...*pb.Update) []*pb.Update { return u }

var steps = []step{
	{"a/b=-5", note(nil, us(up(path("a", "b"), vInt)))},
	{"a/b=str (prefix a)", note(&pb.Path{Target: "dev2", Elem: el("a")}, us(up(path("b"), vStr)))},
	{"a/c=7, l[k=1]/v=-5", note(&pb.Path{}, us(up(path("a", "c"), vInt2), up(path("l[k=1]", "v"), vInt)))},
	{"m[y=2][x=1/0]/v=7", note(nil, us(up(path("m[y=2][x=1/0]", "v"), vInt2)))},
	{"deprecated a/b=7", note(nil, us(up(depr("a", "b"), vInt2)))},
	{"deprecated prefix a, path c=str", note(depr("a"), us(up(depr("c"), vStr)))},
	{"other:a/b=str", note(&pb.Path{Origin: "other"}, us(up(path("a", "b"), vStr)))},
	{"openconfig:a/b=7", note(&pb.Path{Origin: "openconfig", Target: "dev1"}, us(up(path("a", "b"), vInt2)))},
	{"delete a/b", note(nil, nil, path("a", "b"))},
	{"delete a", note(nil, nil, path("a"))},
	{"deprecated delete a/c", note(depr("a"), nil, depr("c"))},
	{"delete l[k=1]", note(nil, nil, path("l[k=1]"))},
	{"delete other:/", note(&pb.Path{Origin: "other"}, nil, &pb.Path{})},
	{"delete a, a/b=-5", note(nil, us(up(path("a", "b"), vInt)), path("a"))},
	{"delete a/*", note(nil, nil, path("a", "*"))},
	{"atomic at{x,y}", func() *pb.Notification {
		return &pb.Notification{Atomic: true, Prefix: path("at"), Update: us(up(path("x"), vInt), up(path("y"), vStr))}
	}},
	{"delete at", note(nil, nil, path("at"))},
}

// fillers written before the histories.
var base = note(nil, us(up(path("a", "b"), vStr), up(path("a", "d"), vInt), up(path("l[k=1]", "v"), vInt2), up(path("l[k=2]", "v"), vInt2)))

// ---- the composition ----

type env struct {
	*vx.World
	x    *vh.X
	t    *vx.Target
	ts   int64
	want state
}

func subAll() *pb.SubscribeRequest {
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{Subscription: []*pb.Subscription{{Path: &pb.Path{}}}}}}
}

// one starts a collector with one target, dev1.
func one(x *vh.X) *env {
	e := &env{World: vx.New(x), x: x, want: state{}}
	e.t = e.Target("a:1")
	e.Collector(&tpb.Configuration{
		Request: map[string]*pb.SubscribeRequest{"r": subAll()},
		Target:  map[string]*tpb.Target{"dev1": {Addresses: []string{"a:1"}, Request: "r"}},
	})
	e.Settle()
	e.session(e.t, "dev1")
	return e
}

func (e *env) session(t *vx.Target, name string) {
	if t.Sessions(name) == 0 {
		e.x.Fail("no-session", "the collector did not subscribe to configured target %s at %s: %s; %v", name, t.Addr, e.CollErr, vrt.Blocked())
	}
}

// send sends a notification of target, at the next timestamp.
func (e *env) send(t *vx.Target, target string, f func() *pb.Notification) {
	n := f()
	e.ts += 10
	n.Timestamp = e.ts
	e.want.apply(target, n)
	t.Send(target, vx.Upd(n))
}

func (e *env) check(who string, want state, c *vx.Client) {
	if d := want.checkLeaves(c.Leaves()); d != "" {
		e.x.Fail("view", "%s: %s (subscribe error %v, collector %q)", who, d, c.Sub, e.CollErr)
	}
}

var (
	all  = []client.Path{{}}
	some = []client.Path{{"openconfig", "a"}, {"other", "*", "b"}}
)

// some is what some selects of the state of dev1.
func (e *env) some() state {
	return e.want.sub([]string{"dev1", "openconfig", "a"}, []string{"dev1", "other", "*", "b"})
}

func (e *env) stream(target string, qs ...client.Path) *vx.Client {
	return e.Client(client.Query{Target: target, Type: client.Stream, Queries: qs})
}

func (e *env) once(target string, qs ...client.Path) *vx.Client {
	c := e.Client(client.Query{Target: target, Type: client.Once, Queries: qs, Timeout: time.Minute})
	e.Settle()
	if !c.Done || c.Sub != nil {
		e.x.Fail("once", "a ONCE client ended with %v (ended: %v)", c.Sub, c.Done)
	}
	return c
}

// history runs a history with all kinds of library clients.
func history(h []step, burst, withBase bool) func(x *vh.X) {
	return func(x *vh.X) {
		e := one(x)
		early := e.stream("dev1", all...)
		sel := e.stream("dev1", some...)
		poll := e.Client(client.Query{Target: "dev1", Type: client.Poll, Queries: all})
		psel := e.Client(client.Query{Target: "dev1", Type: client.Poll, Queries: some})
		e.Settle()
		if withBase {
			e.send(e.t, "dev1", base)
		}
		e.t.Send("dev1", vx.Sync())
		e.Settle()
		doPoll := func() {
			if err := poll.Poll(); err != nil {
				x.Fail("poll", "Poll: %v", err)
			}
			e.check("a POLL client", e.want, poll)
			if err := psel.Poll(); err != nil {
				x.Fail("poll", "Poll with two queries: %v", err)
			}
			e.check("a POLL client of openconfig/a and other/*/b", e.some(), psel)
		}
		doPoll()
		var mids []*vx.Client
		for i, s := range h {
			if !burst || i == len(h)/2 {
				mids = append(mids, e.stream("dev1", all...))
			}
			e.send(e.t, "dev1", s.n)
			if !burst {
				e.Settle()
			}
		}
		e.Settle()
		e.check("a STREAM client from before the history", e.want, early)
		e.check("a STREAM client of openconfig/a and other/*/b", e.some(), sel)
		for i, m := range mids {
			e.check(fmt.Sprintf("a STREAM client from before step %d", i), e.want, m)
		}
		e.check("a ONCE client", e.want, e.once("dev1", all...))
		e.check("a ONCE client of openconfig/a and other/*/b", e.some(), e.once("dev1", some...))
		doPoll()
		doPoll()
		x.Outcome("%v", e.want.protoView())
	}
}

func name(h []step) string {
	var out []string
	for _, s := range h {
		out = append(out, s.name)
	}
	return strings.Join(out, "; ")
}

func words[T any](alpha []T, n int, f func(h []T) bool) bool {
	h := make([]T, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(h)
		}
		for _, s := range alpha {
			h[i] = s
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func histories(depth, shard, shards int, bases []bool) func(q *vh.Q) {
	return func(q *vh.Q) {
		k := 0
		words(steps, depth, func(h []step) bool {
			k++
			if k%shards != shard {
				return true
			}
			if q.Expired() {
				return false
			}
			for _, burst := range []bool{false, true} {
				for _, wb := range bases {
					if !q.Do(func() string { return fmt.Sprintf("%s; burst %v, base %v", name(h), burst, wb) }, func() error {
						return q.Exec(history(h, burst, wb))
					}) {
						return false
					}
				}
			}
			return true
		})
	}
}

// ---- values, paths and encodings ----

// placements are the ways to send a value for a leaf.
var placements = []struct {
	name string
	n    func(v val) func() *pb.Notification
}{
	{"elem", func(v val) func() *pb.Notification { return note(nil, us(up(path("a", "b"), v))) }},
	{"keyed", func(v val) func() *pb.Notification { return note(nil, us(up(path("l[k=1]", "m[y=2][x=1]", "v"), v))) }},
	{"prefix elem", func(v val) func() *pb.Notification {
		return note(&pb.Path{Target: "dev1", Elem: el("l[k=a b]")}, us(up(path("v"), v)))
	}},
	{"all in the prefix", func(v val) func() *pb.Notification {
		return note(&pb.Path{Elem: el("a", "b")}, us(up(&pb.Path{}, v)))
	}},
	{"deprecated", func(v val) func() *pb.Notification { return note(nil, us(up(depr("a", "b"), v))) }},
	{"deprecated prefix", func(v val) func() *pb.Notification { return note(depr("a"), us(up(path("b"), v))) }},
	{"origin in the prefix", func(v val) func() *pb.Notification {
		return note(&pb.Path{Origin: "other", Elem: el("a")}, us(up(path("b"), v)))
	}},
	{"origin in the path", func(v val) func() *pb.Notification {
		return note(nil, us(up(&pb.Path{Origin: "other", Elem: el("a", "b")}, v)))
	}},
	{"origins in the paths", func(v val) func() *pb.Notification {
		return note(&pb.Path{Target: "dev1"}, us(up(&pb.Path{Origin: "other", Elem: el("a", "b")}, v), up(path("a", "b"), v), up(&pb.Path{Origin: "third", Elem: el("a", "b")}, vInt)))
	}},
	{"atomic", func(v val) func() *pb.Notification {
		return func() *pb.Notification {
			return &pb.Notification{Atomic: true, Prefix: path("at"), Update: us(up(path("x"), v), up(path("y"), vInt))}
		}
	}},
}

// values sends every value at every placement, replacing a base value, and
// looks at it with library clients and the CLI.
func values(place, shard, shards int) func(q *vh.Q) {
	return func(q *vh.Q) {
		pl := placements[place]
		for i, v := range vals {
			if i%shards != shard {
				continue
			}
			for _, old := range []val{vInt, vStr} {
				if q.Expired() {
					return
				}
				if !q.Do(func() string { return fmt.Sprintf("%s replaced by %s, %s", old.name, v.name, pl.name) }, func() error {
					return q.Exec(func(x *vh.X) {
						e := one(x)
						early := e.stream("dev1", all...)
						e.send(e.t, "dev1", pl.n(old))
						e.t.Send("dev1", vx.Sync())
						e.Settle()
						for _, disp := range []string{"group", "single", "proto", "shortproto"} {
							e.cliOnce(e.want, cliRun{disp: disp, delim: "/"}, []string{"-q", "/", "-qt", "once", "-t", "dev1", "-dt", disp})
						}
						e.send(e.t, "dev1", pl.n(v))
						e.Settle()
						e.check("a STREAM client", e.want, early)
						e.check("a ONCE client", e.want, e.once("dev1", all...))
						for _, disp := range []string{"group", "single", "proto", "shortproto"} {
							e.cliOnce(e.want, cliRun{disp: disp, delim: "/"}, []string{"-q", "/", "-qt", "once", "-t", "dev1", "-dt", disp})
						}
					})
				}) {
					return
				}
			}
		}
	}
}

// sameStamp replaces values at every placement by notifications that all carry
// the same timestamp: the last one is the target's state.
func sameStamp(q *vh.Q) {
	some := []val{vInt, vStr, vInt2}
	for _, pl := range placements {
		for _, burst := range []bool{false, true} {
			words(some, 3, func(h []val) bool {
				return !q.Expired() && q.Do(func() string {
					return fmt.Sprintf("%s, %s and %s at the same timestamp, %s; burst %v", h[0].name, h[1].name, h[2].name, pl.name, burst)
				}, func() error {
					return q.Exec(func(x *vh.X) {
						e := one(x)
						early := e.stream("dev1", all...)
						poll := e.Client(client.Query{Target: "dev1", Type: client.Poll, Queries: all})
						e.t.Send("dev1", vx.Sync())
						e.Settle()
						for i, v := range h {
							if i > 0 {
								e.ts -= 10
							}
							e.send(e.t, "dev1", pl.n(v))
							if !burst {
								e.Settle()
							}
						}
						e.Settle()
						e.check("a STREAM client", e.want, early)
						e.check("a ONCE client", e.want, e.once("dev1", all...))
						if err := poll.Poll(); err != nil {
							x.Fail("poll", "Poll: %v", err)
						}
						e.check("a POLL client", e.want, poll)
					})
				})
			})
		}
	}
}

// ---- the CLI ----

type cliRun struct {
	disp, delim string
	ts          bool // -timestamp raw
	short       bool
	prefix      string // -display_prefix
	size        bool   // -display_size
}

// undecorated takes the decorations out of an output.
func (r cliRun) undecorated(out string) (string, string) {
	if r.prefix == "" && !r.size {
		return out, ""
	}
	var ls []string
	sizes := 0
	for _, l := range strings.Split(out, "\n") {
		if l == "" {
			ls = append(ls, l)
			continue
		}
		if r.size && strings.HasPrefix(l, "// total response size: ") {
			sizes++
			continue
		}
		t, ok := strings.CutPrefix(l, r.prefix)
		if !ok {
			return out, fmt.Sprintf("line %q without the prefix", l)
		}
		ls = append(ls, t)
	}
	return strings.Join(ls, "\n"), ""
}

func (e *env) output(want state, r cliRun, how, out string, merged bool) {
	out, d := r.undecorated(out)
	if d != "" {
		e.x.Fail("cli", "%s: %s\noutput %q", how, d, out)
	}
	switch r.disp {
	case "group":
		trees, err := parseGroup(out, r.ts)
		switch {
		case err != nil:
			d = err.Error()
		case len(trees) == 0:
			d = "no output"
		case merged:
			d = want.groupView(r.ts).diff(mergeGroup(trees, r.ts))
		default:
			for _, t := range trees {
				if d = want.groupView(r.ts).diff(t); d != "" {
					break
				}
			}
		}
	case "single":
		d = want.singleView(r.delim).diff(mergeSingle(out, r.delim, r.ts))
	default:
		rs, err := parseProtos(out, r.disp == "shortproto")
		if err != nil {
			d = err.Error()
			break
		}
		d = want.protoView().diff(protoView(rs))
	}
	if d != "" {
		e.x.Fail("cli", "%s: %s\noutput %q", how, d, out)
	}
}

// cliOnce runs the CLI to its end.
func (e *env) cliOnce(want state, r cliRun, args []string) {
	c := e.CLI(append([]string{"-a", vx.Addr}, args...)...)
	e.Settle()
	if !c.Done {
		vrt.Sleep(int64(10 * time.Second))
		vrt.Quiesce()
	}
	how := fmt.Sprintf("gnmi_cli %q", args)
	if !c.Done || c.Exit != "" {
		e.x.Fail("cli-exit", "%s: ended %v, %q: %q", how, c.Done, c.Exit, c.Out())
	}
	e.output(want, r, how, c.Out(), false)
}

var realHistories = [][]step{
	{steps[1], steps[3], steps[8], steps[15]},
	{steps[6], steps[13], steps[10], steps[5], steps[11]},
}

func main() {
	vh.Main(vh.Check{
		Property: "C01",
		QuickSec: 45, ThoroughSec: 800,
		Assumptions: []string{
			"the transport delivers messages in order until it breaks (the in-process composition replaces gRPC, TLS and grpctunnel by an in-memory transport that marshals every message; the real programs are run over loopback on two of the histories)",
			"a target stamps strictly increasing timestamps within a session, and an atomic notification for one prefix always has the same paths",
			"values are those the client library decodes (scalars, leaf lists, JSON, bytes and the deprecated encodings); target credentials are not configured",
			"the timestamp a client holds may be that of the last change of the value (unchanged values are suppressed by the cache)",
		},
		Rule: "at quiescence the leaves (paths and values, without the target's meta subtree) of every caching client, and of every output of gnmi_cli, equal a reference tree of what the target last streamed; every request reaches its target as configured",
		Scenarios: func(tier string) []vh.Scenario {
			var sc []vh.Scenario
			maxDepth := 3
			if tier == "thorough" {
				maxDepth = 4
			}
			for d := 1; d <= maxDepth; d++ {
				bases := []bool{false, true}
				if d == 3 && tier == "quick" {
					bases = bases[1:]
				}
				for i := range 8 {
					sc = append(sc, vh.Scenario{Name: fmt.Sprintf("history%d.%d", d, i), Seq: histories(d, i, 8, bases)})
				}
			}
			for i, p := range placements {
				sc = append(sc, vh.Scenario{Name: "values " + p.name, Seq: values(i, 0, 1)})
			}
			sc = append(sc, vh.Scenario{Name: "values at the same timestamp", Seq: sameStamp})
			for i := range realHistories {
				sc = append(sc, vh.Scenario{Name: fmt.Sprintf("programs %d", i), Seq: real(realHistories[i]), First: true})
			}
			for i, qu := range queries {
				sc = append(sc, vh.Scenario{Name: "cli " + qu.name, Seq: invocations(i)})
			}
			sc = append(sc, vh.Scenario{Name: "cli options", Seq: decorated})
			for i := range disps {
				sc = append(sc, vh.Scenario{Name: "cli stream " + disps[i][0], Seq: cliStreams(2, i, 0, 1)})
			}
			for i := range 4 {
				sc = append(sc, vh.Scenario{Name: fmt.Sprintf("cli poll.%d", i), Seq: cliPolls(2, i, 4)})
			}
			for n := 1; n <= 3; n++ {
				k := 1
				if n == 3 {
					k = 8
				}
				for i := range k {
					sc = append(sc, vh.Scenario{Name: fmt.Sprintf("config %d.%d", n, i), Seq: configs(n, i, k)})
				}
			}
			sc = append(sc, vh.Scenario{Name: "reconnect", Seq: reconnects}, vh.Scenario{Name: "restart", Seq: restarts})
			for i, h := range [][]int{{0, 8}, {2, 9}, {0, 13}} {
				sc = append(sc, vh.Scenario{Name: fmt.Sprintf("schedules %d", i), Body: scheduled(h...), Opt: vrt.Options{Delay: true}, MaxBound: 2, Declared: 1})
			}
			return append(sizeScenarios(tier), sc...)
		},
	})
}
