//go:build go1.23

package main

import (
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/openconfig/gnmi/client"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vx"
)

// Sizes drive one quantity at a time far beyond the exhaustive bounds: leaves,
// changes, notifications, depths, keys, lengths, queries, clients, polls,
// sessions, targets.

// views checks the state with every kind of client.
func (e *env) views(what string, clients ...*vx.Client) {
	e.Settle()
	for _, c := range clients {
		e.check("a client from before "+what, e.want, c)
	}
	e.check("a ONCE client after "+what, e.want, e.once("dev1", all...))
	for _, disp := range []string{"group", "single", "proto"} {
		e.cliOnce(e.want, cliRun{disp: disp, delim: "/"}, []string{"-q", "/", "-qt", "once", "-t", "dev1", "-dt", disp})
	}
}

func strVal(s string) val {
	return addVal(val{"string", &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: s}}, nil, s, s, fmt.Sprintf("%q", s)})
}

func intVal(i int) val {
	if v, ok := ints[i]; ok {
		return v
	}
	ints[i] = addVal(tv("int", &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: int64(i)}}, int64(i), fmt.Sprint(i)))
	return ints[i]
}

var ints = map[int]val{}

func sizeScenarios(tier string) []vh.Scenario {
	var out []vh.Scenario
	max := 260
	if tier == "thorough" {
		max = 2050
	}
	add := func(name string, max int, body func(x *vh.X, n int)) {
		out = append(out, vh.Scenario{Name: "sizes: " + name, Seq: func(q *vh.Q) {
			q.ForSizes(max, name, func(n int) error { return q.ExecN(40_000_000, func(x *vh.X) { body(x, n) }) })
		}})
	}
	// hist is a run of one target with clients of all kinds around a history.
	hist := func(name string, max int, h func(e *env, n int)) {
		add(name, max, func(x *vh.X, n int) {
			e := one(x)
			early := e.stream("dev1", all...)
			poll := e.Client(client.Query{Target: "dev1", Type: client.Poll, Queries: all})
			e.Settle()
			e.send(e.t, "dev1", base)
			e.t.Send("dev1", vx.Sync())
			h(e, n)
			mid := e.stream("dev1", all...)
			e.Settle()
			if err := poll.Poll(); err != nil {
				x.Fail("poll", "Poll: %v", err)
			}
			e.views("the history", early, mid, poll)
			for i := 0; i < 3; i++ {
				e.send(e.t, "dev1", steps[i*4].n)
			}
			e.views("later changes", early, mid)
		})
	}
	lf := func(i int) *pb.Path { return path("s", fmt.Sprintf("i[k=%d]", i), "v") }
	hist("leaves of a notification", max, func(e *env, n int) {
		for r := 0; r < 2; r++ {
			var u []*pb.Update
			for i := 0; i < n; i++ {
				u = append(u, up(lf(i), intVal(i+r*i%2)))
			}
			e.send(e.t, "dev1", note(nil, u))
		}
	})
	hist("notifications", max, func(e *env, n int) {
		for r := 0; r < 2; r++ {
			for i := 0; i < n; i++ {
				e.send(e.t, "dev1", note(&pb.Path{Elem: el("s")}, us(up(path(fmt.Sprintf("i[k=%d]", i), "v"), intVal(i+r)))))
			}
		}
	})
	hist("changes of a leaf", max, func(e *env, n int) {
		for i := 0; i < n; i++ {
			e.send(e.t, "dev1", note(nil, us(up(path("a", "b"), intVal(i*i%7)))))
		}
	})
	hist("leaves deleted", max, func(e *env, n int) {
		var u []*pb.Update
		for i := 0; i < n; i++ {
			u = append(u, up(lf(i), intVal(i)))
		}
		e.send(e.t, "dev1", note(nil, u))
		e.Settle()
		switch n % 3 {
		case 0:
			e.send(e.t, "dev1", note(nil, us(up(path("s", "z"), vStr)), path("s")))
		case 1:
			e.send(e.t, "dev1", note(nil, nil, path("s", "i[k=*]", "v")))
		default:
			var d []*pb.Path
			for i := 0; i < n; i += 2 {
				d = append(d, lf(i))
			}
			e.send(e.t, "dev1", note(nil, nil, d...))
		}
	})
	hist("leaves of an atomic", max, func(e *env, n int) {
		for r := 0; r < 2; r++ {
			var u []*pb.Update
			for i := 0; i < n; i++ {
				u = append(u, up(path(fmt.Sprint("x", i)), intVal(i*(r+1))))
			}
			e.send(e.t, "dev1", func() *pb.Notification {
				return &pb.Notification{Atomic: true, Prefix: path("at"), Update: u}
			})
		}
	})
	hist("origins", max, func(e *env, n int) {
		for i := 0; i < n; i++ {
			e.send(e.t, "dev1", note(&pb.Path{Origin: fmt.Sprint("o", i)}, us(up(path("a", "b"), intVal(i)))))
			if i%5 == 4 {
				e.send(e.t, "dev1", note(&pb.Path{Origin: fmt.Sprint("o", i-2)}, nil, path("a")))
			}
		}
	})
	hist("updates and deletes of origins in paths", max, func(e *env, n int) {
		at := func(o string, i int) *pb.Path {
			p := lf(i)
			p.Origin = o
			return p
		}
		os := []string{"", "o1", "other", "openconfig"}
		for r := 0; r < 3; r++ {
			var u []*pb.Update
			var d []*pb.Path
			for i := 0; i < n; i++ {
				u = append(u, up(at(os[i*i%len(os)], i+r*(n/2)), intVal(i+r)))
				if r > 0 && i%3 == 0 {
					d = append(d, at(os[(i+1)*(i+1)%len(os)], i+1+(r-1)*(n/2)))
				}
			}
			e.send(e.t, "dev1", note(nil, u, d...))
		}
	})
	hist("depth", max, func(e *env, n int) {
		p := el("s")
		for i := 0; i < n; i++ {
			p = append(p, el(fmt.Sprintf("l[k=%d]", i%3))...)
		}
		e.send(e.t, "dev1", note(&pb.Path{Elem: p[:n/2+1]}, us(up(&pb.Path{Elem: append(append([]*pb.PathElem(nil), p[n/2+1:]...), el("v")...)}, vInt))))
		e.send(e.t, "dev1", note(nil, us(up(&pb.Path{Elem: append(append([]*pb.PathElem(nil), p...), el("w")...)}, vStr))))
		if n%2 == 1 {
			e.send(e.t, "dev1", note(nil, nil, &pb.Path{Elem: append(append([]*pb.PathElem(nil), p...), el("v")...)}))
		}
	})
	hist("keys", max, func(e *env, n int) {
		p := el("s", "l")
		p[1].Key = map[string]string{}
		for i := 0; i < n; i++ {
			p[1].Key[fmt.Sprint("k", i)] = fmt.Sprint(n - i)
		}
		e.send(e.t, "dev1", note(nil, us(up(&pb.Path{Elem: append(p[:2:2], el("v")...)}, vInt), up(&pb.Path{Elem: append(p[:2:2], el("w")...)}, vInt))))
		e.send(e.t, "dev1", note(nil, us(up(&pb.Path{Elem: append(p[:2:2], el("v")...)}, vStr)), &pb.Path{Elem: append(p[:2:2], el("w")...)}))
	})
	hist("lengths", max*8, func(e *env, n int) {
		s := strings.Repeat("xyé", n/3) + strings.Repeat("x", n%3)
		e.send(e.t, "dev1", note(nil, us(up(path("a", "b"), strVal(s)), up(path("s", "n"+s), vInt), up(path("s", "l[k="+s+"]", "v"), vInt2))))
	})
	hist("leaf list", max, func(e *env, n int) {
		a := &pb.ScalarArray{}
		w := []any{}
		for i := 0; i < n; i++ {
			a.Element = append(a.Element, intVal(i*i).tv)
			w = append(w, int64(i*i))
		}
		g := strings.ReplaceAll(fmt.Sprint(w), " ", ", ")
		e.send(e.t, "dev1", note(nil, us(up(path("a", "b"), addVal(val{"list", &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: a}}, nil, w, fmt.Sprint(w), g})))))
	})
	hist("steps", max, func(e *env, n int) {
		k := 1
		for i := 0; i < n; i++ {
			k = (k*7 + i) % len(steps)
			e.send(e.t, "dev1", steps[k].n)
			if i%4 == 3 {
				e.Settle()
			}
		}
	})
	add("queries", max, func(x *vh.X, n int) {
		e := one(x)
		var u []*pb.Update
		var qs []client.Path
		var subs [][]string
		for i := 0; i < 2*n; i++ {
			u = append(u, up(path("s", fmt.Sprintf("i[k=%d]", i), "v"), intVal(i)))
			if i%2 == 0 {
				q := []string{"openconfig", "s", "i", fmt.Sprint(i)}
				qs = append(qs, q)
				subs = append(subs, append([]string{"dev1"}, q...))
			}
		}
		e.send(e.t, "dev1", note(nil, u))
		c := e.stream("dev1", qs...)
		e.t.Send("dev1", vx.Sync())
		e.Settle()
		e.check("a STREAM client with many queries", e.want.sub(subs...), c)
		e.check("a ONCE client with many queries", e.want.sub(subs...), e.once("dev1", qs...))
		e.send(e.t, "dev1", note(nil, us(up(path("s", "i[k=0]", "v"), vStr), up(path("s", "i[k=1]", "v"), vStr)), path("s", fmt.Sprintf("i[k=%d]", 2*n-2))))
		e.Settle()
		e.check("a STREAM client with many queries", e.want.sub(subs...), c)
	})
	add("clients", max/2, func(x *vh.X, n int) {
		e := one(x)
		var cs []*vx.Client
		for i := 0; i < n; i++ {
			cs = append(cs, e.stream("dev1", all...))
		}
		e.send(e.t, "dev1", base)
		e.t.Send("dev1", vx.Sync())
		e.Settle()
		for i := 0; i < n; i += 3 {
			cs[i].Close()
		}
		e.Settle()
		for _, s := range []int{0, 2, 9, 15} {
			e.send(e.t, "dev1", steps[s].n)
		}
		e.Settle()
		for i, c := range cs {
			if i%3 != 0 {
				e.check(fmt.Sprintf("STREAM client %d of %d", i, n), e.want, c)
			}
		}
		e.views("many clients")
	})
	add("polls", max, func(x *vh.X, n int) {
		e := one(x)
		poll := e.Client(client.Query{Target: "dev1", Type: client.Poll, Queries: all})
		e.send(e.t, "dev1", base)
		e.t.Send("dev1", vx.Sync())
		e.Settle()
		for i := 0; i < n; i++ {
			e.send(e.t, "dev1", steps[(i*5)%len(steps)].n)
			e.Settle()
			if err := poll.Poll(); err != nil {
				x.Fail("poll", "Poll %d: %v", i, err)
			}
			e.check(fmt.Sprintf("a POLL client after poll %d", i), e.want, poll)
		}
	})
	add("sessions", max/2, func(x *vh.X, n int) {
		e := one(x)
		early := e.stream("dev1", all...)
		for i := 0; i < n; i++ {
			e.want = state{}
			e.send(e.t, "dev1", steps[i%8].n)
			e.send(e.t, "dev1", steps[(i*3)%8].n)
			e.t.Send("dev1", vx.Sync())
			e.Settle()
			e.check(fmt.Sprintf("a STREAM client in session %d", i), e.want, early)
			e.t.End("dev1", []error{io.EOF, nil}[i%2])
			e.Settle()
			for k := 0; e.t.Sessions("dev1") < i+2; k++ {
				if k == 200 {
					x.Fail("no-session", "the collector does not reconnect after session %d: %v", i, vrt.Blocked())
				}
				vrt.Sleep(int64(time.Second))
				vrt.Quiesce()
			}
		}
		e.want = state{}
		e.send(e.t, "dev1", base)
		e.t.Send("dev1", vx.Sync())
		e.views("many sessions", early)
	})
	add("targets", max/4, func(x *vh.X, n int) {
		kinds := []string{"own", "shared", "tunnel", "chain"}
		var cs []tconf
		for i := 0; i < n; i++ {
			cs = append(cs, tconf{kinds[i%len(kinds)], reqNames[i%2]})
		}
		configured(cs)(x)
	})
	return out
}
