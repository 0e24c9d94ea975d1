package vc

import (
	"fmt"

	"google.golang.org/protobuf/proto"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vh"
)

// Sizes runs histories of many sizes, each step judged as always.
func Sizes(cfg Cfg, max int) []vh.Scenario {
	var names []string
	name := func(i int) string { return fmt.Sprintf("l%d", i) }
	many := func(n int, ts func(i int) int64, v int64) []*pb.Notification {
		var out []*pb.Notification
		for i := 0; i < n; i++ {
			out = append(out, Note(ts(i), Prefix("t", "", nil), []*pb.Update{U(P("a", name(i)), I(v+int64(i)))}, nil))
		}
		return out
	}
	multi := func(n int, ts, v int64, step int) *pb.Notification {
		var us []*pb.Update
		for i := 0; i < n; i += step {
			us = append(us, U(P(name(i)), I(v+int64(i))))
		}
		return Note(ts, Prefix("t", "", P("a")), us, nil)
	}
	dels := func(n int, ts int64, step int) *pb.Notification {
		var ds []*pb.Path
		for i := 0; i < n; i += step {
			ds = append(ds, P("a", name(i)))
		}
		return Note(ts, Prefix("t", "", nil), nil, ds)
	}
	at := func(ts int64) func(int) int64 { return func(int) int64 { return ts } }
	type step func(w *World) error
	apply := func(ns ...*pb.Notification) []step {
		var out []step
		for _, n := range ns {
			out = append(out, func(w *World) error { return w.Apply(proto.Clone(n).(*pb.Notification)) })
		}
		return out
	}
	life := func(evs ...string) []step {
		var out []step
		for _, e := range evs {
			out = append(out, func(w *World) error {
				if e == "reset" {
					return w.Reset("t")
				}
				return w.Life("t", e)
			})
		}
		return out
	}
	cat := func(ss ...[]step) []step {
		var out []step
		for _, s := range ss {
			out = append(out, s...)
		}
		return out
	}
	const b = Base
	run := func(what string, max int, targets func(n int) []string, f func(n int) []step) func(q *vh.Q) {
		names = append(names, what)
		return func(q *vh.Q) {
			q.ForSizes(max, what, func(n int) error {
				c := cfg
				c.Targets = []string{"t", "u"}
				if targets != nil {
					c.Targets = targets(n)
				}
				for _, c.NoEvent = range []bool{false, true} {
					w := New(c)
					steps := f(n)
					for i, s := range steps {
						w.Lazy = i > 6 && i < len(steps)-6 && i%(len(steps)/16+1) > 0
						if err := s(w); err != nil {
							if e, ok := err.(*vh.Err); ok && len(e.Msg) > 3000 {
								e.Msg = e.Msg[:3000]
							}
							return vh.Errf("size", "step %d: %v", i, err)
						}
					}
				}
				return nil
			})
		}
	}
	tn := func(i int) string { return fmt.Sprintf("t%d", i) }
	parts := []func(q *vh.Q){
		run("updates and deletes in a notification", max/4, nil, func(n int) []step {
			mixed := multi(n, b+25, 500, 1)
			for i := 0; i < n; i += 3 {
				mixed.Delete = append(mixed.Delete, P(name(i)))
			}
			mixed.Timestamp = b + 30
			return cat(apply(multi(n, b+10, 1, 1), multi(n, b+5, 100, 1), multi(n, b+20, 200, 2), multi(n, b+21, 200, 2),
				Note(b+15, Prefix("t", "", nil), nil, []*pb.Path{P("a")}), multi(n, b+22, 300, 1), mixed, dels(n, b+31, 2)), life("refresh", "size"),
				apply(Note(b+40, Prefix("t", "", nil), nil, []*pb.Path{P("*")}), multi(n, b+41, 1, 1)), life("reset", "refresh"))
		}),
		run("updates in a notification", max/2+1, nil, func(n int) []step {
			return cat(apply(multi(n, b+10, 1, 1), multi(n, b+20, 200, 2), Note(b+15, Prefix("t", "", nil), nil, []*pb.Path{P("a")})), life("reset"))
		}),
		run("updates one by one", max/8+1, nil, func(n int) []step {
			return cat(apply(many(n, func(i int) int64 { return b + int64(i) }, 1)...), apply(Note(b+int64(n)/2, Prefix("t", "", nil), nil, []*pb.Path{P("a", "*")})),
				apply(many(n, at(b+int64(n)/2), 1000)...), life("refresh", "reset"), apply(many(n, at(b+1), 1)...), life("size"))
		}),
		run("updates of one leaf", max/2, nil, func(n int) []step {
			var ns []*pb.Notification
			one := func(ts, v int64) {
				ns = append(ns, Note(ts, Prefix("t", "", nil), []*pb.Update{U(P("a"), I(v))}, nil))
			}
			for i := 0; i < n; i++ {
				one(b+int64(i), int64(i/2))
			}
			for i := n - 1; i >= 0; i-- {
				one(b+int64(i), int64(i/2))
			}
			for i := 0; i < n; i++ {
				one(b+int64(n), int64(1000+i))
			}
			return cat(apply(ns...), life("refresh"), apply(Note(b+int64(n)+1, Prefix("t", "", nil), nil, []*pb.Path{P("a")})), life("refresh"))
		}),
		run("updates and deletes of one leaf", max/4, nil, func(n int) []step {
			var ns []*pb.Notification
			for i := 0; i < n; i++ {
				ns = append(ns, Note(b+int64(2*i), Prefix("t", "", nil), []*pb.Update{U(P("a", "b"), I(1))}, nil),
					Note(b+int64(2*i+1), Prefix("t", "", nil), nil, []*pb.Path{P("a")}))
			}
			return cat(apply(ns...), life("refresh"))
		}),
		run("updates in an atomic notification", max, nil, func(n int) []step {
			atomic := func(n int, ts, v int64) *pb.Notification {
				m := multi(n, ts, v, 1)
				m.Atomic = true
				return m
			}
			return cat(apply(atomic(n, b+1, 1), atomic(n+1, b+2, 1), atomic(n, b+2, 5), atomic(n, b+1, 9), atomic(n, b+3, 5)), life("refresh"), apply(dels(1, b+4, 1),
				Note(b+5, Prefix("t", "", nil), nil, []*pb.Path{P("a")}), atomic(n, b+3, 7)), life("reset"))
		}),
		run("origins", max/8, nil, func(n int) []step {
			var ns, ds []*pb.Notification
			for i := 0; i < n; i++ {
				ns = append(ns, Note(b+1, Prefix("t", fmt.Sprint("o", i), nil), []*pb.Update{U(P("a", "b"), I(1))}, nil))
				ds = append(ds, Note(b+2, Prefix("t", fmt.Sprint("o", i), nil), nil, []*pb.Path{P("a")}))
			}
			return cat(apply(ns...), life("refresh"), apply(ds[:n/2]...), life("reset"), apply(ns...), apply(ds...))
		}),
		run("elements of a path", max/4, nil, func(n int) []step {
			var p []string
			for i := 0; i < n; i++ {
				p = append(p, name(i))
			}
			return cat(apply(Note(b+1, Prefix("t", "", nil), []*pb.Update{U(P(p...), I(1))}, nil), Note(b+2, Prefix("t", "", P(p[:n/2]...)), []*pb.Update{U(P(append(append([]string(nil), p[n/2:n-1]...), "z")...), I(1))}, nil),
				Note(b+3, Prefix("t", "", P(p[:n/2]...)), nil, []*pb.Path{P(p[n/2:]...)}), Note(b+4, Prefix("t", "", nil), nil, []*pb.Path{P(p[:1]...)})), life("refresh"))
		}),
		run("resets", max/4, nil, func(n int) []step {
			var out []step
			for i := 0; i < n; i++ {
				out = cat(out, apply(Note(b+int64(n-i), Prefix("t", "", nil), []*pb.Update{U(P("a", "b"), I(1))}, nil)), life("connect", "sync", "refresh", "reset"))
			}
			return out
		}),
		run("targets", max/8, func(n int) []string {
			var ts []string
			for i := 0; i < n; i++ {
				ts = append(ts, tn(i))
			}
			return ts
		}, func(n int) []step {
			var out []step
			for i := 0; i < n; i++ {
				t := tn(i)
				out = cat(out, apply(Note(b+1, Prefix(t, "", nil), []*pb.Update{U(P("a", "b"), I(int64(i)))}, nil)), []step{func(w *World) error { return w.Life(t, "sync") }})
			}
			for i := 0; i < n; i += 2 {
				t := tn(i)
				f := []step{func(w *World) error { return w.Reset(t) }}
				if i%4 == 0 {
					f = []step{func(w *World) error { return w.Remove(t) }, func(w *World) error { return w.Add(t) }}
				}
				out = cat(out, f, apply(Note(b, Prefix(t, "", nil), []*pb.Update{U(P("a", "b"), I(7))}, nil)))
			}
			return cat(out, []step{func(w *World) error { return w.Life(tn(n-1), "refresh") }})
		}),
	}
	var out []vh.Scenario
	for i, p := range parts {
		out = append(out, vh.Scenario{Name: "size: " + names[i], Seq: p, First: true})
	}
	return out
}
