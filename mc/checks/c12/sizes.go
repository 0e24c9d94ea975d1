//go:build go1.23

package main

import (
	"fmt"
	"io"
	"strings"

	"google.golang.org/protobuf/proto"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vx"
)

// Sizes: one quantity of a message at a time, far beyond the grammar.

func deep(n int, last ...string) *pb.Path {
	p := &pb.Path{}
	for i := 0; i < n; i++ {
		p.Elem = append(p.Elem, &pb.PathElem{Name: "a"})
	}
	for _, l := range last {
		p.Elem = append(p.Elem, &pb.PathElem{Name: l})
	}
	return p
}

func deepDepr(n int) *pb.Path { return &pb.Path{Element: strings.Split(strings.Repeat("a/", n)+"e", "/")} }

func keyed(n int) *pb.Path {
	m := map[string]string{}
	for i := 0; i < n; i++ {
		m[fmt.Sprintf("k%d", i)] = fmt.Sprint("v", i)
	}
	return &pb.Path{Elem: []*pb.PathElem{{Name: "l", Key: m}, {Name: "x"}}}
}

func long(n int) string { return strings.Repeat("é", n) }

func nested(n int, v *pb.TypedValue) *pb.TypedValue {
	for i := 0; i < n; i++ {
		v = leaflist(v)
	}
	return v
}

func many[T any](n int, f func(i int) T) []T {
	out := make([]T, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return out
}

// sizedPaths and sizedVals are the quantities of paths and values.
var sizedPaths = []struct {
	name string
	f    func(n int) *pb.Path
}{
	{"elements", func(n int) *pb.Path { return deep(n, "e") }},
	{"deprecated elements", deepDepr},
	{"wildcard elements", func(n int) *pb.Path {
		p := deep(n, "e")
		for i := range p.Elem {
			p.Elem[i].Name = "*"
		}
		return p
	}},
	{"empty elements", func(n int) *pb.Path { return &pb.Path{Elem: many(n, func(int) *pb.PathElem { return &pb.PathElem{} })} }},
	{"keys", keyed},
	{"name length", func(n int) *pb.Path { return elems("a", long(n)) }},
	{"key length", func(n int) *pb.Path {
		return &pb.Path{Elem: []*pb.PathElem{{Name: "l", Key: map[string]string{long(n): long(n)}}}}
	}},
	{"origin length", func(n int) *pb.Path { return &pb.Path{Origin: long(n), Elem: elems("a").Elem} }},
	{"path target length", func(n int) *pb.Path { return &pb.Path{Target: long(n), Elem: elems("a").Elem} }},
	{"metadata elements", func(n int) *pb.Path {
		return &pb.Path{Elem: append(elems("meta").Elem, deep(n).Elem...)}
	}},
}

var sizedVals = []struct {
	name string
	f    func(n int) val
}{
	{"string length", func(n int) val { return val{v: vc.S(long(n))} }},
	{"bytes", func(n int) val {
		return val{v: &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: make([]byte, n)}}}
	}},
	{"list elements", func(n int) val { return val{v: leaflist(many(n, func(i int) *pb.TypedValue { return vc.I(int64(i)) })...)} }},
	{"list of many kinds", func(n int) val {
		return val{v: leaflist(many(n, func(i int) *pb.TypedValue {
			if v := values[i%len(values)].v; v != nil {
				return v
			}
			return &pb.TypedValue{}
		})...)}
	}},
	{"list depth", func(n int) val { return val{v: nested(n, vc.I(1))} }},
	{"list depth, empty", func(n int) val { return val{v: nested(n, leaflist())} }},
	{"JSON depth", func(n int) val { return val{v: vc.J(strings.Repeat("[", n) + strings.Repeat("]", n))} }},
	{"JSON object depth", func(n int) val { return val{v: vc.J(strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n))} }},
	{"JSON depth, open", func(n int) val { return val{v: vc.J(strings.Repeat("[", n))} }},
	{"JSON digits", func(n int) val { return val{v: vc.J(strings.Repeat("9", n+1))} }},
	{"JSON members", func(n int) val {
		return val{v: vc.J("{" + strings.Join(many(n, func(i int) string { return fmt.Sprintf(`"k%d":%d`, i, i) }), ",") + "}")}
	}},
	{"deprecated JSON depth", func(n int) val {
		return val{d: &pb.Value{Type: pb.Encoding_JSON, Value: []byte(strings.Repeat("[", n) + strings.Repeat("]", n))}}
	}},
	{"decimal precision", func(n int) val {
		return val{v: &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: 1234567, Precision: uint32(n)}}}}
	}},
	{"decimal digits", func(n int) val {
		d := int64(1)
		for i := 0; i < n%64; i++ {
			d = d*2 + 1
		}
		return val{v: &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: d, Precision: uint32(n)}}}}
	}},
}

// sizedNotes are the notifications of size n.
type sized struct {
	name string
	f    func(n int) []*pb.Notification
}

func sizedNotes() []sized {
	var out []sized
	add := func(name string, f func(n int) []*pb.Notification) { out = append(out, sized{name, f}) }
	pt := &pb.Path{Target: "t"}
	for _, p := range sizedPaths {
		p := p
		add("path "+p.name, func(n int) []*pb.Notification {
			q := p.f(n)
			return []*pb.Notification{
				vc.Note(6, pt, []*pb.Update{vc.U(q, vc.I(1))}, nil),
				vc.Note(7, pt, []*pb.Update{vc.U(q, vc.I(2)), vc.U(elems("z"), vc.I(2))}, []*pb.Path{elems("c")}),
				vc.Note(8, pt, nil, []*pb.Path{q}),
			}
		})
		add("prefix "+p.name, func(n int) []*pb.Notification {
			q := proto.Clone(p.f(n)).(*pb.Path)
			q.Target = "t"
			at := vc.Note(7, q, []*pb.Update{vc.U(elems("x"), vc.I(2)), vc.U(elems("y"), vc.I(3))}, nil)
			at.Atomic = true
			return []*pb.Notification{
				vc.Note(6, q, []*pb.Update{vc.U(elems("x"), vc.I(1))}, nil), at,
				vc.Note(8, q, nil, []*pb.Path{elems("x"), elems("*"), {}}),
			}
		})
	}
	add("target length", func(n int) []*pb.Notification {
		return []*pb.Notification{vc.Note(6, &pb.Path{Target: long(n)}, []*pb.Update{vc.U(elems("x"), vc.I(1))}, []*pb.Path{{}})}
	})
	for _, v := range sizedVals {
		v := v
		add("value "+v.name, func(n int) []*pb.Notification {
			a := v.f(n)
			at := vc.Note(8, &pb.Path{Target: "t", Origin: "o"}, []*pb.Update{a.up(elems("x")), a.up(elems("y"))}, nil)
			at.Atomic = true
			return []*pb.Notification{
				vc.Note(6, pt, []*pb.Update{a.up(elems("a", "b"))}, nil), vc.Note(6, pt, []*pb.Update{a.up(elems("a", "b"))}, nil),
				vc.Note(7, pt, []*pb.Update{a.up(elems("a", "b"))}, nil), at, vc.Note(9, pt, []*pb.Update{a.up(elems("meta", "sync"))}, nil),
			}
		})
	}
	add("updates", func(n int) []*pb.Notification {
		us := many(n, func(i int) *pb.Update { return vc.U(elems("m", fmt.Sprint(i)), values[i%len(values)].v) })
		at := vc.Note(8, &pb.Path{Target: "t", Origin: "o"}, us, nil)
		at.Atomic = true
		return []*pb.Notification{vc.Note(6, pt, us, nil), vc.Note(7, pt, us, nil), at, vc.Note(9, pt, nil, []*pb.Path{elems("m"), {Origin: "o"}})}
	})
	add("equal updates", func(n int) []*pb.Notification {
		us := many(n, func(i int) *pb.Update { return vc.U(elems("m"), vc.I(int64(i))) })
		return []*pb.Notification{vc.Note(6, pt, us, nil), vc.Note(7, pt, us, []*pb.Path{elems("m")})}
	})
	add("deletes", func(n int) []*pb.Notification {
		return []*pb.Notification{vc.Note(6, pt, nil, many(n, func(i int) *pb.Path { return paths[1+i%(len(paths)-1)] }))}
	})
	add("duplicates", func(n int) []*pb.Notification {
		u := vc.U(elems("a", "b"), vc.I(1))
		u.Duplicates = uint32(1)<<uint(n%32) - 1
		return []*pb.Notification{vc.Note(int64(n), pt, []*pb.Update{u}, nil)}
	})
	add("notifications", func(n int) []*pb.Notification {
		return many(n, func(i int) *pb.Notification {
			m := vc.Note(int64(6+i/3), pt, []*pb.Update{values[i%len(values)].up(paths[i%len(paths)])}, nil)
			if i%7 == 6 {
				m.Delete = []*pb.Path{paths[1+i%(len(paths)-1)]}
			}
			m.Atomic = i%5 == 4
			return m
		})
	})
	return out
}

func brief(ns []*pb.Notification) []*pb.Notification {
	var out []*pb.Notification
	for _, n := range ns {
		out = append(out, vx.Wire(n))
	}
	return out
}

func resps(ns []*pb.Notification) []*pb.SubscribeResponse {
	var out []*pb.SubscribeResponse
	for i, n := range ns {
		out = append(out, vx.Wire(up(n)))
		if i == 0 {
			out = append(out, sync)
		}
	}
	return out
}

func sizeScenarios(tier string) []vh.Scenario {
	var out []vh.Scenario
	max, maxPipe := 260, 34
	if tier == "thorough" {
		max, maxPipe = 4100, 1030
	}
	add := func(name string, m int, f func(n int) error) {
		out = append(out, vh.Scenario{Name: "sizes: " + name, Seq: func(q *vh.Q) { q.ForSizes(m, name, f) }})
	}
	addQ := func(name string, m int, f func(q *vh.Q, n int) error) {
		out = append(out, vh.Scenario{Name: "sizes: " + name, Seq: func(q *vh.Q) {
			q.ForSizes(m, name, func(n int) error { return f(q, n) })
		}})
	}
	for _, s := range sizedNotes() {
		s := s
		add("ingest, "+s.name, max, func(n int) error {
			done := map[string]bool{}
			w := newWorld()
			for _, p := range base {
				w.c.GnmiUpdate(proto.Clone(p).(*pb.Notification))
			}
			for _, m := range brief(s.f(n)) {
				if err := w.ingest(m); err != nil {
					return err
				}
				if n < 40 {
					w.after(done)
				}
			}
			w.after(done)
			return nil
		})
		addQ("receive and show, "+s.name, max, func(q *vh.Q, n int) error {
			rs := resps(s.f(n))
			msgs := append([]*pb.SubscribeResponse{goodResp}, rs...)
			if !oneStream(q, msgs, io.EOF) {
				return nil
			}
			return nil
		})
		addQ("collector and CLI, "+s.name, maxPipe, func(q *vh.Q, n int) error {
			rs := resps(s.f(n))
			if len(rs) > 40 {
				rs = rs[:40]
			}
			return q.ExecN(20_000_000, pipe(rs, []string{"g", "s", "p"}[n%3]))
		})
	}
	// Requests: the same paths as prefix and as subscriptions, many
	// subscriptions, many requests in a stream.
	modes := []pb.SubscriptionList_Mode{pb.SubscriptionList_STREAM, pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL}
	req := func(name string, follow func(n int) []*pb.SubscribeRequest, f func(n int) *pb.SubscriptionList) {
		addQ("subscribe, "+name, max, func(q *vh.Q, n int) error {
			for _, m := range modes {
				l := proto.Clone(f(n)).(*pb.SubscriptionList)
				l.Mode = m
				var fl []*pb.SubscribeRequest
				if follow != nil {
					fl = follow(n)
				}
				for _, c := range []int{2, 3, 5} {
					if err := q.ExecN(20_000_000, serve(c, list(l), fl, []int{0, 1, 3, 5, 6})); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	for _, p := range sizedPaths {
		p := p
		req("path "+p.name, nil, func(n int) *pb.SubscriptionList {
			return &pb.SubscriptionList{Prefix: &pb.Path{Target: "t"}, Subscription: []*pb.Subscription{{Path: p.f(n)}, {Path: elems("a")}}}
		})
		req("prefix "+p.name, nil, func(n int) *pb.SubscriptionList {
			q := proto.Clone(p.f(n)).(*pb.Path)
			q.Target = "t"
			return &pb.SubscriptionList{Prefix: q, Subscription: []*pb.Subscription{{Path: elems("a")}, {}}}
		})
	}
	req("target length", nil, func(n int) *pb.SubscriptionList {
		return &pb.SubscriptionList{Prefix: &pb.Path{Target: long(n)}, Subscription: []*pb.Subscription{{}}}
	})
	req("subscriptions", nil, func(n int) *pb.SubscriptionList {
		return &pb.SubscriptionList{Prefix: &pb.Path{Target: "t"}, Subscription: many(n, func(i int) *pb.Subscription { return &pb.Subscription{Path: paths[i%len(paths)]} })}
	})
	req("requests", func(n int) []*pb.SubscribeRequest {
		return many(n, func(i int) *pb.SubscribeRequest {
			return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}
		})
	}, func(n int) *pb.SubscriptionList {
		return &pb.SubscriptionList{Prefix: &pb.Path{Target: "*"}, Subscription: []*pb.Subscription{{Path: elems("a")}}}
	})
	return out
}
