package vc

import (
	"fmt"
	"math"

	"google.golang.org/protobuf/types/known/anypb"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Alphabets of cache operations shared by the checks.

func U(p *pb.Path, v *pb.TypedValue) *pb.Update { return &pb.Update{Path: p, Val: v} }

func NewOp(kind string, f func(w *World) *pb.Notification, name string, a ...any) Op {
	return Op{Name: fmt.Sprintf(name, a...), Kind: kind, Do: func(w *World) error { return w.Apply(f(w)) }}
}

func Note(ts int64, pre *pb.Path, us []*pb.Update, ds []*pb.Path) *pb.Notification {
	return &pb.Notification{Timestamp: Base + ts*Sec, Prefix: pre, Update: us, Delete: ds}
}

// Pth is a path split into prefix and path, each in either encoding.
type Pth struct {
	Pre, P   []string
	PreE, PE bool
}

func (p Pth) mk() (*pb.Path, *pb.Path) {
	f := func(dep bool, e []string) *pb.Path {
		if dep {
			return E(e...)
		}
		return P(e...)
	}
	return f(p.PreE, p.Pre), f(p.PE, p.P)
}

// shared: notifications built around one prefix object.
func SharedOps(multi bool, enc int) []Op {
	var out []Op
	pre := func(w *World) *pb.Path {
		return w.Shared("p", func() *pb.Path {
			p := P("a")
			if enc&1 != 0 {
				p = E("a")
			}
			return Prefix("t", "", p)
		})
	}
	mk := func(e ...string) *pb.Path {
		if enc&2 != 0 {
			return E(e...)
		}
		return P(e...)
	}
	leaves := [][]string{{"b", "x"}, {"b", "y"}, {"c"}}
	for _, ts := range []int64{0, 1} {
		for _, l := range leaves {
			for v := int64(1); v <= 2; v++ {
				ts, l, v := ts, l, v
				out = append(out, NewOp("u", func(w *World) *pb.Notification {
					return Note(ts, pre(w), []*pb.Update{U(mk(l...), I(v))}, nil)
				}, "update %q=%d @%d", l, v, ts))
			}
		}
	}
	for _, ts := range []int64{1, 2} {
		for _, d := range [][]string{{"*"}, {"b"}, {"b", "x"}, {"c"}, {"*", "y"}, nil} {
			ts, d := ts, d
			out = append(out, NewOp("d", func(w *World) *pb.Notification {
				return Note(ts, pre(w), nil, []*pb.Path{mk(d...)})
			}, "delete %q @%d", d, ts))
		}
	}
	if multi {
		for _, ts := range []int64{0, 1, 2} {
			ts := ts
			out = append(out,
				NewOp("m", func(w *World) *pb.Notification {
					return Note(ts, pre(w), []*pb.Update{U(mk("b", "x"), I(1)), U(mk("b", "y"), I(1)), U(mk("c"), I(2))}, nil)
				}, "update three @%d", ts),
				NewOp("m", func(w *World) *pb.Notification {
					return Note(ts, pre(w), []*pb.Update{U(mk("b", "x"), I(1)), U(mk("b", "x"), I(2))}, nil)
				}, "update one twice @%d", ts),
				NewOp("m", func(w *World) *pb.Notification {
					return Note(ts, pre(w), []*pb.Update{U(mk("c"), I(1))}, []*pb.Path{mk("b"), mk("c")})
				}, "update c delete b c @%d", ts),
				NewOp("m", func(w *World) *pb.Notification {
					return Note(ts, pre(w), nil, []*pb.Path{mk("b", "x"), mk("*")})
				}, "delete b/x * @%d", ts),
				NewOp("m", func(w *World) *pb.Notification {
					return Note(ts, pre(w), []*pb.Update{U(mk("b"), I(1)), U(mk("b", "x"), I(1)), U(mk("c"), I(1))}, nil)
				}, "conflicting updates @%d", ts),
			)
		}
	}
	return out
}

func PathOps(ps []Pth, origins []string, tss []int64) []Op {
	var out []Op
	for _, o := range origins {
		for _, p := range ps {
			for _, ts := range tss {
				for v := int64(1); v <= 2; v++ {
					o, p, ts, v := o, p, ts, v
					out = append(out, NewOp("u", func(w *World) *pb.Notification {
						a, b := p.mk()
						return Note(ts, Prefix("t", o, a), []*pb.Update{U(b, I(v))}, nil)
					}, "update %s %+v=%d @%d", o, p, v, ts))
				}
				o, p, ts := o, p, ts
				out = append(out, NewOp("d", func(w *World) *pb.Notification {
					a, b := p.mk()
					return Note(ts+1, Prefix("t", o, a), nil, []*pb.Path{b})
				}, "delete %s %+v @%d", o, p, ts+1))
			}
		}
		o := o
		out = append(out, NewOp("d", func(w *World) *pb.Notification {
			return Note(3, Prefix("t", o, nil), nil, []*pb.Path{P("*")})
		}, "delete %s *", o))
	}
	return out
}

func AtomicOps(ed bool) []Op {
	var out []Op
	for _, ts := range []int64{0, 1} {
		for k := int64(1); k <= 2; k++ {
			for _, p := range [][]string{{"a"}, {"a", "b"}} {
				ts, k, p := ts, k, p
				out = append(out, NewOp("a", func(w *World) *pb.Notification {
					n := Note(ts, Prefix("t", "", P(p...)), []*pb.Update{U(P("x"), I(1)), U(P("y"), I(k))}, nil)
					n.Atomic = true
					return n
				}, "atomic %q %d @%d", p, k, ts),
					NewOp("a", func(w *World) *pb.Notification {
						n := Note(ts, w.Shared(fmt.Sprint(p), func() *pb.Path { return Prefix("t", "", P(p...)) }), []*pb.Update{U(P("x"), I(k))}, nil)
						n.Atomic = true
						return n
					}, "atomic %q single %d @%d", p, k, ts),
					NewOp("u", func(w *World) *pb.Notification {
						return Note(ts, Prefix("t", "", nil), []*pb.Update{U(P(p...), I(k))}, nil)
					}, "update %q=%d @%d", p, k, ts),
				)
			}
			k, ts := k, ts
			out = append(out, NewOp("u", func(w *World) *pb.Notification {
				return Note(ts, Prefix("t", "", nil), []*pb.Update{U(P("a", "x"), I(k)), U(P("a", "b"), I(k))}, nil)
			}, "update a/x a/b=%d @%d", k, ts))
		}
		for _, d := range [][]string{{"a"}, {"*"}, {"a", "x"}, {"a", "b"}, {"a", "b", "*"}} {
			ts, d := ts, d
			out = append(out, NewOp("d", func(w *World) *pb.Notification {
				return Note(ts+1, Prefix("t", "", nil), nil, []*pb.Path{P(d...)})
			}, "delete %q @%d", d, ts+1))
		}
	}
	out = append(out, NewOp("a", func(w *World) *pb.Notification {
		n := Note(2, Prefix("t", "", P("a")), []*pb.Update{U(P("x"), I(1))}, []*pb.Path{P("b")})
		n.Atomic = true
		return n
	}, "atomic with delete"))
	return out
}

// AtomicEncOps mixes both encodings of paths in atomic notifications.
func AtomicEncOps(ed bool) []Op {
	mk := func(e bool, p ...string) *pb.Path {
		if e {
			return E(p...)
		}
		return P(p...)
	}
	var out []Op
	for enc := 0; enc < 4; enc++ {
		pe, ue := enc&1 != 0, enc&2 != 0
		for _, ts := range []int64{0, 1} {
			for k := int64(1); k <= 2; k++ {
				ts, k := ts, k
				out = append(out, NewOp("a", func(w *World) *pb.Notification {
					n := Note(ts, Prefix("t", "", mk(pe, "a", "b")), []*pb.Update{U(mk(ue, "x"), I(1)), U(mk(ue, "y", "z"), I(k))}, nil)
					n.Atomic = true
					return n
				}, "atomic a/b %d @%d encodings %v %v", k, ts, pe, ue))
			}
		}
		if ue {
			continue
		}
		for _, d := range [][]string{{"a"}, {"a", "b"}, {"a", "b", "x"}, {"a", "*"}, {"*"}} {
			d := d
			out = append(out, NewOp("d", func(w *World) *pb.Notification {
				return Note(2, Prefix("t", "", nil), nil, []*pb.Path{mk(pe, d...)})
			}, "delete %q @2 encoding %v", d, pe))
		}
		for k := int64(1); k <= 2; k++ {
			k := k
			out = append(out, NewOp("u", func(w *World) *pb.Notification {
				return Note(1, Prefix("t", "", mk(pe, "a")), []*pb.Update{U(mk(pe, "c"), I(k))}, nil)
			}, "update a/c=%d @1 encoding %v", k, pe), NewOp("u", func(w *World) *pb.Notification {
				return Note(1, Prefix("t", "", nil), []*pb.Update{U(mk(pe, "a", "b"), I(k))}, nil)
			}, "update a/b=%d @1 encoding %v", k, pe))
		}
	}
	return out
}

func ValueOps() []Op {
	var out []Op
	dec := func(d int64, p uint32) *pb.TypedValue {
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: d, Precision: p}}}
	}
	vals := []*pb.TypedValue{
		nil, {}, S(""), S("a"), S("1"), I(0), I(1), I(-1), B(false), B(true), D(0), D(1), D(math.NaN()), D(math.Inf(1)),
		{Value: &pb.TypedValue_UintVal{UintVal: 1}}, {Value: &pb.TypedValue_UintVal{UintVal: 1 << 63}},
		{Value: &pb.TypedValue_FloatVal{FloatVal: 1}}, {Value: &pb.TypedValue_FloatVal{FloatVal: 2}},
		{Value: &pb.TypedValue_BytesVal{BytesVal: []byte("a")}}, {Value: &pb.TypedValue_BytesVal{BytesVal: nil}},
		dec(10, 1), dec(1, 0), dec(10, 2),
		L(), L(I(1)), L(I(1), I(2)), L(I(2), I(1)), L(S("1")), L(nil), L(L(I(1))), L(J("1")),
		J("1"), J("2"), {Value: &pb.TypedValue_JsonIetfVal{JsonIetfVal: []byte("1")}}, {Value: &pb.TypedValue_AsciiVal{AsciiVal: "1"}}, {Value: &pb.TypedValue_AsciiVal{AsciiVal: "a"}},
		{Value: &pb.TypedValue_ProtoBytes{ProtoBytes: []byte("1")}}, {Value: &pb.TypedValue_AnyVal{AnyVal: &anypb.Any{TypeUrl: "x", Value: []byte("1")}}}, {Value: &pb.TypedValue_AnyVal{AnyVal: &anypb.Any{TypeUrl: "x", Value: []byte("2")}}},
	}
	for i, v := range vals {
		for _, ts := range []int64{0, 1} {
			i, v, ts := i, v, ts
			out = append(out, NewOp("u", func(w *World) *pb.Notification {
				return Note(ts, Prefix("t", "", nil), []*pb.Update{U(P("a"), v)}, nil)
			}, "update a=(%d) %v @%d", i, v, ts))
		}
	}
	for i, v := range []*pb.Value{{}, {Value: []byte("1")}, {Value: []byte("2")}, {Value: []byte("1"), Type: pb.Encoding_BYTES}} {
		for _, ts := range []int64{0, 1} {
			v, ts := v, ts
			out = append(out, NewOp("u", func(w *World) *pb.Notification {
				return Note(ts, Prefix("t", "", nil), []*pb.Update{{Path: P("a"), Value: v}}, nil)
			}, "update a=(old %d) %v @%d", i, v, ts))
		}
	}
	return out
}

func LifeOps(targets ...string) []Op {
	var out []Op
	for _, t := range targets {
		t := t
		for _, ev := range []string{"sync", "connect", "error", "refresh"} {
			if ev == "refresh" && t == "s" {
				continue
			}
			if len(targets) > 1 && (ev == "sync" || ev == "error") {
				continue
			}
			ev := ev
			out = append(out, Op{Name: ev + " " + t, Kind: ev, Do: func(w *World) error { return w.Life(t, ev) }})
		}
		out = append(out,
			Op{Name: "reset " + t, Kind: "reset", Do: func(w *World) error { return w.Reset(t) }},
			Op{Name: "remove " + t, Kind: "remove", Do: func(w *World) error { return w.Remove(t) }},
			Op{Name: "add " + t, Kind: "add", Do: func(w *World) error { return w.Add(t) }},
			NewOp("u", func(w *World) *pb.Notification {
				return Note(0, Prefix(t, "", nil), []*pb.Update{U(P("a", "b"), I(1))}, nil)
			}, "update %s a/b", t),
			NewOp("u", func(w *World) *pb.Notification {
				return Note(0, Prefix(t, "o", P("a")), []*pb.Update{U(P("b"), I(1)), U(P("c"), I(1))}, nil)
			}, "update %s o:a/b,c", t),
			NewOp("d", func(w *World) *pb.Notification {
				return Note(1, Prefix(t, "", nil), nil, []*pb.Path{P("*")})
			}, "delete %s *", t),
		)
	}
	out = append(out, NewOp("u", func(w *World) *pb.Notification {
		return Note(0, Prefix("t", "", nil), []*pb.Update{U(P("a"), I(1)), U(P("z"), I(1))}, nil)
	}, "update t a,z"), NewOp("u", func(w *World) *pb.Notification {
		return Note(5, Prefix("t", "", nil), []*pb.Update{U(P("y"), I(1))}, nil)
	}, "update t y @5"), NewOp("d", func(w *World) *pb.Notification {
		return Note(10, Prefix("t", "", nil), nil, []*pb.Path{P("meta"), P("*")})
	}, "delete t meta, * late"))
	return out
}

// MetaOps are updates and deletes of metadata leaves, as a target may send them.
func MetaOps(t string) []Op {
	var out []Op
	for _, ts := range []int64{0, 1, 2} {
		for i, v := range []*pb.TypedValue{B(false), B(true)} {
			for _, p := range []*pb.Path{P("meta", "sync"), E("meta", "connected"), P("meta", "own")} {
				ts, i, v, p := ts, i, v, p
				out = append(out, NewOp("mu", func(w *World) *pb.Notification {
					return Note(ts, Prefix(t, "", nil), []*pb.Update{U(p, v)}, nil)
				}, "update %s %v=%d @%d", t, Strs(p), i, ts))
			}
		}
		ts := ts
		out = append(out,
			NewOp("mu", func(w *World) *pb.Notification {
				return Note(ts, Prefix(t, "", P("meta")), []*pb.Update{U(P("sync"), B(true)), U(P("own"), B(true)), U(P("connectedAddress"), S("x"))}, nil)
			}, "update %s meta/sync,own,connectedAddress @%d", t, ts),
			NewOp("md", func(w *World) *pb.Notification {
				return Note(ts, Prefix(t, "", nil), nil, []*pb.Path{P("meta", "own")})
			}, "delete %s meta/own @%d", t, ts))
	}
	return append(out, NewOp("u", func(w *World) *pb.Notification {
		return Note(0, Prefix(t, "", nil), []*pb.Update{U(P("a"), I(1))}, nil)
	}, "update %s a", t), NewOp("md", func(w *World) *pb.Notification {
		return Note(50, Prefix(t, "", nil), nil, []*pb.Path{P("meta", "sync"), P("a")})
	}, "delete %s meta/sync, a late", t))
}

// ClockOp advances the clock, up to max seconds.
func ClockOp(max int64) Op {
	return Op{Name: "1s passes", Kind: "c", Do: func(w *World) error {
		if w.Clock < Base+max*Sec {
			w.Clock += Sec
		}
		return nil
	}}
}

// EmptyOps are notifications without content and the size refresh.
func EmptyOps(t string) []Op {
	return []Op{
		NewOp("e", func(w *World) *pb.Notification { return Note(0, Prefix(t, "", nil), nil, nil) }, "empty %s", t),
		NewOp("e", func(w *World) *pb.Notification {
			n := Note(0, Prefix(t, "", P("a")), nil, nil)
			n.Atomic = true
			return n
		}, "empty atomic %s", t),
		NewOp("e", func(w *World) *pb.Notification {
			n := Note(0, Prefix(t, "", P("a")), nil, []*pb.Path{P("b")})
			n.Atomic = true
			return n
		}, "atomic delete %s", t),
		NewOp("d", func(w *World) *pb.Notification {
			return Note(20, Prefix(t, "", nil), nil, []*pb.Path{P("meta")})
		}, "delete %s meta late", t),
		{Name: "size " + t, Kind: "size", Do: func(w *World) error { return w.Life(t, "size") }},
	}
}
