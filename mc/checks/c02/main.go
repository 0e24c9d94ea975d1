// Check C02: timestamp discipline of the cache.
package main

import (
	"fmt"
	"time"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
)

func upd(ts int64, pre *pb.Path, us ...*pb.Update) *pb.Notification {
	return &pb.Notification{Timestamp: ts, Prefix: pre, Update: us}
}

func u(p *pb.Path, v *pb.TypedValue) *pb.Update { return &pb.Update{Path: p, Val: v} }

func apply(name, kind string, mk func() *pb.Notification) vc.Op {
	return vc.Op{Name: name, Kind: kind, Do: func(w *vc.World) error { return w.Apply(mk()) }}
}

func tick(d int64) vc.Op {
	return vc.Op{Name: fmt.Sprintf("clock +%ds", d/vc.Sec), Kind: "tick", Do: func(w *vc.World) error {
		if w.Clock < vc.Base+20*vc.Sec {
			w.Clock += d
		}
		return nil
	}}
}

type alpha struct {
	name  string
	paths [][]string
	ts    []int64
	vals  []*pb.TypedValue
	dels  [][]string
	dts   []int64
	ticks []int64
	multi bool
	atom  bool
	pre   [][]string
	orig  []string
	depth int
	enc   string // "", element (deprecated encoding) or prefix (everything in the prefix)
}

// split encodes a path as prefix and path.
func (a alpha) split(o string, pre, p []string) (*pb.Path, *pb.Path) {
	switch a.enc {
	case "element":
		return vc.Prefix("t", o, vc.E(pre...)), vc.E(p...)
	case "prefix":
		return vc.Prefix("t", o, vc.P(append(append([]string(nil), pre...), p...)...)), nil
	}
	return vc.Prefix("t", o, vc.P(pre...)), vc.P(p...)
}

func (a alpha) ops() []vc.Op {
	var out []vc.Op
	if len(a.pre) == 0 {
		a.pre = [][]string{nil}
	}
	if len(a.orig) == 0 {
		a.orig = []string{""}
	}
	for _, o := range a.orig {
		for _, pre := range a.pre {
			for _, p := range a.paths {
				for _, ts := range a.ts {
					for _, v := range a.vals {
						o, pre, p, ts, v := o, pre, p, ts, v
						out = append(out, apply(fmt.Sprintf("update %s%q%q=%v @%d", o, pre, p, v, ts), "u", func() *pb.Notification {
							x, y := a.split(o, pre, p)
							return upd(ts, x, u(y, v))
						}))
					}
				}
			}
			for _, p := range a.dels {
				for _, ts := range a.dts {
					o, pre, p, ts := o, pre, p, ts
					out = append(out, apply(fmt.Sprintf("delete %s%q%q @%d", o, pre, p, ts), "d", func() *pb.Notification {
						x, y := a.split(o, pre, p)
						if y == nil {
							y = &pb.Path{}
						}
						return &pb.Notification{Timestamp: ts, Prefix: x, Delete: []*pb.Path{y}}
					}))
				}
			}
		}
	}
	if a.multi {
		for _, ts := range a.ts {
			for i := range a.paths {
				for j := range a.paths {
					ts, i, j := ts, i, j
					out = append(out, apply(fmt.Sprintf("update %q,%q @%d", a.paths[i], a.paths[j], ts), "m", func() *pb.Notification {
						return upd(ts, vc.Prefix("t", "", nil), u(vc.P(a.paths[i]...), a.vals[0]), u(vc.P(a.paths[j]...), a.vals[len(a.vals)-1]))
					}))
					out = append(out, apply(fmt.Sprintf("update %q delete %q @%d", a.paths[i], a.paths[j], ts), "m", func() *pb.Notification {
						n := upd(ts, vc.Prefix("t", "", nil), u(vc.P(a.paths[i]...), a.vals[0]))
						n.Delete = []*pb.Path{vc.P(a.paths[j]...)}
						return n
					}))
				}
			}
		}
	}
	if a.atom {
		for _, p := range a.paths {
			for _, ts := range a.ts {
				for k := range a.vals {
					p, ts, k := p, ts, k
					out = append(out, apply(fmt.Sprintf("atomic %q @%d values %d", p, ts, k), "a", func() *pb.Notification {
						n := upd(ts, vc.Prefix("t", "", vc.P(p...)), u(vc.P("x"), a.vals[0]), u(vc.P("y"), a.vals[k]))
						n.Atomic = true
						return n
					}))
				}
			}
		}
	}
	for _, d := range a.ticks {
		out = append(out, tick(d))
	}
	return out
}

func main() {
	vh.Main(vh.Check{
		Property: "C02", QuickSec: 45, ThoroughSec: 500,
		Rule: "breadth-first exploration of all sequences of notifications over small alphabets of paths, timestamps, values, delete patterns and clock steps, with equal states merged (to a fixpoint where stated, otherwise to a depth); per transition the return value and the complete stored content are compared with the per-leaf reference model. Future threshold on and off, event-driven emulation on and off, prefixes, origins, keyed lists, multi-update and atomic notifications.",
		Assumptions: []string{
			"one update stream per target at a time, as the collector guarantees",
			"the comparison with the target's latest accepted timestamp is only judged when that timestamp is positive",
		},
		Scenarios: func(tier string) []vh.Scenario {
			s := vc.Sec
			deep := tier == "thorough"
			a1, a2, z := vc.I(1), vc.I(2), vc.S("1")
			ts := func(xs ...int64) []int64 {
				var out []int64
				for _, x := range xs {
					out = append(out, vc.Base+x*s)
				}
				return out
			}
			as := []alpha{
				{name: "future chain", paths: [][]string{{"a"}}, ts: ts(-1, 1, 4, 7, 10), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"a"}}, dts: ts(0, 11), ticks: []int64{3 * s}},
				{name: "future boundary", paths: [][]string{{"a"}, {"b"}}, ts: []int64{vc.Base, vc.Base + 3*s, vc.Base + 3*s + 1, vc.Base + 6*s, vc.Base + 6*s + 1, vc.Base + 6*s + 2},
					vals: []*pb.TypedValue{a1}, dels: [][]string{{"a"}}, dts: ts(1), ticks: []int64{1, 3 * s}},
				{name: "future", paths: [][]string{{"a"}, {"b"}}, ts: ts(-1, 1, 4, 7, 10), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"a"}, {"*"}}, dts: ts(0, 5, 11), ticks: []int64{3 * s}},
				{name: "future several", depth: 4, paths: [][]string{{"a"}, {"b"}}, ts: ts(0, 5, 9), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"a"}}, dts: ts(12), ticks: []int64{4 * s}, multi: true, atom: true},
				{name: "two leaves", paths: [][]string{{"a", "b"}, {"a", "c"}}, ts: ts(-2, -1, 0, 1), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"a", "b"}, {"a"}, {"*"}, {"a", "*"}, {"*", "c"}, {"a", "b", "x"}, {"a", "b", "*"}}, dts: ts(-2, -1, 0, 1, 2)},
				{name: "nested and value types", paths: [][]string{{"a"}, {"a", "b"}, {"c"}}, ts: ts(-1, 0, 1), vals: []*pb.TypedValue{a1, z, vc.J("{}")},
					dels: [][]string{{"a"}, {"a", "b"}, {"c"}, {"*"}, {"*", "*"}}, dts: ts(-1, 0, 1, 2)},
				{name: "nested atomic", paths: [][]string{{"a"}, {"a", "b"}, {"a", "x"}}, ts: ts(-1, 0), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"a"}, {"a", "b"}, {"a", "x"}, {"*"}}, dts: ts(0, 1), atom: true},
				{name: "keyed lists", paths: [][]string{{"l[k=1]", "v"}, {"l[k=2]", "v"}, {"l[k=1][j=2]", "v"}}, ts: ts(-1, 0), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"l"}, {"l[k=1]"}, {"l[k=*]", "v"}, {"l[k=1][j=2]", "v"}, {"l[k=2]", "*"}}, dts: ts(-1, 0, 1)},
				{name: "prefix", paths: [][]string{{"b"}, {"c"}}, pre: [][]string{nil, {"a"}}, ts: ts(-1, 0), vals: []*pb.TypedValue{a1},
					dels: [][]string{{"b"}, {"*"}}, dts: ts(0, 1)},
				{name: "origin", paths: [][]string{{"b"}, {"o", "b"}}, orig: []string{"", "o"}, ts: ts(-1, 0), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"b"}, {"*"}}, dts: ts(0, 1)},
				{name: "deprecated encoding", enc: "element", paths: [][]string{{"a", "b"}, {"a", "c"}}, ts: ts(-1, 0), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"a", "b"}, {"*"}}, dts: ts(0, 1)},
				{name: "path in prefix", enc: "prefix", paths: [][]string{{"a", "b"}, {"a", "c"}}, ts: ts(-1, 0), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"a", "b"}, {"*"}}, dts: ts(0, 1)},
				{name: "future, deprecated encoding", enc: "element", paths: [][]string{{"a"}, {"b"}}, ts: ts(-1, 4, 8), vals: []*pb.TypedValue{a1},
					dels: [][]string{{"a"}}, dts: ts(0, 11), ticks: []int64{3 * s}},
				{name: "future, path in prefix", enc: "prefix", paths: [][]string{{"a"}, {"b"}}, ts: ts(-1, 4, 8), vals: []*pb.TypedValue{a1},
					dels: [][]string{{"a"}}, dts: ts(0, 11), ticks: []int64{3 * s}},
				{name: "extreme timestamps", paths: [][]string{{"a"}}, ts: []int64{-1 << 63, -1, 0, 1, 1<<63 - 1}, vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"a"}, {"*"}}, dts: []int64{-1 << 63, -1, 0, 1, 1<<63 - 1}},
				{name: "odd names", paths: [][]string{{""}, {"a/b", ""}, {"a", "b"}, {"**"}}, ts: ts(-1, 0), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{""}, {"a"}, {"a/b"}, {"..."}, {"*"}, {"*", ""}}, dts: ts(0, 1)},
				{name: "names with meta", paths: [][]string{{"a", "meta"}, {"metadata", "sync"}, {"Meta"}, {"a", "meta", "sync"}}, ts: ts(-1, 0), vals: []*pb.TypedValue{a1},
					dels: [][]string{{"a", "meta"}, {"metadata"}, {"Meta"}, {"*"}, {"*", "meta"}}, dts: ts(0, 1)},
				{name: "several in one notification", paths: [][]string{{"a"}, {"b"}}, ts: ts(-1, 0, 1), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"a"}, {"*"}}, dts: ts(0, 1), multi: true},
				{name: "atomic", paths: [][]string{{"a"}, {"b"}}, ts: ts(-1, 0, 1), vals: []*pb.TypedValue{a1, a2},
					dels: [][]string{{"a"}, {"*"}, {"a", "x"}}, dts: ts(0, 1), atom: true},
			}
			out := vc.Sizes(vc.Cfg{Check: "C02"}, 1025)
			for _, a := range as {
				a := a
				for _, th := range []time.Duration{0, 3 * time.Second} {
					for _, ne := range []bool{false, true} {
						th, ne := th, ne
						fut := len(a.ticks) > 0
						if fut != (th > 0) && !(a.name == "several in one notification" || a.name == "atomic") {
							continue
						}
						d := 6
						if a.depth > 0 {
							d = a.depth
						}
						if deep {
							d = 40
						}
						out = append(out, vh.Scenario{Name: fmt.Sprintf("%s threshold=%v eventdriven=%v", a.name, th, !ne), Seq: func(q *vh.Q) {
							vc.BFS(q, vc.Cfg{Targets: []string{"t"}, Threshold: th, NoEvent: ne, Check: "C02"}, a.ops(), d)
						}})
					}
				}
			}
			return out
		},
	})
}
