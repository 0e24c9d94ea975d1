//go:build go1.23

package main

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/client"
	"github.com/openconfig/gnmi/path"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/value"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// fewOrders runs f with the maps it ranges over visited in ascending and
// descending order, from the middle, and in turns from both ends.
func fewOrders(f func() error) error {
	vrt.DirectOrder = true
	defer func() { vrt.DirectOrder, vrt.OrderChoice = false, nil }()
	turn := 0
	for _, o := range []func(int) int{
		func(int) int { return 0 }, func(n int) int { return n - 1 }, func(n int) int { return n / 2 },
		func(n int) int { turn++; return turn % 2 * (n - 1) },
	} {
		vrt.OrderChoice = o
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

// sizeScenarios drive one quantity at a time far beyond the exhaustive bounds.
func sizeScenarios(deep bool) []vh.Scenario {
	max := 520
	if deep {
		max = 4100
	}
	var out []vh.Scenario
	add := func(name string, f func(n int) error) {
		out = append(out, vh.Scenario{Name: "sizes: " + name, Seq: func(q *vh.Q) { q.ForSizes(max, name, f) }})
	}
	at := func(n int) []int { return []int{0, n / 2, n - 1} }
	index := func(ss ...spec) error {
		for _, s := range ss {
			m := s.msg()
			for _, lead := range []bool{false, true} {
				want := s.index(lead)
				if err := fewOrders(func() error {
					for i := 0; i < 2; i++ {
						if got := path.ToStrings(m, lead); !same(got, want) {
							return vh.Errf("index", "ToStrings(%s, %v) = %.2000q, want %.2000q", s.text(), lead, got, want)
						}
					}
					return nil
				}); err != nil {
					return err
				}
			}
			if ref := s.msg(); !proto.Equal(m, ref) {
				return vh.Errf("input", "ToStrings changed its argument %s", s.text())
			}
		}
		for _, a := range ss {
			for _, b := range ss {
				want, ok := completePath(a, b)
				x, y := a.msg(), b.msg()
				got, err := path.CompletePath(x, y)
				if (err == nil) != ok || ok && !same(got, want) {
					return vh.Errf("complete", "CompletePath(%s, %s) = %.2000q %v, want %.2000q", a.text(), b.text(), got, err, want)
				}
			}
		}
		return nil
	}
	mk := func(n, keys int) (s spec) {
		for i := 0; i < n; i++ {
			e := elem{name: fmt.Sprint("e", i)}
			for j := 0; j < keys && (i%7 == 0 || i == n-1); j++ {
				e.keys = append(e.keys, kv{fmt.Sprint("k", j), fmt.Sprint("v", i, "-", j)})
			}
			s.elems = append(s.elems, e)
		}
		return s
	}
	add("paths of n elements", func(n int) error {
		old := spec{}
		for i := 0; i < n; i++ {
			old.element = append(old.element, fmt.Sprint("o", i))
		}
		a, b, c := mk(n, 0), mk(n, 2), mk(n, 1)
		b.target, c.origin = "t", "o"
		return index(a, b, c, old, spec{isNil: true}, spec{origin: "p"})
	})
	add("elements of n keys", func(n int) error {
		a, b := mk(1, n), mk(2, n)
		// The values of other keys are the same, the names differ at the end.
		c := spec{origin: "o", elems: []elem{{name: "l"}}}
		for i := 0; i < n; i++ {
			c.elems[0].keys = append(c.elems[0].keys, kv{strings.Repeat("k", 40) + fmt.Sprint(n-i), fmt.Sprint(i % 3)})
		}
		return index(a, b, c)
	})
	add("names, keys and values of n characters", func(n int) error {
		var ss []spec
		for _, i := range at(n) {
			long := func(c string) string { return strings.Repeat("x", i) + c + strings.Repeat("x", n-1-i) }
			ss = append(ss, spec{target: long("t"), elems: []elem{{long("a"), []kv{{long("c"), "v1"}, {long("b"), long("v")}, {long("世"), "v3"}}}}},
				spec{origin: long("o"), element: []string{long("/"), long("é")}})
		}
		return index(ss...)
	})
	add("queries of n elements", func(n int) error {
		var p, slashes client.Path
		var ps []client.Path
		for i := 0; i < n; i++ {
			p = append(p, fmt.Sprint("e", i))
			slashes = append(slashes, fmt.Sprintf("%d/%d/", i, i))
			ps = append(ps, client.Path{fmt.Sprint("q", i), "x/y", fmt.Sprint(i)})
		}
		if err := judgeQueries([]client.Path{p, slashes}, client.Stream, false); err != nil {
			return err
		}
		return judgeQueries(ps, client.Once, false)
	})
	add("queries with elements of n characters", func(n int) error {
		for _, i := range at(n) {
			l := func(c string) string { return strings.Repeat("x", i) + c + strings.Repeat("x", n-1-i) }
			if err := judgeQueries([]client.Path{{l("/"), strings.Repeat("/", n)}, {"a", l("é"), strings.Repeat("/a", n) + "/"}, {l("=")}}, client.Stream, false); err != nil {
				return err
			}
		}
		return nil
	})
	add("scalars of n parts", func(n int) error {
		var ss []string
		var l []any
		b := make([]byte, n)
		var nest any = "x"
		for i := 0; i < n; i++ {
			ss = append(ss, fmt.Sprint("s", i))
			l = append(l, []any{int64(i), fmt.Sprint(i), float64(i) / 3, uint8(i), i%2 == 0, []byte{byte(i)}}[i%6])
			b[i] = byte(i * 7)
			nest = []any{nest}
		}
		for _, x := range []any{ss, l, b, nest, strings.Repeat("é", n), []any{l, ss, b}} {
			if err := roundTrip(x); err != nil {
				return err
			}
		}
		return nil
	})
	add("lists of lists", func(n int) error {
		if n > 260 {
			return nil
		}
		var l []any
		for i := 0; i < n; i++ {
			var in []any
			for j := 0; j < n; j += 1 + n/9 {
				in = append(in, int64(i*n+j))
			}
			l = append(l, in)
		}
		return roundTrip(l)
	})
	add("values that differ in one of n parts", func(n int) error {
		list := func(i int, v *pb.TypedValue) *pb.TypedValue {
			var es []*pb.TypedValue
			for j := 0; j < n; j++ {
				if j == i {
					es = append(es, v)
				} else {
					es = append(es, vc.S("x"))
				}
			}
			return vc.L(es...)
		}
		by := func(s string) *pb.TypedValue { return &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: []byte(s)}} }
		nest := func(v *pb.TypedValue) *pb.TypedValue {
			for i := 0; i < n; i++ {
				v = vc.L(v)
			}
			return v
		}
		var vs []*pb.TypedValue
		for _, i := range at(n) {
			l := func(c string) string { return strings.Repeat("x", i) + c + strings.Repeat("x", n-1-i) }
			vs = append(vs, list(i, vc.S("y")), list(i, vc.I(1)), list(i, nil), list(i, &pb.TypedValue{}), list(i, vc.S("x")), list(i, vc.L(vc.S("x"))),
				vc.S(l("y")), vc.S(l("z")), by(l("y")), by(l("z")), vc.J(`"`+l("y")+`"`), vc.J(`"`+l("z")+`"`),
				vc.L(vc.S(l("y")), vc.S("x")), vc.L(vc.S("x"), vc.S(l("y"))))
		}
		vs = append(vs, nest(vc.I(1)), nest(vc.I(2)), nest(nil), nest(vc.L()), vc.L(nest(vc.I(1)), vc.I(1)), vc.L(nest(vc.I(2)), vc.I(1)),
			vc.S(strings.Repeat("x", n)), vc.S(strings.Repeat("x", n+1)), by(strings.Repeat("x", n)), by(strings.Repeat("x", n)+"\x00"))
		for _, a := range vs {
			for _, b := range vs {
				b = proto.Clone(b).(*pb.TypedValue)
				x, y := value.Equal(a, b), value.Equal(b, a)
				if x != y {
					return vh.Errf("symmetry", "Equal is %v, reversed %v: %.2000s, %.2000s", x, y, txt(a), txt(b))
				}
				if x && !sameValue(a, b) {
					return vh.Errf("equal", "Equal is true: %.2000s, %.2000s", txt(a), txt(b))
				}
			}
		}
		return nil
	})
	return out
}
