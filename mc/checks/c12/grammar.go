//go:build go1.23

package main

import (
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vx"
)

func elems(names ...string) *pb.Path {
	p := &pb.Path{}
	for _, n := range names {
		p.Elem = append(p.Elem, &pb.PathElem{Name: n})
	}
	return p
}

func depr(names ...string) *pb.Path { return &pb.Path{Element: names} }

func with(p *pb.Path, f func(*pb.Path)) *pb.Path { f(p); return p }

// paths are the paths of updates, deletes and subscriptions.
var paths = []*pb.Path{
	nil,
	{},
	elems("a"),
	elems("a", "b"),
	elems("a", "b", "c"),
	elems(""),
	elems("a", ""),
	elems("*"),
	elems("a", "*"),
	elems("*", "*"),
	elems("..."),
	elems("meta"),
	elems("meta", "sync"),
	elems("meta", "connected"),
	elems("meta", "connectedAddress"),
	elems("meta", "connectError"),
	elems("meta", "targetLeaves"),
	elems("meta", "targetLeaves", "x"),
	elems("meta", "unknown"),
	elems("meta", "*"),
	elems("*", "sync"),
	depr("a"),
	depr("a", "b"),
	depr("*"),
	depr(""),
	depr("meta"),
	depr("meta", "sync"),
	{Elem: []*pb.PathElem{{Name: "a", Key: map[string]string{"k": "1"}}}},
	{Elem: []*pb.PathElem{{Name: "a", Key: map[string]string{"": ""}}}},
	{Elem: []*pb.PathElem{{Name: "a", Key: map[string]string{"k": "*", "j": "2"}}, {}}},
	{Origin: "o"},
	{Origin: "meta", Elem: []*pb.PathElem{{Name: "sync"}}},
	{Origin: "o", Elem: []*pb.PathElem{{Name: "a"}}},
	{Target: "t", Elem: []*pb.PathElem{{Name: "a"}}},
	{Target: "other"},
}

// prefixes are the prefixes of notifications and subscription lists.
var prefixes = []*pb.Path{
	{Target: "t"},
	nil,
	{},
	{Target: "unknown"},
	{Target: "*"},
	{Target: "t", Origin: "o"},
	{Target: "t", Origin: "meta"},
	with(elems("a"), func(p *pb.Path) { p.Target = "t" }),
	with(elems("a", "b"), func(p *pb.Path) { p.Target, p.Origin = "t", "o" }),
	with(elems("meta"), func(p *pb.Path) { p.Target = "t" }),
	with(elems("meta", "sync"), func(p *pb.Path) { p.Target = "t" }),
	with(elems(""), func(p *pb.Path) { p.Target = "t" }),
	with(elems("*"), func(p *pb.Path) { p.Target = "t" }),
	with(depr("a"), func(p *pb.Path) { p.Target = "t" }),
	with(depr("meta"), func(p *pb.Path) { p.Target = "t" }),
}

// values are update values (the new and the deprecated field).
type val struct {
	v *pb.TypedValue
	d *pb.Value
}

func leaflist(vs ...*pb.TypedValue) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: vs}}}
}

var values = []val{
	{},
	{v: vc.I(1)},
	{v: vc.I(2)},
	{v: &pb.TypedValue{}},
	{v: vc.S("s")},
	{v: vc.S("")},
	{v: &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: 1 << 63}}},
	{v: vc.B(true)},
	{v: &pb.TypedValue{Value: &pb.TypedValue_BytesVal{}}},
	{v: &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: 1}}},
	{v: vc.D(1.5)},
	{v: &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{}}},
	{v: &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: -1 << 63, Precision: 1<<32 - 1}}}},
	{v: leaflist()},
	{v: &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{}}},
	{v: leaflist(vc.I(1), &pb.TypedValue{}, vc.S("x"))},
	{v: leaflist(leaflist(leaflist()), vc.J("{"))},
	{v: &pb.TypedValue{Value: &pb.TypedValue_AnyVal{}}},
	{v: &pb.TypedValue{Value: &pb.TypedValue_AnyVal{AnyVal: &anypb.Any{TypeUrl: "x/unknown.Type", Value: []byte{1}}}}},
	{v: vc.J("")},
	{v: vc.J("{")},
	{v: vc.J(`{"a":{"":[1,null,{}]}}`)},
	{v: vc.J("null")},
	{v: &pb.TypedValue{Value: &pb.TypedValue_JsonIetfVal{JsonIetfVal: []byte("[]")}}},
	{v: &pb.TypedValue{Value: &pb.TypedValue_AsciiVal{AsciiVal: "x"}}},
	{v: &pb.TypedValue{Value: &pb.TypedValue_ProtoBytes{ProtoBytes: []byte{0xff}}}},
	{d: &pb.Value{}},
	{d: &pb.Value{Type: pb.Encoding_JSON, Value: []byte("1")}},
	{d: &pb.Value{Type: pb.Encoding_JSON, Value: []byte(`{"a":[]}`)}},
	{d: &pb.Value{Type: pb.Encoding_JSON_IETF, Value: []byte("{")}},
	{d: &pb.Value{Type: pb.Encoding_BYTES}},
	{d: &pb.Value{Type: pb.Encoding_PROTO, Value: []byte{1}}},
	{d: &pb.Value{Type: 99}},
	{v: vc.I(1), d: &pb.Value{Type: pb.Encoding_JSON, Value: []byte("2")}},
}

var stamps = []int64{5, 0, -1 << 63, 1<<63 - 1, 10}

func (v val) up(p *pb.Path) *pb.Update { return &pb.Update{Path: p, Val: v.v, Value: v.d} }

// single makes notifications with one update or delete (or none), each field
// over its own alphabet.
func single(pres, ps []*pb.Path, vs []val, tss []int64) []*pb.Notification {
	var out []*pb.Notification
	add := func(n *pb.Notification) { out = append(out, vx.Wire(n)) }
	for _, pre := range pres {
		for _, atomic := range []bool{false, true} {
			for _, ts := range tss {
				add(&pb.Notification{Prefix: pre, Atomic: atomic, Timestamp: ts})
				for _, p := range ps {
					if p != nil { // a repeated message cannot be nil on the wire
						add(&pb.Notification{Prefix: pre, Atomic: atomic, Timestamp: ts, Delete: []*pb.Path{p}})
					}
					for _, v := range vs {
						add(&pb.Notification{Prefix: pre, Atomic: atomic, Timestamp: ts, Update: []*pb.Update{v.up(p)}})
					}
				}
			}
		}
	}
	return out
}

// double makes notifications with two parts.
func double(pres, ps []*pb.Path, vs []val, tss []int64) []*pb.Notification {
	var out []*pb.Notification
	parts := single([]*pb.Path{nil}, ps, vs, []int64{0})
	for _, pre := range pres {
		for _, atomic := range []bool{false, true} {
			for _, ts := range tss {
				for _, a := range parts {
					for _, b := range parts {
						if a.Atomic || b.Atomic || len(a.Update)+len(a.Delete) == 0 || len(b.Update)+len(b.Delete) == 0 {
							continue
						}
						n := &pb.Notification{Prefix: pre, Atomic: atomic, Timestamp: ts}
						n.Update = append(append(n.Update, a.Update...), b.Update...)
						n.Delete = append(append(n.Delete, a.Delete...), b.Delete...)
						out = append(out, vx.Wire(n))
					}
				}
			}
		}
	}
	return out
}

// pick selects by index.
func pick[T any](all []T, idx ...int) []T {
	var out []T
	for _, i := range idx {
		out = append(out, all[i])
	}
	return out
}

// The small alphabets, for sequences.
var (
	fewPaths = []*pb.Path{{}, elems("a"), elems("a", "b"), elems("*"), elems("meta"), elems("meta", "sync"), depr("a"), elems("")}
	fewVals  = pick(values, 0, 1, 7, 10, 15, 20, 27)
	fewPres  = pick(prefixes, 0, 5, 7, 9)
)

// edits calls f with every message that a single change of one byte, a removed
// byte or a truncation makes of the encoding of m.
func edits[M proto.Message](m M, f func(e M, what func() string) bool) {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	try := func(c []byte, what func() string) bool {
		o := m.ProtoReflect().New().Interface()
		if proto.Unmarshal(c, o) != nil {
			return true
		}
		return f(o.(M), what)
	}
	for i := range b {
		for v := 0; v < 256; v++ {
			if byte(v) == b[i] {
				continue
			}
			c := append([]byte(nil), b...)
			c[i] = byte(v)
			if !try(c, func() string { return vc.Msg(m) + " edited: " + hex(c) }) {
				return
			}
		}
		c := append(append([]byte(nil), b[:i]...), b[i+1:]...)
		if !try(c, func() string { return vc.Msg(m) + " without a byte: " + hex(c) }) {
			return
		}
		c2 := append([]byte(nil), b[:i]...)
		if !try(c2, func() string { return vc.Msg(m) + " truncated: " + hex(c2) }) {
			return
		}
	}
}

func hex(b []byte) string {
	const d = "0123456789abcdef"
	var out []byte
	for _, x := range b {
		out = append(out, d[x>>4], d[x&15])
	}
	return string(out)
}
