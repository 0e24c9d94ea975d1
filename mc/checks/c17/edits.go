//go:build go1.23

package main

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
)

// edits returns every message that differs from m in one place: for each field
// of the schema, down to the given depth, the field cleared, set to each of two
// values, an element or entry added, removed, changed or moved.
func edits(m proto.Message, depth int, keep map[protoreflect.FullName]bool) []named[proto.Message] {
	var out []named[proto.Message]
	seen := map[string]bool{canon(m): true}
	emit := func(name string, root proto.Message) {
		if k := canon(root); !seen[k] {
			seen[k] = true
			out = append(out, named[proto.Message]{name, root})
		}
	}
	// at finds the message to change in a copy of the root.
	var walk func(at func(r protoreflect.Message) protoreflect.Message, md protoreflect.MessageDescriptor, cur protoreflect.Message, d int, name string)
	walk = func(at func(r protoreflect.Message) protoreflect.Message, md protoreflect.MessageDescriptor, cur protoreflect.Message, d int, name string) {
		try := func(what string, f func(x protoreflect.Message)) {
			c := proto.Clone(m)
			f(at(c.ProtoReflect()))
			emit(name+what, c)
		}
		for i := 0; i < md.Fields().Len(); i++ {
			fd := md.Fields().Get(i)
			if keep[fd.FullName()] {
				continue
			}
			fn := "." + string(fd.Name())
			if cur.Has(fd) {
				try(fn+" cleared", func(x protoreflect.Message) { x.Clear(fd) })
			}
			switch {
			case fd.IsMap():
				for _, k := range []string{"k", "l"} {
					key := protoreflect.ValueOfString(k).MapKey()
					try(fn+"["+k+"] set", func(x protoreflect.Message) {
						mp := x.Mutable(fd).Map()
						if fd.MapValue().Message() != nil {
							mp.Mutable(key)
							return
						}
						mp.Set(key, scalar(fd.MapValue(), 1, mp.Get(key)))
					})
					try(fn+"["+k+"] removed", func(x protoreflect.Message) {
						if x.Has(fd) {
							x.Mutable(fd).Map().Clear(key)
						}
					})
				}
			case fd.IsList():
				n := cur.Get(fd).List().Len()
				try(fn+" appended", func(x protoreflect.Message) {
					l := x.Mutable(fd).List()
					if fd.Message() != nil {
						l.AppendMutable()
					} else {
						l.Append(scalar(fd, 2, l.NewElement()))
					}
				})
				if n > 1 {
					try(fn+" reversed", func(x protoreflect.Message) {
						l := x.Mutable(fd).List()
						a, b := l.Get(0), l.Get(n-1)
						l.Set(0, b)
						l.Set(n-1, a)
					})
					try(fn+" truncated", func(x protoreflect.Message) { x.Mutable(fd).List().Truncate(n - 1) })
				}
				for j := 0; j < n; j++ {
					if fd.Message() == nil {
						try(fmt.Sprintf("%s[%d] changed", fn, j), func(x protoreflect.Message) {
							l := x.Mutable(fd).List()
							l.Set(j, scalar(fd, 3, l.Get(j)))
						})
					} else if d > 1 {
						walk(func(r protoreflect.Message) protoreflect.Message { return at(r).Mutable(fd).List().Get(j).Message() }, fd.Message(), cur.Get(fd).List().Get(j).Message(), d-1, fmt.Sprintf("%s%s[%d]", name, fn, j))
					}
				}
			case fd.Message() != nil:
				try(fn+" present", func(x protoreflect.Message) { x.Mutable(fd) })
				if d > 1 {
					walk(func(r protoreflect.Message) protoreflect.Message { return at(r).Mutable(fd).Message() }, fd.Message(), cur.Get(fd).Message(), d-1, name+fn)
				}
			default:
				for v := 1; v <= 2; v++ {
					try(fmt.Sprintf("%s set %d", fn, v), func(x protoreflect.Message) { x.Set(fd, scalar(fd, v, x.Get(fd))) })
				}
			}
		}
	}
	r := m.ProtoReflect()
	walk(func(r protoreflect.Message) protoreflect.Message { return r }, r.Descriptor(), r, depth, "")
	return out
}

// scalar is a value of the field's kind other than the given one.
func scalar(fd protoreflect.FieldDescriptor, n int, old protoreflect.Value) protoreflect.Value {
	mk := func(n int) protoreflect.Value {
		switch fd.Kind() {
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(n%2 == 1)
		case protoreflect.EnumKind:
			vs := fd.Enum().Values()
			return protoreflect.ValueOfEnum(vs.Get(n % vs.Len()).Number())
		case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
			return protoreflect.ValueOfInt32(int32(n))
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			return protoreflect.ValueOfUint32(uint32(n))
		case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
			return protoreflect.ValueOfInt64(int64(n))
		case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			return protoreflect.ValueOfUint64(uint64(n))
		case protoreflect.FloatKind:
			return protoreflect.ValueOfFloat32(float32(n))
		case protoreflect.DoubleKind:
			return protoreflect.ValueOfFloat64(float64(n))
		case protoreflect.BytesKind:
			return protoreflect.ValueOfBytes([]byte(fmt.Sprint("v", n)))
		default:
			return protoreflect.ValueOfString(fmt.Sprint("v", n))
		}
	}
	v := mk(n)
	if old.IsValid() && v.Equal(old) {
		v = mk(n + 1)
	}
	return v
}

// baseReq has something in every part of a request.
func baseReq() *pb.SubscribeRequest {
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{
		Prefix: &pb.Path{Origin: "o", Elem: []*pb.PathElem{{Name: "a", Key: map[string]string{"k": "v"}}}},
		Subscription: []*pb.Subscription{
			{Path: vc.P("a", "b"), Mode: pb.SubscriptionMode_SAMPLE, SampleInterval: 5},
			{Path: vc.E("c")},
		},
		Qos: &pb.QOSMarking{Marking: 7}, Encoding: pb.Encoding_PROTO,
		UseModels: []*pb.ModelData{{Name: "m"}},
	}}}
}

func baseTarget() *tpb.Target {
	return &tpb.Target{Addresses: []string{"a1", "a2"}, Request: "r1", Dialer: "d",
		Credentials: &tpb.Credentials{Username: "u", Password: "p"}, Meta: map[string]string{"k": "v"}}
}

// editConfs are configurations with targets t and u using requests r1 and r2 (the
// same one when shared), of which the request and the settings of t vary.
func editConfs(shared bool) (rs, ts []conf) {
	mk := func(what string, t *tpb.Target, r *pb.SubscribeRequest) conf {
		ur := "r2"
		if shared {
			ur = "r1"
		}
		c := build([]string{"t", "u"}, []topt{{"t", t, true}, {"u", tg(ur, nil, "b"), true}},
			[]named[*pb.SubscribeRequest]{{"r1", r}, {"r2", req("z")}})
		c.desc = what
		return c
	}
	rs = append(rs, mk("base request", baseTarget(), baseReq()))
	for _, e := range edits(baseReq(), 5, nil) {
		rs = append(rs, mk("request"+e.name, baseTarget(), e.v.(*pb.SubscribeRequest)))
	}
	ts = append(ts, mk("base target", baseTarget(), baseReq()))
	for _, e := range edits(baseTarget(), 3, map[protoreflect.FullName]bool{"target.Target.request": true}) {
		ts = append(ts, mk("target"+e.name, e.v.(*tpb.Target), baseReq()))
	}
	return rs, ts
}

// editPairs loads every ordered pair.
func editPairs(q *vh.Q, cs []conf, from, stride int) {
	for i := from; i < len(cs); i += stride {
		q.State(cs[i].desc)
		for j := range cs {
			if q.Expired() {
				return
			}
			if !cs[i].valid {
				break
			}
			s := []step{{&cs[i], 1}, {&cs[j], 2}, {&cs[i], 3}}
			if !cs[j].valid {
				s[2].rev = 2
			}
			q.Trans(3)
			if !q.Do(func() string { return desc(s) }, func() error { return play(s) }) {
				return
			}
		}
	}
	q.Sample("%d configurations differing in one field of the schema, every ordered pair", len(cs))
}

// wholeEdits changes what belongs to no target: nothing may be called.
func wholeEdits(q *vh.Q) {
	base := build([]string{"t", "u"}, []topt{{"t", baseTarget(), true}, {"u", tg("r1", nil, "b"), true}},
		[]named[*pb.SubscribeRequest]{{"r1", baseReq()}, {"r2", req("z")}})
	base.pb.InstanceId, base.pb.Meta = "i", map[string]string{"k": "v"}
	cs := []conf{base}
	for _, e := range edits(base.pb, 1, map[protoreflect.FullName]bool{"target.Configuration.revision": true, "target.Configuration.target": true}) {
		c := base
		c.pb, c.desc = e.v.(*tpb.Configuration), "configuration"+e.name
		for _, t := range c.pb.Target {
			if c.pb.Request[t.Request] == nil {
				c.valid = false
			}
		}
		cs = append(cs, c)
	}
	editPairs(q, cs, 0, 1)
	var names []string
	for _, c := range cs {
		names = append(names, c.desc)
	}
	q.Sample("%s", strings.Join(names, ", "))
}
