//go:build go1.23

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"google.golang.org/protobuf/encoding/prototext"

	"github.com/openconfig/gnmi/client"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/value"
)

// ---- values ----

// val is a leaf value: how it is sent, what a client should hold and what the
// CLI should print for it in single and group display.
type val struct {
	name          string
	tv            *pb.TypedValue
	dep           *pb.Value
	want          any
	single, group string
}

func tv(name string, v *pb.TypedValue, want any, text string) val {
	return val{name, v, nil, want, text, text}
}

var (
	vStr  = val{"string", &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: "x, \"y\" é"}}, nil, "x, \"y\" é", "x, \"y\" é", `"x, \"y\" é"`}
	vInt  = tv("int", &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: -5}}, int64(-5), "-5")
	vInt2 = tv("int2", &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: 7}}, int64(7), "7")
	vals  = []val{
		vStr, vInt, vInt2,
		{"empty string", &pb.TypedValue{Value: &pb.TypedValue_StringVal{}}, nil, "", "", `""`},
		tv("int zero", &pb.TypedValue{Value: &pb.TypedValue_IntVal{}}, int64(0), "0"),
		tv("int min", &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: -1 << 63}}, int64(-1<<63), "-9223372036854775808"),
		tv("uint max", &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: 1<<64 - 1}}, uint64(1<<64-1), "18446744073709551615"),
		tv("true", &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: true}}, true, "true"),
		tv("false", &pb.TypedValue{Value: &pb.TypedValue_BoolVal{}}, false, "false"),
		tv("bytes", &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: []byte{1, 2}}}, []byte{1, 2}, "[1 2]"),
		tv("float", &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: 1.5}}, float32(1.5), "1.5"),
		tv("double", &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: 2.0000001}}, float64(2.0000001), "2.0000001"),
		tv("decimal", &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: -314, Precision: 2}}}, float32(-3.14), "-3.14"),
		{"leaflist", &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: []*pb.TypedValue{
			{Value: &pb.TypedValue_StringVal{StringVal: "s"}}, {Value: &pb.TypedValue_IntVal{IntVal: 1}}}}}}, nil,
			[]any{"s", int64(1)}, "[s 1]", `["s", 1]`},
		tv("empty leaflist", &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{}}}, []any{}, "[]"),
		tv("json", &pb.TypedValue{Value: &pb.TypedValue_JsonVal{JsonVal: []byte(`{"k":1}`)}},
			value.DeprecatedScalar{Message: "Deprecated TypedValue_JsonVal", Value: map[string]any{"k": float64(1)}}, "{Deprecated TypedValue_JsonVal map[k:1]}"),
		tv("json_ietf", &pb.TypedValue{Value: &pb.TypedValue_JsonIetfVal{JsonIetfVal: []byte(`"5"`)}},
			value.DeprecatedScalar{Message: "Deprecated TypedValue_JsonIetfVal", Value: "5"}, "{Deprecated TypedValue_JsonIetfVal 5}"),
		{"deprecated json", nil, &pb.Value{Type: pb.Encoding_JSON, Value: []byte(`"7"`)}, "7", "7", `"7"`},
		{"deprecated json_ietf", nil, &pb.Value{Type: pb.Encoding_JSON_IETF, Value: []byte(`8`)}, float64(8), "8", "8"},
		{"deprecated bytes", nil, &pb.Value{Type: pb.Encoding_BYTES, Value: []byte{3}}, []byte{3}, "[3]", "[3]"},
	}
)

// update makes an update of a path.
func (v val) update(p *pb.Path) *pb.Update {
	return &pb.Update{Path: p, Val: v.tv, Value: v.dep}
}

// ---- reference state ----

type leaf struct {
	path []string
	v    val
	ts   int64
}

// state is what targets hold, by their joined path.
type state map[string]leaf

func key(p []string) string { return strings.Join(p, "\x00") }

// strs is the index form of a path.
func strs(p *pb.Path) []string {
	var out []string
	if len(p.GetElem()) == 0 {
		return append(out, p.GetElement()...)
	}
	for _, e := range p.GetElem() {
		out = append(out, e.GetName())
		var ks []string
		for k := range e.GetKey() {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, e.GetKey()[k])
		}
	}
	return out
}

func full(target string, pre, p *pb.Path) []string {
	o := pre.GetOrigin()
	if o == "" {
		o = p.GetOrigin()
	}
	if o == "" {
		o = "openconfig"
	}
	out := append([]string{target, o}, strs(pre)...)
	return append(out, strs(p)...)
}

// match says whether query covers path.
func match(query, path []string) bool {
	if len(query) > len(path) {
		return false
	}
	for i, q := range query {
		if q != "*" && q != path[i] {
			return false
		}
	}
	return true
}

// apply makes the state what it is after target sent n: deletes come before
// updates.
func (s state) apply(target string, n *pb.Notification) {
	for _, d := range n.GetDelete() {
		s.del(full(target, n.Prefix, d))
	}
	for _, u := range n.GetUpdate() {
		p := full(target, n.Prefix, u.GetPath())
		s[key(p)] = leaf{p, valOf(u), n.Timestamp}
	}
}

func (s state) del(q []string) {
	for k, l := range s {
		if match(q, l.path) {
			delete(s, k)
		}
	}
}

func valOf(u *pb.Update) val {
	for _, v := range vals {
		if v.tv == u.Val && v.dep == u.Value {
			return v
		}
	}
	if v, ok := more[u.Val]; ok {
		return v
	}
	panic("unknown value")
}

// more are further values.
var more = map[*pb.TypedValue]val{}

func addVal(v val) val {
	more[v.tv] = v
	return v
}

func (s state) clone() state {
	o := state{}
	for k, l := range s {
		o[k] = l
	}
	return o
}

// sub is the part of s that queries (with target and origin) cover.
func (s state) sub(queries ...[]string) state {
	o := state{}
	for k, l := range s {
		for _, q := range queries {
			if match(q, l.path) {
				o[k] = l
			}
		}
	}
	return o
}

// ---- views ----

// view maps paths to texts.
type view map[string]string

func (v view) diff(w view) string {
	var out []string
	for k, x := range v {
		if y, ok := w[k]; !ok {
			out = append(out, fmt.Sprintf("missing %q = %s", k, x))
		} else if x != y {
			out = append(out, fmt.Sprintf("%q = %s, want %s", k, y, x))
		}
	}
	for k, y := range w {
		if _, ok := v[k]; !ok {
			out = append(out, fmt.Sprintf("extra %q = %s", k, y))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// checkLeaves compares what a caching client holds with the state.
func (s state) checkLeaves(ls client.Leaves) string {
	want, got := view{}, view{}
	for k, l := range s {
		want[k] = fmt.Sprintf("%#v", l.v.want)
	}
	for _, l := range ls {
		if len(l.Path) > 1 && l.Path[1] == "meta" {
			continue
		}
		t := fmt.Sprintf("%#v", l.Val)
		if w, ok := s[key(l.Path)]; ok && !reflect.DeepEqual(l.Val, w.v.want) {
			t += " (not equal)"
		}
		got[key(l.Path)] = t
	}
	return want.diff(got)
}

func notMeta(p []string) bool { return len(p) < 2 || p[1] != "meta" }

// groupView is the state as the group display shows it.
func (s state) groupView(ts bool) view {
	v := view{}
	for _, l := range s {
		if ts {
			v[key(append(append([]string(nil), l.path...), "value"))] = l.v.group
			continue
		}
		v[key(l.path)] = l.v.group
	}
	return v
}

func (s state) singleView(delim string) view {
	v := view{}
	for _, l := range s {
		v[strings.Join(l.path, delim)] = l.v.single
	}
	return v
}

// parseGroup parses the trees of a group display.
func parseGroup(out string, ts bool) (trees []view, err error) {
	var stack []string
	var cur view
	for _, line := range strings.Split(out, "\n") {
		t := strings.TrimSpace(line)
		switch {
		case t == "":
		case cur == nil:
			if t != "{" {
				return nil, fmt.Errorf("unexpected line %q in %q", line, out)
			}
			cur = view{}
		case t == "}" || t == "},":
			if len(stack) > 0 {
				stack = stack[:len(stack)-1]
				break
			}
			trees = append(trees, cur)
			cur = nil
		default:
			q, err := strconv.QuotedPrefix(t)
			if err != nil {
				return nil, fmt.Errorf("unexpected line %q in %q", line, out)
			}
			k, _ := strconv.Unquote(q)
			rest := strings.TrimPrefix(t[len(q):], ": ")
			if rest == "{" {
				stack = append(stack, k)
				break
			}
			p := append(append([]string(nil), stack...), k)
			if ts && k == "timestamp" {
				break
			}
			if notMeta(p) {
				kk := key(p)
				if _, ok := cur[kk]; ok {
					return nil, fmt.Errorf("%q twice in %q", p, out)
				}
				cur[kk] = strings.TrimSuffix(rest, ",")
			}
		}
	}
	if cur != nil {
		return nil, fmt.Errorf("unfinished output %q", out)
	}
	return trees, nil
}

// mergeGroup is the view after a sync'd tree and the changes after it.
func mergeGroup(trees []view, ts bool) view {
	v := view{}
	for i, t := range trees {
		if i == 0 {
			for k, x := range t {
				v[k] = x
			}
			continue
		}
		for k, x := range t {
			if x == "<nil>" {
				if ts {
					k = strings.TrimSuffix(k, "\x00value")
				}
				for o := range v {
					if o == k || strings.HasPrefix(o, k+"\x00") {
						delete(v, o)
					}
				}
				continue
			}
			v[k] = x
		}
	}
	return v
}

// mergeSingle is the view after the lines of a single display.
func mergeSingle(out, delim string, ts bool) view {
	v := view{}
	for _, line := range strings.Split(out, "\n") {
		if line == "" {
			continue
		}
		p, val, ok := strings.Cut(line, ", ")
		if !ok {
			p, val = line, "NO VALUE"
		}
		if i := strings.LastIndex(val, ", "); ts && i >= 0 {
			val = val[:i]
		}
		if e := strings.Split(p, delim); len(e) > 1 && e[1] == "meta" {
			continue
		}
		if val == "<nil>" {
			for o := range v {
				if o == p || strings.HasPrefix(o, p+delim) {
					delete(v, o)
				}
			}
			continue
		}
		v[p] = val
	}
	return v
}

// parseProtos parses the messages of a proto display, one per line if short.
func parseProtos(out string, short bool) (rs []*pb.SubscribeResponse, err error) {
	var blocks []string
	for _, line := range strings.Split(out, "\n") {
		switch {
		case line == "":
		case short || len(blocks) == 0 || strings.HasPrefix(line, "update:") || strings.HasPrefix(line, "sync_response:"):
			blocks = append(blocks, line)
		default:
			blocks[len(blocks)-1] += "\n" + line
		}
	}
	for _, b := range blocks {
		r := &pb.SubscribeResponse{}
		if err := prototext.Unmarshal([]byte(b), r); err != nil {
			return nil, fmt.Errorf("%q: %v", b, err)
		}
		rs = append(rs, r)
	}
	return rs, nil
}

// protoView is the view after responses of a server.
func protoView(rs []*pb.SubscribeResponse) view {
	v := view{}
	for _, r := range rs {
		n := r.GetUpdate()
		pre := append([]string{n.GetPrefix().GetTarget(), n.GetPrefix().GetOrigin()}, strs(n.GetPrefix())...)
		if n.GetPrefix().GetOrigin() == "" {
			pre = append([]string{n.GetPrefix().GetTarget()}, strs(n.GetPrefix())...)
		}
		for _, d := range n.GetDelete() {
			k := key(append(append([]string(nil), pre...), strs(d)...))
			for o := range v {
				if o == k || strings.HasPrefix(o, k+"\x00") {
					delete(v, o)
				}
			}
		}
		for _, u := range n.GetUpdate() {
			p := append(append([]string(nil), pre...), strs(u.GetPath())...)
			if !notMeta(p) {
				continue
			}
			v[key(p)] = protoText(u)
		}
	}
	return v
}

// protoText is a canonical text of a value.
func protoText(u *pb.Update) string {
	return fmt.Sprintf("%s %s", u.GetVal(), u.GetValue())
}

func (s state) protoView() view {
	v := view{}
	for _, l := range s {
		v[key(l.path)] = protoText(&pb.Update{Val: l.v.tv, Value: l.v.dep})
	}
	return v
}
