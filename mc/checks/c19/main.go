//go:build go1.23

// Check C19: path indexing and value conversion are deterministic, faithful
// and total.
package main

import (
	"context"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/path"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/value"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vgrpc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vs"
)

// ---- map orders ----

// orders runs f under every order in which the maps it ranges over can be
// visited and returns the number of runs.
func orders(f func() error) (int, error) {
	var choice, width []int
	pos := 0
	vrt.DirectOrder = true
	vrt.OrderChoice = func(n int) int {
		if pos == len(choice) {
			choice, width = append(choice, 0), append(width, n)
		}
		c := choice[pos]
		width[pos] = n
		pos++
		return min(c, n-1)
	}
	defer func() { vrt.DirectOrder, vrt.OrderChoice = false, nil }()
	for n := 1; ; n++ {
		pos = 0
		if err := f(); err != nil {
			return n, err
		}
		i := len(choice) - 1
		for i >= 0 && choice[i] == width[i]-1 {
			i--
		}
		if i < 0 {
			return n, nil
		}
		choice[i]++
		choice, width = choice[:i+1], width[:i+1]
	}
}

// ---- the reference index ----

type kv struct{ k, v string }

type elem struct {
	name string
	keys []kv
}

type spec struct {
	isNil          bool
	target, origin string
	elems          []elem
	element        []string
}

func (s spec) msg() *pb.Path {
	if s.isNil {
		return nil
	}
	p := &pb.Path{Target: s.target, Origin: s.origin}
	for _, e := range s.elems {
		pe := &pb.PathElem{Name: e.name}
		if len(e.keys) > 0 {
			pe.Key = map[string]string{}
			for _, k := range e.keys {
				pe.Key[k.k] = k.v
			}
		}
		p.Elem = append(p.Elem, pe)
	}
	p.Element = slices.Clone(s.element)
	return p
}

func (s spec) index(lead bool) []string {
	out := []string{}
	if s.isNil {
		return out
	}
	if lead && s.target != "" {
		out = append(out, s.target)
	}
	if lead && s.origin != "" {
		out = append(out, s.origin)
	}
	if len(s.elems) == 0 {
		return append(out, s.element...)
	}
	for _, e := range s.elems {
		out = append(out, e.name)
		ks := slices.Clone(e.keys)
		sort.Slice(ks, func(i, j int) bool { return ks[i].k < ks[j].k })
		for _, k := range ks {
			out = append(out, k.v)
		}
	}
	return out
}

func (s spec) text() string {
	if s.isNil {
		return "<nil>"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "target=%q origin=%q elem=[", s.target, s.origin)
	for _, e := range s.elems {
		fmt.Fprintf(&b, " %q", e.name)
		for _, k := range e.keys {
			fmt.Fprintf(&b, "[%q=%q]", k.k, k.v)
		}
	}
	b.WriteString(" ]")
	if s.element != nil {
		fmt.Fprintf(&b, " element=%q", s.element)
	}
	return b.String()
}

func same(a, b []string) bool { return slices.Equal(a, b) }

// ---- ToStrings ----

type keeper struct {
	got  [][]string
	want [][]string
}

// keep remembers some results to see that later calls do not change them.
func (k *keeper) keep(got, want []string) error {
	if len(k.got) == 64 {
		for i := range k.got {
			if !same(k.got[i], k.want[i]) {
				return vh.Errf("aliased", "an index changed after it was returned: now %q, was %q", k.got[i], k.want[i])
			}
		}
		k.got, k.want = k.got[:0], k.want[:0]
	}
	k.got, k.want = append(k.got, got), append(k.want, want)
	return nil
}

// toStrings judges ToStrings for s, in all map orders.
func toStrings(q *vh.Q, k *keeper, s spec) bool {
	return q.Do(func() string { return "path.ToStrings(" + s.text() + ")" }, func() error {
		m := s.msg()
		ref := proto.Clone(m)
		for _, lead := range []bool{false, true} {
			want := s.index(lead)
			n, err := orders(func() error {
				got := path.ToStrings(m, lead)
				if !same(got, want) {
					return vh.Errf("index", "ToStrings(%s, %v) = %q, want %q", s.text(), lead, got, want)
				}
				if err := k.keep(got, want); err != nil {
					return err
				}
				// Appending to a result must not disturb anything.
				_ = append(got, "x", "y")
				return nil
			})
			q.Trans(n)
			if err != nil {
				return err
			}
		}
		if !proto.Equal(m, ref) {
			return vh.Errf("input", "ToStrings changed its argument %s to %v", s.text(), m)
		}
		return nil
	})
}

func keysets(names []string, vals []string, maxN int) [][]kv {
	out := [][]kv{nil}
	var rec func(i int, cur []kv)
	rec = func(i int, cur []kv) {
		if len(cur) > 0 {
			out = append(out, slices.Clone(cur))
		}
		if len(cur) == maxN {
			return
		}
		for j := i; j < len(names); j++ {
			for _, v := range vals {
				rec(j+1, append(cur, kv{names[j], v}))
			}
		}
	}
	rec(0, nil)
	return out
}

func subsets(names []string, n int) [][]string {
	var out [][]string
	var rec func(i int, cur []string)
	rec = func(i int, cur []string) {
		if len(cur) == n {
			out = append(out, slices.Clone(cur))
			return
		}
		for j := i; j < len(names); j++ {
			rec(j+1, append(cur, names[j]))
		}
	}
	rec(0, nil)
	return out
}

var oddNames = []string{"a", "aa", "b", "B", "_", "10", "9", "é", "z-1", "世"}

func toStringsScenarios(thorough bool) []vh.Scenario {
	var out []vh.Scenario
	names := []string{"a", "b", "", "x/y", "é"}
	full := keysets([]string{"k", "j", "K", "k1"}, []string{"v", "w", ""}, 3)
	var tails [][]elem
	tails = append(tails, nil)
	few := keysets([]string{"k", "j"}, []string{"v", "w/x"}, 2)
	for _, n := range []string{"a", ""} {
		for _, ks := range few {
			tails = append(tails, []elem{{n, ks}})
		}
	}
	if thorough {
		for _, ks := range few {
			for _, ks2 := range few {
				tails = append(tails, []elem{{"a", ks}, {"b", ks2}})
			}
		}
	}
	for _, n := range names {
		out = append(out, vh.Scenario{Name: fmt.Sprintf("ToStrings, keyed paths starting with %q", n), Seq: func(q *vh.Q) {
			k := &keeper{}
			for _, ks := range full {
				for _, t := range tails {
					s := spec{elems: append([]elem{{n, ks}}, t...)}
					if q.Expired() || !toStrings(q, k, s) {
						return
					}
					if len(t) > 0 {
						s.elems = append(slices.Clone(t), elem{n, ks})
						if !toStrings(q, k, s) {
							return
						}
					}
				}
			}
		}})
	}
	maxKeys := 5
	if thorough {
		maxKeys = 6
	}
	for n := 2; n <= maxKeys; n++ {
		out = append(out, vh.Scenario{Name: fmt.Sprintf("ToStrings, %d keys of odd names, all map orders", n), Seq: func(q *vh.Q) {
			k := &keeper{}
			for _, ns := range subsets(oddNames, n) {
				for _, rev := range []bool{false, true} {
					var ks []kv
					for i, x := range ns {
						v := fmt.Sprintf("v%d", i)
						if rev {
							v = fmt.Sprintf("v%d", n-i)
						}
						ks = append(ks, kv{x, v})
					}
					if q.Expired() || !toStrings(q, k, spec{target: "t", elems: []elem{{"e", ks}, {"f", nil}}}) {
						return
					}
				}
			}
		}})
	}
	out = append(out, vh.Scenario{Name: "ToStrings, all lengths up to 64 with target, origin and both encodings", Seq: func(q *vh.Q) {
		k := &keeper{}
		for n := 0; n <= 64; n++ {
			for pat := 0; pat < 5; pat++ {
				var es []elem
				var old []string
				for i := 0; i < n; i++ {
					e := elem{name: fmt.Sprint("e", i)}
					nk := pat
					if pat == 4 {
						nk = i % 3
					}
					if n > 12 {
						nk = min(nk, 1)
					}
					for j := 0; j < nk && (n <= 5 || i < 2 || i == n-1); j++ {
						e.keys = append(e.keys, kv{fmt.Sprint("k", 9-j), fmt.Sprint(i, "=", j)})
					}
					es, old = append(es, e), append(old, fmt.Sprint("o", i))
				}
				for _, t := range []string{"", "t"} {
					for _, o := range []string{"", "o"} {
						for _, s := range []spec{{target: t, origin: o, elems: es}, {target: t, origin: o, element: old}, {target: t, origin: o, elems: es, element: old}} {
							if q.Expired() || !toStrings(q, k, s) {
								return
							}
						}
					}
				}
			}
		}
		toStrings(q, k, spec{isNil: true})
	}})
	// History independence: a path edited in place is indexed as it is now.
	out = append(out, vh.Scenario{Name: "ToStrings and CompletePath of a path edited in place", Seq: func(q *vh.Q) {
		ss := small()
		for _, a := range ss {
			for _, b := range ss {
				if a.isNil || b.isNil {
					continue
				}
				ok := q.Do(func() string { return a.text() + "\nedited to " + b.text() }, func() error {
					m, nm := a.msg(), b.msg()
					for i := 0; i < 2; i++ {
						path.ToStrings(m, true)
						path.ToStrings(m, false)
						path.CompletePath(m, nil)
						path.CompletePath(nil, m)
					}
					m.Target, m.Origin, m.Element = nm.Target, nm.Origin, nm.Element
					if len(m.Elem) == len(nm.Elem) {
						for i, e := range nm.Elem {
							m.Elem[i].Name = e.Name
							clear(m.Elem[i].Key)
							if len(e.Key) > 0 && m.Elem[i].Key == nil {
								m.Elem[i].Key = map[string]string{}
							}
							for _, k := range b.elems[i].keys {
								m.Elem[i].Key[k.k] = k.v
							}
						}
					} else {
						m.Elem = nm.Elem
					}
					for _, lead := range []bool{true, false} {
						if got, want := path.ToStrings(m, lead), b.index(lead); !same(got, want) {
							return vh.Errf("index", "ToStrings after the edit gives %q, want %q", got, want)
						}
					}
					return nil
				})
				q.Trans(6)
				if !ok || q.Expired() {
					return
				}
			}
		}
	}})
	return out
}

// small is the alphabet of paths for combinations.
func small() []spec {
	out := []spec{{isNil: true}}
	shapes := []spec{
		{},
		{elems: []elem{{"a", nil}}},
		{elems: []elem{{"a", []kv{{"k", "v"}}}}},
		{elems: []elem{{"a", []kv{{"k", "v"}, {"j", "w"}}}, {"b", nil}}},
		{elems: []elem{{"", nil}}},
		{element: []string{"a"}},
		{element: []string{"b", "c"}},
		{elems: []elem{{"b", nil}}, element: []string{"c"}},
		{elems: []elem{{"o", nil}}},
	}
	for _, t := range []string{"", "t"} {
		for _, o := range []string{"", "o", "p"} {
			for _, s := range shapes {
				s.target, s.origin = t, o
				out = append(out, s)
			}
		}
	}
	return out
}

func completePath(pre, p spec) ([]string, bool) {
	pi, si := pre.index(false), p.index(false)
	switch {
	case pre.origin != "" && p.origin != "":
		return nil, false
	case pre.origin != "":
		return append(append([]string{pre.origin}, pi...), si...), true
	case p.origin != "":
		if len(pi) > 0 {
			return nil, false
		}
		return append([]string{p.origin}, si...), true
	}
	return append(pi, si...), true
}

func completeScenarios() []vh.Scenario {
	return []vh.Scenario{{Name: "CompletePath, all pairs", Seq: func(q *vh.Q) {
		ss := small()
		k := &keeper{}
		for _, a := range ss {
			for _, b := range ss {
				want, ok := completePath(a, b)
				pass := q.Do(func() string { return "path.CompletePath(\n" + a.text() + ",\n" + b.text() + ")" }, func() error {
					x, y := a.msg(), b.msg()
					rx, ry := proto.Clone(x), proto.Clone(y)
					n, err := orders(func() error {
						got, err := path.CompletePath(x, y)
						if (err == nil) != ok {
							return vh.Errf("complete", "CompletePath: error %v, acceptable is %v", err, ok)
						}
						if err != nil {
							return nil
						}
						if !same(got, want) {
							return vh.Errf("complete", "CompletePath gives %q, want %q", got, want)
						}
						_ = append(got, "x")
						return k.keep(got, want)
					})
					q.Trans(n)
					if err == nil && !(proto.Equal(x, rx) && proto.Equal(y, ry)) {
						return vh.Errf("input", "CompletePath changed its arguments")
					}
					return err
				})
				if !pass || q.Expired() {
					return
				}
			}
		}
	}}}
}

// ---- the index the cache uses ----

func cacheScenarios() []vh.Scenario {
	return []vh.Scenario{{Name: "the cache indexes equal paths identically", Seq: func(q *vh.Q) {
		ss := small()
		for _, a := range ss {
			for _, b := range ss {
				if a.isNil || b.isNil {
					continue
				}
				want, ok := completePath(a, b)
				if !ok || b.origin != "" || len(a.index(false))+len(b.index(false)) == 0 || slices.Contains(want, "") {
					continue
				}
				a.target = "t"
				pass := q.Do(func() string { return "update with prefix " + a.text() + "\nand path " + b.text() }, func() error {
					n, err := orders(func() error {
						oc := vrt.OrderChoice
						vrt.OrderChoice = nil // only the order during the updates matters
						c := cache.New([]string{"t"}, cache.WithExcludedMeta(vs.NoMeta))
						vrt.OrderChoice = oc
						for i := int64(1); i <= 2; i++ {
							if err := c.GnmiUpdate(vc.Note(i, a.msg(), []*pb.Update{vc.U(b.msg(), vc.I(i))}, nil)); err != nil {
								return vh.Errf("cache", "update %d: %v", i, err)
							}
						}
						vrt.OrderChoice = nil
						defer func() { vrt.OrderChoice = oc }()
						var got []string
						err := c.Query("t", []string{"*"}, func(p []string, _ *ctree.Leaf, _ any) error {
							if len(p) > 0 && p[0] != "meta" {
								got = append(got, fmt.Sprintf("%q", p))
							}
							return nil
						})
						if err != nil {
							return vh.Errf("cache", "query: %v", err)
						}
						if len(got) != 1 || got[0] != fmt.Sprintf("%q", want) {
							return vh.Errf("cache", "the cache holds %v, want only %q", got, want)
						}
						return nil
					})
					q.Trans(2 * n)
					return err
				})
				if !pass || q.Expired() {
					return
				}
			}
		}
	}}}
}

// ---- client queries ----

var plainElems = []string{"a", "b", "a/b", "/", "a/", "/a", "//", "/a/", "*", "...", "é", "世/界", "a:b", ".", "..", "-", "a=b", "=", "/=", "k=v/w", "0", "'", "\"", "a,b", "{}", "#", "|", "%2F", "&", "~1", "meta", "a//b", "b/"}

// odd elements carry syntax of path strings. They are rejected or taken as
// they are; what they mean is not judged.
var spaced = []string{" ", "a b", " a", "b "}

type cstream struct {
	ctx  context.Context
	sent []*pb.SubscribeRequest
}

func (s *cstream) Header() (metadata.MD, error) { return nil, nil }
func (s *cstream) Trailer() metadata.MD         { return nil }
func (s *cstream) CloseSend() error             { return nil }
func (s *cstream) Context() context.Context     { return s.ctx }
func (s *cstream) RecvMsg(any) error            { return context.Canceled }
func (s *cstream) SendMsg(m any) error {
	b, err := proto.Marshal(m.(proto.Message))
	if err != nil {
		return err
	}
	r := &pb.SubscribeRequest{}
	if err := proto.Unmarshal(b, r); err != nil {
		return err
	}
	s.sent = append(s.sent, r)
	return nil
}

// send runs a real client's Subscribe and returns what it sends.
func send(qr client.Query) (*pb.SubscribeRequest, error) {
	st := &cstream{ctx: vcontext.Background()}
	cc := &vgrpc.ClientConn{}
	cc.OnNewStream = func(context.Context, *vgrpc.ClientConn) (grpc.ClientStream, error) { return st, nil }
	cl, err := gclient.NewFromConn(st.ctx, cc, client.Destination{})
	if err != nil {
		return nil, err
	}
	if err := cl.Subscribe(st.ctx, qr); err != nil {
		return nil, err
	}
	if len(st.sent) != 1 {
		return nil, fmt.Errorf("%d messages sent", len(st.sent))
	}
	return st.sent[0], nil
}

func judgeQueries(ps []client.Path, typ client.Type, spacedOnes bool) error {
	qr := client.Query{Target: "t", Type: typ, Queries: ps, NotificationHandler: func(client.Notification) error { return nil }}
	var in []client.Path
	for _, p := range ps {
		in = append(in, slices.Clone(p))
	}
	r, err := send(qr)
	for i := range in {
		if !same(ps[i], in[i]) {
			return vh.Errf("query", "the query was changed from %q to %q", in[i], ps[i])
		}
	}
	if err != nil {
		if spacedOnes {
			return nil
		}
		return vh.Errf("query", "Subscribe: %v", err)
	}
	if got := r.GetSubscribe().GetPrefix().GetTarget(); got != "t" {
		return vh.Errf("query", "sent for target %q", got)
	}
	subs := r.GetSubscribe().GetSubscription()
	if len(subs) != len(ps) {
		return vh.Errf("query", "%d subscriptions sent for %q", len(subs), ps)
	}
	for i, s := range subs {
		got, err := path.CompletePath(r.GetSubscribe().GetPrefix(), s.GetPath())
		if err != nil {
			return vh.Errf("query", "query %q cannot be indexed: %v", ps[i], err)
		}
		if !same(got, in[i]) {
			return vh.Errf("query", "query %q is indexed as %q", in[i], got)
		}
		// The deprecated form says the same.
		if el := s.GetPath().GetElement(); len(el) > 0 && !same(el, in[i]) {
			return vh.Errf("query", "query %q has deprecated elements %q", in[i], el)
		}
	}
	return nil
}

func queryScenarios(thorough bool) []vh.Scenario {
	var out []vh.Scenario
	one := func(q *vh.Q, ps []client.Path, typ client.Type, sp bool) bool {
		q.Trans(1)
		return !q.Expired() && q.Do(func() string { return fmt.Sprintf("client query %q (type %v)", ps, typ) }, func() error { return judgeQueries(ps, typ, sp) })
	}
	for i := range plainElems {
		e := plainElems[i]
		out = append(out, vh.Scenario{Name: fmt.Sprintf("client queries of up to 3 elements starting with %q", e), Seq: func(q *vh.Q) {
			if !one(q, []client.Path{{e}}, client.Once, false) {
				return
			}
			for _, b := range plainElems {
				if !one(q, []client.Path{{e, b}}, client.Stream, false) || !one(q, []client.Path{{e}, {b, e}}, client.Poll, false) {
					return
				}
				for _, c := range plainElems {
					if !one(q, []client.Path{{e, b, c}}, client.Once, false) {
						return
					}
					if !thorough {
						continue
					}
					for _, d := range plainElems[:12] {
						if !one(q, []client.Path{{e, b, c, d}}, client.Once, false) || !one(q, []client.Path{{d}, {e, b}, {c}}, client.Once, false) {
							return
						}
					}
				}
			}
		}})
	}
	out = append(out, vh.Scenario{Name: "client queries: every ASCII character in every position", Seq: func(q *vh.Q) {
		for ch := rune(1); ch < 0x250; ch++ {
			if strings.ContainsRune(`[]\`, ch) {
				continue
			}
			for _, f := range []string{"%c", "a%c", "%cb", "a%cb", "%[1]c%[1]c", "/%c", "%c/"} {
				e := fmt.Sprintf(f, ch)
				for _, p := range []client.Path{{e}, {"x", e}, {e, "x"}, {"x", e, "y"}} {
					if !one(q, []client.Path{p}, client.Once, ch == ' ') {
						return
					}
				}
			}
		}
	}})
	out = append(out, vh.Scenario{Name: "client queries with spaces or empty", Seq: func(q *vh.Q) {
		one(q, nil, client.Once, false)
		one(q, []client.Path{{}}, client.Once, false)
		one(q, []client.Path{{}, {"a"}}, client.Once, false)
		for _, s := range spaced {
			for _, p := range []client.Path{{s}, {"a", s}, {s, "a/"}} {
				if !one(q, []client.Path{p}, client.Once, true) {
					return
				}
			}
		}
		for n := 4; n <= 40; n++ {
			for _, last := range []string{"x", "x/", "/"} {
				var p client.Path
				for i := 0; i < n-1; i++ {
					p = append(p, fmt.Sprintf("e%d/%d", i, i))
				}
				if !one(q, []client.Path{append(p, last)}, client.Once, false) {
					return
				}
			}
		}
	}})
	// To a real server and back.
	for _, first := range []string{"a", "a/", "a/b", "/"} {
		out = append(out, vh.Scenario{Name: fmt.Sprintf("client queries at a server, leaves starting with %q", first), Seq: func(q *vh.Q) {
			al := []string{"a", "b", "a/b", "/", "a/", "é", "k=v"}
			var leaves [][]string
			for _, b := range al {
				leaves = append(leaves, []string{first, b})
				for _, c := range al[:5] {
					leaves = append(leaves, []string{"x", first, b, c})
				}
			}
			for _, l := range leaves {
				for _, cut := range []int{len(l), len(l) - 1} {
					if q.Expired() || !q.Do(func() string { return fmt.Sprintf("leaves %q\nclient query %q", leaves, l[:cut]) }, func() error { return atServer(q, leaves, l[:cut]) }) {
						return
					}
				}
			}
		}})
	}
	return out
}

// atServer queries a server that stores leaves for what.
func atServer(q *vh.Q, leaves [][]string, what []string) error {
	r, err := send(client.Query{Target: "t", Type: client.Once, Queries: []client.Path{slices.Clone(what)}, NotificationHandler: func(client.Notification) error { return nil }})
	if err != nil {
		return vh.Errf("query", "Subscribe: %v", err)
	}
	want := map[string]bool{}
	for _, l := range leaves {
		if len(l) >= len(what) && same(l[:len(what)], what) {
			want[fmt.Sprintf("%q", l)] = true
		}
	}
	return q.Exec(func(x *vh.X) {
		w := vs.New(x, []string{"t"}, []cache.Option{cache.WithExcludedMeta(vs.NoMeta)}, nil)
		for i, l := range leaves {
			p := &pb.Path{}
			for _, e := range l {
				p.Elem = append(p.Elem, &pb.PathElem{Name: e})
			}
			if err := w.C.GnmiUpdate(vc.Note(int64(i+1), &pb.Path{Target: "t"}, []*pb.Update{vc.U(p, vc.I(int64(i)))}, nil)); err != nil {
				x.Fail("server", "update %q: %v", l, err)
			}
		}
		s := w.Subscribe(r, false)
		w.Settle()
		got := map[string]bool{}
		for _, it := range s.Sent {
			n := it.Resp.GetUpdate()
			for _, u := range n.GetUpdate() {
				ix, err := path.CompletePath(n.GetPrefix(), u.GetPath())
				if err != nil {
					x.Fail("server", "response path: %v", err)
				}
				got[fmt.Sprintf("%q", ix)] = true
			}
		}
		for k := range vrt.RangeMap(want) {
			if !got[k] {
				x.Fail("server", "the query %q does not select the leaf %s (request %v, got %v)", what, k, r, len(got))
			}
		}
		for k := range vrt.RangeMap(got) {
			if !want[k] {
				x.Fail("server", "the query %q selects the leaf %s (request %v)", what, k, r)
			}
		}
	})
}

// ---- values ----

// wide is what x is expected to come back as.
func wide(x any) any {
	switch v := x.(type) {
	case int:
		return int64(v)
	case int8:
		return int64(v)
	case int16:
		return int64(v)
	case int32:
		return int64(v)
	case uint:
		return uint64(v)
	case uint8:
		return uint64(v)
	case uint16:
		return uint64(v)
	case uint32:
		return uint64(v)
	case float32:
		return float64(v)
	case []string:
		out := make([]any, len(v))
		for i := range v {
			out[i] = v[i]
		}
		return out
	case []any:
		out := make([]any, len(v))
		for i := range v {
			out[i] = wide(v[i])
		}
		return out
	}
	return x
}

func sameScalar(got, want any) bool {
	switch w := want.(type) {
	case float64:
		switch g := got.(type) {
		case float64:
			return g == w || math.IsNaN(g) && math.IsNaN(w)
		case float32:
			return float32(w) == g || math.IsNaN(float64(g)) && math.IsNaN(w)
		}
		return false
	case int64:
		switch g := got.(type) {
		case int64:
			return g == w
		case int:
			return int64(g) == w
		}
		return false
	case uint64:
		switch g := got.(type) {
		case uint64:
			return g == w
		case uint:
			return uint64(g) == w
		}
		return false
	case []byte:
		g, ok := got.([]byte)
		return ok && string(g) == string(w)
	case []any:
		switch g := got.(type) {
		case []any:
			if len(g) != len(w) {
				return false
			}
			for i := range g {
				if !sameScalar(g[i], w[i]) {
					return false
				}
			}
			return true
		case []string:
			if len(g) != len(w) {
				return false
			}
			for i := range g {
				if !sameScalar(g[i], w[i]) {
					return false
				}
			}
			return true
		}
		return false
	}
	return got == want
}

func utf(x any) bool {
	switch v := x.(type) {
	case string:
		return utf8.ValidString(v)
	case []string:
		for _, s := range v {
			if !utf8.ValidString(s) {
				return false
			}
		}
	case []any:
		for _, s := range v {
			if !utf(s) {
				return false
			}
		}
	}
	return true
}

type held struct {
	tv   *pb.TypedValue
	want any
}

var heldOnes []held

// roundTrip judges the conversion of x and back.
func roundTrip(x any) error {
	want := wide(x)
	tv, err := value.FromScalar(x)
	if err != nil {
		if !utf(x) {
			return nil
		}
		return vh.Errf("scalar", "FromScalar(%T %v): %v", x, x, err)
	}
	got, err := value.ToScalar(tv)
	if err != nil {
		return vh.Errf("scalar", "ToScalar(FromScalar(%T %v)): %v", x, x, err)
	}
	if !sameScalar(got, want) {
		return vh.Errf("scalar", "%T %v comes back as %T %v", x, x, got, got)
	}
	if !utf(x) {
		return nil
	}
	b, err := proto.Marshal(tv)
	if err != nil {
		return vh.Errf("scalar", "%T %v cannot be encoded: %v", x, x, err)
	}
	on := &pb.TypedValue{}
	if err := proto.Unmarshal(b, on); err != nil {
		return vh.Errf("scalar", "%T %v cannot be decoded: %v", x, x, err)
	}
	if got, err = value.ToScalar(on); err != nil || !sameScalar(got, want) {
		return vh.Errf("scalar", "%T %v comes back over the wire as %T %v (%v)", x, x, got, got, err)
	}
	// Later conversions leave earlier results alone.
	if heldOnes = append(heldOnes, held{tv, want}); len(heldOnes) == 100 {
		hs := heldOnes
		heldOnes = nil
		for _, h := range hs {
			if got, err := value.ToScalar(h.tv); err != nil || !sameScalar(got, h.want) {
				return vh.Errf("aliased", "a value converted from %v later turned into %v", h.want, got)
			}
		}
	}
	return nil
}

func bounds() (out []uint64) {
	for i := 0; i < 64; i++ {
		for d := -2; d <= 2; d++ {
			out = append(out, 1<<i+uint64(d))
		}
	}
	return append(out, math.MaxUint64, 10, 100, 1000000007, 0xdeadbeef, 0x123456789abcdef)
}

func strs() []string {
	out := []string{"", "a", "ab", "é", "世界", "\x00", "\n", "\"", "\\", "true", "1", "1.5", "nil", "\U0001F600", strings.Repeat("x", 70000), "\uFFFD"}
	for i := 0; i < 256; i++ {
		out = append(out, string([]byte{byte(i)}), string([]byte{'a', byte(i)}), string([]byte{0xc3, byte(i)}), string(rune(i)))
	}
	return out
}

func scalarScenarios(thorough bool) []vh.Scenario {
	one := func(q *vh.Q, x any) bool {
		q.Trans(3)
		return !q.Expired() && q.Do(func() string { return fmt.Sprintf("%T %v", x, x) }, func() error { return roundTrip(x) })
	}
	all := func(name string, gen func(yield func(any) bool)) vh.Scenario {
		return vh.Scenario{Name: "scalars: " + name, Seq: func(q *vh.Q) {
			for x := range gen {
				if !one(q, x) {
					return
				}
			}
		}}
	}
	fl := func(yield func(any) bool) {
		for s := uint32(0); s < 2; s++ {
			for e := uint32(0); e < 256; e++ {
				for _, m := range []uint32{0, 1, 2, 0x200000, 0x400000, 0x7ffffe, 0x7fffff, 0x2aaaaa, 0x555555} {
					if !yield(math.Float32frombits(s<<31 | e<<23 | m)) {
						return
					}
				}
			}
		}
	}
	db := func(yield func(any) bool) {
		for s := uint64(0); s < 2; s++ {
			for e := uint64(0); e < 2048; e++ {
				for _, m := range []uint64{0, 1, 2, 1 << 51, 1<<52 - 1, 1<<52 - 2, 1 << 29, 1<<29 - 1, 0x5555555555555, 0xaaaaaaaaaaaaa} {
					if !yield(math.Float64frombits(s<<63 | e<<52 | m)) {
						return
					}
				}
			}
		}
	}
	elems := []any{"", "a", "é", int(-1), int8(-128), int16(7), int32(math.MinInt32), int64(math.MinInt64), uint(3), uint8(255), uint16(9), uint32(math.MaxUint32), uint64(math.MaxUint64), float32(0.1), 0.1, math.Inf(1), math.NaN(), true, false, []byte{}, []byte{0, 255}, []byte(nil), []string{}, []string{"x"}, []any{}, "\xff"}
	return []vh.Scenario{
		all("8 and 16 bit integers and booleans, all of them", func(yield func(any) bool) {
			for i := 0; i < 65536; i++ {
				if !yield(int16(i)) || !yield(uint16(i)) {
					return
				}
				if i < 256 && (!yield(int8(i)) || !yield(uint8(i))) {
					return
				}
			}
			_ = yield(true) && yield(false)
		}),
		all("wider integers around every power of two", func(yield func(any) bool) {
			for _, u := range bounds() {
				for _, x := range []any{int(u), int32(u), int64(u), uint(u), uint32(u), u, -int64(u), -int32(u)} {
					if !yield(x) {
						return
					}
				}
			}
		}),
		all("float32, every exponent", fl),
		all("float64, every exponent", db),
		all("strings and bytes", func(yield func(any) bool) {
			for _, s := range strs() {
				if !yield(s) || !yield([]byte(s)) || !yield([]string{s}) || !yield([]string{"a", s}) || !yield([]any{s, s}) {
					return
				}
			}
			_ = yield([]byte(nil)) && yield([]string(nil)) && yield([]any(nil))
		}),
		all("lists, nested", func(yield func(any) bool) {
			for _, a := range elems {
				if !yield([]any{a}) || !yield([]any{[]any{a}}) {
					return
				}
				for _, b := range elems {
					if !yield([]any{a, b}) || !yield([]any{[]any{a}, b}) || !yield([]any{a, []any{b, []any{a}}}) {
						return
					}
					for _, c := range elems {
						if !yield([]any{a, b, c}) {
							return
						}
					}
				}
			}
			for n := 0; n < 300; n++ {
				var l []any
				var ss []string
				for i := 0; i < n; i++ {
					l, ss = append(l, elems[i%(len(elems)-1)]), append(ss, fmt.Sprint(i))
				}
				if !yield(l) || !yield(ss) {
					return
				}
			}
		}),
	}
}

// ---- value equality ----

func tvs(thorough bool) []*pb.TypedValue {
	s := vc.S
	u := func(x uint64) *pb.TypedValue { return &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: x}} }
	by := func(x []byte) *pb.TypedValue { return &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: x}} }
	f := func(x float32) *pb.TypedValue { return &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: x}} }
	d := vc.D
	dec := func(dg int64, pr uint32) *pb.TypedValue {
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: dg, Precision: pr}}}
	}
	base := []*pb.TypedValue{nil, {}, s(""), s("a"), s("b"), s("1"), s("true"), vc.I(0), vc.I(1), vc.I(-1), vc.I(math.MaxInt64), vc.I(math.MinInt64), vc.I(1 << 53), vc.I(1<<53 + 1),
		u(0), u(1), u(1 << 53), u(1<<53 + 1), u(math.MaxUint64), u(1 << 63), vc.B(true), vc.B(false), by(nil), by([]byte{}), by([]byte("a")), by([]byte("b")), by([]byte{0}), by([]byte("1")),
		f(0), f(float32(math.Copysign(0, -1))), f(1), f(0.1), f(math.Nextafter32(0.1, 1)), f(float32(math.NaN())), f(float32(math.Inf(1))), f(float32(math.Inf(-1))), f(math.MaxFloat32), f(1 << 24),
		d(0), d(math.Copysign(0, -1)), d(1), d(-1), d(0.1), d(math.Nextafter(0.1, 1)), d(float64(float32(0.1))), d(math.NaN()), d(math.Inf(1)), d(math.Inf(-1)), d(1 << 53), d(1<<53 + 2), d(math.MaxFloat64), d(5e-324), d(1e-320),
		{Value: &pb.TypedValue_DecimalVal{}}, dec(0, 0), dec(1, 0), dec(10, 1), dec(1, 1), dec(-1, 1), dec(100, 2), dec(1, 2), dec(math.MaxInt64, 18), dec(math.MaxInt64-1, 18), dec(math.MinInt64, 0), dec(0, 3), dec(1, math.MaxUint32), dec(3, 400),
		vc.J("1"), vc.J(""), vc.J(`{"a":1}`), vc.J(`{"a":2}`), vc.J("null"), vc.J("x"), vc.J("[]"),
		{Value: &pb.TypedValue_JsonIetfVal{JsonIetfVal: []byte("1")}}, {Value: &pb.TypedValue_JsonIetfVal{}}, {Value: &pb.TypedValue_JsonIetfVal{JsonIetfVal: []byte("{")}},
		{Value: &pb.TypedValue_AsciiVal{AsciiVal: "a"}}, {Value: &pb.TypedValue_AsciiVal{AsciiVal: "b"}}, {Value: &pb.TypedValue_AsciiVal{}},
		{Value: &pb.TypedValue_ProtoBytes{ProtoBytes: []byte("a")}}, {Value: &pb.TypedValue_ProtoBytes{ProtoBytes: []byte("b")}}, {Value: &pb.TypedValue_ProtoBytes{}},
		{Value: &pb.TypedValue_AnyVal{}}, {Value: &pb.TypedValue_LeaflistVal{}},
	}
	out := slices.Clone(base)
	out = append(out, vc.L())
	for _, a := range base {
		out = append(out, vc.L(a), vc.L(vc.L(a)))
	}
	few := []*pb.TypedValue{nil, {}, s("a"), s("b"), vc.I(1), vc.I(2), u(1), d(1), f(1), dec(1, 0), vc.B(true), by([]byte("a")), vc.L(), vc.L(s("a")), vc.J("1"), {Value: &pb.TypedValue_DecimalVal{}}}
	for i, a := range few {
		for j, b := range few {
			out = append(out, vc.L(a, b))
			if i < 8 && j < 8 || thorough {
				for _, c := range few[:4] {
					out = append(out, vc.L(a, b, c), vc.L(vc.L(a, b), c))
				}
			}
		}
	}
	return out
}

func sameDec(a, b *pb.Decimal64) bool {
	da, pa, db, pb := a.GetDigits(), a.GetPrecision(), b.GetDigits(), b.GetPrecision()
	for da != 0 && pa > 0 && da%10 == 0 {
		da, pa = da/10, pa-1
	}
	for db != 0 && pb > 0 && db%10 == 0 {
		db, pb = db/10, pb-1
	}
	return da == db && (da == 0 || pa == pb)
}

// sameValue reports whether a and b may be called equal.
func sameValue(a, b *pb.TypedValue) bool {
	if a.GetValue() == nil || b.GetValue() == nil {
		return a.GetValue() == nil && b.GetValue() == nil
	}
	if fmt.Sprintf("%T", a.Value) != fmt.Sprintf("%T", b.Value) {
		return false
	}
	switch a.Value.(type) {
	case *pb.TypedValue_FloatVal:
		x, y := a.GetFloatVal(), b.GetFloatVal()
		return x == y || x != x && y != y
	case *pb.TypedValue_DoubleVal:
		x, y := a.GetDoubleVal(), b.GetDoubleVal()
		return x == y || x != x && y != y
	case *pb.TypedValue_DecimalVal:
		return sameDec(a.GetDecimalVal(), b.GetDecimalVal())
	case *pb.TypedValue_LeaflistVal:
		x, y := a.GetLeaflistVal().GetElement(), b.GetLeaflistVal().GetElement()
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case *pb.TypedValue_BytesVal:
		return string(a.GetBytesVal()) == string(b.GetBytesVal())
	}
	return proto.Equal(a, b)
}

func txt(v *pb.TypedValue) string {
	if v == nil {
		return "<nil>"
	}
	if l, ok := v.Value.(*pb.TypedValue_LeaflistVal); ok {
		var p []string
		for _, e := range l.LeaflistVal.GetElement() {
			p = append(p, txt(e))
		}
		return "leaflist(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("%T(%v)", v.Value, v)
}

func equalScenarios(thorough bool) []vh.Scenario {
	var out []vh.Scenario
	const parts = 8
	for part := 0; part < parts; part++ {
		out = append(out, vh.Scenario{Name: fmt.Sprintf("value.Equal, all pairs, part %d of %d", part+1, parts), Seq: func(q *vh.Q) {
			vs, copies := tvs(thorough), tvs(thorough)
			for i, a := range vs {
				if i%parts != part {
					continue
				}
				for j, b := range copies {
					ok := q.Do(func() string { return "value.Equal(" + txt(a) + ", " + txt(b) + ")" }, func() error {
						x, y, z := value.Equal(a, b), value.Equal(b, a), value.Equal(a, b)
						if x != y || x != z {
							return vh.Errf("symmetry", "Equal(%s, %s) is %v, reversed %v, again %v", txt(a), txt(b), x, y, z)
						}
						if x && !sameValue(a, b) {
							return vh.Errf("equal", "Equal(%s, %s) is true", txt(a), txt(b))
						}
						return nil
					})
					q.Trans(3)
					if !ok || q.Expired() {
						return
					}
					_ = j
				}
			}
			// Nothing was changed.
			for i := range vs {
				if !q.Do(func() string { return txt(vs[i]) }, func() error {
					if f := tvs(thorough)[i]; vs[i] != nil && (txt(vs[i]) != txt(f) || txt(copies[i]) != txt(f)) {
						return vh.Errf("input", "Equal changed its argument to %s", txt(vs[i]))
					}
					return nil
				}) {
					return
				}
			}
		}})
	}
	out = append(out, vh.Scenario{Name: "value.ToScalar is total, deterministic and faithful", Seq: func(q *vh.Q) {
		for _, v := range tvs(thorough) {
			q.Trans(2)
			if !q.Do(func() string { return "value.ToScalar(" + txt(v) + ")" }, func() error {
				a, err := value.ToScalar(v)
				b, err2 := value.ToScalar(v)
				if (err == nil) != (err2 == nil) || err == nil && fmt.Sprintf("%T %v", a, a) != fmt.Sprintf("%T %v", b, b) {
					return vh.Errf("scalar", "ToScalar(%s) is %v %v, then %v %v", txt(v), a, err, b, err2)
				}
				if want, ok := scalar(v); ok && (err != nil || !sameScalar(wide(a), wide(want))) {
					return vh.Errf("scalar", "ToScalar(%s) is %T %v %v, want %v", txt(v), a, a, err, want)
				}
				return nil
			}) || q.Expired() {
				return
			}
		}
	}})
	return out
}

// scalar is the Go value v has to be converted to, if that is clear.
func scalar(v *pb.TypedValue) (any, bool) {
	switch x := v.GetValue().(type) {
	case *pb.TypedValue_StringVal:
		return x.StringVal, true
	case *pb.TypedValue_IntVal:
		return x.IntVal, true
	case *pb.TypedValue_UintVal:
		return x.UintVal, true
	case *pb.TypedValue_BoolVal:
		return x.BoolVal, true
	case *pb.TypedValue_BytesVal:
		return x.BytesVal, true
	case *pb.TypedValue_FloatVal:
		return x.FloatVal, true
	case *pb.TypedValue_DoubleVal:
		return x.DoubleVal, true
	case *pb.TypedValue_LeaflistVal:
		out := []any{}
		for _, e := range x.LeaflistVal.GetElement() {
			s, ok := scalar(e)
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	return nil, false
}

// ---- concurrency ----

func concScenarios() []vh.Scenario {
	type call struct {
		name string
		f    func() string
	}
	k2 := spec{target: "t", elems: []elem{{"a", []kv{{"k", "v"}, {"j", "w"}, {"l", "x"}}}, {"b", nil}}}
	k1 := spec{origin: "o", elems: []elem{{"c", []kv{{"z", "1"}, {"y", "2"}}}}}
	calls := func() []call {
		m1, m2 := k1.msg(), k2.msg()
		va, vb := vc.L(vc.S("a"), vc.I(1)), vc.L(vc.S("a"), vc.I(2))
		return []call{
			{"ToStrings", func() string { return fmt.Sprintf("%q", path.ToStrings(m2, true)) }},
			{"ToStrings2", func() string { return fmt.Sprintf("%q", path.ToStrings(m1, true)) }},
			{"CompletePath", func() string { s, err := path.CompletePath(m1, m2); return fmt.Sprintf("%q %v", s, err) }},
			{"values", func() string {
				v, err := value.FromScalar([]any{"a", 1.5})
				s, err2 := value.ToScalar(v)
				return fmt.Sprint(value.Equal(va, vb), s, err, err2)
			}},
			{"request", func() string {
				r, err := gclient.ToSubscribeRequest(client.Query{Target: "t", Queries: []client.Path{{"a/b", "c/"}}})
				return fmt.Sprint(vc.Msg(r), err)
			}},
		}
	}
	var out []vh.Scenario
	n := len(calls())
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			ref := calls()
			want := []string{ref[i].f(), ref[j].f()}
			out = append(out, vh.Scenario{
				Name: fmt.Sprintf("concurrent %s and %s", ref[i].name, ref[j].name), MaxBound: 6, Declared: 2, Race: true, RaceBound: 1,
				Opt: vrt.Options{MapDev: true},
				Body: func(x *vh.X) {
					cs := calls()
					var got [2]string
					for t, c := range []int{i, j} {
						vrt.GoN(fmt.Sprint("caller", t), func() {
							got[t] = cs[c].f()
							vrt.Yield()
							if again := cs[c].f(); again != got[t] {
								x.Fail("concurrent", "%s gives %s, then %s", cs[c].name, got[t], again)
							}
						})
					}
					vrt.Quiesce()
					if vrt.RaceEnabled {
						return
					}
					for t := range got {
						if got[t] != want[t] {
							x.Fail("concurrent", "call %d gives %s, alone %s", t, got[t], want[t])
						}
					}
				},
			})
		}
	}
	return out
}

func main() {
	vh.Main(vh.Check{
		Property: "C19", QuickSec: 40, ThoroughSec: 400,
		Rule: "All paths, prefix/path pairs, client queries, scalars and pairs of values over the stated alphabets are enumerated, and ladders of sizes beyond them, each under every order in which the maps involved can be visited, and compared with a reference written from the property.",
		Assumptions: []string{
			"plain query elements are non-empty UTF-8 strings without the path-string syntax characters '[', ']' and '\\'; elements with spaces may be refused but not changed",
			"0 and -0 count as the same value, as do decimals of the same numeric value",
			"messages hold no nil elements in repeated fields other than leaf-list elements",
		},
		Scenarios: func(tier string) []vh.Scenario {
			th := tier == "thorough"
			out := toStringsScenarios(th)
			out = append(out, completeScenarios()...)
			out = append(out, cacheScenarios()...)
			out = append(out, queryScenarios(th)...)
			out = append(out, scalarScenarios(th)...)
			out = append(out, equalScenarios(th)...)
			return append(append(out, sizeScenarios(th)...), concScenarios()...)
		},
	})
}
