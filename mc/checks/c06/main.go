//go:build go1.23

// Check C06: the streaming filter agrees with queries; one delivery per
// notification; nothing after removal.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/match"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vm"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vs"
)

// agree is the specified relation.
func agree(q, p []string) bool {
	for i := 0; i < len(q) && i < len(p); i++ {
		if q[i] != p[i] && q[i] != "*" && p[i] != "*" {
			return false
		}
	}
	return true
}

func paths(alpha []string, n int) [][]string {
	out := [][]string{{}}
	last := out
	for i := 0; i < n; i++ {
		var next [][]string
		for _, p := range last {
			for _, e := range alpha {
				next = append(next, append(append([]string(nil), p...), e))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

type client struct {
	name string
	n    int
	got  []any
}

func (c *client) Update(v interface{}) { c.n++; c.got = append(c.got, v) }

// pairs: one query, one path, for every pair.
func pairs(alpha []string, n int, part, parts int) func(q *vh.Q) {
	return func(q *vh.Q) {
		all := paths(alpha, n)
		for i := part; i < len(all); i += parts {
			if q.Expired() {
				return
			}
			query := all[i]
			q.State(fmt.Sprintf("%q", query))
			if !q.Do(func() string { return fmt.Sprintf("query %q", query) }, func() error {
				m := match.New()
				c, other := &client{}, &client{}
				rm := m.AddQuery(append([]string(nil), query...), c)
				rm2 := m.AddQuery(append([]string(nil), query...), other)
				for _, p := range all {
					q.Trans(2)
					want := 0
					if agree(query, p) {
						want = 1
					}
					c.n, other.n = 0, 0
					m.Update(1, append([]string(nil), p...))
					if c.n != want || other.n != want {
						return vh.Errf("relation", "path %q was offered %d and %d times by Update to two clients with query %q, want %d", p, c.n, other.n, query, want)
					}
					c.n, other.n = 0, 0
					m.UpdateOnce(1, append([]string(nil), p...), map[match.Client]struct{}{})
					if c.n != want || other.n != want {
						return vh.Errf("relation", "path %q was offered %d and %d times by UpdateOnce to two clients with query %q, want %d", p, c.n, other.n, query, want)
					}
				}
				rm()
				for _, p := range all {
					want := 0
					if agree(query, p) {
						want = 1
					}
					c.n, other.n = 0, 0
					m.Update(1, append([]string(nil), p...))
					if c.n != 0 {
						return vh.Errf("after-removal", "path %q was offered to query %q after its removal", p, query)
					}
					if other.n != want {
						return vh.Errf("others", "path %q was offered %d times to another client with query %q after the first was removed, want %d", p, other.n, query, want)
					}
				}
				rm()
				rm2()
				return nil
			}) {
				return
			}
			q.Sample("query %q against %d paths", query, len(all))
		}
	}
}

// contained: every leaf a query returns is also streamed.
func contained(part, parts int) func(q *vh.Q) {
	return func(q *vh.Q) {
		all := paths([]string{"a", "b", "*"}, 3)
		leaves := paths([]string{"a", "b"}, 4)
		for i := part; i < len(all); i += parts {
			if q.Expired() {
				return
			}
			query := all[i]
			q.State(fmt.Sprintf("%q", query))
			if !q.Do(func() string { return fmt.Sprintf("query %q", query) }, func() error {
				m := match.New()
				c := &client{}
				m.AddQuery(append([]string(nil), query...), c)
				for _, l := range leaves {
					if len(l) == 0 {
						continue
					}
					t := &ctree.Tree{}
					if err := t.Add(append([]string(nil), l...), 1); err != nil {
						return vh.Errf("add", "%v", err)
					}
					found := false
					t.Query(append([]string(nil), query...), func([]string, *ctree.Leaf, interface{}) error { found = true; return nil })
					c.n = 0
					m.Update(1, append([]string(nil), l...))
					q.Trans(2)
					if found && c.n == 0 {
						return vh.Errf("not-streamed", "leaf %q is returned by the query %q but not streamed", l, query)
					}
				}
				return nil
			}) {
				return
			}
		}
	}
}

// notifications: several paths per client, several updates and deletes per
// notification, through subscribe.UpdateNotification.
func notifications(part, parts int) func(q *vh.Q) {
	return func(q *vh.Q) {
		qs := paths([]string{"a", "b", "*"}, 2)
		ps := paths([]string{"a", "b", "*"}, 2)
		type set struct {
			u, d   [][]string
			atomic bool
			enc    bool // deprecated encoding
		}
		var sets []set
		miss := []string{"x", "x"}
		for _, p := range ps {
			sets = append(sets, set{u: [][]string{p}}, set{d: [][]string{p}}, set{u: [][]string{p}, atomic: true}, set{u: [][]string{p}, enc: true}, set{d: [][]string{p}, atomic: true}, set{u: [][]string{miss}, d: [][]string{p}, atomic: true}, set{d: [][]string{p}, enc: true},
				set{u: [][]string{miss, miss, p}}, set{u: [][]string{p, miss, miss}, atomic: true}, set{u: [][]string{miss}, d: [][]string{miss, p}})
			for _, p2 := range ps {
				sets = append(sets, set{u: [][]string{p}, d: [][]string{p2}}, set{u: [][]string{p, p2}}, set{d: [][]string{p, p2}},
					set{u: [][]string{p, p2}, atomic: true}, set{u: [][]string{p}, d: [][]string{p2}, enc: true})
			}
		}
		for i := part; i < len(qs)*len(qs); i += parts {
			if q.Expired() {
				return
			}
			q1, q2 := qs[i/len(qs)], qs[i%len(qs)]
			q.State(fmt.Sprintf("%q %q", q1, q2))
			if !q.Do(func() string { return fmt.Sprintf("queries %q and %q", q1, q2) }, func() error {
				m := match.New()
				two, one := &client{name: "both"}, &client{name: "first"}
				add := func(c *client, p []string) func() { return m.AddQuery(append([]string{"t"}, p...), c) }
				r1, r2, r3 := add(two, q1), add(two, q2), add(one, q1)
				for si, s := range sets {
					n := &pb.Notification{Prefix: &pb.Path{Target: "t"}, Atomic: s.atomic}
					mk := vc.P
					if s.enc {
						mk = vc.E
					}
					w1, w2 := 0, 0
					for _, u := range append(append([][]string(nil), s.u...), s.d...) {
						if agree(q1, u) {
							w1, w2 = 1, 1
						}
						if agree(q2, u) {
							w2 = 1
						}
					}
					for _, u := range s.u {
						n.Update = append(n.Update, vc.U(mk(u...), vc.I(1)))
					}
					for _, d := range s.d {
						n.Delete = append(n.Delete, mk(d...))
					}
					two.n, one.n = 0, 0
					q.Trans(1)
					pre := make([]string, 0, 8)
					subscribe.UpdateNotification(m, n, n, append(pre, "t"))
					if two.n != w2 || one.n != w1 {
						return vh.Errf("once", "%s was offered %d times to the client with %q and %q (want %d) and %d times to the client with %q (want %d)", vc.Msg(n), two.n, q1, q2, w2, one.n, q1, w1)
					}
					_ = si
				}
				// Removal of one query leaves the others.
				if vm.K(q1) != vm.K(q2) {
					r1()
					r1()
					for _, p := range ps {
						w1, w2 := 0, 0
						if agree(q1, p) {
							w1 = 1
						}
						if agree(q2, p) {
							w2 = 1
						}
						two.n, one.n = 0, 0
						n := &pb.Notification{Delete: []*pb.Path{vc.P(p...)}}
						subscribe.UpdateNotification(m, n, n, []string{"t"})
						if two.n != w2 || one.n != w1 {
							return vh.Errf("partial-removal", "after one client removed query %q, path %q was offered %d times to it (still has %q, want %d) and %d times to another client with %q (want %d)", q1, p, two.n, q2, w2, one.n, q1, w1)
						}
					}
				}
				r1()
				r2()
				r3()
				return nil
			}) {
				return
			}
		}
	}
}

// histories: all sequences of adds, removals and updates of three clients.
func histories(depth int, part, parts int) func(q *vh.Q) {
	return func(q *vh.Q) {
		queries := [][]string{{}, {"a"}, {"a", "b"}, {"*", "b"}, {"a", "*"}, {"a", "b", "c"}}
		upd := [][]string{{}, {"a"}, {"a", "b"}, {"b", "b"}, {"a", "c"}, {"*"}, {"a", "b", "d"}}
		const clients = 2
		nq := len(queries)
		nops := clients * nq // toggle registration
		// The states are the sets of registrations; explore every sequence of
		// toggles to the depth, checking every update in every state.
		var walk func(seq []int) bool
		walk = func(seq []int) bool {
			if q.Expired() {
				return false
			}
			desc := func() string {
				var b []string
				for _, o := range seq {
					b = append(b, fmt.Sprintf("toggle client %d query %q", o/nq, queries[o%nq]))
				}
				return strings.Join(b, "; ")
			}
			if !q.Do(desc, func() error {
				m := match.New()
				cs := []*client{{}, {}}
				on := map[int]func(){}
				check := func() error {
					for _, p := range upd {
						for _, c := range cs {
							c.n = 0
						}
						m.UpdateOnce(1, append([]string(nil), p...), map[match.Client]struct{}{})
						q.Trans(1)
						for ci, c := range cs {
							want := 0
							for o := range on {
								if o/nq == ci && agree(queries[o%nq], p) {
									want = 1
								}
							}
							if c.n != want {
								return vh.Errf("history", "update %q was offered %d times to client %d, want %d", p, c.n, ci, want)
							}
						}
					}
					return nil
				}
				for i, o := range seq {
					if rm, ok := on[o]; ok {
						rm()
						delete(on, o)
					} else {
						on[o] = m.AddQuery(append([]string(nil), queries[o%nq]...), cs[o/nq])
					}
					if i == len(seq)-1 {
						if err := check(); err != nil {
							return err
						}
					}
				}
				var ks []string
				for o := range on {
					ks = append(ks, fmt.Sprint(o))
				}
				sort.Strings(ks)
				q.State(strings.Join(ks, ","))
				return nil
			}) {
				return false
			}
			if len(seq) < depth {
				for o := 0; o < nops; o++ {
					if len(seq) == 0 && o%parts != part {
						continue
					}
					if !walk(append(append([]int(nil), seq...), o)) {
						return false
					}
				}
			}
			return true
		}
		walk(nil)
	}
}

// server: a STREAM subscription of the real server is offered exactly the
// agreeing notifications, each once.
func server(name string, reqs []*pb.SubscribeRequest) vh.Scenario {
	return vh.Scenario{Name: name, Seq: func(q *vh.Q) {
		ps := paths([]string{"a", "b", "o", "*"}, 3)
		for _, req := range reqs {
			for _, uo := range []bool{false, true} {
				if q.Expired() {
					return
				}
				req := vs.CloneReq(req)
				req.GetSubscribe().UpdatesOnly = uo
				d := vc.Msg(req)
				q.State(d)
				q.Sample("%s against %d paths as updates and deletes", d, len(ps))
				if !q.Do(func() string { return d }, func() error {
					return q.Exec(func(x *vh.X) {
						w := vs.New(x, []string{"t", "s"}, []cache.Option{cache.WithExcludedMeta(vs.NoMeta)}, nil)
						idle := func() int {
							n := &pb.Notification{Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{vc.U(vc.P("a", "b"), vc.I(1))}}
							at := vrt.StepCount()
							for _, p := range ps {
								n.Update[0].Path = vc.P(p...)
								w.S.Update(ctree.DetachedLeaf(n))
							}
							return vrt.StepCount() - at
						}
						base := idle()
						s := w.Subscribe(req, false)
						w.Settle()
						if s.Ended || s.Syncs() != 1 || len(s.Sent) != 1 {
							x.Fail("setup", "subscription to an empty cache: ended=%v %v, %d responses", s.Ended, s.Err, len(s.Sent))
						}
						s.Block()
						hold := &pb.Notification{Prefix: &pb.Path{Target: req.GetSubscribe().GetPrefix().GetTarget()}, Delete: []*pb.Path{vc.P("*", "*", "*", "*")}}
						if hold.Prefix.Target == "*" {
							hold.Prefix.Target = "t"
						}
						w.S.Update(ctree.DetachedLeaf(hold))
						w.Settle() // the sender is now stalled with one item
						seen := len(s.Sent)
						var want []*pb.Notification
						offer := func(n *pb.Notification, ix [][]string) {
							hit := false
							for _, pat := range vs.Patterns(req) {
								for _, i := range ix {
									if agree(append([]string{req.GetSubscribe().GetPrefix().GetTarget()}, pat...), append([]string{n.GetPrefix().GetTarget()}, i...)) {
										hit = true
									}
								}
							}
							w.S.Update(ctree.DetachedLeaf(n))
							q.Trans(1)
							if hit {
								want = append(want, n)
							}
						}
						for _, t := range []string{"t", "s"} {
							for _, p := range ps {
								if len(p) == 1 && p[0] == "*" || len(p) == 0 {
									continue // ends a subscription as a whole-target delete
								}
								up := &pb.Notification{Prefix: &pb.Path{Target: t}, Update: []*pb.Update{vc.U(vc.P(p...), vc.I(1))}}
								offer(up, [][]string{p})
								offer(&pb.Notification{Prefix: &pb.Path{Target: t}, Delete: []*pb.Path{vc.P(p...)}}, [][]string{p})
								offer(&pb.Notification{Prefix: &pb.Path{Target: t, Elem: vc.P(p[:1]...).Elem}, Update: []*pb.Update{vc.U(vc.P(p[1:]...), vc.I(1))}}, [][]string{p})
								offer(&pb.Notification{Prefix: &pb.Path{Target: t, Origin: p[0]}, Update: []*pb.Update{vc.U(vc.P(p[1:]...), vc.I(1))}}, [][]string{p})
								if len(p) > 1 {
									// Other encodings of the same index path.
									pt := &pb.Path{Target: t}
									offer(&pb.Notification{Prefix: pt, Update: []*pb.Update{vc.U(vc.E(p...), vc.I(1))}}, [][]string{p})
									offer(&pb.Notification{Prefix: pt, Delete: []*pb.Path{vc.E(p...)}}, [][]string{p})
									offer(&pb.Notification{Prefix: &pb.Path{Target: t, Element: p[:1]}, Update: []*pb.Update{vc.U(vc.E(p[1:]...), vc.I(1))}}, [][]string{p})
									offer(&pb.Notification{Prefix: pt, Update: []*pb.Update{vc.U(keyed(p), vc.I(1))}}, [][]string{p})
									offer(&pb.Notification{Prefix: pt, Delete: []*pb.Path{keyed(p)}}, [][]string{p})
									kp := keyed(p)
									kp.Target = t
									offer(&pb.Notification{Prefix: kp, Atomic: true, Update: []*pb.Update{vc.U(vc.P("b"), vc.I(1)), vc.U(vc.P("x", "y"), vc.I(2))}},
										[][]string{append(append([]string(nil), p...), "b"), append(append([]string(nil), p...), "x", "y")})
									offer(&pb.Notification{Prefix: vs.CloneP(kp), Atomic: true, Update: []*pb.Update{vc.U(nil, vc.I(1))}}, [][]string{p})
								}
								if p[len(p)-1] != "a" {
									continue
								}
								p2 := append(append([]string(nil), p[:len(p)-1]...), "b")
								offer(&pb.Notification{Prefix: &pb.Path{Target: t}, Update: []*pb.Update{vc.U(vc.P(p...), vc.I(1)), vc.U(vc.P(p2...), vc.I(1))}, Delete: []*pb.Path{vc.P("a", "x")}}, [][]string{p, p2, {"a", "x"}})
							}
						}
						s.Unblock()
						w.Settle()
						if s.Ended {
							x.Fail("ended", "the subscription ended: %v", s.Err)
						}
						got := s.Sent[seen:]
						for i := 0; i < len(want) || i < len(got); i++ {
							switch {
							case i >= len(want):
								x.Fail("extra", "%s was streamed", vc.Msg(got[i].Resp))
							case i >= len(got) || !same(want[i], got[i].Resp.GetUpdate()):
								g := "nothing"
								if i < len(got) {
									g = vc.Msg(got[i].Resp)
								}
								x.Fail("streamed", "the next agreeing notification is %s, the subscriber received %s", vc.Msg(want[i]), g)
							}
							for _, u := range got[i].Resp.GetUpdate().GetUpdate() {
								if u.GetDuplicates() != 0 {
									x.Fail("offered-twice", "%s was offered %d times", vc.Msg(want[i]), 1+u.GetDuplicates())
								}
							}
						}
						s.Cancel()
						w.Settle()
						if !s.Ended {
							x.Fail("not-ended", "cancelled subscription did not end")
						}
						if n := idle(); n != base {
							x.Fail("stale-registration", "after the subscription ended the publication of an update still costs %d operations instead of %d: some registration is left", n, base)
						}
					})
				}) {
					return
				}
			}
		}
	}}
}

// keyed is an encoding of the index path p with list keys.
func keyed(p []string) *pb.Path {
	e := &pb.PathElem{Name: p[0], Key: map[string]string{}}
	for i, v := range p[1:] {
		e.Key[fmt.Sprintf("k%d", i)] = v
	}
	return &pb.Path{Elem: []*pb.PathElem{e}}
}

func same(a, b *pb.Notification) bool {
	c := vc.Single(b, nil)
	c.Update, c.Delete = b.GetUpdate(), b.GetDelete()
	strip := func(n *pb.Notification) string {
		s := ""
		for _, u := range n.GetUpdate() {
			s += fmt.Sprintf("%q %v;", vc.Index(n.GetPrefix(), u.GetPath()), u.GetVal().GetIntVal())
		}
		for _, d := range n.GetDelete() {
			s += fmt.Sprintf("-%q;", vc.Index(n.GetPrefix(), d))
		}
		return n.GetPrefix().GetTarget() + ":" + s
	}
	return b != nil && strip(a) == strip(b)
}

// sessions: every sequence of subscribe, unsubscribe and update operations of
// several subscribers of the real server.
func sessions(depth, part, parts int) func(q *vh.Q) {
	return func(q *vh.Q) {
		reqs := []*pb.SubscribeRequest{vs.Stream("t", "", true, "a", "b"), vs.Stream("t", "", true, "b", "a/b", "a"), vs.Stream("*", "", true, "*/b", "a/b")}
		ups := [][]string{{"a", "b"}, {"b", "b"}, {"a", "c"}}
		nops := len(reqs) + len(ups)
		var walk func(seq []int) bool
		walk = func(seq []int) bool {
			if q.Expired() {
				return false
			}
			desc := func() string {
				var b []string
				for _, o := range seq {
					if o < len(reqs) {
						b = append(b, fmt.Sprintf("toggle subscriber %d", o))
					} else {
						b = append(b, fmt.Sprintf("update %q", ups[o-len(reqs)]))
					}
				}
				return strings.Join(b, "; ")
			}
			if len(seq) == depth {
				q.State(fmt.Sprint(seq))
				return q.Do(desc, func() error {
					return q.Exec(func(x *vh.X) {
						w := vs.New(x, []string{"t"}, []cache.Option{cache.WithExcludedMeta(vs.NoMeta)}, nil)
						at := vrt.StepCount()
						for _, u := range ups {
							w.S.Update(ctree.DetachedLeaf(&pb.Notification{Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{vc.U(vc.P(u...), vc.I(1))}}))
						}
						base := vrt.StepCount() - at
						live := make([]*vs.Sub, len(reqs))
						want := map[*vs.Sub][]int64{}
						for k, o := range seq {
							switch {
							case o < len(reqs) && live[o] == nil:
								live[o] = w.Subscribe(vs.CloneReq(reqs[o]), false)
							case o < len(reqs):
								live[o].Cancel()
								live[o] = nil
							default:
								p := ups[o-len(reqs)]
								for i, s := range live {
									if s != nil && vs.Matches(reqs[i], "t", p) {
										want[s] = append(want[s], int64(k+10))
									}
								}
								w.Set("t", int64(k+10), int64(k+10), p...)
							}
							w.Settle()
						}
						for _, s := range w.Subs {
							var got []int64
							for _, it := range s.Sent {
								if n := it.Resp.GetUpdate(); n != nil {
									got = append(got, n.GetUpdate()[0].GetVal().GetIntVal())
									if d := n.GetUpdate()[0].GetDuplicates(); d != 0 {
										w.Fail("offered-twice", "subscriber %d was offered %s %d times", s.ID, vc.Msg(n), d+1)
									}
								}
							}
							if fmt.Sprint(got) != fmt.Sprint(want[s]) {
								w.Fail("session", "subscriber %d (%v) received the updates %v, want %v", s.ID, vc.Msg(s.Req), got, want[s])
							}
							if !s.Ended {
								s.Cancel()
							}
						}
						w.Settle()
						at = vrt.StepCount()
						for _, u := range ups {
							w.S.Update(ctree.DetachedLeaf(&pb.Notification{Prefix: &pb.Path{Target: "t"}, Update: []*pb.Update{vc.U(vc.P(u...), vc.I(1))}}))
						}
						if n := vrt.StepCount() - at; n != base {
							x.Fail("stale-registration", "after all subscriptions ended the publication of updates costs %d operations instead of %d: some registration is left", n, base)
						}
						x.Outcome("%v", want)
					})
				})
			}
			for o := 0; o < nops; o++ {
				if len(seq) == 0 && o%parts != part {
					continue
				}
				if !walk(append(append([]int(nil), seq...), o)) {
					return false
				}
			}
			return true
		}
		walk(nil)
	}
}

// Concurrent use of the match package.
type cclient struct {
	x       *vh.X
	removed bool
	got     []int
	name    string
}

func (c *cclient) Update(v interface{}) {
	vrt.Event(fmt.Sprintf("%s offered %v", c.name, v))
	if c.removed {
		c.x.Fail("after-removal", "%s was offered %v after its removal returned\n%s", c.name, v, vh.EventLog())
	}
	c.got = append(c.got, v.(int))
}

type span struct{ from, to int }

type cconf struct {
	name    string
	clients [][][]string // queries per client
	remove  []bool       // whether the client unregisters
	updates [][][]string // per updater: paths
	once    bool
}

func cbody(c cconf) func(x *vh.X) {
	return func(x *vh.X) {
		m := match.New()
		cs := make([]*cclient, len(c.clients))
		reg := make([]span, len(c.clients))   // registration call
		unreg := make([]span, len(c.clients)) // removal call
		for i := range c.clients {
			i := i
			cs[i] = &cclient{x: x, name: fmt.Sprintf("client%d", i), got: make([]int, 0, 32)}
			reg[i], unreg[i] = span{-1, -1}, span{1 << 30, 1 << 30}
			vrt.GoN(cs[i].name, func() {
				rms := make([]func(), 0, 4)
				vrt.Yield()
				reg[i].from = vrt.Event(cs[i].name + " registers")
				for _, q := range c.clients[i] {
					rms = append(rms, m.AddQuery(append([]string(nil), q...), cs[i]))
				}
				reg[i].to = vrt.Event(cs[i].name + " registered")
				if !c.remove[i] {
					return
				}
				vrt.Yield()
				unreg[i].from = vrt.Event(cs[i].name + " leaves")
				for _, r := range rms {
					r()
				}
				cs[i].removed = true
				unreg[i].to = vrt.Event(cs[i].name + " left")
			})
		}
		type up struct {
			p  []string
			at span
		}
		ups := make([]up, 0, 16)
		for i, th := range c.updates {
			th := th
			base := len(ups)
			for _, p := range th {
				ups = append(ups, up{p, span{-1, -1}})
			}
			vrt.GoN(fmt.Sprintf("updater%d", i), func() {
				for k, p := range th {
					vrt.Yield()
					ups[base+k].at.from = vrt.Event(fmt.Sprintf("update %d %q", base+k, p))
					m.UpdateOnce(base+k, append([]string(nil), p...), map[match.Client]struct{}{})
					ups[base+k].at.to = vrt.Event(fmt.Sprintf("updated %d", base+k))
				}
			})
		}
		vrt.Quiesce()
		out := ""
		for i, cl := range cs {
			for k, u := range ups {
				n := 0
				for _, g := range cl.got {
					if g == k {
						n++
					}
				}
				agrees := false
				for _, q := range c.clients[i] {
					agrees = agrees || agree(q, u.p)
				}
				switch {
				case n > 1:
					x.Fail("offered-twice", "update %d was offered %d times to client %d\n%s", k, n, i, vh.EventLog())
				case n > 0 && !agrees:
					x.Fail("relation", "update %d %q was offered to client %d\n%s", k, u.p, i, vh.EventLog())
				case n > 0 && (u.at.to < reg[i].from || u.at.from > unreg[i].to):
					x.Fail("not-registered", "update %d was offered to client %d while it was not registered\n%s", k, i, vh.EventLog())
				case n == 0 && agrees && reg[i].to >= 0 && u.at.from > reg[i].to && u.at.to < unreg[i].from:
					x.Fail("missed", "update %d was not offered to client %d\n%s", k, i, vh.EventLog())
				}
				out += fmt.Sprint(n)
			}
			out += "|"
		}
		x.Outcome("%s", out)
	}
}

func main() {
	vh.Main(vh.Check{
		Property: "C06", QuickSec: 45, ThoroughSec: 700,
		Rule: "every pair of query and update path over {a,b,*} to length 4 (two clients each) through the match package, containment of the ctree query relation, every pair of paths of one client against every one- and two-entry notification, every sequence of registrations and removals to the stated depth with every update checked in every state, the same through STREAM subscriptions of the real server (origins, prefix splits, sessions starting and ending), and every interleaving of registering, leaving and updating threads.",
		Assumptions: []string{
			"one client does not register the same query twice and then remove only one of them",
			"the gRPC stream is an in-memory stand-in",
		},
		Scenarios: func(tier string) []vh.Scenario {
			var out []vh.Scenario
			deep := tier == "thorough"
			out = append(out, vh.Scenario{Name: "sizes", Seq: sizes, First: true})
			n, alpha, hd, sd := 4, []string{"a", "b", "c", "*"}, 5, 7
			if deep {
				n, alpha, hd, sd = 4, []string{"a", "b", "c", "*"}, 6, 8
			}
			const parts = 4
			for k := 0; k < parts; k++ {
				out = append(out,
					vh.Scenario{Name: fmt.Sprintf("pairs %d", k), Seq: pairs(alpha, n, k, parts)},
					vh.Scenario{Name: fmt.Sprintf("containment %d", k), Seq: contained(k, parts)},
					vh.Scenario{Name: fmt.Sprintf("notifications %d", k), Seq: notifications(k, parts)},
					vh.Scenario{Name: fmt.Sprintf("registrations %d", k), Seq: histories(hd, k, parts)},
				)
			}
			// Element names that only look special.
			for _, a := range [][]string{{"", "a", "*"}, {"**", "...", "*"}, {"a*", "*a", "*"}, {"A", "a", "*"}, {"a/b", "a", "*"}, {"é", ".", ".."}, {"a", "a ", " "}, {"meta", "root", "*"}, {"10", "9", "*"}, {"a[k=v]", "[*]", "*"}, {strings.Repeat("n", 300), strings.Repeat("n", 299) + "m", "*"}} {
				out = append(out, vh.Scenario{Name: fmt.Sprintf("names %.20q", a), Seq: pairs(a, 4, 0, 1)})
			}
			for k := 0; k < 6; k++ {
				out = append(out, vh.Scenario{Name: fmt.Sprintf("sessions %d", k), Seq: sessions(sd, k, 6)})
			}
			str := func(p []string) string { return strings.Join(p, "/") }
			var single, pair, origin []*pb.SubscribeRequest
			pats := paths([]string{"a", "b", "*"}, 2)
			for _, tg := range []string{"t", "*"} {
				for _, p := range paths([]string{"a", "b", "*"}, 3) {
					single = append(single, vs.Stream(tg, "", false, str(p)))
				}
				for _, p := range pats {
					for _, p2 := range pats {
						pair = append(pair, vs.Stream(tg, "", false, str(p), str(p2)))
					}
					for _, o := range []string{"", "o", "a", "*"} {
						origin = append(origin, vs.Stream(tg, o, false, str(p)), vs.Stream(tg, o, false, str(p), "b"))
						if o != "" {
							origin = append(origin, vs.Stream(tg, "", false, o+":"+str(p)), vs.Stream(tg, "", false, o+":"+str(p), "b:a"), vs.Stream(tg, "", false, o+":"+str(p), "b"), vs.Stream(tg, "", false, "a", o+":"+str(p), "b/b", "o:b"))
						}
						if len(p) > 0 {
							r := vs.Stream(tg, o, false, str(p[1:]), "b")
							r.GetSubscribe().Prefix.Elem = vc.P(p[:1]...).Elem
							origin = append(origin, r)
						}
					}
				}
				for _, p := range pats {
					if len(p) < 2 {
						continue
					}
					for _, q := range []*pb.Path{vc.E(p...), keyed(p)} {
						r := vs.Stream(tg, "", false, str(p))
						r.GetSubscribe().Subscription[0].Path = q
						r2 := vs.Stream(tg, "", false, "b", str(p[1:]))
						r2.GetSubscribe().Subscription[0].Path = vs.CloneP(q)
						r2.GetSubscribe().Prefix.Elem = vc.P("a").Elem
						origin = append(origin, r, r2)
					}
				}
				origin = append(origin, vs.Stream(tg, "", false, "nil"), vs.Stream(tg, "o", false, "nil"), vs.Stream(tg, "", false, "nil", "a"))
			}
			out = append(out, server("server, single paths", single), server("server, origins and prefixes", origin))
			for k := 0; k < 3; k++ {
				var part []*pb.SubscribeRequest
				for i := k; i < len(pair); i += 3 {
					part = append(part, pair[i])
				}
				out = append(out, server(fmt.Sprintf("server, pairs of paths %d", k), part))
			}
			Q := func(q ...[]string) [][]string { return q }
			P := func(p ...string) []string { return p }
			cs := []cconf{
				{name: "leave during update", clients: [][][]string{Q(P("a", "b")), Q(P("a", "b"))}, remove: []bool{true, false}, updates: [][][]string{Q(P("a", "b"), P("a"))}},
				{name: "two leave", clients: [][][]string{Q(P("a"), P("a", "b")), Q(P("a", "b"), P("*"))}, remove: []bool{true, true}, updates: [][][]string{Q(P("a", "b"), P("*"))}},
				{name: "join and leave at one node", clients: [][][]string{Q(P("a", "b")), Q(P("a", "b")), Q(P("a"))}, remove: []bool{true, false, true}, updates: [][][]string{Q(P("a", "b"))}},
				{name: "two updaters", clients: [][][]string{Q(P("a", "*"), P("*", "b")), Q(P("a", "b", "c"))}, remove: []bool{true, false}, updates: [][][]string{Q(P("a", "b")), Q(P("a"), P("a", "b", "c"))}},
				{name: "pruned branches", clients: [][][]string{Q(P("a", "b", "c")), Q(P("a", "b")), Q(P("a", "b", "d"))}, remove: []bool{true, true, false}, updates: [][][]string{Q(P("a", "b", "d"), P("a", "b"))}},
			}
			b := 7
			if deep {
				b = 8
			}
			for _, c := range cs {
				sc := vh.Scenario{Name: c.name, Body: cbody(c), MaxBound: b, Declared: 3, Race: true, RaceBound: 1}
				sc.Opt.Delay = true
				sc.Opt.MapDev = true
				out = append(out, sc)
			}
			return out
		},
	})
}
