package vs

import (
	"fmt"
	"strings"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
)

// Shape is a way in which a subscription can be of size n.
type Shape struct {
	Name    string
	Targets func(n int) []string
	Leaf    func(i int) []string // target and path of leaf i
	Req     func(mode pb.SubscriptionList_Mode, uo bool, n int) *pb.SubscribeRequest
	// Write sets all leaves, leaf i to v+i.
	Write func(w *World, n int, ts, v int64)
	// Delete deletes all leaves.
	Delete func(w *World, n int, ts int64)
	// One sets one leaf.
	One func(w *World, i int, ts, v int64)
}

func lname(i int) string { return fmt.Sprintf("l%d", i) }

func tname(i int) string { return fmt.Sprintf("t%d", i) }

func one(int) []string { return []string{"t"} }

func below(i int) []string { return []string{"t", "a", lname(i)} }

func setAll(w *World, n int, ts, v int64) {
	for i := 0; i < n; i++ {
		w.Set("t", ts, v+int64(i), "a", lname(i))
	}
}

func setOne(w *World, i int, ts, v int64) { w.Set("t", ts, v, "a", lname(i)) }

func setMulti(atomic bool) func(w *World, n int, ts, v int64) {
	return func(w *World, n int, ts, v int64) {
		var us []*pb.Update
		for i := 0; i < n; i++ {
			us = append(us, vc.U(vc.P(lname(i)), vc.I(v+int64(i))))
		}
		m := vc.Note(ts, vc.Prefix("t", "", vc.P("a")), us, nil)
		m.Atomic = atomic
		w.Update(m)
	}
}

func delEach(w *World, n int, ts int64) {
	var ds []*pb.Path
	for i := 0; i < n; i++ {
		ds = append(ds, vc.P("a", lname(i)))
	}
	w.Update(vc.Note(ts, vc.Prefix("t", "", nil), nil, ds))
}

func delAll(w *World, n int, ts int64) { w.Del("t", ts, "a") }

func ofA(mode pb.SubscriptionList_Mode, uo bool, n int) *pb.SubscribeRequest {
	return Req(mode, "t", "", uo, "a")
}

// Shapes are the shapes explored.
var Shapes = []Shape{
	{"leaves of a target", one, below, ofA, setAll, delAll, setOne},
	{"updates in a notification", one, below, ofA, setMulti(false), delEach, setOne},
	{"updates in an atomic notification", one, below, ofA, setMulti(true), delAll, nil},
	{"paths in the subscription", one, below, func(mode pb.SubscriptionList_Mode, uo bool, n int) *pb.SubscribeRequest {
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, "a/"+lname(i))
		}
		return Req(mode, "t", "", uo, ps...)
	}, setAll, delAll, setOne},
	{"targets", func(n int) []string {
		var ts []string
		for i := 0; i < n; i++ {
			ts = append(ts, tname(i))
		}
		return ts
	}, func(i int) []string { return []string{tname(i), "a", "b"} }, func(mode pb.SubscriptionList_Mode, uo bool, n int) *pb.SubscribeRequest {
		return Req(mode, "*", "", uo, "a")
	}, func(w *World, n int, ts, v int64) {
		for i := 0; i < n; i++ {
			w.Set(tname(i), ts, v+int64(i), "a", "b")
		}
	}, func(w *World, n int, ts int64) {
		for i := 0; i < n; i++ {
			w.Del(tname(i), ts, "a")
		}
	}, func(w *World, i int, ts, v int64) { w.Set(tname(i), ts, v, "a", "b") }},
	{"elements of a path", one, func(i int) []string { return deepLeaf(i) }, func(mode pb.SubscriptionList_Mode, uo bool, n int) *pb.SubscribeRequest {
		return Req(mode, "t", "", uo, strings.Join(deepLeaf(n)[1:n/2+2], "/"))
	}, nil, nil, nil},
}

// deepLeaf is a leaf n elements deep.
func deepLeaf(n int) []string {
	p := []string{"t", "a"}
	for i := 1; i < n; i++ {
		p = append(p, lname(i))
	}
	return append(p, "z")
}

// Rec is one thing a subscriber was sent.
type Rec struct {
	Key string
	Val int64
	Dup uint32
	Del bool
}

// Recs are the contents of items, and the positions of sync responses.
func Recs(items []Item) (rs []Rec, syncs []int) {
	for _, it := range items {
		if it.Resp.GetSyncResponse() {
			syncs = append(syncs, len(rs))
			continue
		}
		n := it.Resp.GetUpdate()
		key := func(p *pb.Path) string {
			return strings.Join(append([]string{n.GetPrefix().GetTarget()}, vc.Index(n.GetPrefix(), p)...), "/")
		}
		for _, u := range n.GetUpdate() {
			rs = append(rs, Rec{Key: key(u.GetPath()), Val: u.GetVal().GetIntVal(), Dup: u.GetDuplicates()})
		}
		for _, d := range n.GetDelete() {
			rs = append(rs, Rec{Key: key(d), Del: true})
		}
	}
	return rs, syncs
}

// view is the latest known about every leaf.
func view(rs []Rec) map[string]int64 {
	m := map[string]int64{}
	for _, r := range rs {
		if !r.Del {
			m[r.Key] = r.Val
			continue
		}
		for k := range m {
			if covers(r.Key, k) {
				delete(m, k)
			}
		}
	}
	return m
}

func covers(pat, key string) bool {
	if pat == key {
		return true
	}
	p, k := strings.Split(pat, "/"), strings.Split(key, "/")
	if len(p) > len(k) {
		return false
	}
	for i := range p {
		if p[i] != "*" && p[i] != k[i] {
			return false
		}
	}
	return true
}

func (sh *Shape) set(w *World, n int, ts, v int64) {
	if sh.Write == nil {
		l := deepLeaf(n)
		w.Set("t", ts, v+int64(n), l[1:]...)
		return
	}
	sh.Write(w, n, ts, v)
}

func (sh *Shape) del(w *World, n int, ts int64) {
	if sh.Delete == nil {
		w.Del("t", ts, deepLeaf(n)[1:]...)
		return
	}
	sh.Delete(w, n, ts)
}

// Expect checks a view.
func (sh *Shape) Expect(w *World, what string, got map[string]int64, n int, v int64, none bool, allowed func(string) bool) {
	want := map[string]int64{}
	for i := 0; i < n && !none; i++ {
		if sh.Write == nil {
			i = n
		}
		if l := sh.Leaf(i); allowed == nil || allowed(l[0]) {
			want[strings.Join(l, "/")] = v + int64(i)
		}
	}
	bad := ""
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			bad = fmt.Sprintf("%s is %d (known: %v), want %d", k, g, ok, v)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			bad = fmt.Sprintf("%s is there", k)
		}
	}
	if bad != "" {
		w.X.Fail("size", "%d %s, %s: %d known, %d expected: %s", n, sh.Name, what, len(got), len(want), bad)
	}
}

func (sh *Shape) fail(w *World, n int, f string, a ...any) {
	w.X.Fail("size", "%d %s: %s", n, sh.Name, fmt.Sprintf(f, a...))
}

// Stream checks a STREAM subscription of size n from beginning to end.
func (sh *Shape) Stream(w *World, n int, uo bool, allowed func(string) bool) {
	sh.set(w, n, 1, 1)
	s := w.Subscribe(sh.Req(pb.SubscriptionList_STREAM, uo, n), false)
	w.Settle()
	rs, syncs := Recs(s.Sent)
	if len(syncs) != 1 || syncs[0] != len(rs) {
		sh.fail(w, n, "sync responses %v among %d responses to a subscription", syncs, len(rs))
	}
	if uo && len(rs) > 0 {
		sh.fail(w, n, "updates_only, and %d updates", len(rs))
	}
	sh.Expect(w, "after subscribing", view(rs), n, 1, uo, allowed)
	all := func(what string, v int64, none bool) {
		w.Settle()
		rs, syncs := Recs(s.Sent)
		if s.Ended || len(syncs) != 1 {
			sh.fail(w, n, "%s: ended %v (%v), %d sync responses", what, s.Ended, s.Err, len(syncs))
		}
		sh.Expect(w, what, view(rs), n, v, none, allowed)
	}
	sh.set(w, n, 2, 1001)
	all("after a change", 1001, false)
	if sh.One != nil && n <= 300 {
		for i := 0; i < n; i++ {
			at := len(s.Sent)
			sh.One(w, i, 3, 5001+int64(i))
			w.Settle()
			if ok := allowed == nil || allowed(sh.Leaf(i)[0]); ok != (len(s.Sent) == at+1) {
				sh.fail(w, n, "%d responses to a change of leaf %d", len(s.Sent)-at, i)
			}
		}
		all("after changes one by one", 5001, false)
	}
	sh.del(w, n, 4)
	all("after the delete", 0, true)
	sh.set(w, n, 5, 7001)
	all("after setting them again", 7001, false)
	s.Cancel()
	w.Settle()
	sh.set(w, n, 6, 8001)
	w.Settle()
	if !s.Ended {
		sh.fail(w, n, "the cancelled subscription goes on")
	}
}

// Once checks ONCE and POLL subscriptions of size n.
func (sh *Shape) Once(w *World, n int, allowed func(string) bool) {
	p := w.Subscribe(sh.Req(pb.SubscriptionList_POLL, false, n), false)
	w.Settle()
	poll := func(v int64, none bool) {
		at := len(p.Sent)
		p.Trigger()
		w.Settle()
		rs, syncs := Recs(p.Sent[at:])
		if len(syncs) != 1 || syncs[0] != len(rs) || p.Ended {
			sh.fail(w, n, "sync responses %v among %d responses to a poll", syncs, len(rs))
		}
		sh.Expect(w, "a poll", view(rs), n, v, none, allowed)
		o := w.Subscribe(sh.Req(pb.SubscriptionList_ONCE, false, n), false)
		w.Settle()
		rs, syncs = Recs(o.Sent)
		if len(syncs) != 1 || syncs[0] != len(rs) || !o.Ended || o.Err != nil {
			sh.fail(w, n, "sync responses %v among %d responses to a ONCE subscription, ended %v with %v", syncs, len(rs), o.Ended, o.Err)
		}
		sh.Expect(w, "a ONCE subscription", view(rs), n, v, none, allowed)
	}
	poll(0, true)
	sh.set(w, n, 1, 1)
	poll(1, false)
	sh.set(w, n, 2, 1001)
	poll(1001, false)
	sh.del(w, n, 3)
	poll(0, true)
	p.Cancel()
	w.Settle()
}

// SizeScenarios explores run for all shapes and sizes up to max.
func SizeScenarios(max int, run func(x *vh.X, sh *Shape, n int)) []vh.Scenario {
	var out []vh.Scenario
	for i := range Shapes {
		sh := &Shapes[i]
		out = append(out, vh.Scenario{Name: "size: " + sh.Name, First: true, Seq: func(q *vh.Q) {
			q.ForSizes(max, sh.Name, func(n int) error {
				return q.ExecN(100000+5000*n, func(x *vh.X) { run(x, sh, n) })
			})
		}})
	}
	return out
}
