//go:build go1.23

// Check C10: the path tree under concurrent use.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vm"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

func s(x string) []string {
	if x == "" {
		return nil
	}
	return strings.Split(x, "/")
}

type op struct {
	kind string
	path string
}

func (o op) String() string { return o.kind + "(" + o.path + ")" }

// ---- model: nodes with identity, because leaf handles outlive deletion ----

type node struct {
	inc  int
	path string
	val  int
	att  bool
}

type handle struct{ t, inc int }

type state struct {
	nodes   []node
	handles []handle
	active  []handle // t: query (thread*100+call), inc: reads done
	next    int
}

func (m state) key() string {
	// Incarnation numbers are renamed by position; order of creation is kept.
	return fmt.Sprint(m.nodes, m.handles, m.active)
}

func (m state) clone() state {
	m.nodes = append([]node(nil), m.nodes...)
	m.handles = append([]handle(nil), m.handles...)
	m.active = append([]handle(nil), m.active...)
	return m
}

func (m state) at(path string) int {
	for i, n := range m.nodes {
		if n.att && n.path == path {
			return i
		}
	}
	return -1
}

func (m state) add(path string, v int) (state, bool) {
	n := m.clone()
	if i := n.at(path); i >= 0 {
		n.nodes[i].val = v
		return n, true
	}
	for _, o := range n.nodes {
		if o.att && (path == "" || o.path == "" || strings.HasPrefix(o.path, path+"/") || strings.HasPrefix(path, o.path+"/")) {
			return m, false
		}
	}
	n.next++
	n.nodes = append(n.nodes, node{n.next, path, v, true})
	return n, true
}

func (m state) setHandle(t, inc int) state {
	n := m.clone()
	for i := range n.handles {
		if n.handles[i].t == t {
			n.handles[i].inc = inc
			return n
		}
	}
	n.handles = append(n.handles, handle{t, inc})
	return n
}

func (m state) handle(t int) int {
	for _, h := range m.handles {
		if h.t == t {
			for i, n := range m.nodes {
				if n.inc == h.inc {
					return i
				}
			}
		}
	}
	return -1
}

// bump counts a read of query q; total reads end it.
func (m state) bump(q, total int) state {
	n := m.clone()
	for i := range n.active {
		if n.active[i].t == q {
			n.active[i].inc++
			if n.active[i].inc == total {
				n.active = append(n.active[:i:i], n.active[i+1:]...)
			}
			return n
		}
	}
	if total > 1 {
		n.active = append(n.active, handle{q, 1})
		sort.Slice(n.active, func(i, j int) bool { return n.active[i].t < n.active[j].t })
	}
	return n
}

type wr struct {
	path string
	val  int
}

type read struct {
	q     int
	total int
	path  string
	want  int // -1 absent
}

func step(m state, o *vh.Op) []state {
	if o.Ret == vh.Pending {
		return nil
	}
	switch o.Name {
	case "add":
		a := o.Arg.(wr)
		n, ok := m.add(a.path, a.val)
		if ok != o.Res.(bool) {
			return nil
		}
		return []state{n}
	case "del", "cond":
		if len(m.active) > 0 {
			return nil // a delete may not fall between the reads of one query
		}
		n := m.clone()
		var gone []string
		for i, x := range n.nodes {
			if x.att && vm.Match(s(o.Arg.(string)), s(x.path)) && (o.Name == "del" || x.val < 10) {
				n.nodes[i].att = false
				gone = append(gone, x.path)
			}
		}
		sort.Strings(gone)
		if strings.Join(gone, " ") != o.Res.(string) {
			return nil
		}
		return []state{n}
	case "read":
		r := o.Arg.(read)
		got := -1
		if i := m.at(r.path); i >= 0 {
			got = m.nodes[i].val
		}
		if got != r.want {
			return nil
		}
		return []state{m.bump(r.q, r.total)}
	case "locate":
		i := m.at(o.Arg.(string))
		inc := 0
		if i >= 0 {
			inc = m.nodes[i].inc
		}
		return []state{m.setHandle(o.Thread, inc)}
	case "value":
		i := m.handle(o.Thread)
		got := -1
		if i >= 0 {
			got = m.nodes[i].val
		}
		if got != o.Res.(int) {
			return nil
		}
		return []state{m}
	case "update":
		i := m.handle(o.Thread)
		if i < 0 {
			if o.Res.(bool) {
				return nil
			}
			return []state{m}
		}
		if !o.Res.(bool) {
			return nil
		}
		n := m.clone()
		n.nodes[i].val = o.Arg.(int)
		return []state{n}
	}
	return nil
}

var universe = []string{"", "a", "a/b", "a/b/c", "a/c", "d"}

// expand turns queries into one read per path of the universe.
func expand(ops []vh.Op) []vh.Op {
	var out []vh.Op
	for qi, o := range ops {
		switch o.Name {
		case "query":
			pat := s(o.Arg.(string))
			var paths []string
			for _, p := range universe {
				if vm.Match(pat, s(p)) {
					paths = append(paths, p)
				}
			}
			res := o.Res.(map[string]int)
			for _, p := range paths {
				want := -1
				if v, ok := res[p]; ok {
					want = v
				}
				out = append(out, vh.Op{Thread: o.Thread, Call: o.Call, Ret: o.Ret, Name: "read", Arg: read{qi, len(paths), p, want}})
			}
		case "get":
			// located at one moment, read at a later one (both within the call)
			out = append(out, vh.Op{Thread: 1000 + qi, Call: o.Call, Ret: o.Ret, Name: "locate", Arg: o.Arg},
				vh.Op{Thread: 1000 + qi, Call: o.Call, Ret: o.Ret, Name: "value", Res: o.Res})
		default:
			out = append(out, o)
		}
	}
	return out
}

func initial(in []string) state {
	m := state{}
	for i, p := range in {
		m, _ = m.add(p, i+1)
	}
	return m
}

type qres map[string]int

var memo = map[string]bool{}

func body(in []string, first op, progs [][]int, ops []op) func(x *vh.X) {
	return func(x *vh.X) {
		t := &ctree.Tree{}
		for i, p := range in {
			if err := t.Add(s(p), i+1); err != nil {
				x.Fail("setup", "%v", err)
			}
		}
		h := t.GetLeaf(s("a/b"))
		if h.Value() == nil || t.Get(s("a/b")).IsBranch() {
			h = nil
		}
		c := vrt.Choose(len(progs))
		prog := progs[c]
		// The first operation runs in thread 0, alone or followed by others
		// (separated by -1 for "next thread").
		var threads [][]op
		threads = append(threads, []op{first})
		for _, o := range prog {
			if o < 0 {
				threads = append(threads, nil)
				continue
			}
			threads[len(threads)-1] = append(threads[len(threads)-1], ops[o])
		}
		var badPath string
		for i, th := range threads {
			i, th := i, th
			vrt.GoN(fmt.Sprintf("t%d", i), func() {
				for k, o := range th {
					v := 10*(i+1) + k
					switch o.kind {
					case "add":
						vh.Invoke(i, "add", wr{o.path, v}, func() any { return t.Add(s(o.path), v) == nil })
					case "del":
						vh.Invoke(i, "del", o.path, func() any { return list(t.Delete(s(o.path))) })
					case "cond":
						vh.Invoke(i, "cond", o.path, func() any {
							return list(t.DeleteConditional(s(o.path), func(v any) bool { return v.(int) < 10 }))
						})
					case "query", "walk", "walksorted":
						pat := o.path
						if o.kind != "query" {
							pat = ""
						}
						vh.Invoke(i, "query", pat, func() any {
							res := map[string]int{}
							f := func(p []string, l *ctree.Leaf, v any) error {
								k := strings.Join(p, "/")
								if _, ok := res[k]; ok {
									badPath = k + " reported twice"
								}
								n, ok := v.(int)
								if !ok {
									badPath = k + " reported with a non-value"
								}
								res[k] = n
								return nil
							}
							switch o.kind {
							case "query":
								t.Query(s(pat), f)
							case "walk":
								t.Walk(f)
							default:
								t.WalkSorted(f)
							}
							return res
						})
					case "get":
						vh.Invoke(i, "get", o.path, func() any {
							if v, ok := t.GetLeafValue(s(o.path)).(int); ok {
								return v
							}
							return -1
						})
					case "upd":
						// as the cache does: look the leaf up, then update it in place
						var l *ctree.Leaf
						vh.Invoke(i, "locate", o.path, func() any {
							l = nil
							if n := t.Get(s(o.path)); n != nil && !n.IsBranch() && n.Value() != nil {
								l = (*ctree.Leaf)(n)
							}
							return nil
						})
						vh.Invoke(i, "update", v, func() any {
							if l == nil {
								return false
							}
							l.Update(v)
							return true
						})
					case "hupd":
						if h != nil {
							vh.Invoke(500+i, "update", v, func() any { h.Update(v); return true })
						}
					case "children":
						vrt.Yield()
						if n := t.Get(s(o.path)); n != nil {
							for _, c := range vrt.RangeMap(n.Children()) {
								c.Value()
							}
							_ = n.IsBranch()
						}
					}
				}
			})
		}
		vrt.Quiesce()
		if vrt.Live() > 0 {
			x.Fail("deadlock", "threads blocked: %v", vrt.Blocked())
		}
		fin := map[string]int{}
		t.Walk(func(p []string, _ *ctree.Leaf, v any) error {
			n, ok := v.(int)
			if !ok {
				n = -999
			}
			fin[strings.Join(p, "/")] = n
			return nil
		})
		emptied(x, t, nil)
		raw, hist := vh.History(vrt.Events())
		if badPath != "" {
			x.Fail("query", "%s\n%s", badPath, hist)
		}
		k := fmt.Sprint(in, hist, "=>", fin)
		ok, seen := memo[k]
		if !seen {
			m := initial(in)
			if i := m.at("a/b"); i >= 0 {
				for th := range 4 {
					m = m.setHandle(500+th, m.nodes[i].inc)
				}
			}
			ok = vh.Linearizable(expand(raw), m, step, state.key, func(m state) bool {
				n := 0
				for _, x := range m.nodes {
					if x.att {
						n++
						if v, ok := fin[x.path]; !ok || v != x.val {
							return false
						}
					}
				}
				return n == len(fin)
			})
			if len(memo) > 300000 {
				memo = map[string]bool{}
			}
			memo[k] = ok
		}
		if !ok {
			x.Fail("linearizability", "initially %v; no sequential order of these operations explains their results and the final content:\n%s\nfinal content: %v", in, hist, fin)
		}
		x.Outcome("%s", k)
	}
}

// emptied fails if a branch without children is left (a later add there must succeed).
func emptied(x *vh.X, n *ctree.Tree, p []string) {
	ch := n.Children()
	if len(p) > 0 && n.IsBranch() && len(ch) == 0 {
		x.Fail("empty-branch", "branch %v is left without children", p)
	}
	for k, c := range vrt.RangeMap(ch) {
		emptied(x, c, append(p[:len(p):len(p)], k))
	}
}

func list(ps [][]string) string {
	var out []string
	for _, p := range ps {
		out = append(out, strings.Join(p, "/"))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func main() {
	vh.Main(vh.Check{
		Property: "C10", QuickSec: 60, ThoroughSec: 600,
		Rule: "every program with 2 threads x (1+1) and (1+2) operations and 3 threads x 1 operation over a 14-operation alphabet on overlapping paths (conflicting depths, globs, conditional deletes, leaf-handle updates), from 5 initial contents; every interleaving of lock operations within the deviation bound. Each history plus final content must be explained by a sequential order in which a query is a set of per-path reads inside its call that no delete separates.",
		Assumptions: []string{
			"a query or walk is atomic with respect to deletes but not with respect to adds and leaf updates (it must report what was present throughout and nothing absent throughout)",
			"GetLeafValue is a lookup followed by a read of the located leaf",
			"an update through a leaf handle affects the node the handle was obtained from",
		},
		Scenarios: func(tier string) []vh.Scenario {
			ops := []op{
				{"add", "a/b"}, {"add", "a/c"}, {"add", "a"}, {"add", "a/b/c"}, {"add", "d"},
				{"del", "a"}, {"del", "a/b"}, {"del", "*/b"}, {"cond", ""},
				{"query", ""}, {"query", "a/*"}, {"walk", ""}, {"get", "a/b"}, {"upd", "a/b"}, {"hupd", "a/b"}, {"children", "a"}, {"walksorted", ""},
			}
			inits := [][]string{{}, {"a/b"}, {"a/b", "a/c"}, {"a/b/c", "d"}, {"a"}}
			var p1, p2, p3, p22 [][]int
			for i := range ops {
				p1 = append(p1, []int{-1, i})
				for j := range ops {
					p2 = append(p2, []int{-1, i, j})
					if i <= j {
						p3 = append(p3, []int{-1, i, -1, j})
					}
					for k := range ops {
						p22 = append(p22, []int{k, -1, i, j})
					}
				}
			}
			var out []vh.Scenario
			for ii, in := range inits {
				for _, f := range ops {
					b := 9
					out = append(out, vh.Scenario{Name: fmt.Sprintf("init %v: %v | 1 op", in, f), Body: body(in, f, p1, ops), MaxBound: b, Declared: 3, Race: true, RaceBound: 2})
					out = append(out, vh.Scenario{Name: fmt.Sprintf("init %v: %v | 2 ops", in, f), Body: body(in, f, p2, ops), MaxBound: b, Declared: 2, Race: true, RaceBound: 1, Weight: 3})
					out = append(out, vh.Scenario{Name: fmt.Sprintf("init %v: %v | 1 op | 1 op", in, f), Body: body(in, f, p3, ops), MaxBound: b, Declared: 1, Race: true, RaceBound: 1, Weight: 5})
					if tier == "thorough" && ii < 4 {
						out = append(out, vh.Scenario{Name: fmt.Sprintf("init %v: %v + 1 op | 2 ops", in, f), Body: body(in, f, p22, ops), MaxBound: b, Declared: 1, Weight: 20})
					}
				}
			}
			return out
		},
	})
}
