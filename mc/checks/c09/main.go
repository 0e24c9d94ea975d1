// Check C09: the path tree used from one goroutine.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vm"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

type op struct {
	kind string // add, del, cond, walkdel, upd
	path []string
	val  int
}

func (o op) String() string { return fmt.Sprintf("%s(%q,%d)", o.kind, o.path, o.val) }

func odd(v any) bool { return v.(int)%2 == 1 }

// apply runs o on both and compares what they report.
func apply(t *ctree.Tree, m vm.Tree, o op) error {
	switch o.kind {
	case "add":
		err := t.Add(o.path, o.val)
		if ok := m.Add(o.path, o.val); ok != (err == nil) {
			return vh.Errf("add", "%v: error %v, model accepts: %v", o, err, ok)
		}
	case "upd":
		l := t.GetLeaf(o.path)
		if _, ok := m[vm.K(o.path)]; ok {
			if l == nil {
				return vh.Errf("getleaf", "%v: no leaf", o)
			}
			l.Update(o.val)
			m[vm.K(o.path)] = o.val
		}
	case "del", "cond":
		var got [][]string
		cond := func(any) bool { return true }
		if o.kind == "del" {
			got = t.Delete(o.path)
		} else {
			cond = odd
			bad := false
			got = t.DeleteConditional(o.path, func(v any) bool {
				if v == nil {
					bad = true
					return false
				}
				return odd(v)
			})
			if bad {
				return vh.Errf("cond-nil", "%v: condition called with a nil value", o)
			}
		}
		want := m.Delete(o.path, cond)
		var gk []string
		for _, p := range got {
			gk = append(gk, vm.K(p))
		}
		sort.Strings(gk)
		sort.Strings(want)
		if strings.Join(gk, "|") != strings.Join(want, "|") {
			return vh.Errf("delete", "%v: returned %q want %q", o, gk, want)
		}
	case "walkdel":
		var got []string
		bad := false
		t.WalkDeleted(o.path, func(v any) bool {
			if v == nil {
				bad = true
				return false
			}
			return odd(v)
		}, func(v any) { got = append(got, fmt.Sprint(v)) })
		if bad {
			return vh.Errf("cond-nil", "%v: condition called with a nil value", o)
		}
		before := m.Clone()
		var want []string
		for _, k := range m.Delete(o.path, odd) {
			want = append(want, fmt.Sprint(before[k]))
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "|") != strings.Join(want, "|") {
			return vh.Errf("walkdeleted", "%v: visited values %q want %q", o, got, want)
		}
	}
	return nil
}

// structure checks the node structure reachable through Children against the model.
func structure(t *ctree.Tree, m vm.Tree) error {
	var rec func(n *ctree.Tree, p []string) (int, error)
	rec = func(n *ctree.Tree, p []string) (int, error) {
		k := vm.K(p)
		if v, ok := m[k]; ok {
			if n.IsBranch() || n.Value() != v || n.Children() != nil {
				return 0, vh.Errf("node", "node %q: branch=%v value=%v want leaf %v", p, n.IsBranch(), n.Value(), v)
			}
			return 1, nil
		}
		if len(p) == 0 && len(m) == 0 {
			if len(n.Children()) != 0 || n.Value() != nil {
				return 0, vh.Errf("node", "empty tree has children or a value")
			}
			return 0, nil
		}
		ch := n.Children()
		if !n.IsBranch() || len(ch) == 0 {
			return 0, vh.Errf("node", "node %q: branch=%v children=%d value=%v; model: %v", p, n.IsBranch(), len(ch), n.Value(), m)
		}
		sum := 0
		for e, c := range ch {
			x, err := rec(c, append(p[:len(p):len(p)], e))
			if err != nil {
				return 0, err
			}
			sum += x
		}
		return sum, nil
	}
	n, err := rec(t, nil)
	if err == nil && n != len(m) {
		err = vh.Errf("node", "tree has %d leaves, model %v", n, m)
	}
	return err
}

func show(ks []string, m map[string]any) string {
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%v ", vm.P(k), m[k])
	}
	return b.String()
}

func visit(walk func(ctree.VisitFunc) error, sorted bool, want []string, m vm.Tree, what string) error {
	var got []string
	vals := map[string]any{}
	var dup, badLeaf string
	var kept [][]string
	if err := walk(func(p []string, l *ctree.Leaf, v any) error {
		k := vm.K(p)
		kept = append(kept, p)
		if _, ok := vals[k]; ok {
			dup = k
		}
		if l == nil {
			badLeaf = k
		}
		vals[k] = v
		got = append(got, k)
		return nil
	}); err != nil {
		return vh.Errf("visit-error", "%s: %v", what, err)
	}
	for i, p := range kept {
		if vm.K(p) != got[i] {
			return vh.Errf("visit-kept", "%s reported %q as call %d of %d; after it the reported path reads %q", what, vm.P(got[i]), i+1, len(got), p)
		}
	}
	if dup != "" {
		return vh.Errf("visit-twice", "%s reported %q twice", what, vm.P(dup))
	}
	if badLeaf != "" {
		return vh.Errf("visit-leaf", "%s passed a nil leaf for %q", what, vm.P(badLeaf))
	}
	if !sorted {
		sort.Slice(got, func(i, j int) bool { return vm.Less(vm.P(got[i]), vm.P(got[j])) })
	}
	if g, w := show(got, vals), show(want, m); g != w {
		return vh.Errf("visit", "%s reported %s want %s", what, g, w)
	}
	return nil
}

// observe compares everything the tree reports with the model.
func observe(t *ctree.Tree, m vm.Tree, pats, paths [][]string) error {
	if err := structure(t, m); err != nil {
		return err
	}
	all := m.Sorted()
	if err := visit(t.Walk, false, all, m, "Walk"); err != nil {
		return err
	}
	if err := visit(t.WalkSorted, true, all, m, "WalkSorted"); err != nil {
		return err
	}
	for _, p := range pats {
		p := p
		if err := visit(func(f ctree.VisitFunc) error { return t.Query(p, f) }, false, m.Matching(p), m, fmt.Sprintf("Query(%q)", p)); err != nil {
			return err
		}
	}
	for _, p := range paths {
		want := m[vm.K(p)]
		if got := t.GetLeafValue(p); got != want {
			return vh.Errf("get", "GetLeafValue(%q) = %v want %v", p, got, want)
		}
		n := t.Get(p)
		exists := len(p) == 0
		for k := range m {
			if strings.HasPrefix(k, vm.K(p)) {
				exists = true
			}
		}
		if (n != nil) != exists {
			return vh.Errf("get", "Get(%q) = %v, node should exist: %v", p, n, exists)
		}
		if want != nil {
			if l := t.GetLeaf(p); l == nil || l.Value() != want {
				return vh.Errf("getleaf", "GetLeaf(%q) wrong", p)
			}
		}
	}
	return nil
}

// contents enumerates every prefix-free map over alpha with paths up to depth d
// (nil: absent).
func contents(alpha []string, vals []int, d int) []vm.Tree {
	var rec func(d int) []vm.Tree // includes the empty tree
	rec = func(d int) []vm.Tree {
		out := []vm.Tree{{}}
		for _, v := range vals {
			out = append(out, vm.Tree{"": v})
		}
		if d == 0 {
			return out
		}
		sub := rec(d - 1)
		combos := []vm.Tree{{}}
		for _, a := range alpha {
			var next []vm.Tree
			for _, c := range combos {
				for _, s := range sub {
					n := c.Clone()
					for k, v := range s {
						n[a+"\x00"+k] = v
					}
					next = append(next, n)
				}
			}
			combos = next
		}
		for _, c := range combos {
			if len(c) > 0 {
				out = append(out, c)
			}
		}
		return out
	}
	return rec(d)
}

func build(m vm.Tree, rev bool) (*ctree.Tree, error) {
	t := &ctree.Tree{}
	ks := m.Sorted()
	if rev {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	for _, k := range ks {
		if err := t.Add(vm.P(k), m[k]); err != nil {
			return nil, vh.Errf("add", "building %v: Add(%q): %v", m, vm.P(k), err)
		}
	}
	return t, nil
}

// states: every operation from every content.
func states(alpha []string, vals []int, depth, part, parts int, desc bool) func(q *vh.Q) {
	return func(q *vh.Q) {
		vrt.DirectOrder = true
		vrt.OrderChoice = nil
		if desc {
			vrt.OrderChoice = func(n int) int { return n - 1 }
		}
		glob := alpha
		if !contains(alpha, "*") {
			glob = append(append([]string(nil), alpha...), "*")
		}
		pats := vm.Paths(glob, 0, depth+1)
		paths := vm.Paths(alpha, 0, depth+1)
		var ops []op
		for _, p := range paths {
			if len(p) <= depth+1 {
				ops = append(ops, op{"add", p, 1}, op{"add", p, 3})
			}
			ops = append(ops, op{"upd", p, 5})
		}
		for _, p := range pats {
			for _, k := range []string{"del", "cond", "walkdel"} {
				ops = append(ops, op{k, p, 0})
			}
		}
		all := contents(alpha, vals, depth)
		for i := part; i < len(all); i += parts {
			m := all[i]
			q.State(m.String())
			if !q.Do(func() string { return "content " + m.String() + " queried" }, func() error {
				t, err := build(m, desc)
				if err != nil {
					return err
				}
				return observe(t, m, pats, paths)
			}) {
				return
			}
			for _, o := range ops {
				o := o
				if q.Expired() {
					return
				}
				if !q.Do(func() string { return "content " + m.String() + "then " + o.String() }, func() error {
					t, err := build(m, desc)
					if err != nil {
						return err
					}
					n := m.Clone()
					if err := apply(t, n, o); err != nil {
						return err
					}
					q.Trans(1)
					if err := structure(t, n); err != nil {
						return err
					}
					return visit(t.WalkSorted, true, n.Sorted(), n, "WalkSorted")
				}) {
					return
				}
			}
			if i%7 == 0 {
				q.Outcome(m.String())
			}
		}
		q.Sample("%d contents over %q depth %d, %d operations from each", len(all), alpha, depth, len(ops))
	}
}

// early checks that a walk stops with the callback's error.
func early(walk func(ctree.VisitFunc) error, n int, what string) error {
	for i := 1; i <= n; i++ {
		stop, calls := fmt.Errorf("stop"), 0
		if err := walk(func([]string, *ctree.Leaf, any) error {
			if calls++; calls == i {
				return stop
			}
			return nil
		}); err != stop || calls != i {
			return vh.Errf("visit-stop", "%s, stopped at call %d of %d, made %d calls and returned %v", what, i, n, calls, err)
		}
	}
	return nil
}

// deep explores contents below a chain of k branches, and wide ones.
func deep(k int, thorough bool) func(q *vh.Q) {
	return func(q *vh.Q) {
		vrt.DirectOrder = true
		vrt.OrderChoice = nil
		var chain []string
		for i := 0; i < k; i++ {
			chain = append(chain, string(rune('p'+i)))
		}
		suffix := []string{"a", "b"}
		if thorough {
			suffix = []string{"a", "b", "c"}
		}
		all := contents(suffix, []int{1}, 2)
		for n := 3; n <= 20; n++ { // wide: the map of children grows
			w := vm.Tree{}
			for i := 0; i < n; i++ {
				w[vm.K([]string{fmt.Sprint("c", i)})] = i
			}
			all = append(all, w)
		}
		var pats [][]string
		for g := -1; g <= k; g++ {
			pre := append([]string(nil), chain...)
			for i := range pre {
				if i == g || g == k {
					pre[i] = "*"
				}
			}
			for _, s := range vm.Paths([]string{"a", "b", "*"}, 0, 3) {
				pats = append(pats, append(pre[:k:k], s...))
			}
			for i := 0; i < k; i++ {
				pats = append(pats, pre[:i:i])
			}
		}
		for _, m0 := range all {
			for side := 0; side < 2; side++ {
				m := vm.Tree{}
				for s, v := range m0 {
					m[vm.K(chain)+s] = v
				}
				if side == 1 {
					if k == 0 {
						continue
					}
					m[vm.K([]string{"z"})] = 5
					m[vm.K([]string{"p", "zz"})] = 7
					if k == 1 && len(m0) == 1 && m0[""] != nil {
						delete(m, vm.K([]string{"p", "zz"}))
					}
				}
				q.State(m.String())
				if q.Expired() {
					return
				}
				if !q.Do(func() string { return "content " + m.String() + "queried" }, func() error {
					t, err := build(m, side == 1)
					if err != nil {
						return err
					}
					if err := observe(t, m, pats, pats); err != nil {
						return err
					}
					n := len(m)
					if err := early(t.Walk, n, "Walk"); err != nil {
						return err
					}
					if err := early(t.WalkSorted, n, "WalkSorted"); err != nil {
						return err
					}
					for _, p := range pats {
						if err := early(func(f ctree.VisitFunc) error { return t.Query(p, f) }, len(m.Matching(p)), fmt.Sprintf("Query(%q)", p)); err != nil {
							return err
						}
					}
					return nil
				}) {
					return
				}
				for _, p := range pats {
					for _, kind := range []string{"add", "upd", "del", "cond", "walkdel"} {
						o := op{kind, p, 9}
						if !q.Do(func() string { return "content " + m.String() + "then " + o.String() }, func() error {
							t, err := build(m, side == 1)
							if err != nil {
								return err
							}
							n := m.Clone()
							if err := apply(t, n, o); err != nil {
								return err
							}
							q.Trans(1)
							if err := structure(t, n); err != nil {
								return err
							}
							return visit(t.WalkSorted, true, n.Sorted(), n, "WalkSorted")
						}) {
							return
						}
					}
				}
			}
		}
		q.Sample("%d contents below a chain of %d branches, %d patterns", len(all), k, len(pats))
	}
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// sequences: all operation sequences of length n on one tree, observed after every step.
func sequences(n, part, parts int) func(q *vh.Q) {
	s := func(x string) []string {
		if x == "" {
			return nil
		}
		return strings.Split(x, "/")
	}
	ops := []op{
		{"add", s("a"), 1}, {"add", s("b"), 2}, {"add", s("a/a"), 1}, {"add", s("a/b"), 2}, {"add", s("a/b/a"), 1}, {"add", s("b/a"), 3},
		{"add", s(""), 1}, {"add", s("a/a"), 2},
		{"del", s(""), 0}, {"del", s("*"), 0}, {"del", s("a"), 0}, {"del", s("a/a"), 0}, {"del", s("a/*"), 0}, {"del", s("*/a"), 0}, {"del", s("a/b/a"), 0}, {"del", s("*/*/a"), 0},
		{"cond", s(""), 0}, {"cond", s("a"), 0}, {"walkdel", s("*"), 0}, {"walkdel", s("a/b"), 0}, {"upd", s("a/a"), 7},
	}
	pats := [][]string{nil, s("*"), s("a"), s("a/*"), s("*/a"), s("b/a"), s("*/*"), s("*/*/a"), s("a/b/a")}
	paths := [][]string{nil, s("a"), s("b"), s("a/a"), s("a/b"), s("a/b/a"), s("b/a"), s("c")}
	return func(q *vh.Q) {
		vrt.DirectOrder = true
		buf := make([]int, n)
		buf[0] = part
		for buf[0] < len(ops) {
			if q.Expired() {
				return
			}
			if !q.Do(func() string {
				var b strings.Builder
				for _, i := range buf {
					fmt.Fprintf(&b, "%v; ", ops[i])
				}
				return b.String()
			}, func() error {
				t, m := &ctree.Tree{}, vm.Tree{}
				for i, o := range buf {
					if err := apply(t, m, ops[o]); err != nil {
						return err
					}
					q.Trans(1)
					if i >= n-2 { // shorter prefixes were observed in shorter sequences' suffixes
						if err := observe(t, m, pats, paths); err != nil {
							return err
						}
					}
				}
				q.State(m.String())
				q.Outcome(m.String())
				return nil
			}) {
				return
			}
			i := n - 1
			for ; i > 0; i-- {
				if buf[i]++; buf[i] < len(ops) {
					break
				}
				buf[i] = 0
			}
			if i == 0 {
				buf[0] += parts
			}
		}
		q.Sample("all sequences of %d operations out of %d (first operation in class %d mod %d)", n, len(ops), part, parts)
	}
}

func main() {
	vh.Main(vh.Check{
		Property: "C09", QuickSec: 60, ThoroughSec: 600,
		Rule: "every prefix-free content over a small element alphabet (including the literal element \"*\") to a depth, crossed with every operation (Add of every path, Delete / DeleteConditional / WalkDeleted of every pattern with globs and one element too many, leaf-handle update) and, per content, every query, walk and lookup; plus all operation sequences of a fixed length on one tree. Map iteration order ascending and descending. Contents below chains of up to six branches and with up to twenty children, with reported paths kept by the callback and walks stopped at every leaf.",
		Assumptions: []string{
			"a query pattern matches a leaf if it agrees with the leaf's path on every element it has; a trailing single glob may match no element (this is what Query does and its tests require)",
			"stored values are non-nil",
			"paths over 2-3 element names and up to 3-4 elements",
		},
		Scenarios: func(tier string) []vh.Scenario {
			out := []vh.Scenario{{Name: "sizes", Seq: sizes, First: true}}
			add := func(name string, alpha []string, vals []int, d, parts int) {
				for i := 0; i < parts; i++ {
					out = append(out, vh.Scenario{Name: fmt.Sprintf("states %s part %d/%d", name, i, parts), Seq: states(alpha, vals, d, i, parts, i%2 == 1)})
				}
			}
			ab := []string{"a", "b"}
			add("ab depth2 2 values", ab, []int{1, 2}, 2, 2)
			add("a* depth2 2 values", []string{"*", "a"}, []int{1, 2}, 2, 2)
			add("ab depth3 1 value", ab, []int{1}, 3, 4)
			add("abc depth2 1 value", []string{"a", "b", "c"}, []int{1}, 2, 4)
			// Element names that only look special.
			for i, a := range [][]string{{"", "a"}, {"a", "a!"}, {"a", "a/a"}, {"**", "..."}, {"10", "9"}, {"é", "z"}, {"A", "a"}, {"meta", "root"}, {".", ".."}, {"a[k=v]", "\\"}, {"a*", "*a"}, {" ", "a "}, {"\xff", "%s"}, {strings.Repeat("n", 300), strings.Repeat("n", 299) + "m"}} {
				out = append(out, vh.Scenario{Name: fmt.Sprintf("names %.20q", a), Seq: states(a, []int{1}, 2, 0, 1, i%2 == 1)})
			}
			for k := 0; k <= 6; k++ {
				out = append(out, vh.Scenario{Name: fmt.Sprintf("below %d branches", k), Seq: deep(k, tier == "thorough")})
			}
			n := 4
			if tier == "thorough" {
				add("ab depth3 2 values", ab, []int{1, 2}, 3, 16)
				add("abc depth2 2 values", []string{"a", "b", "c"}, []int{1, 2}, 2, 16)
				add("a* depth3 1 value", []string{"*", "a"}, []int{1}, 3, 4)
				n = 5
			}
			for i := 0; i < 7; i++ {
				out = append(out, vh.Scenario{Name: fmt.Sprintf("sequences of 3 part %d", i), Seq: sequences(3, i, 7)})
				out = append(out, vh.Scenario{Name: fmt.Sprintf("sequences of %d part %d", n, i), Seq: sequences(n, i, 7), First: true, Weight: 3})
			}
			return out
		},
	})
}
