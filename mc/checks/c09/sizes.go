//go:build go1.23

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/zz_verif/vh"
)

// sizes builds trees of many sizes.
func sizes(q *vh.Q) {
	type shape struct {
		name string
		max  int
		leaf func(n, i int) []string
	}
	for _, sh := range []shape{
		{"leaves of a branch", 2049, func(_, i int) []string { return []string{"a", fmt.Sprintf("l%d", i)} }},
		{"branches", 1025, func(_, i int) []string { return []string{"a", fmt.Sprintf("l%d", i), "x"} }},
		{"leaves along a chain", 257, func(_, i int) []string {
			return append(strings.Split(strings.Repeat("a/", i+1)[:2*i+1], "/"), "x")
		}},
		{"leaves at the end of a chain", 129, func(n, i int) []string {
			return append(strings.Split(strings.Repeat("a/", n)[:2*n-1], "/"), fmt.Sprintf("l%d", i))
		}},
		{"leaves over a grid", 1025, func(_, i int) []string {
			return []string{"a", fmt.Sprint(i % 10), fmt.Sprint(i / 10 % 10), fmt.Sprint(i / 100)}
		}},
	} {
		q.ForSizes(sh.max, sh.name, func(n int) error {
			t := &ctree.Tree{}
			want := map[string]int{}
			key := func(p []string) string { return strings.Join(p, "/") }
			for i := 0; i < n; i++ {
				p := sh.leaf(n, i)
				if err := t.Add(append([]string(nil), p...), i); err != nil {
					return vh.Errf("size", "Add(%q): %v", p, err)
				}
				want[key(p)] = i
			}
			same := func(what string, got []string, vals map[string]any) error {
				if len(got) != len(want) {
					return vh.Errf("size", "%s reports %d leaves, want %d", what, len(got), len(want))
				}
				seen := map[string]bool{}
				for _, k := range got {
					v, ok := want[k]
					if !ok || seen[k] || vals != nil && vals[k] != any(v) {
						return vh.Errf("size", "%s reports %q (seen %v) = %v, want %d, %v", what, k, seen[k], vals[k], v, ok)
					}
					seen[k] = true
				}
				return nil
			}
			check := func() error {
				var pats [][]string
				for _, p := range [][]string{nil, {"a"}, {"*"}, {"a", "*"}, {"*", "*"}} {
					pats = append(pats, p)
				}
				for _, p := range pats {
					var got []string
					vals := map[string]any{}
					t.Query(p, func(p []string, _ *ctree.Leaf, v any) error { got = append(got, key(p)); vals[key(p)] = v; return nil })
					if err := same(fmt.Sprintf("Query(%q)", p), got, vals); err != nil {
						return err
					}
				}
				for name, walk := range map[string]func(ctree.VisitFunc) error{"Walk": t.Walk, "WalkSorted": t.WalkSorted} {
					var got []string
					var paths [][]string
					vals := map[string]any{}
					walk(func(p []string, _ *ctree.Leaf, v any) error {
						got = append(got, key(p))
						paths = append(paths, append([]string(nil), p...))
						vals[key(p)] = v
						return nil
					})
					if err := same(name, got, vals); err != nil {
						return err
					}
					if name == "WalkSorted" && !sort.SliceIsSorted(paths, func(i, j int) bool {
						a, b := paths[i], paths[j]
						for k := 0; k < len(a) && k < len(b); k++ {
							if a[k] != b[k] {
								return a[k] < b[k]
							}
						}
						return len(a) < len(b)
					}) {
						return vh.Errf("size", "WalkSorted is not sorted")
					}
				}
				for i := 0; i < n; i++ {
					p := sh.leaf(n, i)
					v, ok := want[key(p)]
					g := t.GetLeafValue(p)
					if ok != (g != nil) || ok && g != any(v) {
						return vh.Errf("size", "GetLeafValue(%q) = %v, want %d, %v", p, g, v, ok)
					}
				}
				return nil
			}
			if err := check(); err != nil {
				return err
			}
			drop := func(what string, f func() []string, cond func(i int) bool) error {
				rest := map[string]int{}
				gone := map[string]int{}
				for k, v := range want {
					if cond(v) {
						gone[k] = v
					} else {
						rest[k] = v
					}
				}
				got := f()
				want = gone
				if err := same(what, got, nil); err != nil {
					return err
				}
				want = rest
				return check()
			}
			odd := func(i int) bool { return i%2 == 1 }
			if err := drop("DeleteConditional", func() (out []string) {
				for _, p := range t.DeleteConditional([]string{"a"}, func(v any) bool { return odd(v.(int)) }) {
					out = append(out, key(p))
				}
				return out
			}, odd); err != nil {
				return err
			}
			third := func(i int) bool { return i%3 == 0 }
			if err := drop("WalkDeleted", func() (out []string) {
				t.WalkDeleted([]string{"a", "*"}, func(v any) bool { return third(v.(int)) }, func(v any) { out = append(out, key(sh.leaf(n, v.(int)))) })
				return out
			}, third); err != nil {
				return err
			}
			for i := 0; i < n; i += 7 {
				p := sh.leaf(n, i)
				if _, ok := want[key(p)]; !ok {
					continue
				}
				if d := t.Delete(p); len(d) != 1 || key(d[0]) != key(p) {
					return vh.Errf("size", "Delete(%q) = %q", p, d)
				}
				delete(want, key(p))
			}
			if err := check(); err != nil {
				return err
			}
			if err := drop("Delete", func() (out []string) {
				for _, p := range t.Delete([]string{"a"}) {
					out = append(out, key(p))
				}
				return out
			}, func(int) bool { return true }); err != nil {
				return err
			}
			if err := t.Add([]string{"a"}, 1); err != nil {
				return vh.Errf("size", "Add to the emptied tree: %v", err)
			}
			return nil
		})
	}
}
