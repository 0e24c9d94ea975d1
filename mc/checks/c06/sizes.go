//go:build go1.23

package main

import (
	"fmt"

	"github.com/openconfig/gnmi/match"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
)

func cp(p []string) []string { return append([]string(nil), p...) }

// sizes registers and notifies in many sizes.
func sizes(q *vh.Q) {
	name := func(i int) string { return fmt.Sprintf("l%d", i) }
	want := func(c *client, n int, f string, a ...any) error {
		if c.n != n {
			return vh.Errf("size", "%s: offered %d times, want %d", fmt.Sprintf(f, a...), c.n, n)
		}
		c.n = 0
		return nil
	}
	offer := func(m *match.Match, p ...string) { m.UpdateOnce(1, cp(p), map[match.Client]struct{}{}) }
	q.ForSizes(1025, "clients with one query", func(n int) error {
		m := match.New()
		cs := make([]*client, n)
		rm := make([]func(), n)
		for i := range cs {
			cs[i] = &client{}
			rm[i] = m.AddQuery([]string{"t", "a", "b"}, cs[i])
		}
		for keep := 1; keep <= 3; keep++ {
			for _, p := range [][]string{{"t", "a", "b"}, {"t"}, {"t", "a", "b", "c"}, {"t", "*", "b"}, {"t", "a", "c"}} {
				offer(m, p...)
				w := 1
				if p[len(p)-1] == "c" && len(p) == 3 {
					w = 0
				}
				for i, c := range cs {
					k := w
					if rm[i] == nil {
						k = 0
					}
					if err := want(c, k, "client %d of %d (registered: %v), path %q", i, n, rm[i] != nil, p); err != nil {
						return err
					}
				}
			}
			for i := range rm {
				if rm[i] != nil && i%3 == keep-1 {
					rm[i]()
					rm[i] = nil
				}
			}
		}
		return nil
	})
	q.ForSizes(1025, "queries of one client", func(n int) error {
		m := match.New()
		c, other := &client{}, &client{}
		var rm []func()
		for i := 0; i < n; i++ {
			rm = append(rm, m.AddQuery([]string{"t", "a", name(i), "x"}, c))
		}
		m.AddQuery([]string{"t", "a", name(n / 2)}, other)
		for i := 0; i < n; i++ {
			o := 0
			if i == n/2 {
				o = 1
			}
			offer(m, "t", "a", name(i), "x", "y")
			if err := want(c, 1, "query %d of %d", i, n); err != nil {
				return err
			}
			if err := want(other, o, "the other client, query %d of %d", i, n); err != nil {
				return err
			}
		}
		for _, p := range [][]string{{"t"}, {"t", "a"}, {"*"}, {"t", "*", "*", "x"}, {"t", "a", "*", "x", "z"}} {
			offer(m, p...)
			if err := want(c, 1, "%d queries, path %q", n, p); err != nil {
				return err
			}
		}
		note := &pb.Notification{Prefix: &pb.Path{Target: "t"}}
		for i := 0; i < n; i++ {
			note.Update = append(note.Update, &pb.Update{Path: vc.P("a", name(i), "x"), Val: vc.I(1)})
			note.Delete = append(note.Delete, vc.P("a", name(i)))
		}
		other.n = 0
		subscribe.UpdateNotification(m, 1, note, []string{"t"})
		if err := want(c, 1, "a notification of %d updates and deletes, %d queries", n, n); err != nil {
			return err
		}
		if err := want(other, 1, "a notification of %d updates and deletes, one query", n); err != nil {
			return err
		}
		for i, f := range rm {
			f()
			offer(m, "t", "a", name(i), "x")
			if err := want(c, 0, "query %d of %d, removed", i, n); err != nil {
				return err
			}
			if i+1 < n {
				offer(m, "t", "a", name(n-1), "x")
				if err := want(c, 1, "query %d of %d, query %d removed", n-1, n, i); err != nil {
					return err
				}
			}
		}
		other.n = 0
		offer(m, "t", "a", name(n/2))
		return want(other, 1, "the other client after the removal of %d queries", n)
	})
	q.ForSizes(513, "elements of a path", func(n int) error {
		var deep []string
		for i := 0; i < n; i++ {
			deep = append(deep, name(i))
		}
		for _, g := range []int{-1, 0, n / 2, n - 1} {
			qu := cp(deep)
			if g >= 0 {
				qu[g] = "*"
			}
			m := match.New()
			c := &client{}
			rm := m.AddQuery(cp(qu), c)
			for k := 0; k <= n; k++ {
				offer(m, deep[:k]...)
				if err := want(c, 1, "a query of %d elements, glob at %d, the first %d", n, g, k); err != nil {
					return err
				}
				if k < n {
					p := cp(deep)
					p[k] = "other"
					w := 0
					if k == g {
						w = 1
					}
					offer(m, p...)
					if err := want(c, w, "a query of %d elements, glob at %d, element %d differs", n, g, k); err != nil {
						return err
					}
				}
			}
			offer(m, append(cp(deep), deep...)...)
			if err := want(c, 1, "a query of %d elements, a path of %d", n, 2*n); err != nil {
				return err
			}
			rm()
			offer(m, deep...)
			if err := want(c, 0, "a removed query of %d elements", n); err != nil {
				return err
			}
		}
		return nil
	})
}
