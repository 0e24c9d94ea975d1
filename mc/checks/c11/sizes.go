package main

import (
	"context"

	"github.com/openconfig/gnmi/coalesce"
	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// sizes looks at queues and counts of many sizes.
func sizes(q *vh.Q) {
	const max = 5001
	ctx := context.Background()
	next := func(qu *coalesce.Queue, i, dup int) error {
		v, d, err := qu.Next(ctx)
		if err != nil || v != any(i) || d != uint32(dup) {
			return vh.Errf("next", "Next = %v, %d, %v, want %d with %d", v, d, err, i, dup)
		}
		return nil
	}
	insert := func(qu *coalesce.Queue, i int, fresh bool) error {
		if ok, err := qu.Insert(i); ok != fresh || err != nil {
			return vh.Errf("insert", "Insert(%d) = %v, %v, want %v", i, ok, err, fresh)
		}
		return nil
	}
	q.ForSizes(max, "pending items, some several times", func(n int) error {
		for _, cl := range []bool{false, true} {
			qu := coalesce.NewQueue()
			for i := 0; i < n; i++ {
				if err := insert(qu, i, true); err != nil {
					return err
				}
			}
			for i := n - 1; i >= 0; i-- {
				for k := 0; k < i%3; k++ {
					if err := insert(qu, i, false); err != nil {
						return err
					}
				}
			}
			if cl {
				qu.Close()
				if _, err := qu.Insert(n); !coalesce.IsClosedQueue(err) {
					return vh.Errf("insert", "Insert after Close: %v", err)
				}
			}
			for i := 0; i < n; i++ {
				if l := qu.Len(); l != n-i {
					return vh.Errf("len", "Len = %d, want %d", l, n-i)
				}
				if err := next(qu, i, i%3); err != nil {
					return err
				}
			}
			qu.Close()
			if _, _, err := qu.Next(ctx); !coalesce.IsClosedQueue(err) {
				return vh.Errf("next", "Next of the closed empty queue: %v", err)
			}
		}
		return nil
	})
	q.ForSizes(100001, "insertions of one item", func(n int) error {
		qu := coalesce.NewQueue()
		for i := 0; i < n; i++ {
			if err := insert(qu, 7, i == 0); err != nil {
				return err
			}
		}
		return next(qu, 7, n-1)
	})
	q.ForSizes(max, "a backlog that moves on", func(n int) error {
		for _, b := range []int{0, 1, 3, 16, 100} {
			qu := coalesce.NewQueue()
			out := 0
			for i := 0; i < n; i++ {
				if err := insert(qu, i, true); err != nil {
					return err
				}
				if i%2 == 1 {
					if err := insert(qu, i, false); err != nil {
						return err
					}
				}
				for qu.Len() > b {
					if err := next(qu, out, out%2); err != nil {
						return err
					}
					out++
				}
			}
			for ; out < n; out++ {
				if err := next(qu, out, out%2); err != nil {
					return err
				}
			}
		}
		return nil
	})
	q.ForSizes(1001, "a producer and a waiting consumer", func(n int) error {
		return q.ExecN(100*n+1000, func(x *vh.X) {
			qu := coalesce.NewQueue()
			ctx, cancel := vcontext.WithCancel(context.Background())
			defer cancel()
			vrt.GoN("consumer", func() {
				for i := 0; i < n; i++ {
					if v, d, err := qu.Next(ctx); err != nil || v != any(i) || d != 0 {
						x.Fail("next", "Next = %v, %d, %v, want %d", v, d, err, i)
					}
				}
			})
			for i := 0; i < n; i++ {
				qu.Insert(i)
				vrt.Quiesce()
			}
			qu.Close()
			vrt.Quiesce()
			if l := vrt.Blocked(); len(l) > 0 {
				x.Fail("blocked", "%v", l)
			}
		})
	})
}
