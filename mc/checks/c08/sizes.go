//go:build go1.23

package main

import (
	"fmt"
	"time"

	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vs"
)

func leaf(i int) string { return fmt.Sprintf("l%d", i) }

// backlogSize blocks a subscriber while n leaves change rounds times each and
// are then deleted.
func backlogSize(n, rounds int) func(x *vh.X) {
	return func(x *vh.X) {
		w := newWorld(x, []string{"t"}, false)
		ok := w.Subscribe(vs.Stream("t", "", false, "a"), false)
		s := w.Subscribe(vs.Stream("t", "", false, "a"), false)
		w.Settle()
		s.Block()
		w.Set("t", 1, 1, "a", "first")
		w.Settle()
		now := vrt.Now()
		ts := int64(2)
		for r := 0; r < rounds; r++ {
			for i := 0; i < n; i++ {
				w.Set("t", ts, ts, "a", leaf(i))
				ts++
			}
			w.Settle()
		}
		accepted(w)
		if vrt.Now() != now {
			x.Fail("stalled-collector", "time passed")
		}
		newest := func(r vs.Rec) bool {
			for i := 0; i < n; i++ {
				if r.Key == "t/a/"+leaf(i) {
					return r.Val == ts-int64(n)+int64(i)
				}
			}
			return false
		}
		if rs, _ := vs.Recs(ok.Sent); len(rs) < n+1 || n > 0 && !newest(rs[len(rs)-1]) {
			x.Fail("stalled-collector", "%d leaves, %d changes each, while another subscriber is blocked: %d updates received", n, rounds, len(rs))
		}
		at := len(s.Sent)
		s.Unblock()
		w.Settle()
		rs, _ := vs.Recs(s.Sent[at:])
		if s.Ended || len(rs) != n {
			x.Fail("backlog", "%d leaves changed %d times each while blocked: %d updates on resuming; ended %v", n, rounds, len(rs), s.Ended)
		}
		seen := map[string]bool{}
		for i, r := range rs {
			if r.Del || seen[r.Key] || n <= 600 && !newest(r) {
				x.Fail("backlog", "update %d on resuming after %d changes of %d leaves is %+v", i, rounds, n, r)
			}
			seen[r.Key] = true
			if int(r.Dup) != rounds-1 {
				x.Fail("duplicates", "%d changes of each of %d leaves: %d duplicates of %s", rounds, n, r.Dup, r.Key)
			}
		}
		s.Block()
		w.Set("t", ts, ts, "a", "first")
		w.Settle()
		for i := 0; i < n; i++ {
			w.Del("t", ts+1, "a", leaf(i))
		}
		w.Settle()
		accepted(w)
		at = len(s.Sent)
		s.Unblock()
		w.Settle()
		rs, _ = vs.Recs(s.Sent[at:])
		if s.Ended || len(rs) != n {
			x.Fail("backlog", "%d deletes while blocked: %d responses on resuming; ended %v", n, len(rs), s.Ended)
		}
		for _, r := range rs {
			if !r.Del {
				x.Fail("backlog", "an update of %s after its delete", r.Key)
			}
		}
	}
}

// slow sends n responses each of which takes nearly as long as is allowed.
func slow(n int, idle time.Duration) func(x *vh.X) {
	return func(x *vh.X) {
		w := newWorld(x, []string{"t"}, false)
		s := w.Prepare(vs.Stream("t", "", false, "a"))
		for i := 0; i < n+1; i++ {
			s.Stalls = append(s.Stalls, short)
		}
		s.Start()
		w.Settle()
		for i := 0; i < n; i++ {
			w.Set("t", int64(i+1), int64(i+1), "a", leaf(i))
			w.Settle()
			if idle > 0 {
				vrt.Sleep(int64(idle))
			}
		}
		vrt.Sleep(int64(time.Duration(n+2) * timeout))
		w.Settle()
		if rs, _ := vs.Recs(s.Sent); s.Ended || len(rs) != n {
			x.Fail("ended", "a subscriber each of whose %d sends takes %v received %d, ended %v: %v", n+1, short, len(rs), s.Ended, s.Err)
		}
	}
}

func sizes(q *vh.Q) {
	for _, r := range []int{1, 2, 3} {
		q.ForSizes(1025, fmt.Sprintf("pending leaves, %d changes of each", r), func(n int) error {
			return q.ExecN(100000+5000*n, backlogSize(n, r))
		})
	}
	q.ForSizes(5001, "changes of one leaf", func(r int) error {
		return q.ExecN(100000+5000*r, backlogSize(1, r))
	})
	for _, idle := range []time.Duration{0, timeout / 2, 3 * timeout} {
		q.ForSizes(257, fmt.Sprintf("slow sends, %v apart", idle), func(n int) error {
			return q.ExecN(100000+5000*n, slow(n, idle))
		})
	}
}
