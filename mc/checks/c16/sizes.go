//go:build go1.23

package main

import (
	"context"
	"fmt"

	"github.com/openconfig/gnmi/connection"
	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// sizeScenarios drive one quantity at a time far beyond the exhaustive bounds:
// the requesters of an address, the rounds of requests, the addresses.
func sizeScenarios(deep bool) []vh.Scenario {
	max := 520
	if deep {
		max = 4100
	}
	d := connection.DEFAULT
	newWorld := func(x *vh.X, n int) (*world, *connection.Manager) {
		w := &world{x: x, inflight: make([]int, n), dials: make([]int, n)}
		m, err := connection.NewManagerCustom(map[string]connection.Dial{d: w.dial()})
		if err != nil {
			x.Fail("new", "%v", err)
		}
		return w, m
	}
	end := func(w *world, x *vh.X, conns int) {
		vrt.Sleep(10e9)
		if vrt.Live() > 0 {
			w.fail("blocked", "requests never returned: %v", vrt.Blocked())
		}
		for id, cs := range w.conns {
			if cs.closed != 1 {
				w.fail("leak", "connection %d is released by all but was closed %d times", id, cs.closed)
			}
		}
		if conns != len(w.conns) {
			w.fail("not-forgotten", "%d connections were made, expected %d", len(w.conns), conns)
		}
	}
	var out []vh.Scenario
	add := func(name string, body func(x *vh.X, n int)) {
		out = append(out, vh.Scenario{Name: "sizes: " + name, Seq: func(q *vh.Q) {
			q.ForSizes(max, name, func(n int) error { return q.ExecN(20_000_000, func(x *vh.X) { body(x, n) }) })
		}})
	}
	// All n wait for one dial; everybody then holds the connection, and they
	// release it in the order given.
	share := func(fail int, order func(i, n int) int) func(x *vh.X, n int) {
		return func(x *vh.X, n int) {
			w, m := newWorld(x, 1)
			asked, held, turn, round := 0, 0, 0, 0
			w.gate = func() error {
				if round <= fail {
					want := n * round
					vrt.Await("all ask", func() bool { return asked >= want })
				}
				vrt.Sleep(1e9)
				if round <= fail {
					return errDial
				}
				return nil
			}
			for round = 1; round <= fail+1; round++ {
				for i := 0; i < n; i++ {
					i := i
					vrt.GoN(fmt.Sprintf("r%d", i), func() {
						asked++
						vrt.Touch()
						w.request(fmt.Sprintf("r%d", i), m, step{dialer: d, double: i%3 == 1, hold: func() {
							held++
							vrt.Touch()
							vrt.Await("turn", func() bool { return held == n && order(turn, n) == i })
							turn++
							vrt.Touch()
						}})
					})
				}
				vrt.Sleep(10e9)
				if round <= fail && w.failed != n*round {
					w.fail("blocked", "%d of %d requests got the error of the dial; %v", w.failed-n*(round-1), n, vrt.Blocked())
				}
			}
			end(w, x, 1)
		}
	}
	add("n requesters, released in order", share(0, func(i, n int) int { return i }))
	add("n requesters, released in reverse", share(0, func(i, n int) int { return n - 1 - i }))
	add("n requesters, the first last", share(0, func(i, n int) int { return (i + 1) % n }))
	add("n requesters, two failing dials", share(2, func(i, n int) int { return i }))
	add("n requesters, all but one cancelled", func(x *vh.X, n int) {
		for _, keep := range []int{0, n / 2, n - 1} {
			w, m := newWorld(x, 1)
			held := 0
			w.gate = func() error {
				vrt.Sleep(1e9)
				return nil
			}
			ctx, cancel := vcontext.WithCancel(context.Background())
			for i := 0; i < n; i++ {
				i := i
				s := step{dialer: d, ctx: ctx}
				if i == keep {
					s = step{dialer: d, hold: func() { held++ }}
				}
				vrt.GoN(fmt.Sprintf("r%d", i), func() { w.request(fmt.Sprintf("r%d", i), m, s) })
			}
			vrt.GoN("canceller", func() { cancel() })
			vrt.Sleep(10e9)
			if held != 1 {
				w.fail("cancelled", "requester %d of %d, whose context lives, got no connection", keep, n)
			}
			end(w, x, len(w.conns))
			cancel()
		}
	})
	add("n rounds", func(x *vh.X, n int) {
		w, m := newWorld(x, 1)
		for i := 0; i < n; i++ {
			w.request(fmt.Sprintf("round %d", i), m, step{dialer: d, double: i%2 == 0})
		}
		end(w, x, n)
	})
	add("n rounds under one holder", func(x *vh.X, n int) {
		w, m := newWorld(x, 1)
		w.request("holder", m, step{dialer: d, hold: func() {
			for i := 0; i < n; i++ {
				w.request(fmt.Sprintf("round %d", i), m, step{dialer: d, double: i%2 == 0})
			}
		}})
		end(w, x, 1)
	})
	add("n failing rounds", func(x *vh.X, n int) {
		w, m := newWorld(x, 1)
		w.gate = func() error { return errDial }
		for i := 0; i < n; i++ {
			w.request(fmt.Sprintf("round %d", i), m, step{dialer: d})
		}
		w.gate = nil
		w.request("last", m, step{dialer: d})
		if w.dials[0] != n+1 {
			w.fail("not-forgotten", "%d dials for %d requests", w.dials[0], n+1)
		}
		end(w, x, 1)
	})
	add("n addresses held at once", func(x *vh.X, n int) {
		w, m := newWorld(x, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				for j := 0; j < n; j++ {
					w.request(fmt.Sprintf("again %d", j), m, step{addr: j, dialer: d, double: true})
				}
				return
			}
			w.request(fmt.Sprintf("r%d", i), m, step{addr: i, dialer: d, hold: func() { rec(i + 1) }})
		}
		rec(0)
		end(w, x, n)
	})
	return out
}
