//go:build go1.23

package main

import (
	"fmt"
	"time"

	"github.com/openconfig/gnmi/latency"
	"github.com/openconfig/gnmi/zz_verif/vh"
)

// latencySizes drive one quantity of the latency statistics at a time far
// beyond the exhaustive bounds: observations, batches of a window, windows,
// refreshes.
func latencySizes(deep bool) []vh.Scenario {
	max := 260
	if deep {
		max = 1030
	}
	var out []vh.Scenario
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	// seq builds sequences over a growing set of latencies.
	type seq struct {
		lats []time.Duration
		ev   []int // -1: a second passes, -2: refresh
	}
	obs := func(s *seq, d time.Duration) { s.lats = append(s.lats, d); s.ev = append(s.ev, len(s.lats)-1) }
	tick := func(s *seq) { s.ev = append(s.ev, -1, -2) }
	run := func(s *seq, ws []time.Duration, prec time.Duration, last bool) error {
		var o *latency.Options
		if prec != 0 {
			o = &latency.Options{AvgPrecision: prec}
		}
		ev := make([]int, len(s.ev))
		for i, e := range s.ev {
			switch e {
			case -1:
				e = len(s.lats)
			case -2:
				e = len(s.lats) + 1
			}
			ev[i] = e
		}
		return observe(ws, o, s.lats, ev, last)
	}
	sec := func(n int) time.Duration { return time.Duration(n) * time.Second }
	// shapes of a series of latencies: the extremes are early, late, in the
	// middle, alternating.
	shapes := []struct {
		name string
		f    func(i, n int) time.Duration
	}{
		{"up", func(i, n int) time.Duration { return ms(300 + 7*i) }},
		{"down", func(i, n int) time.Duration { return ms(300 + 7*(n-i)) }},
		{"peak", func(i, n int) time.Duration {
			if i == n/2 {
				return sec(3600)
			}
			return ms(500)
		}},
		{"dip", func(i, n int) time.Duration {
			if i == n/2 {
				return ms(1)
			}
			return sec(20)
		}},
		{"alternating", func(i, n int) time.Duration { return ms(1 + 9999*(i%2)) }},
		{"negative", func(i, n int) time.Duration { return ms(-5 * (i%3 + 1)) }},
		{"large", func(i, n int) time.Duration { return time.Duration(i%5) * 24 * 365 * time.Hour / 4 }},
		{"spikes at the ends", func(i, n int) time.Duration {
			if i == 0 || i == n-1 {
				return sec(99)
			}
			return ms(10 + i)
		}},
	}
	for _, sh := range shapes {
		sh := sh
		precs := []time.Duration{0, time.Millisecond, ms(700)}
		if sh.name == "large" {
			precs = []time.Duration{time.Millisecond, time.Second} // as nanoseconds they add up to too much
		}
		add := func(name string, f func(n int, prec time.Duration) error) {
			name = fmt.Sprintf("latency %s, %s", name, sh.name)
			out = append(out, vh.Scenario{Name: "sizes: " + name, Seq: func(q *vh.Q) {
				q.ForSizes(max, name, func(n int) error {
					for _, p := range precs {
						if err := f(n, p); err != nil {
							return err
						}
					}
					return nil
				})
			}})
		}
		add("observations", func(n int, prec time.Duration) error {
			s := &seq{}
			for b := 0; b < 4; b++ {
				for i := 0; i < n; i++ {
					if b != 2 || i%3 == 0 {
						obs(s, sh.f(i, n))
					}
				}
				tick(s)
			}
			tick(s)
			return run(s, []time.Duration{sec(1), sec(2)}, prec, n%2 == 1)
		})
		// A window of n batches slides over 3n of them, some without observations.
		for gap := 0; gap < 3; gap++ {
			add(fmt.Sprintf("batches, gap %d", gap), func(n int, prec time.Duration) error {
				s := &seq{}
				for i := 0; i < 3*n+3; i++ {
					if gap == 0 || i%(gap*2+1) < 2 || i%(2*n) < n/2 {
						obs(s, sh.f(i%n, n))
						if i%4 == 0 {
							obs(s, sh.f((i+n/2)%n, n))
						}
					}
					tick(s)
				}
				// All of it is left behind.
				for i := 0; i < n+2; i++ {
					tick(s)
				}
				obs(s, ms(3))
				tick(s)
				return run(s, []time.Duration{sec(n), sec(1)}, prec, gap == 2)
			})
		}
		add("windows", func(n int, prec time.Duration) error {
			if n > 70 {
				return nil
			}
			s := &seq{}
			var ws []time.Duration
			for i := 0; i < n; i++ {
				ws = append(ws, sec(i+1))
			}
			for i := 0; i < n+n/2; i++ {
				if i%7 != 3 {
					obs(s, sh.f(i, n))
				}
				tick(s)
			}
			return run(s, ws, prec, false)
		})
	}
	return out
}
