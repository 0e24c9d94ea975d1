//go:build go1.23

package main

import (
	"strings"
	"time"

	"github.com/openconfig/gnmi/client"
	"github.com/openconfig/gnmi/zz_verif/vh"
)

// sizeScenarios drive one quantity at a time far beyond the exhaustive bounds:
// failed attempts, sessions, messages, Subscribe and Close calls.
func sizeScenarios(deep bool, cfgs []cfg) []vh.Scenario {
	max := 260
	if deep {
		max = 2050
	}
	rep := func(n int, o ...outcome) []outcome {
		var out []outcome
		for i := 0; i < n; i++ {
			out = append(out, o...)
		}
		return out
	}
	reps := func(n int, s string) []string {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, s)
		}
		return out
	}
	pause := time.Duration(float64(client.RetryMaxDelay) * (1 + client.RetryRandomization))
	rest := func(n int) time.Duration { return time.Duration(n+10)*pause + 30*time.Minute }
	one := []string{"subscribe"}
	var out []vh.Scenario
	add := func(name string, bodies func(n int) []func(*vh.X)) {
		max := max
		if strings.HasPrefix(name, "n failures") {
			max = 2050
		}
		out = append(out, vh.Scenario{Name: "sizes: " + name, Seq: func(q *vh.Q) {
			q.ForSizes(max, name, func(n int) error {
				for _, b := range bodies(n) {
					if err := q.ExecN(20_000_000, b); err != nil {
						return err
					}
				}
				return nil
			})
		}})
	}
	live := st("us", "silent")
	for _, c := range append(cfgs, cfg{name: "plain gnmi", impl: "gnmi", typ: client.Stream}, cfg{name: "plain caching gnmi", impl: "gnmi", inner: "cache", typ: client.Stream}, cfg{name: "plain fake", impl: "fake", typ: client.Stream}) {
		c := c
		if c.nilCB || c.two {
			continue
		}
		msgs := func(n int) string {
			kinds := "uuUs"
			if c.impl == "fake" {
				kinds = "uus"
			}
			var b []byte
			for i := 0; i < n; i++ {
				b = append(b, kinds[i%len(kinds)])
			}
			return string(b)
		}
		// The events of a message are its receipt and its notifications.
		stops := func(n int) [][]trig {
			return [][]trig{nil, {{n, []string{"close"}}}, {{2 * n, []string{"cancel"}}}, {{n + n/2, []string{"close", "close"}}}}
		}
		add("n messages, "+c.name, func(n int) []func(*vh.X) {
			var bs []func(*vh.X)
			for _, tr := range stops(n) {
				for _, end := range []string{"err", "silent"} {
					bs = append(bs, run(c, []outcome{st(msgs(n), end), live}, one, tr, 30*time.Minute))
				}
			}
			return bs
		})
		if !c.recon {
			add("n subscribes, "+c.name, func(n int) []func(*vh.X) {
				return []func(*vh.X){
					run(c, append(rep(n, st("us", "err"), outcome{kind: "nostream"}), live), reps(2*n+1, "subscribe"), []trig{{8*n + 3, []string{"close"}}}, 30*time.Minute),
					run(c, append(rep(n, st("u", "eof")), live), reps(n+1, "subscribe"), nil, 30*time.Minute),
				}
			})
			continue
		}
		add("n failures, "+c.name, func(n int) []func(*vh.X) {
			var bs []func(*vh.X)
			if n > max { // days of failures
				return []func(*vh.X){run(c, append(rep(n, outcome{kind: "refuse"}), live), one, nil, rest(n))}
			}
			for _, f := range []outcome{{kind: "refuse"}, {kind: "nosend"}, st("", "err"), st("u", "eof"), st("us", "err")} {
				bs = append(bs, run(c, append(rep(n, f), live, f, live), one, nil, rest(n)))
				for _, at := range []int{n, 3 * n, 4*n - 1, 4 * n} {
					bs = append(bs, run(c, append(rep(n, f), live), one, []trig{{at, []string{"11s", "close"}}}, rest(n)))
				}
				bs = append(bs, run(c, append(rep(n, f), live), one, []trig{{3*n + 2, []string{"cancel"}}}, rest(n)))
			}
			return bs
		})
		add("n closes, "+c.name, func(n int) []func(*vh.X) {
			return []func(*vh.X){
				run(c, []outcome{st("us", "err"), live}, one, []trig{{6, reps(n, "close")}}, rest(0)),
				run(c, []outcome{st("us", "err"), {kind: "refuse"}, live}, one, []trig{{10, append(reps(n, "close"), "cancel")}}, rest(0)),
			}
		})
	}
	return out
}
