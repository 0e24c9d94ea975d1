//go:build go1.23

package main

import (
	"fmt"
	"time"

	"github.com/openconfig/gnmi/zz_verif/vh"
)

// sizeScenarios drive one quantity at a time far beyond the exhaustive bounds:
// the length of an outage, the messages of a session, the sessions and lives
// of a target, the number of targets.
func sizeScenarios(deep bool) []vh.Scenario {
	max := 600
	targets := 260
	if deep {
		max, targets = 4100, 520
	}
	rep := func(n int, o ...outcome) []outcome {
		var out []outcome
		for i := 0; i < n; i++ {
			out = append(out, o...)
		}
		return out
	}
	one := func(c cfg, sc []outcome, tr []trig, rest time.Duration) func(*vh.X) {
		return run(c, []string{"t"}, map[string][]outcome{"t": sc}, tr, tr == nil, rest)
	}
	plain := cfg{name: "sizes", recv: recvTimeout}
	var out []vh.Scenario
	add := func(name string, max int, body func(n int) func(*vh.X)) {
		out = append(out, vh.Scenario{Name: "sizes: " + name, Seq: func(q *vh.Q) {
			q.ForSizes(max, name, func(n int) error { return q.ExecN(20_000_000, body(n)) })
		}})
	}
	for _, f := range []outcome{{kind: "refuse"}, {kind: "nosend"}, st("", "err"), st("n", "eof")} {
		most := max
		if f.kind == "refuse" {
			most = 2050 // more than a day
		}
		add(fmt.Sprintf("an outage of n attempts, %v", f), most, func(n int) func(*vh.X) {
			return one(plain, append(rep(n, f), st("us", "err"), f, f, st("u", "silent")), nil, time.Duration(n+8)*2*time.Minute)
		})
	}
	add("n messages", max, func(n int) func(*vh.X) {
		var u []byte
		for i := 0; i < n; i++ {
			u = append(u, "uuus"[i%4])
		}
		return one(plain, []outcome{st(string(u), "err"), st("us", "eof")}, nil, 10*time.Minute)
	})
	add("n slow messages", max, func(n int) func(*vh.X) {
		o := outcome{kind: "stream", end: "silent"}
		for i := 0; i < n; i++ {
			o.msgs = append(o.msgs, msg{"us"[i%2], recvTimeout - 1})
		}
		return one(plain, []outcome{o, st("us", "eof")}, nil, time.Duration(n+4)*recvTimeout+10*time.Minute)
	})
	add("n sessions", max, func(n int) func(*vh.X) {
		return one(plain, append(rep(n, st("us", "err")), st("u", "silent")), nil, time.Duration(n+8)*2*time.Minute)
	})
	add("n silent sessions", max, func(n int) func(*vh.X) {
		return one(plain, append(rep(n, st("us", "silent")), st("u", "err")), nil, time.Duration(n+8)*2*time.Minute)
	})
	add("n sessions and outages in turn", max, func(n int) func(*vh.X) {
		return one(plain, append(rep(n, st("u", "err"), outcome{kind: "refuse"}, outcome{kind: "nostream"}), st("u", "silent")), nil, time.Duration(n+8)*6*time.Minute)
	})
	add("n reconnects", max, func(n int) func(*vh.X) {
		tr := trig{at: 8}
		for i := 0; i < n; i++ {
			tr.ops = append(tr.ops, "reconnect t")
		}
		return one(cfg{name: "sizes"}, rep(n+1, st("us", "silent")), []trig{tr}, time.Duration(n+8)*2*time.Minute)
	})
	add("n lives", max, func(n int) func(*vh.X) {
		tr := trig{at: 8}
		for i := 0; i < n; i++ {
			tr.ops = append(tr.ops, "remove t", "add t")
		}
		return one(plain, rep(n+1, st("us", "err")), []trig{tr}, time.Duration(n+8)*2*time.Minute)
	})
	for _, shared := range []bool{false, true} {
		what := "n targets"
		if shared {
			what = "n targets sharing an address"
		}
		add(what, targets, func(n int) func(*vh.X) {
			c := cfg{name: "sizes", recv: recvTimeout}
			if shared {
				c.addrs = map[string][]string{}
			}
			scripts := map[string][]outcome{}
			var names []string
			for i := 0; i < n; i++ {
				t := fmt.Sprintf("t%d", i)
				names = append(names, t)
				scripts[t] = []outcome{st("us", "err"), st("uus", "silent"), st("", "eof"), st("u", "silent")}
				if shared {
					c.addrs[t] = []string{"x"}
				}
			}
			return run(c, names, scripts, []trig{{n, []string{"remove t0", "reconnect " + names[n/2], "remove " + names[n-1], "add " + names[n-1]}}}, false, 10*time.Minute)
		})
	}
	return out
}
