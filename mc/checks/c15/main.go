//go:build go1.23

// Check C15: metadata counters and latency statistics.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/latency"
	"github.com/openconfig/gnmi/metadata"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// rec records what a latency object exports in one call.
type rec struct {
	got map[string]int64
}

func (r *rec) SetInt(k string, v int64) error { r.got[k] = v; return nil }

type sample struct {
	at  time.Duration // time of observation
	lat time.Duration
}

// observe runs a sequence of observations (below len(lats)), passing seconds
// (len(lats)) and refreshes (len(lats)+1), and judges every exported statistic.
func observe(windows []time.Duration, opts *latency.Options, lats []time.Duration, seq []int, last bool) error {
	prec := time.Duration(1)
	if opts != nil {
		prec = opts.AvgPrecision
	}
	now := 1000 * time.Second
	latency.Now = func() time.Time { return time.Unix(0, int64(now)) }
	l := latency.New(windows, opts)
	var obs []sample
	var refreshes []time.Duration
	for _, s := range seq {
		switch {
		case s < len(lats):
			obs = append(obs, sample{now, lats[s]})
			l.Compute(time.Unix(0, int64(now-lats[s])))
		case s == len(lats):
			now += time.Second
		default:
			r := &rec{map[string]int64{}}
			fin := last
			if fin {
				l.UpdateLast(r)
			} else {
				l.UpdateReset(r)
			}
			for _, w := range windows {
				// The observations of the window; samples taken between the
				// refreshes around its start may or may not belong to it.
				from := now - w
				prev := time.Duration(0)
				for _, t := range refreshes {
					if t <= from {
						prev = t
					}
				}
				var mn, mx time.Duration
				cnt := 0
				for _, o := range obs {
					if o.at < prev {
						continue
					}
					if cnt == 0 || o.lat < mn {
						mn = o.lat
					}
					if cnt == 0 || o.lat > mx {
						mx = o.lat
					}
					cnt++
				}
				for _, st := range []latency.StatType{latency.Avg, latency.Min, latency.Max} {
					v, ok := r.got[latency.MetadataName(w, st)]
					if !ok {
						continue
					}
					if cnt == 0 {
						return vh.Errf("latency-empty", "window %v exports %v=%d although it holds no latency", w, st, v)
					}
					lo, hi := int64(mn), int64(mx)
					if st == latency.Avg {
						lo, hi = lo-int64(prec), hi+int64(prec)
					}
					if v < lo || v > hi {
						return vh.Errf("latency-bounds", "window %v exports %v=%v; the latencies observed in it lie in [%v, %v]", w, st, time.Duration(v), mn, mx)
					}
				}
			}
			refreshes = append(refreshes, now)
		}
	}
	return nil
}

// latencies explores all sequences of latency observations and refreshes.
func latencies(q *vh.Q, windows []time.Duration, prec time.Duration, lats []time.Duration, depth int, last bool) {
	var opts *latency.Options
	if prec != 0 {
		opts = &latency.Options{AvgPrecision: prec}
	}
	// 0..len(lats)-1: observe; then: 1s passes; refresh
	n := len(lats) + 2
	names := func(seq []int) string {
		var b strings.Builder
		for _, s := range seq {
			switch {
			case s < len(lats):
				fmt.Fprintf(&b, "observe %v; ", lats[s])
			case s == len(lats):
				b.WriteString("1s passes; ")
			default:
				b.WriteString("refresh; ")
			}
		}
		return b.String()
	}
	run := func(seq []int) error { return observe(windows, opts, lats, seq, last) }
	seq := make([]int, 0, depth)
	var rl func() bool
	rl = func() bool {
		for i := 0; i < n; i++ {
			if q.Expired() {
				return false
			}
			if len(seq) > 0 && i == n-1 && seq[len(seq)-1] == n-1 {
				continue
			}
			seq = append(seq, i)
			if i == n-1 {
				s := append([]int(nil), seq...)
				q.Do(func() string { return names(s) }, func() error { return run(s) })
				q.Trans(1)
			}
			if len(seq) < depth {
				if !rl() {
					return false
				}
			}
			seq = seq[:len(seq)-1]
		}
		return true
	}
	if rl() {
		q.States(1)
		q.Sample("latencies: all sequences of %d events over %v, windows %v, precision %v", depth, lats, windows, prec)
	}
}

// through drives latencies through the cache: updates of a synced target and
// periodic refreshes, and judges the metadata leaves.
func through(q *vh.Q, prec time.Duration, depth int) {
	ws := []string{"2s", "4s"}
	wd := []time.Duration{2 * time.Second, 4 * time.Second}
	if prec == 0 {
		prec = 1
	}
	ops := []string{"sync", "300ms", "1500ms", "3s", "-200ms", "meta", "stale", "same", "tick", "reset", "connect"}
	run := func(seq []int) error {
		w := vc.New(vc.Cfg{Targets: []string{"t"}, Windows: ws, Precision: prec, Check: "-", NoTick: true})
		var obs []sample
		synced := false
		val := int64(0)
		var newest int64 // of leaf a
		has := false
		cnt := func(ts int64, v int64) error {
			return w.C.GnmiUpdate(&pb.Notification{Timestamp: ts, Prefix: vc.Prefix("t", "", nil), Update: []*pb.Update{vc.U(vc.P("a"), vc.I(v))}})
		}
		for _, s := range seq {
			switch o := ops[s]; o {
			case "sync":
				w.C.Sync("t")
				synced = true
			case "connect":
				w.C.Connect("t")
			case "meta":
				w.C.ConnectError("t", fmt.Errorf("x"))
			case "reset":
				w.C.Reset("t")
				synced, has = false, false
			case "stale":
				if has {
					if err := cnt(newest-1, 99); err == nil {
						return vh.Errf("stale", "stale update accepted")
					}
				}
			case "same":
				if has && newest < w.Clock {
					newest++
					cnt(newest, val)
				}
			case "tick":
				w.Clock += vc.Sec
				w.C.UpdateMetadata()
				md := w.C.Metadata()["t"]
				for _, win := range wd {
					var mn, mx time.Duration
					n := 0
					for _, o := range obs {
						if o.at < time.Duration(w.Clock)-win {
							continue
						}
						if n == 0 || o.lat < mn {
							mn = o.lat
						}
						if n == 0 || o.lat > mx {
							mx = o.lat
						}
						n++
					}
					if n == 0 || mn < prec {
						continue // nothing exported at this refresh, possibly
					}
					for _, st := range []latency.StatType{latency.Avg, latency.Min, latency.Max} {
						name := latency.MetadataName(win, st)
						v, err := md.GetInt(name)
						if err != nil {
							continue
						}
						// A value from before the window was refilled may remain until
						// the window is covered; it is renewed by every refresh after.
						lo, hi := int64(mn), int64(mx)
						if st == latency.Avg {
							lo, hi = lo-int64(prec), hi+int64(prec)
						}
						if v < lo || v > hi {
							return vh.Errf("latency-export", "metadata %s is %v; the latencies observed in the window lie in [%v, %v]", name, time.Duration(v), mn, mx)
						}
						got, err := w.Query("t")
						if err != nil {
							return err
						}
						_ = got
						var leaf *pb.Notification
						w.C.Query("t", latency.Path(win, st, []string{metadata.Root}), func(_ []string, _ *ctree.Leaf, v any) error {
							leaf = v.(*pb.Notification)
							return nil
						})
						if leaf == nil || leaf.GetUpdate()[0].GetVal().GetIntVal() != v {
							return vh.Errf("latency-leaf", "metadata leaf of %s is %v, metadata holds %d", name, leaf, v)
						}
					}
				}
			default:
				d, _ := time.ParseDuration(o)
				ts := w.Clock - int64(d)
				if has && ts <= newest {
					continue
				}
				val++
				if err := cnt(ts, val); err != nil {
					return vh.Errf("refused", "update refused: %v", err)
				}
				newest, has = ts, true
				if synced {
					obs = append(obs, sample{time.Duration(w.Clock), d})
				}
			}
		}
		return nil
	}
	seq := make([]int, 0, depth)
	var rl func() bool
	rl = func() bool {
		for i := range ops {
			if q.Expired() {
				return false
			}
			seq = append(seq, i)
			if ops[i] == "tick" {
				s := append([]int(nil), seq...)
				q.Do(func() string {
					var b strings.Builder
					for _, x := range s {
						b.WriteString(ops[x] + "; ")
					}
					return b.String()
				}, func() error { return run(s) })
				q.Trans(1)
			}
			if len(seq) < depth {
				if !rl() {
					return false
				}
			}
			seq = seq[:len(seq)-1]
		}
		return true
	}
	if rl() {
		q.States(1)
		q.Sample("latencies through the cache: all sequences of %d of %v", depth, ops)
	}
}

type conf struct {
	name    string
	threads [][]vc.CStep // the first ones are update streams, one target each
	streams int
	windows []string
	full    bool // all metadata refreshed
	reset   bool
}

func build(c conf) *cache.Cache {
	opts := []cache.Option{cache.WithFutureThreshold(50 * time.Second)}
	if c.windows != nil {
		o, err := cache.WithLatencyWindows(c.windows, time.Second)
		if err != nil {
			panic(err)
		}
		opts = append(opts, o)
	}
	if !c.full {
		opts = append(opts, cache.WithExcludedMeta([]string{metadata.AddCount, metadata.DelCount, metadata.EmptyCount, metadata.UpdateCount, metadata.StaleCount,
			metadata.FutureCount, metadata.SuppressedCount, metadata.Size, metadata.ConnectedAddr, metadata.Connected, metadata.ConnectError}))
	}
	ch := cache.New([]string{"t", "s"}, opts...)
	ch.SetClient(func(l *ctree.Leaf) { _ = l.Value() })
	return ch
}

func sum(m map[string]int64) int64 {
	return m[metadata.UpdateCount] + m[metadata.StaleCount] + m[metadata.SuppressedCount] + m[metadata.FutureCount]
}

func clocks() {
	cache.Now = func() time.Time { return time.Unix(0, vc.Base) }
	latency.Now = func() time.Time { return time.Unix(0, vc.Base+vc.Sec/2) }
}

// reference is what the update streams alone lead to.
func reference(c conf) vc.Dump {
	clocks()
	rc := build(c)
	for _, th := range c.threads[:c.streams] {
		for _, s := range th {
			s.Do(rc)
		}
	}
	rc.UpdateMetadata()
	return vc.DumpOf(rc, []string{"t", "s"})
}

func body(c conf) func(x *vh.X) {
	ref := reference(c)
	return func(x *vh.X) {
		clocks()
		ch := build(c)
		for i, th := range c.threads {
			th := th
			vrt.GoN(fmt.Sprintf("r%d", i), func() {
				for _, s := range th {
					vrt.Yield()
					vrt.Event(s.Name)
					s.Do(ch)
				}
			})
		}
		vrt.Quiesce()
		if vrt.Live() > 0 {
			x.Fail("blocked", "calls never returned: %v\n%s", vrt.Blocked(), vh.EventLog())
		}
		ch.UpdateMetadata()
		d := vc.DumpOf(ch, []string{"t", "s"})
		for _, t := range []string{"t", "s"} {
			ints := d.Ints[t]
			if ints[metadata.LeafCount] != int64(len(d.Data(t))) || ints[metadata.LeafCount] != ints[metadata.AddCount]-ints[metadata.DelCount] {
				x.Fail("leaf-count", "target %s: leaf count %d, added %d, deleted %d, stored %v\n%s", t, ints[metadata.LeafCount], ints[metadata.AddCount], ints[metadata.DelCount], d.Data(t), vh.EventLog())
			}
			for _, k := range []string{metadata.LeafCount, metadata.AddCount, metadata.DelCount, metadata.EmptyCount, metadata.FutureCount, metadata.LatestTimestamp} {
				if ints[k] != ref.Ints[t][k] {
					x.Fail("counter", "target %s: %s is %d, want %d\n%s", t, k, ints[k], ref.Ints[t][k], vh.EventLog())
				}
			}
			if !c.reset && sum(ints) != sum(ref.Ints[t]) {
				x.Fail("counter", "target %s: updated+stale+suppressed+future is %d, %d were submitted: %v\n%s", t, sum(ints), sum(ref.Ints[t]), ints, vh.EventLog())
			}
			if a, b := fmt.Sprint(d.Data(t)), fmt.Sprint(ref.Data(t)); a != b {
				x.Fail("content", "target %s: stored %s, want %s\n%s", t, a, b, vh.EventLog())
			}
		}
		x.Outcome("%s|%s", d.Text("t"), d.Text("s"))
	}
}

// mop is an operation of one metadata object.
type mop struct {
	name, key string
	n         int64
}

func (o mop) String() string { return fmt.Sprintf("%s %s %d", o.name, o.key, o.n) }

func (o mop) run(m *metadata.Metadata) any {
	b2i := func(b bool) int64 {
		if b {
			return 1
		}
		return 0
	}
	res := func(v int64, err error) any {
		if err == metadata.ErrUnsetValue {
			return "unset"
		}
		if err != nil {
			return "error " + err.Error()
		}
		return v
	}
	switch o.name {
	case "add":
		return res(0, m.AddInt(o.key, o.n))
	case "set":
		return res(0, m.SetInt(o.key, o.n))
	case "get":
		return res(m.GetInt(o.key))
	case "reset":
		return res(0, m.ResetEntry(o.key))
	case "setbool":
		return res(0, m.SetBool(o.key, o.n != 0))
	case "getbool":
		v, err := m.GetBool(o.key)
		return res(b2i(v), err)
	case "setstr":
		return res(0, m.SetStr(o.key, fmt.Sprint(o.n)))
	case "getstr":
		v, err := m.GetStr(o.key)
		if err == nil && v != "" {
			var n int64
			fmt.Sscan(v, &n)
			return n
		}
		return res(0, err)
	}
	panic(o.name)
}

const unset = -1 << 40

// mdStep is the sequential meaning of a metadata operation.
func mdStep(s map[string]int64, o *vh.Op) []map[string]int64 {
	a := o.Arg.(mop)
	want := any(int64(0))
	nv, ch := int64(0), false
	switch a.name {
	case "add":
		nv, ch = s[a.key]+a.n, true
		if s[a.key] == unset {
			nv = a.n
		}
	case "set", "setbool", "setstr":
		nv, ch = a.n, true
	case "reset":
		nv, ch = 0, true
		if a.key == metadata.ConnectError {
			nv = unset
		}
	default:
		want = any(s[a.key])
		if s[a.key] == unset {
			want = "unset"
		}
	}
	if o.Ret != vh.Pending && o.Res != want {
		return nil
	}
	if !ch {
		return []map[string]int64{s}
	}
	n := map[string]int64{a.key: nv}
	for k, v := range s {
		if k != a.key {
			n[k] = v
		}
	}
	return []map[string]int64{n}
}

// object explores concurrent operations on one metadata object.
func object(threads [][]mop) func(x *vh.X) {
	return func(x *vh.X) {
		m := metadata.New()
		init := map[string]int64{metadata.ConnectError: unset}
		for i, ops := range threads {
			i, ops := i, ops
			vrt.GoN(fmt.Sprintf("t%d", i), func() {
				for _, o := range ops {
					vh.Invoke(i, o.name, o, func() any { return o.run(m) })
				}
			})
		}
		vrt.Quiesce()
		keys := map[string]string{}
		var order []string
		for _, ops := range threads {
			for _, o := range ops {
				if _, ok := keys[o.key]; !ok {
					order = append(order, o.key)
				}
				switch {
				case strings.HasSuffix(o.name, "bool"):
					keys[o.key] = "getbool"
				case strings.HasSuffix(o.name, "str"):
					keys[o.key] = "getstr"
				case keys[o.key] == "":
					keys[o.key] = "get"
				}
			}
		}
		out := ""
		for _, k := range order {
			o := mop{keys[k], k, 0}
			out += fmt.Sprint(vh.Invoke(99, o.name, o, func() any { return o.run(m) }), " ")
		}
		ops, text := vh.History(vrt.Events())
		if !vh.Linearizable(ops, init, mdStep, func(s map[string]int64) string { return fmt.Sprint(s) }, nil) {
			x.Fail("metadata-object", "operations on one metadata object are not atomic: %s", text)
		}
		x.Outcome("%s", out)
	}
}

func main() {
	vh.Main(vh.Check{
		Property: "C15", QuickSec: 75, ThoroughSec: 600,
		Rule: "(1) breadth-first exploration of all operation sequences over the cache alphabets (updates, deletes, multi and atomic notifications, lifecycle events, refreshes), equal states merged, with the change of every counter judged at every step and the exported metadata after a refresh; (2) all sequences of latency observations, elapsed time and refreshes to a depth, every exported statistic compared with the smallest and largest latency of its window; (3) every interleaving within the deviation bound of update streams with the metadata refresh, the size refresh and readers, in a race-detector build too.",
		Assumptions: []string{
			"one update stream per target at a time, as the collector guarantees; targets do not write below meta/ themselves",
			"latencies whose sum overflows 64 bits of the configured precision are outside (documented)",
			"before the first accepted update the latest timestamp is that of the zero time, as the existing tests demand",
		},
		Scenarios: func(tier string) []vh.Scenario {
			th := tier == "thorough"
			deep, life2, ld, tdep, sd := 12, 4, 8, 5, 3
			if th {
				deep, life2, ld, tdep, sd = 30, 6, 10, 6, 12
			}
			out := vc.Sizes(vc.Cfg{Check: "C15"}, 1025)
			add := func(name string, d int, thr time.Duration, targets []string, f func(bool) []vc.Op) {
				for _, ne := range []bool{false, true} {
					ne := ne
					out = append(out, vh.Scenario{Name: fmt.Sprintf("%s eventdriven=%v", name, !ne), Seq: func(q *vh.Q) {
						vc.BFS(q, vc.Cfg{Targets: targets, NoEvent: ne, Threshold: thr, Check: "C15"}, f(!ne), d)
					}, First: strings.HasPrefix(name, "lifecycle"), Weight: 4})
				}
			}
			t := []string{"t"}
			for _, enc := range []int{0, 3} {
				enc := enc
				add(fmt.Sprintf("shared prefix, several, encoding %d", enc), sd, 0, t, func(bool) []vc.Op { return vc.SharedOps(true, enc) })
			}
			add("threshold", sd, 500*time.Millisecond, t, func(bool) []vc.Op { return append(vc.SharedOps(true, 0), vc.ClockOp(2)) })
			var mixed []vc.Pth
			for m := 0; m < 4; m++ {
				mixed = append(mixed, vc.Pth{Pre: []string{"a"}, P: []string{"b"}, PreE: m&1 != 0, PE: m&2 != 0})
			}
			mixed = append(mixed, vc.Pth{P: []string{"a", "b"}}, vc.Pth{Pre: []string{"a", "b"}}, vc.Pth{Pre: []string{"a", "b"}, PreE: true, PE: true})
			add("odd names", deep, 0, t, func(bool) []vc.Op {
				return vc.PathOps([]vc.Pth{{P: []string{""}}, {P: []string{"a/b", ""}}, {Pre: []string{"a"}, P: []string{"b"}}, {Pre: []string{"**"}, P: []string{"meta"}}, {P: []string{"metadata"}}}, []string{""}, []int64{0})
			})
			add("encodings", deep, 0, t, func(bool) []vc.Op { return vc.PathOps(mixed, []string{""}, []int64{0, 1}) })
			add("origins", deep, 0, t, func(bool) []vc.Op {
				return vc.PathOps([]vc.Pth{{P: []string{"a"}}, {Pre: []string{"o"}, P: []string{"a"}}, {P: []string{"b[k=2][j=1]"}}}, []string{"", "o"}, []int64{0})
			})
			add("atomic", deep, 0, t, vc.AtomicOps)
			add("atomic, both encodings", deep, 0, t, vc.AtomicEncOps)
			add("metadata paths", deep, 0, t, func(bool) []vc.Op { return vc.MetaOps("t") })
			add("values", deep, 0, t, func(bool) []vc.Op { return vc.ValueOps() })
			add("lifecycle", deep, 0, t, func(bool) []vc.Op { return append(vc.LifeOps("t"), vc.EmptyOps("t")...) })
			add("lifecycle of two", life2, 0, []string{"t", "s"}, func(bool) []vc.Op { return append(vc.LifeOps("t", "s"), vc.EmptyOps("t")...) })
			ms := func(n int64) time.Duration { return time.Duration(n) * time.Millisecond }
			for _, l := range []struct {
				ws   []time.Duration
				prec time.Duration
				lats []time.Duration
				last bool
			}{
				{[]time.Duration{time.Second, 2 * time.Second}, 0, []time.Duration{ms(300), ms(1500), ms(2700)}, false},
				{[]time.Duration{2 * time.Second, 4 * time.Second}, 0, []time.Duration{ms(300), ms(1500)}, false},
				{[]time.Duration{2 * time.Second}, time.Second, []time.Duration{ms(300), ms(1500), ms(2700)}, false},
				{[]time.Duration{2 * time.Second}, time.Millisecond, []time.Duration{0, ms(-700), ms(1500)}, false},
				{[]time.Duration{time.Second, 3 * time.Second}, ms(700), []time.Duration{0, 1, ms(900)}, true},
			} {
				l := l
				out = append(out, vh.Scenario{Name: fmt.Sprintf("latency windows %v precision %v of %v last=%v", l.ws, l.prec, l.lats, l.last), Seq: func(q *vh.Q) { latencies(q, l.ws, l.prec, l.lats, ld, l.last) }})
			}
			for _, p := range []time.Duration{0, time.Second, time.Millisecond} {
				p := p
				out = append(out, vh.Scenario{Name: fmt.Sprintf("latency through the cache, precision %v", p), Seq: func(q *vh.Q) { through(q, p, tdep) }})
			}
			out = append(out, latencySizes(th)...)
			win := []string{"2s"}
			stream := []vc.CStep{vc.ConnectStep("t"), vc.SyncStep("t"), vc.Up("t", 0, 1, "a"), vc.Up("t", 1, 2, "a")}
			cs := []conf{
				{name: "sync and updates | refresh", threads: [][]vc.CStep{stream, {vc.Refresh}}, windows: win},
				{name: "sync and updates | refresh, full", threads: [][]vc.CStep{stream, {vc.Refresh}}, windows: win, full: true},
				{name: "updates | refresh twice", threads: [][]vc.CStep{{vc.SyncStep("t"), vc.Up("t", 0, 1, "a"), vc.Up("t", 1, 1, "a"), vc.Up("t", 0, 1, "b"), vc.Del("t", 2, "a")}, {vc.Refresh, vc.Refresh}}, windows: win},
				{name: "updates | size", threads: [][]vc.CStep{{vc.Up("t", 0, 1, "a", "b"), vc.Up("t", 1, 2, "a", "b"), vc.Up("t", 0, 1, "a", "c"), vc.Del("t", 2, "a")}, {vc.Size, vc.Size}}},
				{name: "multi | refresh size", threads: [][]vc.CStep{{vc.Multi("t", 0, nil, []string{"a", "b"}, []string{"a", "c"}), vc.Multi("t", 1, []string{"a", "c"}, []string{"a", "b"}, []string{"d"})}, {vc.Refresh, vc.Size}}},
				{name: "deletes | read | size", threads: [][]vc.CStep{{vc.Up("t", 0, 1, "a", "b"), vc.Up("t", 0, 1, "a", "c"), vc.Del("t", 2, "*"), vc.Up("t", 3, 1, "a")}, {vc.Read}, {vc.Size}}},
				{name: "reset | refresh", threads: [][]vc.CStep{{vc.Up("t", 0, 1, "a"), vc.ResetStep("t"), vc.ConnectStep("t"), vc.Up("t", 0, 2, "a"), vc.SyncStep("t")}, {vc.Refresh}}, windows: win, reset: true},
				{name: "two streams | refresh", threads: [][]vc.CStep{{vc.SyncStep("t"), vc.Up("t", 0, 1, "a"), vc.Del("t", 1, "a")}, {vc.SyncStep("s"), vc.Up("s", 5, 1, "a")}, {vc.Refresh}}, streams: 2, windows: win},
				{name: "error | refresh | read", threads: [][]vc.CStep{{vc.ErrorStep("t"), vc.ConnectStep("t"), vc.Up("t", 0, 1, "a"), vc.Up("t", 0, 1, "a")}, {vc.Refresh}, {vc.Read}}, full: true},
				{name: "stale and future | refresh", threads: [][]vc.CStep{{vc.Up("t", 5, 1, "a"), vc.Up("t", 4, 1, "a"), vc.Up("t", 100, 1, "a"), vc.Up("t", 6, 1, "a")}, {vc.Refresh}, {vc.Refresh}}},
			}
			k1, k2 := metadata.LeafCount, metadata.AddCount
			for i, o := range [][][]mop{
				{{{"add", k1, 1}, {"add", k2, 1}, {"get", k1, 0}}, {{"add", k1, 2}, {"get", k2, 0}, {"get", k1, 0}}},
				{{{"add", k1, 1}, {"add", k1, -1}}, {{"add", k1, 2}}, {{"get", k1, 0}, {"get", k1, 0}}},
				{{{"add", k1, 1}, {"set", k1, 5}}, {{"add", k1, 2}, {"reset", k1, 0}, {"get", k1, 0}}},
				{{{"set", k1, 3}, {"add", k2, 1}}, {{"set", k2, 4}, {"add", k1, 2}}, {{"get", k2, 0}, {"get", k1, 0}}},
				{{{"setbool", metadata.Sync, 1}, {"getbool", metadata.Sync, 0}}, {{"setbool", metadata.Sync, 0}, {"setbool", metadata.Sync, 1}}, {{"reset", metadata.Sync, 0}}},
				{{{"setstr", metadata.ConnectError, 1}, {"getstr", metadata.ConnectError, 0}}, {{"reset", metadata.ConnectError, 0}, {"setstr", metadata.ConnectError, 2}}, {{"add", k1, 1}}},
				{{{"setstr", metadata.ConnectedAddr, 1}, {"setbool", metadata.Connected, 1}}, {{"getbool", metadata.Connected, 0}, {"getstr", metadata.ConnectedAddr, 0}}, {{"add", k1, 1}}},
			} {
				out = append(out, vh.Scenario{Name: fmt.Sprintf("metadata object %d", i), Body: object(o), MaxBound: 8, Declared: 3, Race: true, RaceBound: 2})
			}
			for _, c := range cs {
				if c.streams == 0 {
					c.streams = 1
				}
				sc := vh.Scenario{Name: "concurrent: " + c.name, Body: body(c), MaxBound: 5, Declared: 2, Race: true, RaceBound: 2, Weight: 2}
				if th {
					sc.Declared, sc.RaceBound = 3, 2
				}
				if len(c.threads) > 2 {
					sc.Opt.Delay = true
				}
				out = append(out, sc)
			}
			return out
		},
	})
}
