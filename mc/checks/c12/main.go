//go:build go1.23

// Check C12: no message from a remote peer crashes a process.
package main

import (
	"fmt"
	"sort"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/latency"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
)

// ---- the cache ----

type world struct {
	c *cache.Cache
	s *subscribe.Server
	n int
}

func newWorld(opts ...cache.Option) *world {
	w := &world{}
	now := func() time.Time { w.n++; return time.Unix(0, int64(1000+w.n)) }
	cache.Now, latency.Now = now, now
	w.c = cache.New([]string{"t", "u"}, opts...)
	w.s, _ = subscribe.NewServer(w.c)
	w.c.SetClient(func(l *ctree.Leaf) {
		w.s.Update(l)
		// What the server would send.
		w.s.MakeSubscribeResponse(l.Value(), 1)
	})
	return w
}

type entry struct {
	ix  []string
	txt string
}

// dump is everything a query finds.
func (w *world) dump() map[string]entry {
	out := map[string]entry{}
	for _, t := range []string{"t", "u"} {
		w.c.Query(t, nil, func(p []string, _ *ctree.Leaf, v any) error {
			n, ok := v.(*pb.Notification)
			if !ok {
				out[fmt.Sprint(t, p)] = entry{p, fmt.Sprintf("%T", v)}
				return nil
			}
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(n)
			if err != nil {
				panic(err)
			}
			out[t+"|"+fmt.Sprintf("%q", p)] = entry{p, string(b)}
			return nil
		})
	}
	return out
}

func stateKey(d map[string]entry) string {
	var ks []string
	for k, e := range d {
		ks = append(ks, k+"="+e.txt)
	}
	sort.Strings(ks)
	return fmt.Sprint(ks)
}

func comparable(query, p []string) bool {
	for i := range query {
		if i < len(p) && query[i] != "*" && query[i] != p[i] {
			return false
		}
	}
	return true
}

// addressed says whether a part of n addresses the leaf at p of its target.
func addressed(n *pb.Notification, p []string) bool {
	var pre []string
	if o := n.GetPrefix().GetOrigin(); o != "" {
		pre = append(pre, o)
	}
	pre = append(pre, vc.Strs(n.GetPrefix())...)
	full := func(q *pb.Path) []string { return append(append([]string(nil), pre...), vc.Strs(q)...) }
	if n.Atomic && len(n.Update) > 0 && comparable(pre, p) {
		return true
	}
	for _, u := range n.Update {
		if comparable(full(u.GetPath()), p) {
			return true
		}
	}
	for _, d := range n.Delete {
		if comparable(full(d), p) {
			return true
		}
	}
	return false
}

// ingest feeds n and judges what it did to the stored data.
func (w *world) ingest(n *pb.Notification) error {
	before := w.dump()
	parts := len(n.Update) + len(n.Delete)
	msg := proto.Clone(n).(*pb.Notification)
	err := w.c.GnmiUpdate(msg)
	after := w.dump()
	for k, b := range before {
		a, ok := after[k]
		if ok && a.txt == b.txt {
			continue
		}
		if err != nil && parts == 1 {
			return vh.Errf("rejected-changes", "message rejected with %v, but leaf %q changed", err, k)
		}
		if k[:1] != n.GetPrefix().GetTarget() {
			return vh.Errf("other-target", "leaf %q of another target changed", k)
		}
		if !addressed(n, b.ix) {
			return vh.Errf("unaddressed", "leaf %q changed, which the message (error %v) does not address", k, err)
		}
	}
	if err != nil && parts == 1 {
		for k := range after {
			if _, ok := before[k]; !ok {
				return vh.Errf("rejected-changes", "message rejected with %v, but leaf %q appeared", err, k)
			}
		}
	}
	return nil
}

// after exercises the cache behind the messages, once per content of the cache.
func (w *world) after(done map[string]bool) {
	k := stateKey(w.dump())
	if done[k] {
		return
	}
	done[k] = true
	w.c.UpdateMetadata()
	w.c.UpdateSize()
	for _, q := range [][]string{{}, {"*"}, {"meta"}, {"meta", "*"}, {"*", "*", "*"}} {
		w.c.Query("*", q, func([]string, *ctree.Leaf, any) error { return nil })
	}
}

// ingestAll applies messages from every state that sequences of at most depth
// prior messages reach.
func ingestAll(prior []*pb.Notification, depth int, msgs []*pb.Notification, shard, shards int, opts ...cache.Option) func(q *vh.Q) {
	return func(q *vh.Q) {
		seen := map[string]bool{}
		done := map[string]bool{}
		seqs := [][]*pb.Notification{{}}
		var states [][]*pb.Notification
		for d := 0; d <= depth; d++ {
			var next [][]*pb.Notification
			for _, h := range seqs {
				w := newWorld(opts...)
				var err error
				if !q.Do(func() string { return text(h) }, func() error {
					w = newWorld(opts...)
					for _, n := range h {
						if err = w.ingest(n); err != nil {
							return err
						}
					}
					w.after(done)
					return nil
				}) {
					return
				}
				w = newWorld(opts...)
				for _, n := range h {
					w.ingest(n)
				}
				k := stateKey(w.dump())
				if seen[k] {
					continue
				}
				seen[k] = true
				states = append(states, h)
				if d < depth {
					for _, n := range prior {
						next = append(next, append(append([]*pb.Notification(nil), h...), n))
					}
				}
			}
			seqs = next
		}
		for i, h := range states {
			if i%shards != shard {
				continue
			}
			q.State(fmt.Sprint(i))
			for _, n := range msgs {
				if q.Expired() {
					return
				}
				if !q.Do(func() string { return text(append(h[:len(h):len(h)], n)) }, func() error {
					w := newWorld(opts...)
					for _, p := range h {
						w.c.GnmiUpdate(proto.Clone(p).(*pb.Notification))
					}
					if err := w.ingest(n); err != nil {
						return err
					}
					w.after(done)
					return nil
				}) {
					return
				}
			}
		}
	}
}

func text(h []*pb.Notification) string {
	s := ""
	for _, n := range h {
		s += vc.Msg(n) + "\n"
	}
	return s
}

var (
	base = []*pb.Notification{
		vc.Note(5, &pb.Path{Target: "t"}, []*pb.Update{vc.U(elems("a", "b"), vc.D(1)), vc.U(elems("c"), vc.S("x"))}, nil),
		vc.Note(5, &pb.Path{Target: "u"}, []*pb.Update{vc.U(elems("a", "b"), vc.I(1))}, nil),
	}
	corpus = []*pb.Notification{
		vc.Note(6, &pb.Path{Target: "t"}, []*pb.Update{vc.U(elems("a", "b"), vc.D(2))}, nil),
		vc.Note(6, &pb.Path{Target: "t", Origin: "o"}, []*pb.Update{vc.U(&pb.Path{Elem: []*pb.PathElem{{Name: "a", Key: map[string]string{"k": "v"}}}}, vc.S("y"))}, nil),
		vc.Note(6, &pb.Path{Target: "t"}, []*pb.Update{vc.U(elems("meta", "sync"), vc.B(true))}, nil),
		vc.Note(6, &pb.Path{Target: "t"}, nil, []*pb.Path{elems("a", "b")}),
		vc.Note(6, &pb.Path{Target: "t"}, []*pb.Update{vc.U(depr("a", "b"), vc.L(vc.I(1), vc.S("z")))}, []*pb.Path{depr("c")}),
		{Timestamp: 6, Atomic: true, Prefix: with(elems("a"), func(p *pb.Path) { p.Target = "t" }), Update: []*pb.Update{vc.U(elems("x"), vc.I(1)), vc.U(elems("y"), vc.J("1"))}},
		vc.Note(6, &pb.Path{Target: "t"}, []*pb.Update{{Path: elems("a", "b"), Value: &pb.Value{Type: pb.Encoding_JSON, Value: []byte("5")}}}, nil),
		vc.Note(6, &pb.Path{Target: "t"}, []*pb.Update{vc.U(elems("d"), &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: 31, Precision: 1}}})}, nil),
	}
)

func ingestEdits(i int) func(q *vh.Q) {
	return func(q *vh.Q) {
		done := map[string]bool{}
		edits(corpus[i], func(e *pb.Notification, what func() string) bool {
			if q.Expired() {
				return false
			}
			return q.Do(func() string { return what() + "\n" + vc.Msg(e) }, func() error {
				w := newWorld()
				for _, p := range base {
					w.c.GnmiUpdate(proto.Clone(p).(*pb.Notification))
				}
				if err := w.ingest(e); err != nil {
					return err
				}
				if err := w.ingest(e); err != nil { // again, on its own state
					return err
				}
				w.after(done)
				return nil
			})
		})
	}
}

func main() {
	vh.Main(vh.Check{
		Property: "C12", QuickSec: 60, ThoroughSec: 800,
		Assumptions: []string{
			"messages are what the wire format can carry: strings are UTF-8, repeated messages have no nil elements",
			"a message with several parts may be applied in part; what it does not address stays as it was",
			"the metadata refresh and the size report are run once per content of the cache, not after every message that leads to it",
			"the collector's transport to targets and clients is an in-memory one that marshals every message",
		},
		Rule: "every message of the grammar (prefixes x paths x values x stamps, single parts and pairs), and every message one byte away from a corpus, in every cache content reached by at most two prior messages; subscribe requests likewise against seven cache contents with later requests and events; response streams through client library, CLI display and the collector",
		Scenarios: func(tier string) []vh.Scenario {
			var sc []vh.Scenario
			few := single(fewPres, fewPaths, fewVals, []int64{5, 10})
			few2 := few
			prior0 := single(pick(prefixes, 0), fewPaths, pick(values, 1, 10), []int64{5})
			prior1 := single(pick(prefixes, 0, 5), fewPaths, pick(values, 1, 10), []int64{5})
			prior := single(pick(prefixes, 0, 5), fewPaths, pick(values, 0, 1, 7, 10), []int64{5})
			all := single(prefixes, paths, fewVals, []int64{5})
			all = append(all, single(fewPres, paths, values, []int64{5, 10})...)
			all = append(all, single(prefixes, fewPaths, values, []int64{5})...)
			all = append(all, single(fewPres, fewPaths, fewVals, stamps)...)
			two := double(pick(prefixes, 0, 9), fewPaths, pick(values, 0, 1, 7), []int64{5, 10})
			if tier == "thorough" {
				few2 = single(prefixes, fewPaths, fewVals, []int64{5, 10})
				prior0, prior1 = prior, prior
				all = single(prefixes, paths, values, stamps)
				two = double(fewPres, fewPaths, fewVals, []int64{5, 10})
			}
			for i := range 8 {
				sc = append(sc,
					vh.Scenario{Name: fmt.Sprintf("ingest any.%d", i), Seq: ingestAll(prior0, 1, all, i, 8)},
					vh.Scenario{Name: fmt.Sprintf("ingest two.%d", i), Seq: ingestAll(prior1, 1, two, i, 8)},
					vh.Scenario{Name: fmt.Sprintf("ingest third.%d", i), Seq: ingestAll(prior1, 2, few2, i, 8)},
				)
			}
			// Caches with options: a clock near the stamps and a small threshold,
			// latency windows and every value announced.
			lat, err := cache.WithLatencyWindows([]string{"2s", "4s"}, 2*time.Second)
			if err != nil {
				panic(err)
			}
			optMsgs, optPrior := single(pick(prefixes, 0, 5), fewPaths, fewVals, append([]int64{990, 1005}, stamps...)), prior0
			if tier == "thorough" {
				optMsgs, optPrior = single(fewPres, fewPaths, fewVals, append([]int64{500, 990, 1005, 1 << 40}, stamps...)), prior
			}
			for i := range 4 {
				sc = append(sc,
					vh.Scenario{Name: fmt.Sprintf("ingest with a future threshold.%d", i), Seq: ingestAll(optPrior, 1, optMsgs, i, 4, cache.WithFutureThreshold(10))},
					vh.Scenario{Name: fmt.Sprintf("ingest with latency windows.%d", i), Seq: ingestAll(optPrior, 1, optMsgs, i, 4, cache.DisableEventDrivenEmulation(), lat, cache.WithAvgLatencyPrecision(time.Millisecond), cache.WithExcludedMeta([]string{"sync", "targetLeaves", "latestTimestamp"}))},
				)
			}
			resp := responses(pick(prefixes, 0, 1, 2, 5, 7, 10), paths, fewVals)
			resp = append(resp, responses(pick(prefixes, 0, 1), fewPaths, values)...)
			respFew := responses(pick(prefixes, 0, 1), pick(fewPaths, 0, 1, 2, 3, 7), pick(values, 0, 1, 15))
			if tier == "thorough" {
				resp = responses(prefixes, paths, values)
				respFew = responses(pick(prefixes, 0, 1, 5), fewPaths, fewVals)
			}
			for i := range 8 {
				sc = append(sc,
					vh.Scenario{Name: fmt.Sprintf("receive and show.%d", i), Seq: streams(resp, i, 8)},
					vh.Scenario{Name: fmt.Sprintf("receive and show pairs.%d", i), Seq: pairs(respFew, i, 8)},
					vh.Scenario{Name: fmt.Sprintf("receive and show edits.%d", i), Seq: respEdits(i)},
				)
			}
			seqs := pipeSeqs(responses(pick(prefixes, 1, 3, 5, 9), paths, fewVals), respFew)
			if tier == "thorough" {
				seqs = pipeSeqs(responses(prefixes, paths, fewVals), respFew)
			}
			for i := range 8 {
				sc = append(sc, vh.Scenario{Name: fmt.Sprintf("target, collector, client and CLI.%d", i), Seq: pipeAll(seqs, i, 8)})
			}
			for i := range contents {
				for j := range 4 {
					sc = append(sc, vh.Scenario{Name: fmt.Sprintf("subscribe: %s.%d", contents[i].name, j), Seq: serveAll(i, tier == "thorough", j, 4)})
				}
				if i == 2 || i == 5 {
					sc = append(sc, vh.Scenario{Name: "subscribe edits: " + contents[i].name, Seq: serveEdits(i)})
				}
			}
			for i := range corpus {
				sc = append(sc, vh.Scenario{Name: fmt.Sprintf("ingest edits.%d", i), Seq: ingestEdits(i)})
			}
			return append(sizeScenarios(tier), sc...)
		},
	})
}
