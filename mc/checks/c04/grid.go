//go:build go1.23

package main

import (
	"fmt"

	"github.com/openconfig/gnmi/cache"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vs"
)

type act struct {
	name string
	f    vs.Act
}

func withPrefix(q *pb.SubscribeRequest, e ...string) *pb.SubscribeRequest {
	q.GetSubscribe().Prefix.Elem = vc.P(e...).Elem
	return q
}

// gridReqs is the grid of requests: paths, origins, prefixes, encodings,
// single and all targets, with and without the snapshot.
func gridReqs() []*pb.SubscribeRequest {
	var out []*pb.SubscribeRequest
	pats := []string{"", "nil", "a", "b", "*", "a/b", "a/c", "b/*", "*/b", "*/*", "a/b/c", "*/*/c", "o", "o/a", "*/a/b", "o:", "o:a", "o:*/b", "o:a/b", "a:b", "l", "l[k=1]", "l[k=*]/v", "l/*/w", "c/at", "c/at/x", "c/*/x"}
	for _, tg := range []string{"t", "*"} {
		for _, uo := range []bool{false, true} {
			for i, p := range pats {
				out = append(out, stream(tg, "", uo, p))
				if i%3 == 0 {
					out = append(out, stream(tg, "", uo, p, pats[(i*7+3)%len(pats)], p))
				}
			}
			for _, p := range []string{"", "nil", "a", "*", "a/b", "*/b"} {
				out = append(out, stream(tg, "o", uo, p), stream(tg, "a", uo, p))
			}
			for _, p := range []string{"", "nil", "b", "*", "b/c", "x", "at/x", "[k=1]"} {
				out = append(out, withPrefix(stream(tg, "", uo, p), "a"), withPrefix(stream(tg, "o", uo, p), "a"), withPrefix(stream(tg, "", uo, p), "*"), withPrefix(stream(tg, "", uo, p, "b"), "c"))
			}
			for _, p := range []string{"a", "a/b", "*/b", "c/at"} {
				q := stream(tg, "", uo, p)
				q.GetSubscribe().Subscription[0].Path = vc.E(vc.Strs(vs.Path(p))...)
				out = append(out, q)
			}
		}
	}
	return out
}

var gridInits = []struct {
	name string
	acts []vs.Act
}{
	{"nothing", nil},
	{"plain leaves", []vs.Act{vs.ASet("t", 0, 1, "a", "b"), vs.ASet("t", 0, 2, "b", "c"), vs.ASet("t", 0, 3, "d"), vs.ASet("s", 0, 4, "a", "b"), vs.ANotif("t", "", nil, 0, false, [][]string{{"l[k=1]", "v"}, {"l[k=2]", "w"}}, 5)}},
	{"origins and containers", []vs.Act{vs.ANotif("t", "o", nil, 0, false, [][]string{{"a", "b"}, {"b"}}, 1), vs.ANotif("t", "a", nil, 0, false, [][]string{{"b"}}, 7), vs.ANotif("t", "", []string{"c", "at"}, 0, true, [][]string{{"x"}, {"y", "z"}}, 3), vs.ASet("s", 0, 4, "b")}},
}

var gridActs = []act{
	{"set a/b", vs.ASet("t", 5, 50, "a", "b")},
	{"set b", vs.ASet("t", 5, 51, "b")},
	{"set a/b/c", vs.ASet("t", 5, 52, "a", "b", "c")},
	{"same value again", vs.ASet("t", 6, 1, "a", "b")},
	{"stale", vs.ASet("t", -5, 9, "a", "b")},
	{"set o:a/b", vs.ANotif("t", "o", []string{"a"}, 5, false, [][]string{{"b"}}, 60)},
	{"set o/a/b without origin", vs.ASet("t", 5, 61, "o", "a", "b")},
	{"update several", vs.ANotif("t", "", nil, 5, false, [][]string{{"a", "b"}, {"l[k=1]", "v"}, {"d"}}, 70)},
	{"update and delete", vs.ANotif("t", "", []string{"l[k=2]"}, 5, false, [][]string{{"v"}}, 71, []string{"w"})},
	{"atomic", vs.ANotif("t", "", []string{"c", "at"}, 5, true, [][]string{{"x"}, {"y", "z"}}, 80)},
	{"delete a", vs.ADel("t", 8, "a")},
	{"delete *", vs.ADel("t", 8, "*")},
	{"delete everything", vs.ADel("t", 8)},
	{"delete */b", vs.ADel("t", 8, "*", "b")},
	{"delete o:a", vs.ANotif("t", "o", nil, 8, false, nil, 0, []string{"a"})},
	{"delete c/at/x", vs.ADel("t", 8, "c", "at", "x")},
	{"reset t", vs.AReset("t")},
	{"remove and add s", func(w *vs.World) { w.Remove("s"); w.Add("s") }},
	{"set s a/b", vs.ASet("s", 5, 90, "a", "b")},
	{"sync t", vs.ASync("t")},
}

// grid runs every request of a batch against every content and every sequence
// of n operations, judging every subscriber after every operation.
func grid(part, parts, n int) func(q *vh.Q) {
	return func(q *vh.Q) {
		reqs := gridReqs()
		const batch = 40
		job := 0
		for ii, in := range gridInits {
			for b := 0; b < len(reqs); b += batch {
				rs := reqs[b:min(b+batch, len(reqs))]
				total := 1
				for i := 0; i < n; i++ {
					total *= len(gridActs)
				}
				for s := 0; s < total; s++ {
					job++
					if job%parts != part {
						continue
					}
					if q.Expired() {
						return
					}
					var seq []act
					for i, r := 0, s; i < n; i, r = i+1, r/len(gridActs) {
						seq = append(seq, gridActs[r%len(gridActs)])
					}
					q.State(fmt.Sprint(ii, b, s))
					if !q.Do(func() string {
						d := in.name
						for _, a := range seq {
							d += ", " + a.name
						}
						return fmt.Sprintf("%s; requests %d to %d", d, b, b+len(rs)-1)
					}, func() error {
						return q.Exec(func(x *vh.X) {
							w := vs.New(x, []string{"t", "s"}, []cache.Option{cache.WithExcludedMeta(vs.NoMeta)}, nil)
							for _, a := range in.acts {
								a(w)
							}
							for _, r := range rs {
								w.Subscribe(r, false)
							}
							w.Settle()
							for _, a := range seq {
								a.f(w)
								w.Settle()
							}
							for _, s := range w.Subs {
								w.JudgeStream(s, nil, false)
							}
							for _, s := range w.Subs {
								s.Cancel()
							}
							w.Settle()
						})
					}) {
						return
					}
				}
			}
		}
		q.Sample("%d requests, %d contents, sequences of %d out of %d operations", len(reqs), len(gridInits), n, len(gridActs))
	}
}
