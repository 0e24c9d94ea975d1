// Check C03: the change feed of the cache reproduces the cache.
package main

import (
	"fmt"
	"time"

	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
)

func main() {
	vh.Main(vh.Check{
		Property: "C03", QuickSec: 50, ThoroughSec: 600,
		Rule: "breadth-first exploration of all operation sequences over small alphabets (single, multi-update, update-and-delete and atomic notifications, shared prefix objects with spare capacity, both path encodings and their mixtures, origins, every value kind, lifecycle events, Reset, Remove, Add), equal states merged, to a fixpoint or depth; after every operation the replayed feed is compared with the cache, the stored notifications with the reference model and the caller's notification with its copy.",
		Assumptions: []string{
			"one update stream per target at a time, as the collector guarantees",
			"origin is set in the prefix (the cache's stated convention), paths are identified by their index form",
		},
		Scenarios: func(tier string) []vh.Scenario {
			deep := 12
			if tier == "thorough" {
				deep = 40
			}
			out := vc.Sizes(vc.Cfg{Check: "C03"}, 1025)
			add := func(name string, d int, th time.Duration, targets []string, f func(bool) []vc.Op) {
				for _, ne := range []bool{false, true} {
					ne := ne
					out = append(out, vh.Scenario{Name: fmt.Sprintf("%s eventdriven=%v", name, !ne), Seq: func(q *vh.Q) {
						vc.BFS(q, vc.Cfg{Targets: targets, NoEvent: ne, Threshold: th, Check: "C03"}, f(!ne), d)
					}})
				}
			}
			t := []string{"t"}
			for enc := 0; enc < 4; enc++ {
				enc := enc
				add(fmt.Sprintf("shared prefix, encoding %d", enc), deep, 0, t, func(bool) []vc.Op { return vc.SharedOps(false, enc) })
				add(fmt.Sprintf("shared prefix, several, encoding %d", enc), deep, 0, t, func(bool) []vc.Op { return vc.SharedOps(true, enc) })
			}
			add("shared prefix, several, threshold", deep, 500*time.Millisecond, t, func(bool) []vc.Op { return vc.SharedOps(true, 0) })
			var mixed []vc.Pth
			for m := 0; m < 4; m++ {
				mixed = append(mixed, vc.Pth{[]string{"a"}, []string{"b"}, m&1 != 0, m&2 != 0})
			}
			mixed = append(mixed, vc.Pth{nil, []string{"a", "b"}, false, false}, vc.Pth{[]string{"a", "b"}, nil, false, false}, vc.Pth{[]string{"a", "b"}, nil, true, true})
			add("odd names", deep, 0, t, func(bool) []vc.Op {
				return vc.PathOps([]vc.Pth{{P: []string{""}}, {P: []string{"a/b", ""}}, {Pre: []string{"a"}, P: []string{"b"}}, {Pre: []string{"**"}, P: []string{"meta"}}, {P: []string{"metadata"}}}, []string{""}, []int64{0})
			})
			add("encodings", deep, 0, t, func(bool) []vc.Op { return vc.PathOps(mixed, []string{""}, []int64{0, 1}) })
			add("origins", deep, 0, t, func(bool) []vc.Op {
				return vc.PathOps([]vc.Pth{{nil, []string{"a"}, false, false}, {[]string{"o"}, []string{"a"}, false, false}, {nil, []string{"b[k=2][j=1]"}, false, false}}, []string{"", "o"}, []int64{0})
			})
			add("atomic", deep, 0, t, vc.AtomicOps)
			add("atomic, both encodings", deep, 0, t, vc.AtomicEncOps)
			add("metadata paths", deep, 0, t, func(bool) []vc.Op { return vc.MetaOps("t") })
			add("values", deep, 0, t, func(bool) []vc.Op { return vc.ValueOps() })
			add("lifecycle", 2*deep, 0, t, func(bool) []vc.Op { return vc.LifeOps("t") })
			two := 5
			if tier == "thorough" {
				two = 8
			}
			add("lifecycle of two", two, 0, []string{"t", "s"}, func(bool) []vc.Op { return vc.LifeOps("t", "s") })
			return out
		},
	})
}
