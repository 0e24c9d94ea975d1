package vc

import (
	"fmt"
	"sort"
	"strings"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/metadata"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vm"
)

// CStep is one call of a thread that drives a cache.
type CStep struct {
	Name string
	Do   func(c *cache.Cache)
}

// Send submits a notification built by mk.
func Send(name string, mk func() *pb.Notification) CStep {
	return CStep{name, func(c *cache.Cache) { c.GnmiUpdate(mk()) }}
}

// Up is an update of one leaf.
func Up(target string, ts int64, v int64, p ...string) CStep {
	return Send(fmt.Sprintf("%s:%s=%d@%d", target, strings.Join(p, "/"), v, ts), func() *pb.Notification {
		return Note(ts, Prefix(target, "", nil), []*pb.Update{U(P(p...), I(v))}, nil)
	})
}

// Del is a delete.
func Del(target string, ts int64, p ...string) CStep {
	return Send(fmt.Sprintf("%s:del %s@%d", target, strings.Join(p, "/"), ts), func() *pb.Notification {
		return Note(ts, Prefix(target, "", nil), nil, []*pb.Path{P(p...)})
	})
}

// Multi is a notification with several updates and a delete.
func Multi(target string, ts int64, del []string, ps ...[]string) CStep {
	return Send(fmt.Sprintf("%s:%v,del %v@%d", target, ps, del, ts), func() *pb.Notification {
		n := Note(ts, Prefix(target, "", nil), nil, nil)
		for i, p := range ps {
			n.Update = append(n.Update, U(P(p...), I(int64(i)+ts)))
		}
		if del != nil {
			n.Delete = []*pb.Path{P(del...)}
		}
		return n
	})
}

// Lifecycle and maintenance calls.
func SyncStep(t string) CStep {
	return CStep{"sync " + t, func(c *cache.Cache) { c.Sync(t) }}
}
func ConnectStep(t string) CStep {
	return CStep{"connect " + t, func(c *cache.Cache) { c.Connect(t) }}
}
func ErrorStep(t string) CStep {
	return CStep{"error " + t, func(c *cache.Cache) { c.ConnectError(t, fmt.Errorf("dial")) }}
}
func ResetStep(t string) CStep {
	return CStep{"reset " + t, func(c *cache.Cache) { c.Reset(t) }}
}
func RemoveStep(t string) CStep {
	return CStep{"remove " + t, func(c *cache.Cache) { c.Remove(t) }}
}
func AddStep(t string) CStep {
	return CStep{"add " + t, func(c *cache.Cache) { c.Add(t) }}
}

// Refresh, Size and Read are what other goroutines of the collector do.
var (
	Refresh = CStep{"refresh", func(c *cache.Cache) { c.UpdateMetadata() }}
	Size    = CStep{"size", func(c *cache.Cache) { c.UpdateSize() }}
	Read    = CStep{"read", func(c *cache.Cache) {
		for _, t := range []string{"t", "s"} {
			if c.HasTarget(t) {
				c.Query(t, []string{"*"}, func(_ []string, _ *ctree.Leaf, v any) error {
					_ = v.(*pb.Notification).GetUpdate()[0].GetVal()
					return nil
				})
			}
		}
		ms := c.Metadata()
		for _, t := range []string{"t", "s"} {
			if m := ms[t]; m != nil {
				m.GetInt(metadata.LeafCount)
				m.GetBool(metadata.Sync)
				m.GetInt(metadata.LatestTimestamp)
			}
		}
	}}
)

// Dump is the content and the metadata of a cache.
type Dump struct {
	Leaves map[string]map[string]*pb.Notification
	Ints   map[string]map[string]int64
	Bools  map[string]map[string]bool
	Strs   map[string]map[string]string
}

// Counters are the int metadata of the targets.
var Counters = counters

// DumpOf reads everything.
func DumpOf(c *cache.Cache, targets []string) Dump {
	d := Dump{map[string]map[string]*pb.Notification{}, map[string]map[string]int64{}, map[string]map[string]bool{}, map[string]map[string]string{}}
	md := c.Metadata()
	for _, t := range targets {
		if md[t] == nil {
			continue
		}
		d.Leaves[t] = map[string]*pb.Notification{}
		c.Query(t, []string{"*"}, func(p []string, _ *ctree.Leaf, v any) error {
			d.Leaves[t][vm.K(p)] = v.(*pb.Notification)
			return nil
		})
		d.Ints[t], d.Bools[t], d.Strs[t] = map[string]int64{}, map[string]bool{}, map[string]string{}
		for _, k := range append(append([]string(nil), counters...), metadata.Size, metadata.LatestTimestamp) {
			d.Ints[t][k], _ = md[t].GetInt(k)
		}
		for _, k := range []string{metadata.Sync, metadata.Connected} {
			d.Bools[t][k], _ = md[t].GetBool(k)
		}
		for _, k := range []string{metadata.ConnectedAddr, metadata.ConnectError} {
			d.Strs[t][k], _ = md[t].GetStr(k)
		}
	}
	return d
}

// Data lists the non-metadata leaves of a target as text.
func (d Dump) Data(t string) []string {
	var out []string
	for k, n := range d.Leaves[t] {
		if p := vm.P(k); !isMeta(p) {
			out = append(out, fmt.Sprintf("%s@%d %s", strings.Join(p, "/"), n.GetTimestamp(), content(n)))
		}
	}
	sort.Strings(out)
	return out
}

// Text renders a target's metadata.
func (d Dump) Text(t string) string {
	return fmt.Sprint(d.Data(t), d.Ints[t], d.Bools[t], d.Strs[t])
}
