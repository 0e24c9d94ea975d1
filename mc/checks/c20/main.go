//go:build go1.23

// Check C20: the synthetic target emits an ordered, bounded, reproducible
// update stream.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"slices"
	"strings"

	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	fgnmi "github.com/openconfig/gnmi/testing/fake/gnmi"
	fpb "github.com/openconfig/gnmi/testing/fake/proto"
	"github.com/openconfig/gnmi/testing/fake/queue"
	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrand"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// ---- every outcome of the random draws ----

var wide64 = []uint64{1 << 63, 0, math.MaxUint64, 1, 1<<63 + 1<<62, math.MaxInt64, 1 << 62}

// class names the arithmetic of cfg that does not fit 64 bits, if any. What
// fails because of it is reported apart, as there are known findings.
func class(cfg *fpb.Value) string {
	wide := func(lo, hi int64) bool {
		return new(big.Int).Sub(big.NewInt(hi), big.NewInt(lo)).Cmp(big.NewInt(math.MaxInt64-1)) > 0
	}
	fits := func(a, b int64) bool { return new(big.Int).Add(big.NewInt(a), big.NewInt(b)).IsInt64() }
	if t := cfg.GetTimestamp(); t != nil {
		last, n := t.Timestamp, 8
		if cfg.Repeat > 0 {
			n = int(cfg.Repeat) - 1
		}
		for i := 0; i < n; i++ {
			if wide(t.DeltaMin, t.DeltaMax) || !fits(last, t.DeltaMax) {
				return "-wide-timestamp"
			}
			last += t.DeltaMax
		}
	}
	if r := cfg.GetIntValue().GetRange(); r != nil {
		if r.DeltaMin == 0 && r.DeltaMax == 0 {
			if wide(r.Minimum, r.Maximum) {
				return "-wide-int"
			}
		} else if wide(r.DeltaMin, r.DeltaMax) || !fits(r.Maximum, r.DeltaMax) || !fits(r.Minimum, r.DeltaMin) {
			return "-wide-int"
		}
	}
	if r := cfg.GetUintValue().GetRange(); r != nil {
		if r.DeltaMin == 0 && r.DeltaMax == 0 {
			if r.Maximum >= math.MaxInt64 {
				return "-wide-uint"
			}
		} else if r.Maximum > math.MaxInt64 || wide(r.DeltaMin, r.DeltaMax) || !fits(int64(r.Maximum), r.DeltaMax) || !fits(int64(r.Minimum), r.DeltaMin) {
			return "-wide-uint"
		}
	}
	if r := cfg.GetDoubleValue().GetRange(); r != nil && (math.IsInf(r.Maximum-r.Minimum, 0) || math.IsInf(r.DeltaMax-r.DeltaMin, 0)) {
		return "-wide-double"
	}
	return ""
}

// guard turns the panic of a draw that does not fit 64 bits into an error.
func guard(cfg []*fpb.Value, f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.HasPrefix(s, "invalid argument to Int") {
				for _, v := range cfg {
					if c := class(v); c != "" && c != "-wide-double" {
						err = vh.Errf("panic"+c, "panic: %s, for %v", s, v)
						return
					}
				}
			}
			panic(r)
		}
	}()
	return f()
}

// draws runs f under every combination of outcomes of its random draws, of
// which a draw from many numbers offers the ends, the middle and a neighbour.
// It returns the number of runs. A failure of arithmetic that does not fit 64
// bits is returned only if there is no other.
func draws(f func() error) (int, error) {
	var choice, width []int
	pos := 0
	in64 := 0
	pick := func(n int) int {
		if pos == len(choice) {
			choice, width = append(choice, 0), append(width, n)
		}
		c := choice[pos]
		width[pos] = n
		pos++
		return min(c, n-1)
	}
	vrand.Pick = func(what string, n uint64) uint64 {
		if what == "Uint64" || n == 0 {
			// A draw that is repeated until it suits sees every outcome.
			if in64++; in64 > 1 {
				return wide64[in64%len(wide64)] + uint64(in64)*0x9e3779b97f4a7c15
			}
			return wide64[pick(len(wide64))]
		}
		in64 = 0
		if n <= 5 || what == "Shuffle" || what == "Float64" {
			return uint64(pick(int(n)))
		}
		return []uint64{0, n - 1, n / 2, 1}[pick(4)]
	}
	defer func() { vrand.Pick = nil }()
	var wide error
	for n := 1; ; n++ {
		pos, in64 = 0, 0
		vh.Tick()
		if err := f(); err != nil {
			if e, ok := err.(*vh.Err); !ok || !strings.Contains(e.Key, "-wide-") {
				return n, err
			}
			if wide == nil {
				wide = err
			}
		}
		i := len(choice) - 1
		for i >= 0 && choice[i] == width[i]-1 {
			i--
		}
		if i < 0 {
			return n, wide
		}
		choice[i]++
		choice, width = choice[:i+1], width[:i+1]
	}
}

// ---- the judge ----

type track struct {
	cfg   *fpb.Value
	n     int
	ts    int64
	delta [2]int64
	last  *fpb.Value
	fed   int
}

type judge struct {
	vals   []*track
	sync   bool // a sync marker is expected
	synced int
	ts     int64
	any    bool
	kept   []proto.Message
	copies []proto.Message
}

func newJudge(cfg []*fpb.Value, sync bool) *judge {
	j := &judge{sync: sync}
	for _, v := range cfg {
		t := &track{cfg: proto.Clone(v).(*fpb.Value)}
		t.ts = v.GetTimestamp().GetTimestamp()
		t.delta = [2]int64{v.GetTimestamp().GetDeltaMin(), v.GetTimestamp().GetDeltaMax()}
		j.vals = append(j.vals, t)
	}
	return j
}

func (t *track) left() bool { return t.cfg.Repeat == 0 || t.n < int(t.cfg.Repeat) }

// at judges that an emission at ts leaves nothing out.
func (j *judge) at(ts int64) error {
	if j.any && ts < j.ts {
		return vh.Errf("order", "timestamp %d after %d", ts, j.ts)
	}
	j.ts, j.any = ts, true
	latest := int64(0)
	all := true
	for _, t := range j.vals {
		latest = max(latest, t.cfg.GetTimestamp().GetTimestamp())
		due := t.ts
		if t.n > 0 {
			due = addTo(t.ts, t.delta[1])
		} else {
			all = false
		}
		if t.left() && due < ts {
			return vh.Errf("missed", "emission %d of %v is due by %d but has not come before %d", t.n+1, t.cfg, due, ts)
		}
	}
	if j.sync && j.synced == 0 && all && ts > latest {
		return vh.Errf("sync", "no sync marker before timestamp %d", ts)
	}
	return nil
}

func addTo(a, b int64) int64 {
	if s := a + b; s >= a {
		return s
	}
	return math.MaxInt64
}

func (j *judge) gotSync() error {
	j.synced++
	if !j.sync {
		return vh.Errf("sync", "a sync marker without being configured")
	}
	if j.synced > 1 {
		return vh.Errf("sync", "%d sync markers", j.synced)
	}
	for _, t := range j.vals {
		if t.n == 0 {
			return vh.Errf("sync", "sync marker before the first emission of %v", t.cfg)
		}
	}
	return nil
}

func (j *judge) find(p []string) *track {
	for _, t := range j.vals {
		if slices.Equal(t.cfg.Path, p) {
			return t
		}
	}
	return nil
}

// got judges an emission of a configured value. val is a TypedValue or nil
// for kinds without a value.
func (j *judge) got(p []string, ts int64, val *pb.TypedValue, kind string) error {
	t := j.find(p)
	if t == nil {
		return vh.Errf("unknown", "emission of an unconfigured path %q", p)
	}
	if !t.left() {
		return vh.Errf("repeat", "emission %d of %v", t.n+1, t.cfg)
	}
	step := ts - t.ts
	if t.n == 0 && step != 0 {
		return vh.Errf("step", "the first emission of %v is at %d", t.cfg, ts)
	}
	if t.n > 0 && (ts < t.ts || step < t.delta[0] || step > t.delta[1]) {
		return vh.Errf("step", "emission %d of %v at %d comes after one at %d", t.n+1, t.cfg, ts, t.ts)
	}
	if err := j.at(ts); err != nil {
		return err
	}
	cur, err := within(t.cfg, t.last, val, kind, t.n == 0)
	if err != nil {
		return err
	}
	t.last, t.ts = cur, ts
	t.n++
	return nil
}

func (j *judge) keep(m proto.Message) {
	j.kept, j.copies = append(j.kept, m), append(j.copies, proto.Clone(m))
}

// end judges that the stream may end here.
func (j *judge) end() error {
	for _, t := range j.vals {
		if t.left() {
			return vh.Errf("repeat", "the stream ends after %d emissions of %v", t.n, t.cfg)
		}
	}
	if j.sync && j.synced == 0 {
		return vh.Errf("sync", "the stream ends without a sync marker")
	}
	return nil
}

func (j *judge) unchanged() error {
	for i, m := range j.kept {
		if !proto.Equal(m, j.copies[i]) {
			return vh.Errf("changed", "an emitted value was changed from %v to %v", j.copies[i], m)
		}
	}
	return nil
}

func clampI(v *big.Int, lo, hi *big.Int) *big.Int {
	if v.Cmp(lo) < 0 {
		return lo
	}
	if v.Cmp(hi) > 0 {
		return hi
	}
	return v
}

func inInts(what *fpb.Value, v, prev, lo, hi *big.Int, dmin, dmax int64) error {
	if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
		return vh.Errf("range"+class(what), "value %v is outside of its range in %v", v, what)
	}
	if dmin == 0 && dmax == 0 {
		return nil
	}
	a := clampI(new(big.Int).Add(prev, big.NewInt(dmin)), lo, hi)
	b := clampI(new(big.Int).Add(prev, big.NewInt(dmax)), lo, hi)
	if v.Cmp(a) < 0 || v.Cmp(b) > 0 {
		return vh.Errf("delta"+class(what), "value %v follows %v, outside of its delta in %v", v, prev, what)
	}
	return nil
}

// within judges the value val of an emission of cfg, last being the one
// before. It returns a Value holding val.
func within(cfg, last *fpb.Value, val *pb.TypedValue, kind string, first bool) (*fpb.Value, error) {
	bad := func() (*fpb.Value, error) {
		return nil, vh.Errf("kind", "an emission of %v is %s %v", cfg, kind, val)
	}
	out := &fpb.Value{}
	switch c := cfg.Value.(type) {
	case *fpb.Value_Delete, *fpb.Value_Sync:
		if val != nil {
			return bad()
		}
		return out, nil
	case *fpb.Value_IntValue:
		x, ok := val.GetValue().(*pb.TypedValue_IntVal)
		if !ok {
			return bad()
		}
		out.Value = &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: x.IntVal}}
		if first {
			if x.IntVal != c.IntValue.Value {
				return bad()
			}
			return out, nil
		}
		switch d := c.IntValue.Distribution.(type) {
		case *fpb.IntValue_Range:
			r := d.Range
			return out, inInts(cfg, big.NewInt(x.IntVal), big.NewInt(last.GetIntValue().Value), big.NewInt(r.Minimum), big.NewInt(r.Maximum), r.DeltaMin, r.DeltaMax)
		case *fpb.IntValue_List:
			if !slices.Contains(d.List.Options, x.IntVal) {
				return nil, vh.Errf("list", "value %v is none of the options of %v", x.IntVal, cfg)
			}
		default:
			if x.IntVal != c.IntValue.Value {
				return bad()
			}
		}
	case *fpb.Value_UintValue:
		x, ok := val.GetValue().(*pb.TypedValue_UintVal)
		if !ok {
			return bad()
		}
		out.Value = &fpb.Value_UintValue{UintValue: &fpb.UintValue{Value: x.UintVal}}
		if first {
			if x.UintVal != c.UintValue.Value {
				return bad()
			}
			return out, nil
		}
		u := func(v uint64) *big.Int { return new(big.Int).SetUint64(v) }
		switch d := c.UintValue.Distribution.(type) {
		case *fpb.UintValue_Range:
			r := d.Range
			return out, inInts(cfg, u(x.UintVal), u(last.GetUintValue().Value), u(r.Minimum), u(r.Maximum), r.DeltaMin, r.DeltaMax)
		case *fpb.UintValue_List:
			if !slices.Contains(d.List.Options, x.UintVal) {
				return nil, vh.Errf("list", "value %v is none of the options of %v", x.UintVal, cfg)
			}
		default:
			if x.UintVal != c.UintValue.Value {
				return bad()
			}
		}
	case *fpb.Value_DoubleValue:
		x, ok := val.GetValue().(*pb.TypedValue_DoubleVal)
		if !ok {
			return bad()
		}
		v := x.DoubleVal
		out.Value = &fpb.Value_DoubleValue{DoubleValue: &fpb.DoubleValue{Value: v}}
		if first {
			if v != c.DoubleValue.Value {
				return bad()
			}
			return out, nil
		}
		switch d := c.DoubleValue.Distribution.(type) {
		case *fpb.DoubleValue_Range:
			r := d.Range
			if !(v >= r.Minimum && v <= r.Maximum) {
				return nil, vh.Errf("range"+class(cfg), "value %v is outside of its range in %v", v, cfg)
			}
			if r.DeltaMin != 0 || r.DeltaMax != 0 {
				prev := last.GetDoubleValue().Value
				lo := min(max(prev+r.DeltaMin, r.Minimum), r.Maximum)
				hi := min(max(prev+r.DeltaMax, r.Minimum), r.Maximum)
				eps := 1e-9 * (math.Abs(lo) + math.Abs(hi) + math.Abs(prev))
				if !(v >= lo-eps && v <= hi+eps) {
					return nil, vh.Errf("delta"+class(cfg), "value %v follows %v, outside of its delta in %v", v, prev, cfg)
				}
			}
		case *fpb.DoubleValue_List:
			if !slices.Contains(d.List.Options, v) {
				return nil, vh.Errf("list", "value %v is none of the options of %v", v, cfg)
			}
		default:
			if v != c.DoubleValue.Value {
				return bad()
			}
		}
	case *fpb.Value_StringValue:
		x, ok := val.GetValue().(*pb.TypedValue_StringVal)
		if !ok {
			return bad()
		}
		if d, ok := c.StringValue.Distribution.(*fpb.StringValue_List); ok && !first {
			if !slices.Contains(d.List.Options, x.StringVal) {
				return nil, vh.Errf("list", "value %q is none of the options of %v", x.StringVal, cfg)
			}
		} else if x.StringVal != c.StringValue.Value {
			return bad()
		}
	case *fpb.Value_BoolValue:
		x, ok := val.GetValue().(*pb.TypedValue_BoolVal)
		if !ok {
			return bad()
		}
		if d, ok := c.BoolValue.Distribution.(*fpb.BoolValue_List); ok && !first {
			if !slices.Contains(d.List.Options, x.BoolVal) {
				return nil, vh.Errf("list", "value %v is none of the options of %v", x.BoolVal, cfg)
			}
		} else if x.BoolVal != c.BoolValue.Value {
			return bad()
		}
	case *fpb.Value_StringListValue:
		x, ok := val.GetValue().(*pb.TypedValue_LeaflistVal)
		if !ok {
			return bad()
		}
		var ss []string
		for _, e := range x.LeaflistVal.GetElement() {
			s, ok := e.GetValue().(*pb.TypedValue_StringVal)
			if !ok {
				return bad()
			}
			ss = append(ss, s.StringVal)
		}
		if d, ok := c.StringListValue.Distribution.(*fpb.StringListValue_List); ok && !first {
			rest := slices.Clone(d.List.Options)
			for _, s := range ss {
				i := slices.Index(rest, s)
				if i < 0 {
					return nil, vh.Errf("list", "value %q is not made of the options of %v", ss, cfg)
				}
				rest = slices.Delete(rest, i, i+1)
			}
		} else if !slices.Equal(ss, c.StringListValue.Value) {
			return bad()
		}
	default:
		return bad()
	}
	return out, nil
}

// value judges an emission of the queue itself.
func (j *judge) value(v *fpb.Value) error {
	j.keep(v)
	kind := fmt.Sprintf("%T", v.Value)
	if _, ok := v.Value.(*fpb.Value_Sync); ok && len(v.Path) == 0 {
		if err := j.at(v.GetTimestamp().GetTimestamp()); err != nil {
			return err
		}
		return j.gotSync()
	}
	if t := j.find(v.Path); t != nil && kind != fmt.Sprintf("%T", t.cfg.Value) {
		return vh.Errf("kind", "an emission of %v is %v", t.cfg, v)
	}
	return j.got(v.Path, v.GetTimestamp().GetTimestamp(), queue.TypedValueOf(v), kind)
}

// response judges a response of the fake agent.
func (j *judge) response(r *pb.SubscribeResponse, target string) error {
	switch x := r.Response.(type) {
	case *pb.SubscribeResponse_SyncResponse:
		return j.gotSync()
	case *pb.SubscribeResponse_Update:
		n := x.Update
		if n.GetPrefix().GetTarget() != target {
			return vh.Errf("target", "a response for target %q", n.GetPrefix().GetTarget())
		}
		switch {
		case len(n.Update) == 1 && len(n.Delete) == 0:
			u := n.Update[0]
			return j.got(u.GetPath().GetElement(), n.Timestamp, u.Val, fmt.Sprintf("%T", u.Val.GetValue()))
		case len(n.Update) == 0 && len(n.Delete) == 1:
			return j.got(n.Delete[0].GetElement(), n.Timestamp, nil, "delete")
		}
	}
	return vh.Errf("response", "unexpected response %v", r)
}

// ---- values ----

type kind struct {
	name string
	set  func(v *fpb.Value)
}

func iv(val int64, r *fpb.IntRange) kind {
	return kind{fmt.Sprintf("int %d in [%d,%d] delta [%d,%d]", val, r.Minimum, r.Maximum, r.DeltaMin, r.DeltaMax), func(v *fpb.Value) {
		v.Value = &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: val, Distribution: &fpb.IntValue_Range{Range: proto.Clone(r).(*fpb.IntRange)}}}
	}}
}

func uv(val uint64, r *fpb.UintRange) kind {
	return kind{fmt.Sprintf("uint %d in [%d,%d] delta [%d,%d]", val, r.Minimum, r.Maximum, r.DeltaMin, r.DeltaMax), func(v *fpb.Value) {
		v.Value = &fpb.Value_UintValue{UintValue: &fpb.UintValue{Value: val, Distribution: &fpb.UintValue_Range{Range: proto.Clone(r).(*fpb.UintRange)}}}
	}}
}

func dv(val float64, r *fpb.DoubleRange) kind {
	return kind{fmt.Sprintf("double %g in [%g,%g] delta [%g,%g]", val, r.Minimum, r.Maximum, r.DeltaMin, r.DeltaMax), func(v *fpb.Value) {
		v.Value = &fpb.Value_DoubleValue{DoubleValue: &fpb.DoubleValue{Value: val, Distribution: &fpb.DoubleValue_Range{Range: proto.Clone(r).(*fpb.DoubleRange)}}}
	}}
}

func intKinds() (out []kind) {
	type rg struct{ lo, hi int64 }
	const mn, mx = math.MinInt64, math.MaxInt64
	for _, r := range []rg{{0, 0}, {0, 1}, {5, 5}, {-1, 1}, {0, 100}, {-100, -90}, {mn, mx}, {mn, mn}, {mx, mx}, {-1, mx}, {0, mx}, {mn, -1}, {mn, 0}, {mx - 2, mx}, {mn, mn + 2}, {-(1 << 62), 1 << 62}, {-(1 << 62), 1<<62 - 1}} {
		for _, val := range slices.Compact([]int64{r.lo, r.lo/2 + r.hi/2, r.hi}) {
			if val < r.lo || val > r.hi {
				continue
			}
			for _, d := range []rg{{0, 0}, {1, 1}, {-1, 1}, {0, 3}, {-3, 0}, {-200, -100}, {100, 200}, {mn, mx}, {mn, mn}, {mx, mx}, {0, mx}, {mn, 0}, {-1, mx}, {mx - 1, mx}} {
				out = append(out, iv(val, &fpb.IntRange{Minimum: r.lo, Maximum: r.hi, DeltaMin: d.lo, DeltaMax: d.hi}))
			}
		}
	}
	return out
}

func uintKinds() (out []kind) {
	type rg struct{ lo, hi uint64 }
	type dg struct{ lo, hi int64 }
	const mn, mx = math.MinInt64, math.MaxInt64
	const um = math.MaxUint64
	for _, r := range []rg{{0, 0}, {0, 1}, {5, 5}, {0, 100}, {0, um}, {0, mx}, {um, um}, {um - 2, um}, {mx, um}, {1 << 63, 1 << 63}, {mx - 1, mx + 1}, {1, um}, {0, 1 << 63}, {1 << 62, 3 << 62}, {um - mx, um}} {
		for _, val := range slices.Compact([]uint64{r.lo, r.lo/2 + r.hi/2, r.hi}) {
			if val < r.lo || val > r.hi {
				continue
			}
			for _, d := range []dg{{0, 0}, {1, 1}, {-1, 1}, {0, 3}, {-3, 0}, {-200, -100}, {100, 200}, {mn, mx}, {mn, mn}, {mx, mx}, {0, mx}, {mn, 0}, {-1, mx}} {
				out = append(out, uv(val, &fpb.UintRange{Minimum: r.lo, Maximum: r.hi, DeltaMin: d.lo, DeltaMax: d.hi}))
			}
		}
	}
	return out
}

func doubleKinds() (out []kind) {
	type rg struct{ lo, hi float64 }
	const mx = math.MaxFloat64
	for _, r := range []rg{{0, 0}, {0, 1}, {-1, 1}, {5, 5}, {0, 100}, {0.1, 0.3}, {-mx, mx}, {0, mx}, {-mx, 0}, {mx, mx}, {5e-324, 1e-320}, {-1e-300, 1e300}, {1e16, 1e16 + 2}, {-0.3, -0.1}, {mx / 2, mx}} {
		for _, val := range []float64{r.lo, r.lo/2 + r.hi/2, r.hi} {
			if val < r.lo || val > r.hi {
				continue
			}
			for _, d := range []rg{{0, 0}, {1, 1}, {-1, 1}, {0, 0.1}, {-0.1, 0}, {-mx, mx}, {mx, mx}, {-mx, -mx}, {0, mx}, {1e-300, 1e300}, {-0.2, -0.1}} {
				out = append(out, dv(val, &fpb.DoubleRange{Minimum: r.lo, Maximum: r.hi, DeltaMin: d.lo, DeltaMax: d.hi}))
			}
		}
	}
	return out
}

func listKinds() (out []kind) {
	add := func(name string, set func(v *fpb.Value)) { out = append(out, kind{name, set}) }
	for n := 1; n <= 3; n++ {
		for _, rnd := range []bool{false, true} {
			for _, dup := range []bool{false, true} {
				ix := func(i int) int {
					if dup {
						return i % 2
					}
					return i
				}
				d := fmt.Sprintf(" list of %d, random %v, repeated options %v", n, rnd, dup)
				add("int"+d, func(v *fpb.Value) {
					l := &fpb.IntList{Random: rnd}
					for i := 0; i < n; i++ {
						l.Options = append(l.Options, int64(ix(i))-1)
					}
					v.Value = &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: l.Options[0], Distribution: &fpb.IntValue_List{List: l}}}
				})
				add("uint"+d, func(v *fpb.Value) {
					l := &fpb.UintList{Random: rnd}
					for i := 0; i < n; i++ {
						l.Options = append(l.Options, math.MaxUint64-uint64(ix(i)))
					}
					v.Value = &fpb.Value_UintValue{UintValue: &fpb.UintValue{Value: l.Options[0], Distribution: &fpb.UintValue_List{List: l}}}
				})
				add("double"+d, func(v *fpb.Value) {
					l := &fpb.DoubleList{Random: rnd}
					for i := 0; i < n; i++ {
						l.Options = append(l.Options, float64(ix(i))+0.1)
					}
					v.Value = &fpb.Value_DoubleValue{DoubleValue: &fpb.DoubleValue{Distribution: &fpb.DoubleValue_List{List: l}}}
				})
				add("string"+d, func(v *fpb.Value) {
					l := &fpb.StringList{Random: rnd}
					for i := 0; i < n; i++ {
						l.Options = append(l.Options, string(rune('a'+ix(i))))
					}
					v.Value = &fpb.Value_StringValue{StringValue: &fpb.StringValue{Value: "b", Distribution: &fpb.StringValue_List{List: l}}}
				})
				add("string list"+d, func(v *fpb.Value) {
					l := &fpb.StringList{Random: rnd}
					for i := 0; i < n; i++ {
						l.Options = append(l.Options, string(rune('a'+ix(i))))
					}
					v.Value = &fpb.Value_StringListValue{StringListValue: &fpb.StringListValue{Value: []string{"x", "y"}, Distribution: &fpb.StringListValue_List{List: l}}}
				})
				add("bool"+d, func(v *fpb.Value) {
					l := &fpb.BoolList{Random: rnd}
					for i := 0; i < n; i++ {
						l.Options = append(l.Options, dup || i%2 == 0)
					}
					v.Value = &fpb.Value_BoolValue{BoolValue: &fpb.BoolValue{Distribution: &fpb.BoolValue_List{List: l}}}
				})
			}
		}
	}
	return append(out, constKinds()...)
}

func constKinds() []kind {
	return []kind{
		{"int", func(v *fpb.Value) { v.Value = &fpb.Value_IntValue{IntValue: &fpb.IntValue{Value: -7}} }},
		{"uint", func(v *fpb.Value) { v.Value = &fpb.Value_UintValue{UintValue: &fpb.UintValue{Value: 1 << 63}} }},
		{"double", func(v *fpb.Value) { v.Value = &fpb.Value_DoubleValue{DoubleValue: &fpb.DoubleValue{Value: 0.1}} }},
		{"string", func(v *fpb.Value) { v.Value = &fpb.Value_StringValue{StringValue: &fpb.StringValue{Value: "s"}} }},
		{"string list", func(v *fpb.Value) {
			v.Value = &fpb.Value_StringListValue{StringListValue: &fpb.StringListValue{Value: []string{"s", "t"}}}
		}},
		{"bool", func(v *fpb.Value) { v.Value = &fpb.Value_BoolValue{BoolValue: &fpb.BoolValue{Value: true}} }},
		{"delete", func(v *fpb.Value) { v.Value = &fpb.Value_Delete{Delete: &fpb.DeleteValue{}} }},
		{"sync", func(v *fpb.Value) { v.Value = &fpb.Value_Sync{Sync: 1} }},
	}
}

type tspec struct {
	none       bool
	ts, lo, hi int64
}

func (t tspec) String() string {
	if t.none {
		return "no timestamp"
	}
	return fmt.Sprintf("at %d +[%d,%d]", t.ts, t.lo, t.hi)
}

type vspec struct {
	k      kind
	t      tspec
	repeat int32
	seed   int64
}

func (s vspec) mk(i int) *fpb.Value {
	v := &fpb.Value{Path: []string{fmt.Sprint("v", i)}, Repeat: s.repeat, Seed: s.seed}
	if !s.t.none {
		v.Timestamp = &fpb.Timestamp{Timestamp: s.t.ts, DeltaMin: s.t.lo, DeltaMax: s.t.hi}
	}
	s.k.set(v)
	return v
}

func mk(ss []vspec) []*fpb.Value {
	var out []*fpb.Value
	for i, s := range ss {
		out = append(out, s.mk(i))
	}
	return out
}

func text(ss []vspec) string {
	var p []string
	for i, s := range ss {
		p = append(p, fmt.Sprintf("v%d: %s, %v, repeat %d, seed %d", i, s.k.name, s.t, s.repeat, s.seed))
	}
	return strings.Join(p, "\n")
}

// emit takes up to steps emissions and judges them.
func emit(u *queue.UpdateQueue, j *judge, steps int) error {
	total, bounded := 0, true
	for _, t := range j.vals {
		total += int(t.cfg.Repeat)
		bounded = bounded && t.cfg.Repeat > 0
	}
	if j.sync {
		total++
	}
	n := steps
	if bounded && total < n {
		n = total
	}
	for i := 0; i < n; i++ {
		x, err := u.Next()
		if err != nil {
			return vh.Errf("error", "Next: %v", err)
		}
		if x == nil {
			return j.end()
		}
		v, ok := x.(*fpb.Value)
		if !ok || v == nil {
			return vh.Errf("type", "Next returns %T %v", x, x)
		}
		if err := j.value(v); err != nil {
			return err
		}
	}
	if bounded && n == total {
		for i := 0; i < 2; i++ {
			if x, err := u.Next(); err != nil || x != nil {
				return vh.Errf("end", "Next of an exhausted queue: %v %v", x, err)
			}
		}
		if err := j.end(); err != nil {
			return err
		}
	}
	return j.unchanged()
}

// ---- scenarios on the queue ----

func run(q *vh.Q, ss []vspec, steps int) bool {
	return q.Do(func() string { return text(ss) }, func() error {
		orig := mk(ss)
		n, err := draws(func() error {
			c := mk(ss)
			return guard(orig, func() error { return emit(queue.New(false, 1, c), newJudge(orig, false), steps) })
		})
		q.Trans(n * steps)
		q.Note("random outcomes", int64(n))
		return err
	})
}

func singleScenarios(thorough bool) []vh.Scenario {
	steps := 3
	if thorough {
		steps = 5
	}
	times := []tspec{{ts: 0, lo: 1, hi: 1}, {ts: 7, lo: 0, hi: 2}}
	var out []vh.Scenario
	for _, f := range []struct {
		name  string
		kinds []kind
	}{{"integers", intKinds()}, {"unsigned integers", uintKinds()}, {"doubles", doubleKinds()}, {"lists and constants", listKinds()}} {
		const parts = 16
		for p := 0; p < parts; p++ {
			out = append(out, vh.Scenario{Name: fmt.Sprintf("one value, %s, part %d of %d", f.name, p+1, parts), Seq: func(q *vh.Q) {
				for i, k := range f.kinds {
					if i%parts != p {
						continue
					}
					for ti, t := range times {
						for _, rep := range []int32{0, 1, 3} {
							st := steps
							if f.name == "lists and constants" && thorough {
								st-- // a shuffle has many outcomes
							}
							if ti == 1 && thorough {
								st-- // both draws vary
							}
							if q.Expired() || !run(q, []vspec{{k, t, rep, 0}}, st) {
								return
							}
						}
					}
					q.State(f.name + k.name)
				}
			}})
		}
	}
	out = append(out, vh.Scenario{Name: "one value, timestamps", Seq: func(q *vh.Q) {
		k := constKinds()
		for _, x := range k {
			for _, ts := range []int64{0, 1, 1 << 40, math.MaxInt64 - 1000, -5} {
				for _, d := range [][2]int64{{0, 0}, {1, 1}, {0, 1}, {0, 100}, {50, 100}, {99, 99}, {0, math.MaxInt64}, {math.MaxInt64 - 1, math.MaxInt64}, {1, math.MaxInt64}} {
					for _, rep := range []int32{0, 1, 2, 4} {
						t := tspec{ts: ts, lo: d[0], hi: d[1]}
						steps := 5
						if rep > 0 {
							steps = int(rep)
						}
						if ts < 0 && rep != 1 || d[1] > 100 && (ts != 0 || rep != 2) && rep != 1 {
							continue // a negative or overflowing timestamp is refused
						}
						if q.Expired() || !run(q, []vspec{{x, t, rep, 0}}, steps) {
							return
						}
					}
				}
			}
			for _, rep := range []int32{0, 1, 3} {
				if !run(q, []vspec{{x, tspec{none: true}, rep, 0}}, 4) {
					return
				}
			}
		}
	}})
	// A timestamp that would overflow must not break the order.
	out = append(out, vh.Scenario{Name: "timestamps at the end of time", Seq: func(q *vh.Q) {
		k := constKinds()[0]
		for _, ts := range []int64{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 10} {
			for _, d := range [][2]int64{{1, 1}, {0, 20}, {0, math.MaxInt64}, {5, 15}} {
				for _, rep := range []int32{0, 2, 3} {
					ss := []vspec{{k, tspec{ts: ts, lo: d[0], hi: d[1]}, rep, 0}, {k, tspec{ts: ts, lo: 0, hi: 0}, 2, 0}}
					if q.Expired() || !q.Do(func() string { return text(ss) }, func() error {
						n, err := draws(func() error {
							return guard(mk(ss), func() error {
								u := queue.New(false, 1, mk(ss))
								last := int64(math.MinInt64)
								for i := 0; i < 6; i++ {
									x, err := u.Next()
									if err != nil || x == nil {
										return nil
									}
									ts := x.(*fpb.Value).GetTimestamp().GetTimestamp()
									if ts < last {
										return vh.Errf("order"+class(ss[0].mk(0)), "timestamp %d after %d", ts, last)
									}
									last = ts
								}
								return nil
							})
						})
						q.Trans(n)
						return err
					}) {
						return
					}
				}
			}
		}
	}})
	return out
}

func vals(tss []int64, deltas [][2]int64, reps []int32) (out []vspec) {
	k := constKinds()
	for _, ts := range tss {
		for _, d := range deltas {
			for _, r := range reps {
				out = append(out, vspec{k[len(out)%7], tspec{ts: ts, lo: d[0], hi: d[1]}, r, 0})
			}
		}
	}
	return append(out, vspec{k[3], tspec{none: true}, 2, 0})
}

func orderScenarios(thorough bool) []vh.Scenario {
	var out []vh.Scenario
	two := vals([]int64{0, 1, 2, 3}, [][2]int64{{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 3}}, []int32{0, 1, 2, 3})
	three := vals([]int64{0, 1, 2}, [][2]int64{{0, 0}, {1, 1}, {0, 2}}, []int32{0, 1, 2})
	if thorough {
		three = vals([]int64{0, 1, 2}, [][2]int64{{0, 0}, {1, 1}, {0, 1}, {1, 2}}, []int32{0, 1, 2, 3})
	}
	steps := 6
	if thorough {
		steps = 8
	}
	four := vals([]int64{0, 2}, [][2]int64{{0, 0}, {1, 1}}, []int32{0, 1, 2})
	for i, a := range two {
		if i%8 != 0 {
			continue
		}
		out = append(out, vh.Scenario{Name: fmt.Sprintf("two values, from configuration %d", i), Seq: func(q *vh.Q) {
			for k := i; k < min(i+8, len(two)); k++ {
				a = two[k]
				for _, b := range two {
					if q.Expired() || !run(q, []vspec{a, b}, steps+1) {
						return
					}
				}
			}
		}})
	}
	for i := range three {
		a := three[i]
		out = append(out, vh.Scenario{Name: fmt.Sprintf("three values, first is configuration %d", i), Seq: func(q *vh.Q) {
			for _, b := range three {
				for _, c := range three {
					if q.Expired() || !run(q, []vspec{a, b, c}, steps) {
						return
					}
				}
			}
		}})
	}
	for i := range four {
		a := four[i]
		out = append(out, vh.Scenario{Name: fmt.Sprintf("four values, first is configuration %d", i), Seq: func(q *vh.Q) {
			for _, b := range four {
				for _, c := range four {
					for _, d := range four {
						if q.Expired() || !run(q, []vspec{a, b, c, d}, 10) {
							return
						}
					}
				}
			}
		}})
	}
	// Larger queues: all orders of distinct initial timestamps, to exercise
	// the insertion.
	out = append(out, vh.Scenario{Name: "six values, all orders of initial timestamps", Seq: func(q *vh.Q) {
		k := constKinds()
		perm := []int64{0, 1, 2, 3, 4, 5}
		var rec func(n int) bool
		rec = func(n int) bool {
			if n == len(perm) {
				for _, d := range []int64{1, 2, 4, 7} {
					var ss []vspec
					for i, p := range perm {
						ss = append(ss, vspec{k[i], tspec{ts: p * 2, lo: d, hi: d}, int32(i % 3), 0})
					}
					if q.Expired() || !run(q, ss, 20) {
						return false
					}
				}
				return true
			}
			for i := n; i < len(perm); i++ {
				perm[n], perm[i] = perm[i], perm[n]
				if !rec(n + 1) {
					return false
				}
				perm[n], perm[i] = perm[i], perm[n]
			}
			return true
		}
		rec(0)
	}})
	return out
}

// ---- seeds ----

func seq(u *queue.UpdateQueue, n int) ([]string, error) {
	var out []string
	for i := 0; i < n; i++ {
		x, err := u.Next()
		if err != nil {
			return nil, err
		}
		out = append(out, show(x))
	}
	return out, nil
}

func show(x any) string {
	if x == nil {
		return "end"
	}
	v := x.(*fpb.Value)
	return fmt.Sprint(v.Path, v.GetTimestamp().GetTimestamp(), queue.ValueOf(v))
}

func seedScenarios(thorough bool) []vh.Scenario {
	var ks []kind
	ik, uk, dk := intKinds(), uintKinds(), doubleKinds()
	for i := 0; i < len(ik); i += 23 {
		ks = append(ks, ik[i])
	}
	for i := 0; i < len(uk); i += 29 {
		ks = append(ks, uk[i])
	}
	for i := 0; i < len(dk); i += 31 {
		ks = append(ks, dk[i])
	}
	for _, k := range listKinds() {
		if strings.Contains(k.name, "of 3") {
			ks = append(ks, k)
		}
	}
	seeds := []int64{1, 2, -1, 42, math.MaxInt64, math.MinInt64}
	steps := 16
	if thorough {
		steps = 60
	}
	var out []vh.Scenario
	const parts = 16
	for p := 0; p < parts; p++ {
		out = append(out, vh.Scenario{Name: fmt.Sprintf("same configuration and seed, part %d of %d", p+1, parts), Seq: func(q *vh.Q) {
			for i, a := range ks {
				if i%parts != p {
					continue
				}
				for j, b := range ks {
					for vs := 0; vs < 3; vs++ {
						s := seeds[(i+j+vs)%len(seeds)]
						ss := []vspec{{a, tspec{ts: 5, lo: 0, hi: 3}, 0, 0}, {b, tspec{ts: 5, lo: 1, hi: 4}, int32(j % 5), 0}}
						if vs > 0 {
							ss[0].seed = 7
						}
						if vs > 1 {
							ss[1].seed = -3
						}
						if j%4 == 0 {
							ss[1].t = tspec{none: true}
							if ss[1].repeat == 0 {
								ss[1].repeat = 3
							}
						}
						ok := q.Do(func() string { return fmt.Sprintf("global seed %d\n%s", s, text(ss)) }, func() error {
							return guard(mk(ss), func() error {
								same := mk(ss)
								one, err := seq(queue.New(false, s, same), steps)
								if err != nil {
									return vh.Errf("error", "Next: %v", err)
								}
								// From the same messages again.
								two, err := seq(queue.New(false, s, same), steps)
								if err != nil {
									return vh.Errf("error", "Next: %v", err)
								}
								if !slices.Equal(one, two) {
									return vh.Errf("seed", "the first generator emits %q, the second, from the same messages, %q", one, two)
								}
								// Two generators and a stranger, interleaved.
								u, w, other := queue.New(false, s, mk(ss)), queue.New(false, s, mk(ss)), queue.New(false, s+1, mk(ss))
								for n := 0; n < steps; n++ {
									x, err := u.Next()
									if err != nil {
										return vh.Errf("error", "Next: %v", err)
									}
									other.Next()
									vrand.Int63()
									y, err := w.Next()
									if err != nil {
										return vh.Errf("error", "Next: %v", err)
									}
									if show(x) != show(y) || show(x) != one[n] {
										return vh.Errf("seed", "emission %d is %s, %s and %s", n+1, one[n], show(x), show(y))
									}
								}
								return nil
							})
						})
						q.Trans(5 * steps)
						if !ok || q.Expired() {
							return
						}
					}
				}
			}
		}})
	}
	return out
}

// ---- the agent's client ----

type fstream struct {
	x      *vh.X
	ctx    context.Context
	cancel context.CancelFunc
	req    *pb.SubscribeRequest
	polls  int // polls to send, one after each sync
	recvs  int
	syncs  int
	allow  int // polls that may be handed out
	limit  int // sends before an error
	sent   []*pb.SubscribeResponse
	marks  []int // number of responses when a poll was handed out
	gone   bool
}

var errGone = errors.New("gone")

func (s *fstream) SetHeader(metadata.MD) error  { return nil }
func (s *fstream) SendHeader(metadata.MD) error { return nil }
func (s *fstream) SetTrailer(metadata.MD)       {}
func (s *fstream) Context() context.Context     { return s.ctx }
func (s *fstream) SendMsg(any) error            { return errGone }
func (s *fstream) RecvMsg(any) error            { return errGone }

func (s *fstream) Send(r *pb.SubscribeResponse) error {
	vrt.Yield()
	vrt.Touch()
	if s.gone || len(s.sent) >= s.limit {
		s.gone = true
		return errGone
	}
	s.sent = append(s.sent, r)
	if _, ok := r.Response.(*pb.SubscribeResponse_SyncResponse); ok {
		s.syncs++
	}
	return nil
}

func (s *fstream) Recv() (*pb.SubscribeRequest, error) {
	vrt.Yield()
	vrt.Touch()
	s.recvs++
	if s.recvs == 1 {
		return proto.Clone(s.req).(*pb.SubscribeRequest), nil
	}
	if n := s.recvs - 2; n < s.polls {
		vrt.Await("poll", func() bool { return s.gone || s.allow > n })
		if s.gone {
			return nil, io.EOF
		}
		vrt.Touch()
		s.marks = append(s.marks, len(s.sent))
		return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Poll{Poll: &pb.Poll{}}}, nil
	}
	vrt.Await("the end", func() bool { return s.gone })
	return nil, io.EOF
}

type cconf struct {
	ss     []vspec
	random bool // as a random generator
	nosync bool
	delay  bool
	noEOF  bool
	mode   pb.SubscriptionList_Mode
	target string
	polls  int
	limit  int
	seed   int64
}

func (c cconf) String() string {
	return fmt.Sprintf("%s\nrandom generator %v, sync disabled %v, delay %v, eof disabled %v, mode %v, target %q, polls %d, seed %d, %d responses taken", text(c.ss), c.random, c.nosync, c.delay, c.noEOF, c.mode, c.target, c.polls, c.seed, c.limit)
}

func (c cconf) config() *fpb.Config {
	f := &fpb.Config{Target: "dev", DisableSync: c.nosync, DisableEof: c.noEOF, EnableDelay: c.delay}
	if c.random {
		f.Generator = &fpb.Config_Random{Random: &fpb.RandomGenerator{Seed: c.seed, Values: mk(c.ss)}}
	} else {
		f.Seed, f.Values = c.seed, mk(c.ss)
	}
	return f
}

// runClient runs a client of the agent to its end, or until it is silent.
func runClient(x *vh.X, name string, cl *fgnmi.Client, c cconf) *fstream {
	s := &fstream{x: x, polls: c.polls, limit: c.limit}
	s.ctx, s.cancel = vcontext.WithCancel(vcontext.Background())
	s.req = &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{Mode: c.mode, Prefix: &pb.Path{Target: c.target}}}}
	vrt.GoN(name, func() {
		cl.Run(s)
		vrt.Touch()
		s.gone = true
	})
	return s
}

// settle lets the client run, polling when it is silent.
func (c cconf) settle(s *fstream) {
	for i := 0; ; i++ {
		vrt.Quiesce()
		if c.delay {
			vrt.Sleep(1 << 40)
		}
		if i == c.polls {
			return
		}
		vrt.Touch()
		s.allow++
	}
}

func (c cconf) judge(x *vh.X, s *fstream) {
	if c.random && len(c.ss) > 0 && !slices.ContainsFunc(s.sent, func(r *pb.SubscribeResponse) bool { return r.GetUpdate() != nil }) {
		x.Fail("random-generator-ignored", "no value of the random generator is emitted, only %v", s.sent)
	}
	parts := [][]*pb.SubscribeResponse{s.sent}
	if len(s.marks) > 0 {
		parts = nil
		from := 0
		for _, m := range append(slices.Clone(s.marks), len(s.sent)) {
			parts = append(parts, s.sent[from:m])
			from = m
		}
	}
	var first []string
	for i, part := range parts {
		j := newJudge(mk(c.ss), !c.nosync)
		var txt []string
		for _, r := range part {
			if err := j.response(r, c.target); err != nil {
				e := err.(*vh.Err)
				x.Fail(e.Key, "%s\nemitted: %v", e.Msg, part)
			}
			txt = append(txt, fmt.Sprint(r.String()))
		}
		if len(s.sent) < s.limit || i < len(parts)-1 {
			if err := j.end(); err != nil {
				e := err.(*vh.Err)
				x.Fail(e.Key, "%s\nemitted: %v", e.Msg, part)
			}
		}
		if i == 0 {
			first = txt
		} else if n := min(len(first), len(txt)); c.seed != 0 && !same(part[:n], parts[0][:n]) {
			x.Fail("seed", "poll %d emits %v, the first sequence was %v", i, part, parts[0])
		}
	}
}

func same(a, b []*pb.SubscribeResponse) bool {
	for i := range a {
		if !proto.Equal(a[i], b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func (c cconf) body(x *vh.X) {
	cfg := c.config()
	cl := fgnmi.NewClient(cfg)
	s := runClient(x, "client", cl, c)
	c.settle(s)
	if vrt.RaceEnabled {
		return
	}
	if c.polls > 0 && len(s.sent) < c.limit && len(s.marks) < c.polls && !c.noEOF && !c.nosync {
		x.Fail("poll", "the client took %d of %d polls, emitted %v", len(s.marks), c.polls, s.sent)
	}
	c.judge(x, s)
	// The same configuration once more.
	again := runClient(x, "client", fgnmi.NewClient(cfg), c)
	if c.seed != 0 {
		c.settle(again)
		if !same(s.sent, again.sent) {
			x.Fail("seed", "a second client is sent %v, the first got %v", again.sent, s.sent)
		}
	}
}

func clientScenarios(thorough bool) []vh.Scenario {
	var out []vh.Scenario
	ks := listKinds()
	var rich []vspec
	for i, k := range ks {
		if strings.HasPrefix(k.name, "sync") {
			continue
		}
		rich = append(rich, vspec{k, tspec{ts: int64(i % 3), lo: int64(i % 2), hi: int64(i%2) + 1}, int32(i % 4), 0})
	}
	few := vals([]int64{0, 1, 3}, [][2]int64{{0, 0}, {1, 1}, {1, 2}}, []int32{0, 1, 2})
	if !thorough {
		few = vals([]int64{0, 1, 3}, [][2]int64{{0, 0}, {1, 2}}, []int32{0, 1, 2})
	}
	exec := func(q *vh.Q, c cconf) bool {
		return !q.Expired() && q.Do(c.String, func() error { return q.Exec(c.body) })
	}
	for i := range few {
		out = append(out, vh.Scenario{Name: fmt.Sprintf("client of the agent, up to three values, first is configuration %d", i), Seq: func(q *vh.Q) {
			a := few[i]
			for r := 0; r < 2; r++ {
				if !exec(q, cconf{ss: []vspec{a}, random: r == 1, seed: 5, limit: 9, mode: pb.SubscriptionList_STREAM}) {
					return
				}
				for j, b := range few {
					c := cconf{ss: []vspec{a, b}, random: r == 1, seed: 5, limit: 12, mode: pb.SubscriptionList_Mode(j % 2), target: []string{"", "dev"}[j%2], nosync: j%5 == 4, noEOF: j%3 == 2, delay: j%4 == 3}
					if !exec(q, c) {
						return
					}
					if r == 0 || thorough {
						for _, d := range few {
							c.ss = []vspec{a, b, d}
							if !exec(q, c) {
								return
							}
						}
					}
				}
			}
		}})
	}
	out = append(out, vh.Scenario{Name: "client of the agent, all kinds", Seq: func(q *vh.Q) {
		for i, a := range rich {
			for j, b := range rich {
				if !exec(q, cconf{ss: []vspec{a, b}, random: i%2 == 0, seed: int64(i + 1), limit: 14, mode: pb.SubscriptionList_ONCE, target: "x", delay: j%2 == 0}) {
					return
				}
			}
		}
	}})
	out = append(out, vh.Scenario{Name: "client of the agent, no values", Seq: func(q *vh.Q) {
		for _, m := range []pb.SubscriptionList_Mode{0, 1, 2} {
			for n := 0; n < 16; n++ {
				if !exec(q, cconf{random: n&1 > 0, nosync: n&2 > 0, delay: n&4 > 0, noEOF: n&8 > 0, seed: 3, limit: 5, mode: m}) {
					return
				}
			}
		}
	}})
	// Polls re-create the generator.
	out = append(out, vh.Scenario{Name: "client of the agent, polls", Seq: func(q *vh.Q) {
		for _, a := range few {
			if a.repeat == 0 {
				continue
			}
			for i, b := range append(few, rich...) {
				if b.repeat == 0 {
					continue
				}
				if !exec(q, cconf{ss: []vspec{a, b}, random: i%2 == 0, seed: 9, limit: 100, mode: pb.SubscriptionList_POLL, polls: 1 + i%3, target: "x"}) {
					return
				}
			}
		}
	}})
	// Fixed generators.
	out = append(out, vh.Scenario{Name: "fixed generator", Seq: func(q *vh.Q) { fixed(q) }})
	// Interleavings of two clients on one configuration.
	n := 0
	for _, a := range few[:len(few)-1] {
		for _, b := range []vspec{few[1], few[5], few[9]} {
			n++
			if n%3 != 0 && !thorough {
				continue
			}
			c := cconf{ss: []vspec{a, b}, seed: 11, limit: 6, mode: pb.SubscriptionList_STREAM}
			ref := c
			out = append(out, vh.Scenario{Name: fmt.Sprintf("two clients on one configuration: %s", strings.ReplaceAll(text(c.ss), "\n", "; ")), MaxBound: 2, Declared: 1, Race: true, RaceBound: 1,
				Opt: vrt.Options{Delay: true},
				Body: func(x *vh.X) {
					cfg := ref.config()
					s := runClient(x, "client1", fgnmi.NewClient(cfg), ref)
					t := runClient(x, "client2", fgnmi.NewClient(cfg), ref)
					vrt.Quiesce()
					if vrt.RaceEnabled {
						return
					}
					ref.judge(x, s)
					if !same(s.sent, t.sent) {
						x.Fail("seed", "two clients are sent %v and %v", s.sent, t.sent)
					}
				}})
		}
	}
	return out
}

func fixed(q *vh.Q) {
	up := func(ts int64, p string) *pb.SubscribeResponse {
		return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: &pb.Notification{Timestamp: ts, Update: []*pb.Update{{Path: &pb.Path{Element: []string{p}}, Val: &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: ts}}}}}}}
	}
	al := []func() *pb.SubscribeResponse{
		func() *pb.SubscribeResponse { return up(1, "a") },
		func() *pb.SubscribeResponse { return up(2, "b") },
		func() *pb.SubscribeResponse { return up(2, "a") },
		func() *pb.SubscribeResponse {
			return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: &pb.Notification{Timestamp: 3, Delete: []*pb.Path{{Element: []string{"a"}}}, Prefix: &pb.Path{Target: "other", Origin: "o"}}}}
		},
		func() *pb.SubscribeResponse {
			return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}
		},
	}
	var rec func(cur []int) bool
	one := func(ix []int, bits int) bool {
		c := cconf{nosync: bits&1 > 0, delay: bits&2 > 0, noEOF: bits&4 > 0, mode: pb.SubscriptionList_STREAM, limit: 50, target: []string{"", "t"}[bits>>3&1]}
		if bits&16 > 0 {
			c.mode, c.polls, c.noEOF = pb.SubscriptionList_POLL, 1, false
		}
		return q.Do(func() string { return fmt.Sprintf("fixed responses %v, %v", ix, c) }, func() error {
			return q.Exec(func(x *vh.X) {
				cfg := &fpb.Config{Target: "dev", DisableSync: c.nosync, DisableEof: c.noEOF, EnableDelay: c.delay}
				fx := &fpb.FixedGenerator{Responses: make([]*pb.SubscribeResponse, 0, 4)}
				var want []*pb.SubscribeResponse
				for _, i := range ix {
					fx.Responses = append(fx.Responses, al[i]())
					w := al[i]()
					if u := w.GetUpdate(); u != nil && c.target != "" {
						if u.Prefix == nil {
							u.Prefix = &pb.Path{}
						}
						u.Prefix.Target = c.target
					}
					want = append(want, w)
				}
				if !c.nosync {
					want = append(want, al[4]())
				}
				cfg.Generator = &fpb.Config_Fixed{Fixed: fx}
				for n := 0; n < 2; n++ {
					s := runClient(x, fmt.Sprint("fixedclient", n), fgnmi.NewClient(cfg), cconf{mode: c.mode, target: c.target, limit: 50})
					vrt.Quiesce()
					vrt.Sleep(1 << 40)
					if !same(s.sent, want) {
						x.Fail("fixed", "client %d is sent %v, want %v", n+1, s.sent, want)
					}
				}
			})
		})
	}
	rec = func(cur []int) bool {
		for bits := 0; bits < 32; bits++ {
			if q.Expired() || !one(slices.Clone(cur), bits) {
				return false
			}
		}
		if len(cur) == 3 {
			return true
		}
		for i := range al {
			if !rec(append(cur, i)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

func main() {
	vh.Main(vh.Check{
		Property: "C20", QuickSec: 60, ThoroughSec: 500,
		Rule: "All configurations over the stated alphabets of kinds, ranges, lists, timestamps, deltas, repeats and seeds are enumerated; the outcome of every random draw is explored as a choice (all outcomes of small draws, the ends, middle and a neighbour of large ones); each emission is judged against the configuration.",
		Assumptions: []string{
			"valid configurations: ordered finite ranges holding the initial value, non-empty option lists, non-negative repeats and timestamps",
			"the first emission of a value carries the configured value itself, as the existing tests require",
			"configured paths are distinct",
		},
		Scenarios: func(tier string) []vh.Scenario {
			th := tier == "thorough"
			if !th {
				wide64 = wide64[:5]
			}
			out := singleScenarios(th)
			out = append(out, orderScenarios(th)...)
			out = append(out, seedScenarios(th)...)
			return append(out, clientScenarios(th)...)
		},
	})
}
