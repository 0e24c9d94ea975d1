// Package vc drives the real cache with sequences of operations and judges
// every step against a reference model of the cache and of its change feed.
package vc

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/errlist"
	"github.com/openconfig/gnmi/latency"
	"github.com/openconfig/gnmi/metadata"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vm"
)

// Sec is one second of timestamps.
const Sec = int64(time.Second)

// Base is the wall clock origin.
const Base = 100 * Sec

// Cfg configures a world.
type Cfg struct {
	Targets   []string
	Threshold time.Duration
	NoEvent   bool // event-driven emulation disabled
	Check     string
	Windows   []string
	Excluded  []string
	Server    string
	Precision time.Duration
	NoTick    bool // every call of the clock within an operation returns the same time
}

// Leaf is a stored leaf of the model.
type Leaf struct {
	N *pb.Notification
}

// Tgt is the model of one target.
type Tgt struct {
	Leaves map[string]*Leaf
	Latest int64
	Has    bool // Latest is meaningful
}

// World is an implementation instance with its model.
type World struct {
	Cfg    Cfg
	C      *cache.Cache
	Clock  int64
	tick   int64
	M      map[string]*Tgt
	Seg    []*pb.Notification // feed entries of the current operation
	Replay vm.Tree
	mute   bool
	Lazy   bool // do not compare everything after the next operations
	cnt    map[string]map[string]int64 // counters at the end of the last operation
	Pre    map[string]*pb.Path         // shared prefixes
}

var counters = []string{metadata.LeafCount, metadata.AddCount, metadata.DelCount, metadata.EmptyCount, metadata.UpdateCount,
	metadata.StaleCount, metadata.FutureCount, metadata.SuppressedCount}

// New builds a fresh world.
func New(cfg Cfg) *World {
	w := &World{Cfg: cfg, Clock: Base, M: map[string]*Tgt{}, Replay: vm.Tree{}, Pre: map[string]*pb.Path{}}
	now := func() time.Time {
		if !cfg.NoTick {
			w.tick++
		}
		return time.Unix(0, w.Clock+w.tick)
	}
	cache.Now = now
	latency.Now = now
	opts := []cache.Option{cache.WithFutureThreshold(cfg.Threshold)}
	if cfg.NoEvent {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	if len(cfg.Windows) > 0 {
		o, err := cache.WithLatencyWindows(cfg.Windows, time.Second)
		if err != nil {
			panic(err)
		}
		opts = append(opts, o)
	}
	if len(cfg.Excluded) > 0 {
		opts = append(opts, cache.WithExcludedMeta(cfg.Excluded))
	}
	if cfg.Precision != 0 {
		opts = append(opts, cache.WithAvgLatencyPrecision(cfg.Precision))
	}
	if cfg.Server != "" {
		opts = append(opts, cache.WithServerName(cfg.Server))
	}
	w.C = cache.New(cfg.Targets, opts...)
	for _, t := range cfg.Targets {
		w.M[t] = &Tgt{Leaves: map[string]*Leaf{}}
	}
	w.C.SetClient(w.feed)
	w.cnt = w.counters()
	return w
}

func (w *World) feed(l *ctree.Leaf) {
	n, ok := l.Value().(*pb.Notification)
	if !ok {
		panic(fmt.Sprintf("feed entry of type %T", l.Value()))
	}
	if w.mute && w.Cfg.Check != "C03" {
		return
	}
	w.Seg = append(w.Seg, proto.Clone(n).(*pb.Notification))
}

func (w *World) counters() map[string]map[string]int64 {
	out := map[string]map[string]int64{}
	for t, m := range w.C.Metadata() {
		c := map[string]int64{}
		for _, k := range counters {
			c[k], _ = m.GetInt(k)
		}
		out[t] = c
	}
	return out
}

// Strs is the index form of a path.
func Strs(p *pb.Path) []string {
	var out []string
	if len(p.GetElem()) == 0 {
		return append(out, p.GetElement()...)
	}
	for _, e := range p.GetElem() {
		out = append(out, e.GetName())
		var ks []string
		for k := range e.GetKey() {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, e.GetKey()[k])
		}
	}
	return out
}

// Index is the index path of a prefix and path below the target.
func Index(pre, p *pb.Path) []string {
	var out []string
	if o := pre.GetOrigin(); o != "" {
		out = append(out, o)
	}
	return append(append(out, Strs(pre)...), Strs(p)...)
}

// P builds a path of plain elements; "name[k=v]" gives a keyed element.
func P(elems ...string) *pb.Path {
	p := &pb.Path{}
	for _, e := range elems {
		pe := &pb.PathElem{}
		if i := strings.IndexByte(e, '['); i > 0 {
			pe.Name, pe.Key = e[:i], map[string]string{}
			for _, kv := range strings.Split(strings.Trim(e[i:], "[]"), "][") {
				a, b, _ := strings.Cut(kv, "=")
				pe.Key[a] = b
			}
		} else {
			pe.Name = e
		}
		p.Elem = append(p.Elem, pe)
	}
	return p
}

// E builds a path in the deprecated encoding.
func E(elems ...string) *pb.Path { return &pb.Path{Element: elems} }

// Prefix builds a prefix whose element slices have spare capacity, as a
// decoder or a caller that grew them would leave them.
func Prefix(target, origin string, p *pb.Path) *pb.Path {
	n := &pb.Path{Target: target, Origin: origin}
	if p != nil {
		if len(p.Elem) > 0 {
			n.Elem = append(make([]*pb.PathElem, 0, len(p.Elem)+4), p.Elem...)
		}
		if len(p.Element) > 0 {
			n.Element = append(make([]string, 0, len(p.Element)+4), p.Element...)
		}
	}
	return n
}

// S, I, B, ... build values.
func S(s string) *pb.TypedValue { return &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: s}} }
func I(i int64) *pb.TypedValue  { return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: i}} }
func B(b bool) *pb.TypedValue   { return &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: b}} }
func J(s string) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_JsonVal{JsonVal: []byte(s)}}
}
func D(f float64) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: f}}
}
func L(vs ...*pb.TypedValue) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: vs}}}
}

// Msg is a short rendering.
func Msg(m proto.Message) string {
	return strings.Join(strings.Fields(prototext.MarshalOptions{}.Format(m)), " ")
}

// Op is an operation on a world.
type Op struct {
	Name string
	Kind string // part of the state key
	Do   func(w *World) error
}

func isMeta(ix []string) bool { return len(ix) > 0 && ix[0] == metadata.Root }

func single(n *pb.Notification, u *pb.Update) *pb.Notification {
	c := proto.Clone(n).(*pb.Notification)
	c.Update, c.Delete = nil, nil
	if u != nil {
		c.Update = []*pb.Update{proto.Clone(u).(*pb.Update)}
	}
	return c
}

func sameUpdates(a, b *pb.Notification) bool {
	if len(a.GetUpdate()) != len(b.GetUpdate()) || a.GetAtomic() != b.GetAtomic() {
		return false
	}
	for i := range a.Update {
		if vm.K(Index(a.Prefix, a.Update[i].Path)) != vm.K(Index(b.Prefix, b.Update[i].Path)) || !proto.Equal(a.Update[i].Val, b.Update[i].Val) || !proto.Equal(a.Update[i].Value, b.Update[i].Value) {
			return false
		}
	}
	return true
}

// content renders what a feed consumer keeps for an update notification.
func content(n *pb.Notification) string {
	var b strings.Builder
	if n.GetAtomic() {
		b.WriteString("atomic ")
	}
	for _, u := range n.GetUpdate() {
		fmt.Fprintf(&b, "%q=%s ", Index(n.GetPrefix(), u.GetPath()), valText(u))
	}
	return b.String()
}

func valText(u *pb.Update) string {
	if u.GetVal() == nil {
		return fmt.Sprintf("none %v %q", u.GetValue().GetType(), u.GetValue().GetValue())
	}
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(u.GetVal())
	return fmt.Sprintf("%x", b)
}

func (w *World) is(p string) bool { return !w.mute && w.Cfg.Check == p }

// begin starts an operation.
func (w *World) begin() {
	if !w.mute {
		w.Seg = nil
	}
}

// Mute starts or ends a stretch of operations that were judged before: they are
// only carried out, on the implementation and on the model.
func (w *World) Mute(on bool) {
	w.mute = on
	if !on {
		w.replayFeed()
		w.Seg = nil
		for _, name := range keysOf(w.M) {
			if got, err := w.Query(name); err == nil {
				w.adopt(w.M[name], got)
			}
		}
		w.cnt = w.counters()
	}
}

// adopt takes over the metadata leaves, which are maintained by the cache.
func (w *World) adopt(t *Tgt, got map[string]*pb.Notification) {
	for k := range t.Leaves {
		if isMeta(vm.P(k)) {
			delete(t.Leaves, k)
		}
	}
	for k, n := range got {
		if isMeta(vm.P(k)) {
			t.Leaves[k] = &Leaf{N: proto.Clone(n).(*pb.Notification)}
		}
	}
}

type unit struct {
	n       *pb.Notification
	key     []string
	res     string // added, replaced, stale, future, conflict
	opt     bool   // may be withheld from the feed
	meta    bool
	leavesN int
}

// judge predicts what happens to one update unit and applies it to the model.
func (w *World) judge(t *Tgt, u *unit) {
	k := vm.K(u.key)
	old := t.Leaves[k]
	if old == nil {
		for o := range t.Leaves {
			if strings.HasPrefix(o, k) || strings.HasPrefix(k, o) {
				u.res = "conflict"
				return
			}
		}
		u.res = "added"
		t.Leaves[k] = &Leaf{N: u.n}
		return
	}
	ts, ots := u.n.GetTimestamp(), old.N.GetTimestamp()
	th := int64(w.Cfg.Threshold)
	switch {
	case ts < ots:
		u.res = "stale"
		return
	case ts == ots && proto.Equal(u.n, old.N):
		u.res = "stale"
		return
	case ts > ots && th > 0 && ts-(w.Clock+w.tick) > th && (t.Has && t.Latest > 0 && ts-t.Latest > th):
		u.res = "future"
		return
	}
	u.res = "replaced"
	u.opt = !w.Cfg.NoEvent && sameUpdates(u.n, old.N) && !u.n.GetAtomic()
	t.Leaves[k] = &Leaf{N: u.n}
}

// Shared returns a prefix object that all notifications of the world share.
func (w *World) Shared(key string, mk func() *pb.Path) *pb.Path {
	if w.Pre[key] == nil {
		w.Pre[key] = mk()
	}
	return w.Pre[key]
}

// Apply submits n and judges everything the checks promise about it. mk builds
// the notification; it is kept by the cache.
func (w *World) Apply(n *pb.Notification) error {
	before := proto.Clone(n).(*pb.Notification)
	name := n.GetPrefix().GetTarget()
	t := w.M[name]
	w.begin()
	err := w.C.GnmiUpdate(n)
	if w.is("C03") && !proto.Equal(before, n) {
		return vh.Errf("input-modified", "the caller's notification was modified\n before %s\n after  %s", Msg(before), Msg(n))
	}
	if t == nil {
		if err == nil && w.is("C14") {
			return vh.Errf("unknown-target", "update for unknown target %q was accepted", name)
		}
		return w.settle("update of an unknown target", nil)
	}
	// Predict.
	var us []*unit
	var deleted []string
	bad, atomicDelete := 0, before.GetAtomic() && len(before.GetDelete()) > 0
	switch {
	case atomicDelete:
		bad = 1
	case before.GetAtomic():
		if len(before.GetUpdate()) > 0 {
			us = append(us, &unit{n: before, key: Index(before.GetPrefix(), nil), leavesN: len(before.GetUpdate())})
		}
	default:
		for _, u := range before.GetUpdate() {
			us = append(us, &unit{n: single(before, u), key: Index(before.GetPrefix(), u.GetPath()), leavesN: 1})
		}
	}
	var acc []*unit
	var stale, future, conflict int
	for _, u := range us {
		u.meta = isMeta(u.key)
		w.judge(t, u)
		switch u.res {
		case "stale":
			stale++
			bad++
		case "future":
			future++
			bad++
		case "conflict":
			conflict++
			bad++
		default:
			acc = append(acc, u)
			if ts := u.n.GetTimestamp(); !u.meta && (!t.Has || ts > t.Latest) {
				t.Has, t.Latest = true, ts
			}
		}
	}
	delta := 0
	if !atomicDelete {
		for _, d := range before.GetDelete() {
			pat := Index(before.GetPrefix(), d)
			for k, l := range t.Leaves {
				if vm.Match(pat, vm.P(k)) && l.N.GetTimestamp() < before.GetTimestamp() {
					deleted = append(deleted, k)
					if !isMeta(vm.P(k)) {
						delta++
					}
					delete(t.Leaves, k)
				}
			}
		}
	}
	// Return value.
	if (w.is("C02") || w.is("C03")) && (err != nil) != (bad > 0) {
		return vh.Errf("verdict", "%s returned %v; expected %d rejected of %d updates (%d stale, %d future, %d conflicting)", Msg(before), err, bad, len(us), stale, future, conflict)
	}
	if w.is("C02") && len(us)+len(before.GetDelete()) == 1 && !atomicDelete {
		if (stale > 0) != errors.Is(err, cache.ErrStale) || (future > 0) != errors.Is(err, cache.ErrFuture) {
			return vh.Errf("verdict", "%s returned %v; expected stale %d future %d", Msg(before), err, stale, future)
		}
	}
	if w.is("C02") && len(us)+len(before.GetDelete()) > 1 && bad > 0 {
		var el errlist.Error
		if errors.As(err, &el) && len(el.Errors()) != bad {
			return vh.Errf("verdict", "%s returned %v; expected %d errors", Msg(before), err, bad)
		}
	}
	if w.is("C03") {
		// Accepted updates must be fed; rejected ones must not.
		fed := map[string]int{}
		key := func(n *pb.Notification) string { return fmt.Sprint(n.GetTimestamp(), content(n)) }
		for _, s := range w.Seg {
			if len(s.GetUpdate()) > 0 {
				fed[key(s)]++
			}
		}
		for _, u := range us {
			found := fed[key(u.n)]
			switch u.res {
			case "added", "replaced":
				if found == 0 && !u.opt {
					return vh.Errf("withheld", "%s: accepted update %s was not handed to the feed\nfeed: %v", Msg(before), Msg(u.n), w.segText())
				}
			default:
				if found > 0 && conflict == bad {
					return vh.Errf("fed-rejected", "%s: rejected update %s was handed to the feed", Msg(before), Msg(u.n))
				}
			}
		}
	}
	if w.is("C15") {
		if e := w.judgeCounters(name, before, us, acc, stale, future, conflict, delta, len(before.GetDelete()), atomicDelete); e != nil {
			return e
		}
	}
	return w.settle(Msg(before), []string{name})
}

func (w *World) segText() string {
	var b strings.Builder
	for _, s := range w.Seg {
		b.WriteString("\n  " + Msg(s))
	}
	return b.String()
}

func (w *World) judgeCounters(name string, n *pb.Notification, us, acc []*unit, stale, future, conflict, delta, dels int, refused bool) error {
	now, prev := w.counters()[name], w.cnt[name]
	d := func(k string) int64 { return now[k] - prev[k] }
	hasMetaDelete := false
	for _, p := range n.GetDelete() {
		if ix := Index(n.GetPrefix(), p); isMeta(ix) {
			hasMetaDelete = true
		}
	}
	if hasMetaDelete {
		return nil // deleting a metadata leaf resets that metadata
	}
	added := int64(0)
	for _, u := range acc {
		if u.res == "added" && !u.meta {
			added++
		}
	}
	var lo, hi, sup, supMax int64 // bounds on UpdateCount
	for _, u := range acc {
		if u.opt {
			supMax++
			continue
		}
		lo++
		hi += int64(u.leavesN)
	}
	sup = d(metadata.SuppressedCount)
	if sup > supMax || sup < 0 {
		return vh.Errf("suppressed-count", "%s: suppressed count changed by %d, at most %d updates left their value unchanged", Msg(n), sup, supMax)
	}
	lo += supMax - sup
	hi += supMax - sup
	if !refused {
		hi += int64(dels)
	}
	if c := d(metadata.UpdateCount); c < lo || c > hi {
		return vh.Errf("update-count", "%s: update count changed by %d, want %d..%d", Msg(n), c, lo, hi)
	}
	var smax, smin, fmax, fmin int64
	for _, u := range us {
		switch u.res {
		case "stale":
			smin++
			smax += int64(u.leavesN)
		case "future":
			fmin++
			fmax += int64(u.leavesN)
		}
	}
	if c := d(metadata.StaleCount); c < smin || c > smax {
		return vh.Errf("stale-count", "%s: stale count changed by %d, want %d..%d", Msg(n), c, smin, smax)
	}
	if c := d(metadata.FutureCount); c < fmin || c > fmax {
		return vh.Errf("future-count", "%s: future count changed by %d, want %d..%d", Msg(n), c, fmin, fmax)
	}
	empty := int64(0)
	if !refused && len(n.GetUpdate())+len(n.GetDelete()) == 0 {
		empty = 1
	}
	if c := d(metadata.EmptyCount); c != empty {
		return vh.Errf("empty-count", "%s: empty count changed by %d, want %d", Msg(n), c, empty)
	}
	if c := d(metadata.AddCount); c != added {
		return vh.Errf("add-count", "%s: added count changed by %d, want %d", Msg(n), c, added)
	}
	if c := d(metadata.DelCount); c != int64(delta) {
		return vh.Errf("del-count", "%s: deleted count changed by %d, want %d", Msg(n), c, delta)
	}
	return nil
}

// Query returns the real content of a target.
func (w *World) Query(target string) (map[string]*pb.Notification, error) {
	out := map[string]*pb.Notification{}
	err := w.C.Query(target, []string{"*"}, func(p []string, _ *ctree.Leaf, v any) error {
		n, ok := v.(*pb.Notification)
		if !ok {
			return fmt.Errorf("value of type %T at %q", v, p)
		}
		if out[vm.K(p)] != nil {
			return fmt.Errorf("path %q reported twice", p)
		}
		out[vm.K(p)] = n
		return nil
	})
	return out, err
}

func keysOf[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// replayFeed applies the feed entries to the replayed view.
func (w *World) replayFeed() {
	if w.Cfg.Check != "C03" {
		return
	}
	for _, n := range w.Seg {
		pre := append([]string{n.GetPrefix().GetTarget()}, Index(n.GetPrefix(), nil)...)
		if n.GetAtomic() && len(n.GetUpdate()) > 0 {
			w.Replay.Delete(pre, nil)
			w.Replay[vm.K(pre)] = content(n)
		} else {
			for _, u := range n.GetUpdate() {
				one := single(n, u)
				w.Replay[vm.K(append(append([]string(nil), pre...), Strs(u.GetPath())...))] = content(one)
			}
		}
		for _, d := range n.GetDelete() {
			w.Replay.Delete(append(append([]string(nil), pre...), Strs(d)...), nil)
		}
	}
}

// settle compares everything at the quiescent point after an operation on the
// given targets.
func (w *World) settle(what string, touched []string) error {
	if w.mute {
		return nil
	}
	seg := w.Seg
	w.replayFeed()
	w.Seg = nil
	if w.Lazy {
		w.cnt = w.counters()
		return nil
	}
	isTouched := func(n string) bool {
		for _, t := range touched {
			if t == n {
				return true
			}
		}
		return false
	}
	if w.is("C14") {
		for _, s := range seg {
			if !isTouched(s.GetPrefix().GetTarget()) {
				return vh.Errf("isolation-feed", "%s: feed entry for another target: %s", what, Msg(s))
			}
		}
	}
	view := vm.Tree{}
	for _, name := range keysOf(w.M) {
		t := w.M[name]
		got, err := w.Query(name)
		if err != nil {
			return vh.Errf("query", "%s: query of %q: %v", what, name, err)
		}
		if w.is("C03") {
			for k, n := range got {
				view[vm.K(append([]string{name}, vm.P(k)...))] = content(n)
			}
		}
		if w.is("C02") || w.is("C03") || w.is("C14") {
			var meta int
			for _, k := range keysOf(got) {
				if isMeta(vm.P(k)) {
					meta++
					continue
				}
				l := t.Leaves[k]
				if l == nil {
					return vh.Errf("extra-leaf", "%s: target %q stores %q, which should not be there: %s", what, name, vm.P(k), Msg(got[k]))
				}
				if !proto.Equal(got[k], l.N) {
					return vh.Errf("wrong-leaf", "%s: target %q leaf %q holds\n  %s\nwant\n  %s", what, name, vm.P(k), Msg(got[k]), Msg(l.N))
				}
			}
			for k, l := range t.Leaves {
				if got[k] == nil && !isMeta(vm.P(k)) {
					return vh.Errf("missing-leaf", "%s: target %q lacks leaf %q = %s", what, name, vm.P(k), Msg(l.N))
				}
			}
		}
		if w.is("C15") {
			nonmeta := int64(0)
			for k := range got {
				if !isMeta(vm.P(k)) {
					nonmeta++
				}
			}
			c := w.counters()[name]
			if c[metadata.LeafCount] != nonmeta {
				return vh.Errf("leaf-count", "%s: leaf count of %q is %d, %d non-metadata leaves are stored", what, name, c[metadata.LeafCount], nonmeta)
			}
			if c[metadata.LeafCount] != c[metadata.AddCount]-c[metadata.DelCount] {
				return vh.Errf("leaf-balance", "%s: leaf count of %q is %d, added %d, deleted %d", what, name, c[metadata.LeafCount], c[metadata.AddCount], c[metadata.DelCount])
			}
		}
		w.adopt(t, got)
	}
	if w.is("C03") {
		if a, b := view.String(), w.Replay.String(); a != b {
			return vh.Errf("feed-differs", "%s: the replayed feed differs from the cache\ncache:  %s\nreplay: %s\nfeed of this operation:%s", what, view, w.Replay, segText(seg))
		}
	}
	if w.is("C14") {
		now := w.counters()
		for name, c := range now {
			if isTouched(name) {
				continue
			}
			for _, k := range counters {
				if p := w.cnt[name]; p != nil && p[k] != c[k] {
					return vh.Errf("isolation-meta", "%s: %s of %q changed from %d to %d", what, k, name, p[k], c[k])
				}
			}
		}
	}
	w.cnt = w.counters()
	return nil
}

func segText(seg []*pb.Notification) string {
	var b strings.Builder
	for _, s := range seg {
		b.WriteString("\n  " + Msg(s))
	}
	return b.String()
}

// Reset resets a target and judges the result.
func (w *World) Reset(name string) error {
	w.begin()
	t := w.M[name]
	before := vm.Tree{}
	if t != nil {
		for k := range t.Leaves {
			before[k] = true
		}
	}
	w.C.Reset(name)
	if t == nil {
		return w.settle("reset of unknown "+name, []string{name})
	}
	if w.is("C14") {
		left := before.Clone()
		for _, n := range w.Seg {
			for _, d := range n.GetDelete() {
				left.Delete(Index(n.GetPrefix(), d), nil)
			}
		}
		for k := range left {
			if !isMeta(vm.P(k)) {
				return vh.Errf("reset-unannounced", "reset of %q: no delete in the feed covers leaf %q\nfeed:%s", name, vm.P(k), w.segText())
			}
		}
		md := w.C.Metadata()[name]
		for _, k := range []string{metadata.Sync, metadata.Connected} {
			if v, err := md.GetBool(k); err != nil || v {
				return vh.Errf("reset-meta", "reset of %q: %s is %v (%v)", name, k, v, err)
			}
		}
		for _, k := range counters {
			if v, err := md.GetInt(k); err != nil || v != 0 {
				return vh.Errf("reset-meta", "reset of %q: %s is %d (%v)", name, k, v, err)
			}
		}
		if v, err := md.GetInt(metadata.Size); err != nil || v != 0 {
			return vh.Errf("reset-meta", "reset of %q: %s is %d (%v)", name, metadata.Size, v, err)
		}
		if v, err := md.GetInt(metadata.LatestTimestamp); err != nil || (v != 0 && v != noTime) {
			return vh.Errf("reset-meta", "reset of %q: %s is %d (%v)", name, metadata.LatestTimestamp, v, err)
		}
		if e := w.metaLeaves(name); e != nil {
			return e
		}
	}
	for k := range t.Leaves {
		if !isMeta(vm.P(k)) {
			delete(t.Leaves, k)
		}
	}
	t.Has, t.Latest = false, 0
	return w.settle("reset of "+name, []string{name})
}

// noTime is how the latest timestamp of a target without updates is exported.
var noTime = time.Time{}.UnixNano()

// metaLeaves checks that the metadata leaves that exist show initial values.
func (w *World) metaLeaves(name string) error {
	got, err := w.Query(name)
	if err != nil {
		return vh.Errf("query", "%v", err)
	}
	for _, m := range []string{metadata.Sync, metadata.Connected} {
		if n := got[vm.K(metadata.Path(m))]; n != nil && n.GetUpdate()[0].GetVal().GetBoolVal() {
			return vh.Errf("reset-meta-leaf", "after a reset of %q the %s leaf is true", name, m)
		}
	}
	for _, m := range counters {
		if n := got[vm.K(metadata.Path(m))]; n != nil && n.GetUpdate()[0].GetVal().GetIntVal() != 0 {
			return vh.Errf("reset-meta-leaf", "after a reset of %q the %s leaf is %v", name, m, n.GetUpdate()[0].GetVal())
		}
	}
	if n := got[vm.K(metadata.Path(metadata.LatestTimestamp))]; n != nil {
		if v := n.GetUpdate()[0].GetVal().GetIntVal(); v != 0 && v != noTime {
			return vh.Errf("reset-meta-leaf", "after a reset of %q the %s leaf is %v", name, metadata.LatestTimestamp, v)
		}
	}
	return nil
}

// Remove removes a target and judges the result.
func (w *World) Remove(name string) error {
	w.begin()
	known := w.M[name] != nil
	w.C.Remove(name)
	if w.is("C14") {
		if w.C.HasTarget(name) || w.C.GetTarget(name) != nil || w.C.Metadata()[name] != nil {
			return vh.Errf("still-known", "target %q is known after Remove", name)
		}
		if err := w.C.Query(name, []string{"*"}, func([]string, *ctree.Leaf, any) error { return nil }); err == nil {
			return vh.Errf("still-known", "query of removed target %q succeeds", name)
		}
		if err := w.C.Query("*", []string{"*"}, func(_ []string, _ *ctree.Leaf, v any) error {
			if v.(*pb.Notification).GetPrefix().GetTarget() == name {
				return errors.New("leaf of removed target")
			}
			return nil
		}); err != nil {
			return vh.Errf("still-known", "all-targets query after removing %q: %v", name, err)
		}
		if known {
			ok := false
			for _, n := range w.Seg {
				if n.GetPrefix().GetTarget() == name {
					for _, d := range n.GetDelete() {
						if ix := Index(n.GetPrefix(), d); len(ix) == 0 || (len(ix) == 1 && ix[0] == "*") {
							ok = true
						}
					}
				}
			}
			if !ok {
				return vh.Errf("remove-unannounced", "removing %q announced no whole-target delete\nfeed:%s", name, w.segText())
			}
		}
	}
	delete(w.M, name)
	return w.settle("remove of "+name, []string{name})
}

// Add adds a target that is not known.
func (w *World) Add(name string) error {
	if w.M[name] != nil {
		return nil
	}
	w.begin()
	w.C.Add(name)
	w.M[name] = &Tgt{Leaves: map[string]*Leaf{}}
	if w.is("C14") {
		if !w.C.HasTarget(name) {
			return vh.Errf("not-known", "target %q is unknown after Add", name)
		}
		w.cnt = w.counters()
	}
	return w.settle("add of "+name, []string{name})
}

// Life runs a lifecycle event of a target.
func (w *World) Life(name, ev string) error {
	w.begin()
	prev := w.cnt[name]
	switch ev {
	case "sync":
		w.C.Sync(name)
	case "connect":
		w.C.Connect(name)
	case "error":
		w.C.ConnectError(name, errors.New("dial failed"))
	case "refresh":
		w.C.UpdateMetadata()
	case "size":
		w.C.UpdateSize()
	}
	touched := []string{name}
	if ev == "refresh" || ev == "size" {
		touched = keysOf(w.M)
	}
	if w.is("C15") && w.M[name] != nil {
		now := w.counters()[name]
		for _, k := range []string{metadata.AddCount, metadata.DelCount, metadata.EmptyCount, metadata.FutureCount} {
			if now[k] != prev[k] {
				return vh.Errf("life-count", "%s of %q changed %s from %d to %d", ev, name, k, prev[k], now[k])
			}
		}
		if ev == "refresh" || ev == "size" {
			for _, k := range []string{metadata.UpdateCount, metadata.SuppressedCount, metadata.StaleCount} {
				if now[k] != prev[k] {
					return vh.Errf("life-count", "%s changed %s of %q from %d to %d", ev, k, name, prev[k], now[k])
				}
			}
		}
		if ev == "refresh" {
			if e := w.exported(name); e != nil {
				return e
			}
		}
	}
	if w.is("C14") && w.M[name] != nil {
		md := w.C.Metadata()[name]
		if v, _ := md.GetBool(metadata.Sync); ev == "sync" && !v {
			return vh.Errf("life", "sync of %q is not recorded", name)
		}
		if v, _ := md.GetBool(metadata.Connected); ev == "connect" && !v {
			return vh.Errf("life", "connect of %q is not recorded", name)
		}
	}
	return w.settle(ev+" of "+name, touched)
}

// exported compares the metadata leaves and the latest timestamp after a refresh.
func (w *World) exported(name string) error {
	t := w.M[name]
	md := w.C.Metadata()[name]
	ts, err := md.GetInt(metadata.LatestTimestamp)
	if t.Has && (err != nil || ts != t.Latest) {
		return vh.Errf("latest-timestamp", "latest timestamp of %q is %d (%v), greatest accepted is %d", name, ts, err, t.Latest)
	}
	got, qerr := w.Query(name)
	if qerr != nil {
		return vh.Errf("query", "%v", qerr)
	}
	excl := map[string]bool{}
	for _, e := range w.Cfg.Excluded {
		excl[e] = true
	}
	for _, k := range append(append([]string(nil), counters...), metadata.LatestTimestamp) {
		v, err := md.GetInt(k)
		n := got[vm.K(metadata.Path(k))]
		if excl[k] {
			continue
		}
		if err == nil && n == nil {
			return vh.Errf("export-missing", "no metadata leaf %s for %q after a refresh", k, name)
		}
		if n != nil && n.GetUpdate()[0].GetVal().GetIntVal() != v {
			return vh.Errf("export-value", "metadata leaf %s of %q is %v, the counter is %d", k, name, n.GetUpdate()[0].GetVal(), v)
		}
	}
	return nil
}

// Key renders the state that determines future behaviour.
func (w *World) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d ", (w.Clock-Base)/Sec)
	for _, name := range keysOf(w.M) {
		t := w.M[name]
		fmt.Fprintf(&b, "|%s %v %d:", name, t.Has, t.Latest)
		for _, k := range keysOf(t.Leaves) {
			l := t.Leaves[k].N
			ts := l.GetTimestamp()
			if isMeta(vm.P(k)) {
				p := vm.P(k)
				fmt.Fprintf(&b, "%q", p[1])
				if _, ok := metadata.TargetIntValues[p[1]]; !ok || len(p) > 2 {
					fmt.Fprintf(&b, "=%s", content(l))
				}
				continue
			}
			fmt.Fprintf(&b, "%q@%d/%s%s;", vm.P(k), ts, content(l), Msg(l.GetPrefix()))
			for _, u := range l.GetUpdate() {
				fmt.Fprintf(&b, "%d", len(u.GetPath().GetElem()))
			}
		}
		if md := w.C.Metadata()[name]; md != nil {
			s, _ := md.GetBool(metadata.Sync)
			c, _ := md.GetBool(metadata.Connected)
			fmt.Fprintf(&b, " %v %v", s, c)
		}
	}
	return b.String()
}

// BFS explores every sequence of ops up to maxDepth from the initial world,
// merging equal states (remembering the kind of the last operation).
func BFS(q *vh.Q, cfg Cfg, ops []Op, maxDepth int) {
	type node struct {
		seq []uint8
	}
	front := []node{{}}
	{
		w := New(cfg)
		q.State(w.Key())
	}
	fix := false
	depth := 0
	for depth = 1; depth <= maxDepth; depth++ {
		var next []node
		for _, nd := range front {
			for i := range ops {
				if q.Expired() {
					q.Note("depth_reached", int64(depth-1))
					return
				}
				i := i
				var w *World
				var k string
				if !q.Do(func() string {
					var b strings.Builder
					for _, s := range nd.seq {
						b.WriteString(ops[s].Name + "\n")
					}
					b.WriteString(ops[i].Name)
					return b.String()
				}, func() error {
					w = New(cfg)
					// The history up to here was judged when it was reached.
					w.Mute(true)
					for _, s := range nd.seq {
						if err := ops[s].Do(w); err != nil {
							return err
						}
					}
					w.Mute(false)
					if err := ops[i].Do(w); err != nil {
						return err
					}
					k = w.Key()
					if cfg.Check == "C15" {
						for _, t := range keysOf(w.M) {
							if err := w.Life(t, "refresh"); err != nil {
								return err
							}
						}
					}
					return nil
				}) {
					w = nil
				}
				q.Trans(1)
				if w == nil {
					continue
				}
				q.Outcome(k)
				if q.State(k + "#" + ops[i].Kind) {
					next = append(next, node{append(append([]uint8(nil), nd.seq...), uint8(i))})
				}
			}
		}
		front = next
		if len(front) == 0 {
			fix = true
			break
		}
	}
	if fix {
		q.Note("fixpoints", 1)
		q.Sample("%d operations, all histories (fixpoint at depth %d): %s; %s; ...", len(ops), depth, ops[0].Name, ops[len(ops)-1].Name)
	} else {
		q.Sample("%d operations, all histories to depth %d", len(ops), maxDepth)
	}
}

// Content renders what a feed consumer keeps for an update notification.
func Content(n *pb.Notification) string { return content(n) }

// Single is n with the one update u and no deletes.
func Single(n *pb.Notification, u *pb.Update) *pb.Notification { return single(n, u) }
