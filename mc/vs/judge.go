package vs

import (
	"fmt"
	"sort"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vm"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// Ver is one version of a leaf: its value from some point of the operation Op
// on, or its absence.
type Ver struct {
	Val    string
	Absent bool
	Op     *Op
	Fed    int // index into the feed
}

func (w *World) opOf(f *Fed) *Op {
	var r *Op
	for _, o := range w.Ops {
		if o.Call < f.At && (!o.Done || o.Ret > f.At) && o.thread == f.thread {
			r = o
		}
	}
	return r
}

// DeletePats are the patterns (with target) a notification deletes.
func DeletePats(n *pb.Notification) [][]string {
	var out [][]string
	pre := append([]string{n.GetPrefix().GetTarget()}, vc.Index(n.GetPrefix(), nil)...)
	for _, d := range n.GetDelete() {
		out = append(out, append(append([]string(nil), pre...), vc.Strs(d)...))
	}
	return out
}

// info is what a notification says, computed once.
type info struct {
	n    *pb.Notification
	set  bool
	key  string
	val  string
	pats [][]string
}

func (w *World) info(n *pb.Notification) *info {
	if w.infos == nil {
		w.infos = map[*pb.Notification]*info{}
	}
	i := w.infos[n]
	if i == nil {
		i = &info{n: n}
		if n != nil {
			i.pats = DeletePats(n)
			if len(n.GetUpdate()) > 0 {
				i.set, i.key, i.val = true, NKey(n), Value(n)
			}
		}
		w.infos[n] = i
	}
	return i
}

func (i *info) about(key string) (val string, set, del bool) {
	if i.set && i.key == key {
		return i.val, true, false
	}
	if len(i.pats) > 0 {
		kp := vm.P(key)
		for _, p := range i.pats {
			if vm.Match(p, kp) {
				return "", false, true
			}
		}
	}
	return "", false, false
}

// About reports whether a notification sets (value, true) or deletes the leaf.
func About(n *pb.Notification, key string) (val string, set, del bool) {
	if len(n.GetUpdate()) > 0 && NKey(n) == key {
		return Value(n), true, false
	}
	for _, p := range DeletePats(n) {
		if vm.Match(p, vm.P(key)) {
			return "", false, true
		}
	}
	return "", false, false
}

// History lists the versions of a leaf in order.
func (w *World) History(key string) []Ver {
	if w.hist == nil || w.histN != len(w.Feed) || w.histE != vrt.NumEvents() {
		w.hist, w.histN, w.histE = map[string][]Ver{}, len(w.Feed), vrt.NumEvents()
	}
	if h, ok := w.hist[key]; ok {
		return h
	}
	var out []Ver
	for i := range w.Feed {
		f := &w.Feed[i]
		v, set, del := w.info(f.N).about(key)
		switch {
		case set:
			out = append(out, Ver{Val: v, Op: w.opOf(f), Fed: i})
		case del:
			if len(out) > 0 && !out[len(out)-1].Absent {
				out = append(out, Ver{Absent: true, Op: w.opOf(f), Fed: i})
			}
		}
	}
	w.hist[key] = out
	return out
}

// Keys lists every leaf that was ever announced, sorted.
func (w *World) Keys() []string {
	seen := map[string]bool{}
	for _, f := range w.Feed {
		if i := w.info(f.N); i.set {
			seen[i.key] = true
		}
	}
	var out []string
	for k := range seen {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func end(o *Op) int {
	if o == nil || !o.Done {
		return 1 << 30
	}
	return o.Ret
}

func begin(o *Op) int {
	if o == nil {
		return 0
	}
	return o.Call
}

// HeldIn reports whether the leaf may have held val at some moment in [from, to].
func (w *World) HeldIn(key, val string, from, to int) bool {
	h := w.History(key)
	for i, v := range h {
		if !v.Absent && v.Val == val && begin(v.Op) <= to && (i+1 == len(h) || end(h[i+1].Op) >= from) {
			return true
		}
	}
	return false
}

// PresentThroughout reports whether the leaf was certainly stored during all of
// [from, to].
func (w *World) PresentThroughout(key string, from, to int) bool {
	h := w.History(key)
	ok := false
	for _, v := range h {
		switch {
		case end(v.Op) < from:
			ok = !v.Absent
		case begin(v.Op) <= to:
			if v.Absent {
				return false
			}
		}
	}
	return ok
}

// selects reports whether a request selects a leaf key.
func selects(req *pb.SubscribeRequest, key string) bool {
	p := vm.P(key)
	return Matches(req, p[0], p[1:])
}

// JudgeStream checks a STREAM subscriber at a quiescent point. allowed filters
// the targets the subscriber may see (nil: all). ended subscribers are judged
// up to their end only as far as stated by mayEnd.
func (w *World) JudgeStream(s *Sub, allowed func(target string) bool, mayEnd bool) {
	if vrt.RaceEnabled {
		return
	}
	if s.Open < 0 {
		return
	}
	if s.Ended && !mayEnd {
		w.Fail("ended", "subscriber %d ended: %v", s.ID, s.Err)
	}
	ok := func(key string) bool {
		return selects(s.Req, key) && (allowed == nil || allowed(vm.P(key)[0]))
	}
	uo := s.Req.GetSubscribe().GetUpdatesOnly()
	sync := -1
	for i, it := range s.Sent {
		if it.Resp.GetSyncResponse() {
			if sync >= 0 {
				w.Fail("two-syncs", "subscriber %d received two sync responses", s.ID)
			}
			sync = i
		} else if it.Resp.GetUpdate() == nil {
			w.Fail("odd-response", "subscriber %d received %v", s.ID, it.Resp)
		}
	}
	if sync < 0 {
		if s.Ended {
			return
		}
		w.Fail("no-sync", "subscriber %d received no sync response", s.ID)
	}
	if uo && sync != 0 {
		w.Fail("late-sync", "updates_only subscriber %d received data before the sync response", s.ID)
	}
	keys := w.Keys()
	if !uo {
		for _, k := range keys {
			if !ok(k) || !w.PresentThroughout(k, s.Open, s.Sent[sync].At) {
				continue
			}
			found := false
			for _, it := range s.Sent[:sync] {
				if n := w.info(it.Resp.GetUpdate()); n.set && n.key == k {
					found = true
				}
			}
			if !found {
				w.Fail("snapshot", "subscriber %d: leaf %q was present at subscription time and did not arrive before the sync response", s.ID, vm.P(k))
			}
		}
	}
	w.values(s, 0, s.Open)
	if s.Ended {
		return
	}
	// Every change announced after the sync response must reach the subscriber.
	for _, k := range keys {
		if !ok(k) {
			continue
		}
		for _, v := range w.History(k) {
			f := w.Feed[v.Fed]
			if f.At < s.Sent[sync].At {
				continue
			}
			got := false
			for _, it := range s.Sent[sync:] {
				if it.At < f.At {
					continue
				}
				_, set, del := w.info(it.Resp.GetUpdate()).about(k)
				if (set && !v.Absent) || (del && v.Absent) {
					got = true
				}
			}
			if !got {
				w.Fail("lost-change", "subscriber %d was not told of the change of %q announced at event %d: %s", s.ID, vm.P(k), f.At, vc.Msg(f.N))
			}
		}
	}
	want := w.Content(s.Req)
	for k := range want {
		if !ok(k) {
			delete(want, k)
		}
	}
	if uo {
		// Only leaves changed since the subscription are known to the client.
		for k := range want {
			changed := false
			for _, v := range w.History(k) {
				if begin(v.Op) > s.Sent[0].At {
					changed = true
				}
			}
			if !changed {
				delete(want, k)
			}
		}
	}
	got := s.Replay(s.Sent)
	if uo {
		for k := range got {
			if _, in := want[k]; !in && w.Content(s.Req)[k] == got[k] {
				delete(got, k) // changed while the subscription was being set up
			}
		}
	}
	if d := Diff(want, got); d != "" {
		w.Fail("diverged", "subscriber %d: replaying its responses differs from the cache: %s", s.ID, d)
	}
}

// values checks that every update sent from item i on carries a value the leaf
// held at or after the end of the previous send (or event from).
func (w *World) values(s *Sub, i, from int) {
	prev := from
	for ; i < len(s.Sent); i++ {
		it := s.Sent[i]
		if n := w.info(it.Resp.GetUpdate()); n.set {
			k := n.key
			if !w.HeldIn(k, n.val, prev, it.At) && !w.deletedHandle(k, n.val, it.At) {
				w.Fail("old-value", "subscriber %d was sent %s for %q, which the leaf no longer or never held", s.ID, n.val, vm.P(k))
			}
		}
		prev = it.At
	}
}

// deletedHandle allows the last value of a leaf that has been deleted since it
// was queued: its deletion follows in the stream.
func (w *World) deletedHandle(key, val string, at int) bool {
	h := w.History(key)
	for i, v := range h {
		if !v.Absent && v.Val == val && begin(v.Op) <= at && i+1 < len(h) && h[i+1].Absent {
			return true
		}
	}
	return false
}

// JudgeSnapshot checks the responses in items, which answer one ONCE call or
// one poll, asked for at event from.
func (w *World) JudgeSnapshot(s *Sub, what string, items []Item, from int, allowed func(string) bool) {
	if vrt.RaceEnabled {
		return
	}
	if len(items) == 0 || !items[len(items)-1].Resp.GetSyncResponse() {
		w.Fail("no-sync", "subscriber %d %s: no sync response ends the answer", s.ID, what)
	}
	to := items[len(items)-1].At
	got := map[string]bool{}
	for i, it := range items {
		if it.Resp.GetSyncResponse() {
			if i != len(items)-1 {
				w.Fail("two-syncs", "subscriber %d %s: several sync responses", s.ID, what)
			}
			continue
		}
		n := it.Resp.GetUpdate()
		if len(n.GetUpdate()) == 0 || len(n.GetDelete()) > 0 {
			w.Fail("odd-response", "subscriber %d %s: response %v", s.ID, what, it.Resp)
		}
		k := NKey(n)
		got[k] = true
		if !selects(s.Req, k) {
			w.Fail("not-matching", "subscriber %d %s: received %q, which no path selects", s.ID, what, vm.P(k))
		}
		if !w.HeldIn(k, Value(n), from, it.At) {
			w.Fail("old-value", "subscriber %d %s: received %s for %q, which the leaf did not hold during the call", s.ID, what, Value(n), vm.P(k))
		}
	}
	for _, k := range w.Keys() {
		if !selects(s.Req, k) || (allowed != nil && !allowed(vm.P(k)[0])) {
			continue
		}
		if w.PresentThroughout(k, from, to) && !got[k] {
			w.Fail("missing", "subscriber %d %s: leaf %q was present throughout and was not returned", s.ID, what, vm.P(k))
		}
	}
}

// JudgeOnce checks a ONCE subscriber that has run to its end.
func (w *World) JudgeOnce(s *Sub, allowed func(string) bool) {
	if !s.Ended {
		w.Fail("not-ended", "ONCE subscriber %d has not ended: %v", s.ID, vrt.Blocked())
	}
	if s.Err != nil {
		w.Fail("once-error", "ONCE subscriber %d ended with %v", s.ID, s.Err)
	}
	w.JudgeSnapshot(s, "once", s.Sent, s.Open, allowed)
}

// JudgePoll checks the answers of a POLL subscriber: the initial one and one
// per trigger. polls are the events at which the triggers were issued.
func (w *World) JudgePoll(s *Sub, polls []int, allowed func(string) bool) {
	if vrt.RaceEnabled {
		return
	}
	var parts [][]Item
	last := 0
	for i, it := range s.Sent {
		if it.Resp.GetSyncResponse() {
			parts = append(parts, s.Sent[last:i+1])
			last = i + 1
		}
	}
	if last != len(s.Sent) {
		w.Fail("poll-trailing", "POLL subscriber %d: %d responses without a sync response", s.ID, len(s.Sent)-last)
	}
	if len(parts) != len(polls)+1 {
		w.Fail("poll-count", "POLL subscriber %d: %d answers to the request and %d polls", s.ID, len(parts), len(polls))
	}
	from := s.Open
	for i, p := range parts {
		if i > 0 {
			from = polls[i-1]
		}
		w.JudgeSnapshot(s, fmt.Sprintf("answer %d", i), p, from, allowed)
	}
}

// Code is the status code of the subscriber's end.
func (s *Sub) Code() codes.Code { return status.Code(s.Err) }

// JudgeDup checks the duplicate counts of a live subscriber that has received
// everything: for every leaf, one plus the duplicates, summed over its
// responses, is the number of times it was announced since feed index from,
// plus once (at most once per path) for the initial walk if walked is set.
func (w *World) JudgeDup(s *Sub, from int, walked map[string]bool) {
	if vrt.RaceEnabled {
		return
	}
	for _, k := range w.Keys() {
		if !selects(s.Req, k) {
			continue
		}
		offered := 0
		for _, f := range w.Feed[from:] {
			if _, set, _ := w.info(f.N).about(k); set {
				offered++
			}
		}
		got := 0
		for _, it := range s.Sent {
			n := it.Resp.GetUpdate()
			if _, set, _ := w.info(n).about(k); set {
				got += 1 + int(n.GetUpdate()[0].GetDuplicates())
			}
		}
		lo, hi := offered, offered
		if walked[k] {
			lo, hi = lo+1, hi+len(s.Req.GetSubscribe().GetSubscription())
		}
		if got < lo || got > hi {
			w.Fail("duplicates", "subscriber %d: %q was announced %d times (in the initial walk: %v), its responses and their duplicate counts add up to %d", s.ID, vm.P(k), offered, walked[k], got)
		}
	}
}

// Pending counts the entries a backlog may hold for the announcements
// Feed[from:]: one per leaf (per life of the leaf) and one per delete.
func (w *World) Pending(s *Sub, from int) int {
	n := 0
	pend := map[string]bool{}
	for _, f := range w.Feed[from:] {
		if len(f.N.GetUpdate()) > 0 {
			if k := NKey(f.N); selects(s.Req, k) && !pend[k] {
				pend[k] = true
				n++
			}
			continue
		}
		n++
		for k := range pend {
			if _, _, del := w.info(f.N).about(k); del {
				delete(pend, k)
			}
		}
	}
	return n
}
