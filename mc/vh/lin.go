package vh

import (
	"fmt"
	"math"
	"strings"

	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// Op is one operation of a concurrent history. Call and Ret are positions in
// the total order of events; Ret is math.MaxInt for an operation that never
// returned.
type Op struct {
	Thread    int
	Call, Ret int
	Name      string
	Arg       any
	Res       any
}

// Pending is the Ret of an operation that has not returned.
const Pending = math.MaxInt

// Linearizable reports whether the operations can be ordered consistently with
// real time so that each is a legal step. step returns the possible successor
// states (none if the recorded result is impossible); key canonicalises a
// state. Pending operations may take effect or not.
func Linearizable[S any](ops []Op, init S, step func(s S, op *Op) []S, key func(S) string, final func(S) bool) bool {
	// A prefix of operations that overlap nothing is stepped through, so that a
	// long history is limited to 64 operations that overlap others only.
	for len(ops) > 1 && ops[0].Ret != Pending {
		for i := range ops[1:] {
			if ops[1+i].Call < ops[0].Ret {
				goto search
			}
		}
		next := step(init, &ops[0])
		if len(next) != 1 {
			if len(next) == 0 {
				return false
			}
			break
		}
		init, ops = next[0], ops[1:]
	}
search:
	if len(ops) > 64 {
		panic("Linearizable: more than 64 operations")
	}
	type mk struct {
		mask uint64
		key  string
	}
	memo := map[mk]bool{}
	var rec func(mask uint64, s S) bool
	rec = func(mask uint64, s S) bool {
		all := true
		minRet := Pending
		for i := range ops {
			if mask&(1<<i) == 0 {
				if ops[i].Ret != Pending {
					all = false
				}
				if ops[i].Ret < minRet {
					minRet = ops[i].Ret
				}
			}
		}
		if all && (final == nil || final(s)) {
			return true
		}
		k := mk{mask, key(s)}
		if memo[k] {
			return false
		}
		memo[k] = true
		for i := range ops {
			if mask&(1<<i) != 0 || ops[i].Call > minRet {
				continue
			}
			for _, n := range step(s, &ops[i]) {
				if rec(mask|1<<i, n) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, init)
}

// HCall and HRet are the events from which History builds operations. T
// identifies the caller; a caller has at most one open operation.
type HCall struct {
	T    int
	Name string
	Arg  any
}

// HRet ends the open operation of caller T.
type HRet struct {
	T   int
	Res any
}

// Invoke runs f as an operation of a concurrent history.
func Invoke(t int, name string, arg any, f func() any) any {
	vrt.Yield()
	vrt.Event(HCall{t, name, arg})
	r := f()
	vrt.Event(HRet{t, r})
	return r
}

// History extracts the operations from an event log, with a readable form.
func History(evs []any) ([]Op, string) {
	var ops []Op
	open := map[int]int{}
	var b strings.Builder
	for i, e := range evs {
		switch e := e.(type) {
		case HCall:
			open[e.T] = len(ops)
			ops = append(ops, Op{Thread: e.T, Call: i, Ret: Pending, Name: e.Name, Arg: e.Arg})
			fmt.Fprintf(&b, "%d:%s(%v) ", e.T, e.Name, e.Arg)
		case HRet:
			o := &ops[open[e.T]]
			o.Ret, o.Res = i, e.Res
			fmt.Fprintf(&b, "%d->%v ", e.T, e.Res)
		default:
			fmt.Fprintf(&b, "%v ", e)
		}
	}
	return ops, b.String()
}
