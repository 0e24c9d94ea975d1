// Package vm holds reference models shared by the checks.
package vm

import (
	"fmt"
	"sort"
	"strings"
)

// Tree is the reference model of ctree: a prefix-free map from paths to values.
type Tree map[string]any

// K joins a path.
func K(p []string) string {
	if len(p) == 0 {
		return ""
	}
	return strings.Join(p, "\x00") + "\x00"
}

// P splits a key.
func P(k string) []string {
	if k == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(k, "\x00"), "\x00")
}

// Match is the query relation: a path matches a pattern if the pattern agrees
// with the path's beginning; a trailing glob may also match nothing.
func Match(pat, path []string) bool {
	if n := len(pat); n > 0 && pat[n-1] == "*" {
		pat = pat[:n-1]
	}
	if len(path) < len(pat) {
		return false
	}
	for i, e := range pat {
		if e != "*" && e != path[i] {
			return false
		}
	}
	return true
}

// Add stores v at p if no stored path is a proper prefix or extension of p.
func (t Tree) Add(p []string, v any) bool {
	k := K(p)
	if _, ok := t[k]; ok {
		t[k] = v
		return true
	}
	for o := range t {
		if strings.HasPrefix(o, k) || strings.HasPrefix(k, o) {
			return false
		}
	}
	t[k] = v
	return true
}

// Matching returns the keys a query for pat reports, sorted by path.
func (t Tree) Matching(pat []string) []string {
	var out []string
	for k := range t {
		if Match(pat, P(k)) {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return Less(P(out[i]), P(out[j])) })
	return out
}

// Delete removes the matching leaves satisfying cond.
func (t Tree) Delete(pat []string, cond func(any) bool) []string {
	var out []string
	for _, k := range t.Matching(pat) {
		if cond == nil || cond(t[k]) {
			out = append(out, k)
		}
	}
	for _, k := range out {
		delete(t, k)
	}
	return out
}

// Clone copies t.
func (t Tree) Clone() Tree {
	n := Tree{}
	for k, v := range t {
		n[k] = v
	}
	return n
}

// Sorted lists the keys in path order.
func (t Tree) Sorted() []string { return t.Matching(nil) }

// String is canonical.
func (t Tree) String() string {
	var b strings.Builder
	for _, k := range t.Sorted() {
		fmt.Fprintf(&b, "%q=%v ", P(k), t[k])
	}
	return b.String()
}

// Less orders paths lexicographically by element.
func Less(a, b []string) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// Paths enumerates all paths over alpha with lengths lo..hi, shortest first.
func Paths(alpha []string, lo, hi int) [][]string {
	level := [][]string{{}}
	var out [][]string
	for n := 0; n <= hi; n++ {
		if n >= lo {
			out = append(out, level...)
		}
		var next [][]string
		for _, p := range level {
			for _, a := range alpha {
				next = append(next, append(append([]string(nil), p...), a))
			}
		}
		level = next
	}
	return out
}
