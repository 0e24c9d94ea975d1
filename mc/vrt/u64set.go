package vrt

// u64set is a small open-addressing hash set. A Go map is not used because in
// race-detector builds the runtime itself reports map accesses, and the
// scheduler's own state is deliberately invisible to the detector.
type u64set struct {
	tab  []uint64
	n    int
	zero bool
}

func newU64set() *u64set { return &u64set{tab: make([]uint64, 1<<12)} }

// add inserts k and reports whether it was new.
func (s *u64set) add(k uint64) bool {
	if k == 0 {
		if s.zero {
			return false
		}
		s.zero = true
		return true
	}
	if s.n*10 > len(s.tab)*7 {
		old := s.tab
		s.tab = make([]uint64, 2*len(old))
		s.n = 0
		for _, v := range old {
			if v != 0 {
				s.add(v)
			}
		}
	}
	m := uint64(len(s.tab) - 1)
	i := (k * 0x9E3779B97F4A7C15) >> 20 & m
	for {
		switch s.tab[i] {
		case 0:
			s.tab[i] = k
			s.n++
			return true
		case k:
			return false
		}
		i = (i + 1) & m
	}
}

func (s *u64set) len() int {
	if s.zero {
		return s.n + 1
	}
	return s.n
}

// ptrTab maps pointers to small values (linear probing, cleared per execution).
type ptrTab struct {
	keys []uintptr
	vals []*chanState
	n    int
}

func (t *ptrTab) get(k uintptr) *chanState {
	if len(t.keys) == 0 {
		return nil
	}
	m := uintptr(len(t.keys) - 1)
	i := (k >> 4 * 0x9E3779B1) & m
	for {
		if t.keys[i] == k {
			return t.vals[i]
		}
		if t.keys[i] == 0 {
			return nil
		}
		i = (i + 1) & m
	}
}

func (t *ptrTab) put(k uintptr, v *chanState) {
	if 2*(t.n+1) > len(t.keys) {
		ok, ov := t.keys, t.vals
		n := 2 * len(ok)
		if n == 0 {
			n = 64
		}
		t.keys, t.vals, t.n = make([]uintptr, n), make([]*chanState, n), 0
		for i, x := range ok {
			if x != 0 {
				t.put(x, ov[i])
			}
		}
	}
	m := uintptr(len(t.keys) - 1)
	i := (k >> 4 * 0x9E3779B1) & m
	for t.keys[i] != 0 {
		i = (i + 1) & m
	}
	t.keys[i], t.vals[i] = k, v
	t.n++
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x7F4A7C15D1B54A32)
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return x
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}
