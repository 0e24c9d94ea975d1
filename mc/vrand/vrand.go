// Package vrand replaces math/rand in instrumented code. With Pick set, every
// random draw becomes a choice of the harness; otherwise seeded generators are
// the real ones and the global generator is a fixed one.
package vrand

import "math/rand"

// Pick, if set, chooses the result of a draw from [0, n). For floating point
// draws n is 0 and the result indexes Floats.
var Pick func(what string, n uint64) uint64

// Floats are the outcomes offered for Float64 and friends.
var Floats = []float64{0, 0.5, 1 - 1.0/(1<<53)}

type Source interface {
	Int63() int64
	Seed(seed int64)
}

type Source64 interface {
	Source
	Uint64() uint64
}

func NewSource(seed int64) Source { return &source{seed: seed} }

// source seeds the real source when it is first used, as seeding is slow.
type source struct {
	seed int64
	s    rand.Source64
}

func (s *source) get() rand.Source64 {
	if s.s == nil {
		s.s = rand.NewSource(s.seed).(rand.Source64)
	}
	return s.s
}
func (s *source) Int63() int64    { return s.get().Int63() }
func (s *source) Uint64() uint64  { return s.get().Uint64() }
func (s *source) Seed(seed int64) { s.seed, s.s = seed, nil }

type Rand struct{ r *rand.Rand }

func New(src Source) *Rand { return &Rand{rand.New(src)} }

var global = New(NewSource(1))

func (r *Rand) Seed(seed int64) { r.r.Seed(seed) }
func (r *Rand) Int63() int64 {
	if Pick != nil {
		return int64(Pick("Int63", 1<<63))
	}
	return r.r.Int63()
}
func (r *Rand) Uint32() uint32 { return uint32(r.Int63() >> 31) }
func (r *Rand) Uint64() uint64 {
	if Pick != nil {
		return Pick("Uint64", 0)
	}
	return r.r.Uint64()
}
func (r *Rand) Int31() int32 { return int32(r.Int63() >> 32) }
func (r *Rand) Int() int     { return int(uint(r.Int63())) }
func (r *Rand) Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	if Pick != nil {
		return int64(Pick("Int63n", uint64(n)))
	}
	return r.r.Int63n(n)
}
func (r *Rand) Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	if Pick != nil {
		return int32(Pick("Int31n", uint64(n)))
	}
	return r.r.Int31n(n)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if Pick != nil {
		return int(Pick("Intn", uint64(n)))
	}
	return r.r.Intn(n)
}
func (r *Rand) Float64() float64 {
	if Pick != nil {
		return Floats[Pick("Float64", uint64(len(Floats)))]
	}
	return r.r.Float64()
}
func (r *Rand) Float32() float32 {
	if Pick != nil {
		return float32(Floats[Pick("Float32", uint64(len(Floats)-1))])
	}
	return r.r.Float32()
}
func (r *Rand) NormFloat64() float64 { return r.r.NormFloat64() }
func (r *Rand) ExpFloat64() float64  { return r.r.ExpFloat64() }
func (r *Rand) Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	r.Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	if Pick == nil {
		r.r.Shuffle(n, swap)
		return
	}
	for i := n - 1; i > 0; i-- {
		swap(i, int(Pick("Shuffle", uint64(i+1))))
	}
}

func Seed(seed int64)      {}
func Int63() int64         { return global.Int63() }
func Uint32() uint32       { return global.Uint32() }
func Uint64() uint64       { return global.Uint64() }
func Int31() int32         { return global.Int31() }
func Int() int             { return global.Int() }
func Int63n(n int64) int64 { return global.Int63n(n) }
func Int31n(n int32) int32 { return global.Int31n(n) }
func Intn(n int) int       { return global.Intn(n) }
func Float64() float64 {
	if Pick == nil {
		return 0.5
	}
	return global.Float64()
}
func Float32() float32 {
	if Pick == nil {
		return 0.5
	}
	return global.Float32()
}
func NormFloat64() float64               { return 0 }
func ExpFloat64() float64                { return 1 }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
