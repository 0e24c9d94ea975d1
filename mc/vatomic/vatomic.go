// Package vatomic replaces sync/atomic in instrumented code.
package vatomic

import (
	"unsafe"

	"github.com/openconfig/gnmi/zz_verif/vrt"
)

//go:noinline
func rd(p unsafe.Pointer) {
	if vrt.Active() {
		vrt.AtomicRd(vrt.ObjAt(p))
		vrt.AcquireAt(p)
	}
}

//go:noinline
func wr(p unsafe.Pointer) {
	if vrt.Active() {
		vrt.AtomicWr(vrt.ObjAt(p))
		vrt.AcquireAt(p)
		vrt.ReleaseAt(p)
	}
}

type Int32 struct{ v int32 }

//go:noinline
func (x *Int32) Load() int32 { rd(unsafe.Pointer(&x.v)); return x.v }

//go:noinline
func (x *Int32) Store(v int32) { wr(unsafe.Pointer(&x.v)); x.v = v }

//go:noinline
func (x *Int32) Swap(v int32) int32 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }

//go:noinline
func (x *Int32) CompareAndSwap(o, n int32) bool {
	wr(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

//go:noinline
func (x *Int32) Add(d int32) int32 { wr(unsafe.Pointer(&x.v)); x.v += d; return x.v }

//go:noinline
func (x *Int32) And(m int32) int32 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v &= m; return o }

//go:noinline
func (x *Int32) Or(m int32) int32 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v |= m; return o }

//go:noinline
func LoadInt32(p *int32) int32 { rd(unsafe.Pointer(p)); return *p }

//go:noinline
func StoreInt32(p *int32, v int32) { wr(unsafe.Pointer(p)); *p = v }

//go:noinline
func SwapInt32(p *int32, v int32) int32 { wr(unsafe.Pointer(p)); o := *p; *p = v; return o }

//go:noinline
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

//go:noinline
func AddInt32(p *int32, d int32) int32 { wr(unsafe.Pointer(p)); *p += d; return *p }

//go:noinline
func AndInt32(p *int32, m int32) int32 { wr(unsafe.Pointer(p)); o := *p; *p &= m; return o }

//go:noinline
func OrInt32(p *int32, m int32) int32 { wr(unsafe.Pointer(p)); o := *p; *p |= m; return o }

type Int64 struct{ v int64 }

//go:noinline
func (x *Int64) Load() int64 { rd(unsafe.Pointer(&x.v)); return x.v }

//go:noinline
func (x *Int64) Store(v int64) { wr(unsafe.Pointer(&x.v)); x.v = v }

//go:noinline
func (x *Int64) Swap(v int64) int64 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }

//go:noinline
func (x *Int64) CompareAndSwap(o, n int64) bool {
	wr(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

//go:noinline
func (x *Int64) Add(d int64) int64 { wr(unsafe.Pointer(&x.v)); x.v += d; return x.v }

//go:noinline
func (x *Int64) And(m int64) int64 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v &= m; return o }

//go:noinline
func (x *Int64) Or(m int64) int64 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v |= m; return o }

//go:noinline
func LoadInt64(p *int64) int64 { rd(unsafe.Pointer(p)); return *p }

//go:noinline
func StoreInt64(p *int64, v int64) { wr(unsafe.Pointer(p)); *p = v }

//go:noinline
func SwapInt64(p *int64, v int64) int64 { wr(unsafe.Pointer(p)); o := *p; *p = v; return o }

//go:noinline
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

//go:noinline
func AddInt64(p *int64, d int64) int64 { wr(unsafe.Pointer(p)); *p += d; return *p }

//go:noinline
func AndInt64(p *int64, m int64) int64 { wr(unsafe.Pointer(p)); o := *p; *p &= m; return o }

//go:noinline
func OrInt64(p *int64, m int64) int64 { wr(unsafe.Pointer(p)); o := *p; *p |= m; return o }

type Uint32 struct{ v uint32 }

//go:noinline
func (x *Uint32) Load() uint32 { rd(unsafe.Pointer(&x.v)); return x.v }

//go:noinline
func (x *Uint32) Store(v uint32) { wr(unsafe.Pointer(&x.v)); x.v = v }

//go:noinline
func (x *Uint32) Swap(v uint32) uint32 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }

//go:noinline
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	wr(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

//go:noinline
func (x *Uint32) Add(d uint32) uint32 { wr(unsafe.Pointer(&x.v)); x.v += d; return x.v }

//go:noinline
func (x *Uint32) And(m uint32) uint32 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v &= m; return o }

//go:noinline
func (x *Uint32) Or(m uint32) uint32 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v |= m; return o }

//go:noinline
func LoadUint32(p *uint32) uint32 { rd(unsafe.Pointer(p)); return *p }

//go:noinline
func StoreUint32(p *uint32, v uint32) { wr(unsafe.Pointer(p)); *p = v }

//go:noinline
func SwapUint32(p *uint32, v uint32) uint32 { wr(unsafe.Pointer(p)); o := *p; *p = v; return o }

//go:noinline
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

//go:noinline
func AddUint32(p *uint32, d uint32) uint32 { wr(unsafe.Pointer(p)); *p += d; return *p }

//go:noinline
func AndUint32(p *uint32, m uint32) uint32 { wr(unsafe.Pointer(p)); o := *p; *p &= m; return o }

//go:noinline
func OrUint32(p *uint32, m uint32) uint32 { wr(unsafe.Pointer(p)); o := *p; *p |= m; return o }

type Uint64 struct{ v uint64 }

//go:noinline
func (x *Uint64) Load() uint64 { rd(unsafe.Pointer(&x.v)); return x.v }

//go:noinline
func (x *Uint64) Store(v uint64) { wr(unsafe.Pointer(&x.v)); x.v = v }

//go:noinline
func (x *Uint64) Swap(v uint64) uint64 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }

//go:noinline
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	wr(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

//go:noinline
func (x *Uint64) Add(d uint64) uint64 { wr(unsafe.Pointer(&x.v)); x.v += d; return x.v }

//go:noinline
func (x *Uint64) And(m uint64) uint64 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v &= m; return o }

//go:noinline
func (x *Uint64) Or(m uint64) uint64 { wr(unsafe.Pointer(&x.v)); o := x.v; x.v |= m; return o }

//go:noinline
func LoadUint64(p *uint64) uint64 { rd(unsafe.Pointer(p)); return *p }

//go:noinline
func StoreUint64(p *uint64, v uint64) { wr(unsafe.Pointer(p)); *p = v }

//go:noinline
func SwapUint64(p *uint64, v uint64) uint64 { wr(unsafe.Pointer(p)); o := *p; *p = v; return o }

//go:noinline
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

//go:noinline
func AddUint64(p *uint64, d uint64) uint64 { wr(unsafe.Pointer(p)); *p += d; return *p }

//go:noinline
func AndUint64(p *uint64, m uint64) uint64 { wr(unsafe.Pointer(p)); o := *p; *p &= m; return o }

//go:noinline
func OrUint64(p *uint64, m uint64) uint64 { wr(unsafe.Pointer(p)); o := *p; *p |= m; return o }

type Uintptr struct{ v uintptr }

//go:noinline
func (x *Uintptr) Load() uintptr { rd(unsafe.Pointer(&x.v)); return x.v }

//go:noinline
func (x *Uintptr) Store(v uintptr) { wr(unsafe.Pointer(&x.v)); x.v = v }

//go:noinline
func (x *Uintptr) Swap(v uintptr) uintptr { wr(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }

//go:noinline
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	wr(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

//go:noinline
func (x *Uintptr) Add(d uintptr) uintptr { wr(unsafe.Pointer(&x.v)); x.v += d; return x.v }

//go:noinline
func (x *Uintptr) And(m uintptr) uintptr { wr(unsafe.Pointer(&x.v)); o := x.v; x.v &= m; return o }

//go:noinline
func (x *Uintptr) Or(m uintptr) uintptr { wr(unsafe.Pointer(&x.v)); o := x.v; x.v |= m; return o }

//go:noinline
func LoadUintptr(p *uintptr) uintptr { rd(unsafe.Pointer(p)); return *p }

//go:noinline
func StoreUintptr(p *uintptr, v uintptr) { wr(unsafe.Pointer(p)); *p = v }

//go:noinline
func SwapUintptr(p *uintptr, v uintptr) uintptr { wr(unsafe.Pointer(p)); o := *p; *p = v; return o }

//go:noinline
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

//go:noinline
func AddUintptr(p *uintptr, d uintptr) uintptr { wr(unsafe.Pointer(p)); *p += d; return *p }

//go:noinline
func AndUintptr(p *uintptr, m uintptr) uintptr { wr(unsafe.Pointer(p)); o := *p; *p &= m; return o }

//go:noinline
func OrUintptr(p *uintptr, m uintptr) uintptr { wr(unsafe.Pointer(p)); o := *p; *p |= m; return o }

type Bool struct{ v bool }

//go:noinline
func (x *Bool) Load() bool { rd(unsafe.Pointer(&x.v)); return x.v }

//go:noinline
func (x *Bool) Store(v bool) { wr(unsafe.Pointer(&x.v)); x.v = v }

//go:noinline
func (x *Bool) Swap(v bool) bool { wr(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }

//go:noinline
func (x *Bool) CompareAndSwap(o, n bool) bool {
	wr(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

//go:noinline
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { rd(unsafe.Pointer(p)); return *p }

//go:noinline
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { wr(unsafe.Pointer(p)); *p = v }

//go:noinline
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	wr(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}

//go:noinline
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

// A generic method is compiled into the package that uses it, where the race
// detector instruments it, so the accesses are made by plain functions.
type Pointer[T any] struct{ v unsafe.Pointer }

//go:noinline
func (x *Pointer[T]) Load() *T { return (*T)(LoadPointer(&x.v)) }

//go:noinline
func (x *Pointer[T]) Store(v *T) { StorePointer(&x.v, unsafe.Pointer(v)) }

//go:noinline
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }

//go:noinline
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(o), unsafe.Pointer(n))
}

type Value struct{ v any }

//go:noinline
func (x *Value) Load() any { rd(unsafe.Pointer(&x.v)); return x.v }

//go:noinline
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	wr(unsafe.Pointer(&x.v))
	x.v = v
}

//go:noinline
func (x *Value) Swap(v any) any { wr(unsafe.Pointer(&x.v)); o := x.v; x.v = v; return o }

//go:noinline
func (x *Value) CompareAndSwap(o, n any) bool {
	wr(unsafe.Pointer(&x.v))
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
