// Package vatomic replaces sync/atomic in instrumented code: the same operations, each preceded by a
// scheduling point.
package vatomic

import (
	"unsafe"

	"github.com/nanobus/iota/go/internal/zzverif/vrt"
)

type Bool struct{ v bool }

func (x *Bool) Load() bool       { vrt.P("atomic"); return x.v }
func (x *Bool) Store(v bool)     { vrt.P("atomic"); x.v = v }
func (x *Bool) Swap(v bool) bool { vrt.P("atomic"); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vrt.P("atomic")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { vrt.P("atomic"); return x.v }
func (x *Pointer[T]) Store(v *T)   { vrt.P("atomic"); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { vrt.P("atomic"); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vrt.P("atomic")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct{ v any }

func (x *Value) Load() any { vrt.P("atomic"); return x.v }
func (x *Value) Store(v any) {
	vrt.P("atomic")
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.v = v
}
func (x *Value) Swap(v any) any { vrt.P("atomic"); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	vrt.P("atomic")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vrt.P("atomic"); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vrt.P("atomic"); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vrt.P("atomic")
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vrt.P("atomic")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { vrt.P("atomic"); return x.v }
func (x *Int32) Store(v int32)                  { vrt.P("atomic"); x.v = v }
func (x *Int32) Add(d int32) int32              { vrt.P("atomic"); x.v += d; return x.v }
func (x *Int32) Swap(v int32) int32             { vrt.P("atomic"); o := x.v; x.v = v; return o }
func (x *Int32) And(m int32) int32              { vrt.P("atomic"); o := x.v; x.v &= m; return o }
func (x *Int32) Or(m int32) int32               { vrt.P("atomic"); o := x.v; x.v |= m; return o }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt32(p *int32) int32          { vrt.P("atomic"); return *p }
func StoreInt32(p *int32, v int32)      { vrt.P("atomic"); *p = v }
func AddInt32(p *int32, d int32) int32  { vrt.P("atomic"); *p += d; return *p }
func SwapInt32(p *int32, v int32) int32 { vrt.P("atomic"); o := *p; *p = v; return o }
func AndInt32(p *int32, m int32) int32  { vrt.P("atomic"); o := *p; *p &= m; return o }
func OrInt32(p *int32, m int32) int32   { vrt.P("atomic"); o := *p; *p |= m; return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vrt.P("atomic")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { vrt.P("atomic"); return x.v }
func (x *Int64) Store(v int64)                  { vrt.P("atomic"); x.v = v }
func (x *Int64) Add(d int64) int64              { vrt.P("atomic"); x.v += d; return x.v }
func (x *Int64) Swap(v int64) int64             { vrt.P("atomic"); o := x.v; x.v = v; return o }
func (x *Int64) And(m int64) int64              { vrt.P("atomic"); o := x.v; x.v &= m; return o }
func (x *Int64) Or(m int64) int64               { vrt.P("atomic"); o := x.v; x.v |= m; return o }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadInt64(p *int64) int64          { vrt.P("atomic"); return *p }
func StoreInt64(p *int64, v int64)      { vrt.P("atomic"); *p = v }
func AddInt64(p *int64, d int64) int64  { vrt.P("atomic"); *p += d; return *p }
func SwapInt64(p *int64, v int64) int64 { vrt.P("atomic"); o := *p; *p = v; return o }
func AndInt64(p *int64, m int64) int64  { vrt.P("atomic"); o := *p; *p &= m; return o }
func OrInt64(p *int64, m int64) int64   { vrt.P("atomic"); o := *p; *p |= m; return o }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vrt.P("atomic")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { vrt.P("atomic"); return x.v }
func (x *Uint32) Store(v uint32)                  { vrt.P("atomic"); x.v = v }
func (x *Uint32) Add(d uint32) uint32             { vrt.P("atomic"); x.v += d; return x.v }
func (x *Uint32) Swap(v uint32) uint32            { vrt.P("atomic"); o := x.v; x.v = v; return o }
func (x *Uint32) And(m uint32) uint32             { vrt.P("atomic"); o := x.v; x.v &= m; return o }
func (x *Uint32) Or(m uint32) uint32              { vrt.P("atomic"); o := x.v; x.v |= m; return o }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint32(p *uint32) uint32           { vrt.P("atomic"); return *p }
func StoreUint32(p *uint32, v uint32)       { vrt.P("atomic"); *p = v }
func AddUint32(p *uint32, d uint32) uint32  { vrt.P("atomic"); *p += d; return *p }
func SwapUint32(p *uint32, v uint32) uint32 { vrt.P("atomic"); o := *p; *p = v; return o }
func AndUint32(p *uint32, m uint32) uint32  { vrt.P("atomic"); o := *p; *p &= m; return o }
func OrUint32(p *uint32, m uint32) uint32   { vrt.P("atomic"); o := *p; *p |= m; return o }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vrt.P("atomic")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { vrt.P("atomic"); return x.v }
func (x *Uint64) Store(v uint64)                  { vrt.P("atomic"); x.v = v }
func (x *Uint64) Add(d uint64) uint64             { vrt.P("atomic"); x.v += d; return x.v }
func (x *Uint64) Swap(v uint64) uint64            { vrt.P("atomic"); o := x.v; x.v = v; return o }
func (x *Uint64) And(m uint64) uint64             { vrt.P("atomic"); o := x.v; x.v &= m; return o }
func (x *Uint64) Or(m uint64) uint64              { vrt.P("atomic"); o := x.v; x.v |= m; return o }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUint64(p *uint64) uint64           { vrt.P("atomic"); return *p }
func StoreUint64(p *uint64, v uint64)       { vrt.P("atomic"); *p = v }
func AddUint64(p *uint64, d uint64) uint64  { vrt.P("atomic"); *p += d; return *p }
func SwapUint64(p *uint64, v uint64) uint64 { vrt.P("atomic"); o := *p; *p = v; return o }
func AndUint64(p *uint64, m uint64) uint64  { vrt.P("atomic"); o := *p; *p &= m; return o }
func OrUint64(p *uint64, m uint64) uint64   { vrt.P("atomic"); o := *p; *p |= m; return o }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vrt.P("atomic")
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { vrt.P("atomic"); return x.v }
func (x *Uintptr) Store(v uintptr)                  { vrt.P("atomic"); x.v = v }
func (x *Uintptr) Add(d uintptr) uintptr            { vrt.P("atomic"); x.v += d; return x.v }
func (x *Uintptr) Swap(v uintptr) uintptr           { vrt.P("atomic"); o := x.v; x.v = v; return o }
func (x *Uintptr) And(m uintptr) uintptr            { vrt.P("atomic"); o := x.v; x.v &= m; return o }
func (x *Uintptr) Or(m uintptr) uintptr             { vrt.P("atomic"); o := x.v; x.v |= m; return o }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadUintptr(p *uintptr) uintptr            { vrt.P("atomic"); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { vrt.P("atomic"); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr  { vrt.P("atomic"); *p += d; return *p }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vrt.P("atomic"); o := *p; *p = v; return o }
func AndUintptr(p *uintptr, m uintptr) uintptr  { vrt.P("atomic"); o := *p; *p &= m; return o }
func OrUintptr(p *uintptr, m uintptr) uintptr   { vrt.P("atomic"); o := *p; *p |= m; return o }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vrt.P("atomic")
	if *p == o {
		*p = n
		return true
	}
	return false
}
