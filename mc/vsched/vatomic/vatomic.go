// Package vatomic mirrors package sync/atomic on top of vsched.
package vatomic

import (
	"unsafe"

	"verif/mc/vsched"
)

func rd(p unsafe.Pointer) { vsched.Atomic(p, false, "atomic load") }
func wr(p unsafe.Pointer) { vsched.Atomic(p, true, "atomic update") }

func LoadInt32(p *int32) int32          { rd(unsafe.Pointer(p)); return *p }
func StoreInt32(p *int32, v int32)      { wr(unsafe.Pointer(p)); *p = v }
func AddInt32(p *int32, d int32) int32  { wr(unsafe.Pointer(p)); *p += d; return *p }
func SwapInt32(p *int32, v int32) int32 { wr(unsafe.Pointer(p)); o := *p; *p = v; return o }
func AndInt32(p *int32, v int32) int32  { wr(unsafe.Pointer(p)); o := *p; *p &= v; return o }
func OrInt32(p *int32, v int32) int32   { wr(unsafe.Pointer(p)); o := *p; *p |= v; return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int32 struct {
	v int32
	_ [8]byte
}

func (a *Int32) Load() int32                    { return LoadInt32(&a.v) }
func (a *Int32) Store(v int32)                  { StoreInt32(&a.v, v) }
func (a *Int32) Add(d int32) int32              { return AddInt32(&a.v, d) }
func (a *Int32) Swap(v int32) int32             { return SwapInt32(&a.v, v) }
func (a *Int32) And(v int32) int32              { return AndInt32(&a.v, v) }
func (a *Int32) Or(v int32) int32               { return OrInt32(&a.v, v) }
func (a *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&a.v, o, n) }

func LoadInt64(p *int64) int64          { rd(unsafe.Pointer(p)); return *p }
func StoreInt64(p *int64, v int64)      { wr(unsafe.Pointer(p)); *p = v }
func AddInt64(p *int64, d int64) int64  { wr(unsafe.Pointer(p)); *p += d; return *p }
func SwapInt64(p *int64, v int64) int64 { wr(unsafe.Pointer(p)); o := *p; *p = v; return o }
func AndInt64(p *int64, v int64) int64  { wr(unsafe.Pointer(p)); o := *p; *p &= v; return o }
func OrInt64(p *int64, v int64) int64   { wr(unsafe.Pointer(p)); o := *p; *p |= v; return o }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int64 struct {
	v int64
	_ [8]byte
}

func (a *Int64) Load() int64                    { return LoadInt64(&a.v) }
func (a *Int64) Store(v int64)                  { StoreInt64(&a.v, v) }
func (a *Int64) Add(d int64) int64              { return AddInt64(&a.v, d) }
func (a *Int64) Swap(v int64) int64             { return SwapInt64(&a.v, v) }
func (a *Int64) And(v int64) int64              { return AndInt64(&a.v, v) }
func (a *Int64) Or(v int64) int64               { return OrInt64(&a.v, v) }
func (a *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&a.v, o, n) }

func LoadUint32(p *uint32) uint32           { rd(unsafe.Pointer(p)); return *p }
func StoreUint32(p *uint32, v uint32)       { wr(unsafe.Pointer(p)); *p = v }
func AddUint32(p *uint32, d uint32) uint32  { wr(unsafe.Pointer(p)); *p += d; return *p }
func SwapUint32(p *uint32, v uint32) uint32 { wr(unsafe.Pointer(p)); o := *p; *p = v; return o }
func AndUint32(p *uint32, v uint32) uint32  { wr(unsafe.Pointer(p)); o := *p; *p &= v; return o }
func OrUint32(p *uint32, v uint32) uint32   { wr(unsafe.Pointer(p)); o := *p; *p |= v; return o }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint32 struct {
	v uint32
	_ [8]byte
}

func (a *Uint32) Load() uint32                    { return LoadUint32(&a.v) }
func (a *Uint32) Store(v uint32)                  { StoreUint32(&a.v, v) }
func (a *Uint32) Add(d uint32) uint32             { return AddUint32(&a.v, d) }
func (a *Uint32) Swap(v uint32) uint32            { return SwapUint32(&a.v, v) }
func (a *Uint32) And(v uint32) uint32             { return AndUint32(&a.v, v) }
func (a *Uint32) Or(v uint32) uint32              { return OrUint32(&a.v, v) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&a.v, o, n) }

func LoadUint64(p *uint64) uint64           { rd(unsafe.Pointer(p)); return *p }
func StoreUint64(p *uint64, v uint64)       { wr(unsafe.Pointer(p)); *p = v }
func AddUint64(p *uint64, d uint64) uint64  { wr(unsafe.Pointer(p)); *p += d; return *p }
func SwapUint64(p *uint64, v uint64) uint64 { wr(unsafe.Pointer(p)); o := *p; *p = v; return o }
func AndUint64(p *uint64, v uint64) uint64  { wr(unsafe.Pointer(p)); o := *p; *p &= v; return o }
func OrUint64(p *uint64, v uint64) uint64   { wr(unsafe.Pointer(p)); o := *p; *p |= v; return o }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint64 struct {
	v uint64
	_ [8]byte
}

func (a *Uint64) Load() uint64                    { return LoadUint64(&a.v) }
func (a *Uint64) Store(v uint64)                  { StoreUint64(&a.v, v) }
func (a *Uint64) Add(d uint64) uint64             { return AddUint64(&a.v, d) }
func (a *Uint64) Swap(v uint64) uint64            { return SwapUint64(&a.v, v) }
func (a *Uint64) And(v uint64) uint64             { return AndUint64(&a.v, v) }
func (a *Uint64) Or(v uint64) uint64              { return OrUint64(&a.v, v) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&a.v, o, n) }

func LoadUintptr(p *uintptr) uintptr            { rd(unsafe.Pointer(p)); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { wr(unsafe.Pointer(p)); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr  { wr(unsafe.Pointer(p)); *p += d; return *p }
func SwapUintptr(p *uintptr, v uintptr) uintptr { wr(unsafe.Pointer(p)); o := *p; *p = v; return o }
func AndUintptr(p *uintptr, v uintptr) uintptr  { wr(unsafe.Pointer(p)); o := *p; *p &= v; return o }
func OrUintptr(p *uintptr, v uintptr) uintptr   { wr(unsafe.Pointer(p)); o := *p; *p |= v; return o }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uintptr struct {
	v uintptr
	_ [8]byte
}

func (a *Uintptr) Load() uintptr                    { return LoadUintptr(&a.v) }
func (a *Uintptr) Store(v uintptr)                  { StoreUintptr(&a.v, v) }
func (a *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&a.v, d) }
func (a *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&a.v, v) }
func (a *Uintptr) And(v uintptr) uintptr            { return AndUintptr(&a.v, v) }
func (a *Uintptr) Or(v uintptr) uintptr             { return OrUintptr(&a.v, v) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&a.v, o, n) }

type Bool struct {
	v int32
	_ [4]byte
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}
func (a *Bool) Load() bool                    { return LoadInt32(&a.v) != 0 }
func (a *Bool) Store(v bool)                  { StoreInt32(&a.v, b2i(v)) }
func (a *Bool) Swap(v bool) bool              { return SwapInt32(&a.v, b2i(v)) != 0 }
func (a *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapInt32(&a.v, b2i(o), b2i(n)) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { rd(unsafe.Pointer(p)); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { wr(unsafe.Pointer(p)); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	wr(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	wr(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	v *T
	_ [8]byte
}

func (a *Pointer[T]) Load() *T     { rd(unsafe.Pointer(&a.v)); return a.v }
func (a *Pointer[T]) Store(v *T)   { wr(unsafe.Pointer(&a.v)); a.v = v }
func (a *Pointer[T]) Swap(v *T) *T { wr(unsafe.Pointer(&a.v)); o := a.v; a.v = v; return o }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool {
	wr(unsafe.Pointer(&a.v))
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type Value struct{ v any }

func (a *Value) Load() any      { rd(unsafe.Pointer(&a.v)); return a.v }
func (a *Value) Store(v any)    { wr(unsafe.Pointer(&a.v)); a.v = v }
func (a *Value) Swap(v any) any { wr(unsafe.Pointer(&a.v)); o := a.v; a.v = v; return o }
func (a *Value) CompareAndSwap(o, n any) bool {
	wr(unsafe.Pointer(&a.v))
	if a.v == o {
		a.v = n
		return true
	}
	return false
}
