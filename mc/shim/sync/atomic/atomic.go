// Package atomic is the scheduler-aware replacement of sync/atomic.
package atomic

import (
	"unsafe"

	"verif.local/zz/rt"
)

type Int32 struct {
	o rt.Obj
	v int32
}

func (a *Int32) Load() int32              { rt.Atomic(&a.o); return a.v }
func (a *Int32) Store(v int32)            { rt.Atomic(&a.o); a.v = v }
func (a *Int32) Swap(v int32) (old int32) { rt.Atomic(&a.o); old = a.v; a.v = v; return }
func (a *Int32) Add(d int32) int32        { rt.Atomic(&a.o); a.v += d; return a.v }
func (a *Int32) And(m int32) (old int32)  { rt.Atomic(&a.o); old = a.v; a.v &= m; return }
func (a *Int32) Or(m int32) (old int32)   { rt.Atomic(&a.o); old = a.v; a.v |= m; return }
func (a *Int32) CompareAndSwap(old, new int32) bool {
	rt.Atomic(&a.o)
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

func LoadInt32(p *int32) int32         { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); return *p }
func StoreInt32(p *int32, v int32)     { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); *p = v }
func AddInt32(p *int32, d int32) int32 { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); *p += d; return *p }
func SwapInt32(p *int32, v int32) (old int32) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p = v
	return
}
func AndInt32(p *int32, v int32) (old int32) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p &= v
	return
}
func OrInt32(p *int32, v int32) (old int32) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p |= v
	return
}
func CompareAndSwapInt32(p *int32, old, new int32) bool {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	if *p == old {
		*p = new
		return true
	}
	return false
}

type Int64 struct {
	o rt.Obj
	v int64
}

func (a *Int64) Load() int64              { rt.Atomic(&a.o); return a.v }
func (a *Int64) Store(v int64)            { rt.Atomic(&a.o); a.v = v }
func (a *Int64) Swap(v int64) (old int64) { rt.Atomic(&a.o); old = a.v; a.v = v; return }
func (a *Int64) Add(d int64) int64        { rt.Atomic(&a.o); a.v += d; return a.v }
func (a *Int64) And(m int64) (old int64)  { rt.Atomic(&a.o); old = a.v; a.v &= m; return }
func (a *Int64) Or(m int64) (old int64)   { rt.Atomic(&a.o); old = a.v; a.v |= m; return }
func (a *Int64) CompareAndSwap(old, new int64) bool {
	rt.Atomic(&a.o)
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

func LoadInt64(p *int64) int64         { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); return *p }
func StoreInt64(p *int64, v int64)     { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); *p = v }
func AddInt64(p *int64, d int64) int64 { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); *p += d; return *p }
func SwapInt64(p *int64, v int64) (old int64) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p = v
	return
}
func AndInt64(p *int64, v int64) (old int64) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p &= v
	return
}
func OrInt64(p *int64, v int64) (old int64) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p |= v
	return
}
func CompareAndSwapInt64(p *int64, old, new int64) bool {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	if *p == old {
		*p = new
		return true
	}
	return false
}

type Uint32 struct {
	o rt.Obj
	v uint32
}

func (a *Uint32) Load() uint32               { rt.Atomic(&a.o); return a.v }
func (a *Uint32) Store(v uint32)             { rt.Atomic(&a.o); a.v = v }
func (a *Uint32) Swap(v uint32) (old uint32) { rt.Atomic(&a.o); old = a.v; a.v = v; return }
func (a *Uint32) Add(d uint32) uint32        { rt.Atomic(&a.o); a.v += d; return a.v }
func (a *Uint32) And(m uint32) (old uint32)  { rt.Atomic(&a.o); old = a.v; a.v &= m; return }
func (a *Uint32) Or(m uint32) (old uint32)   { rt.Atomic(&a.o); old = a.v; a.v |= m; return }
func (a *Uint32) CompareAndSwap(old, new uint32) bool {
	rt.Atomic(&a.o)
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

func LoadUint32(p *uint32) uint32     { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); return *p }
func StoreUint32(p *uint32, v uint32) { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); *p = v }
func AddUint32(p *uint32, d uint32) uint32 {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	*p += d
	return *p
}
func SwapUint32(p *uint32, v uint32) (old uint32) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p = v
	return
}
func AndUint32(p *uint32, v uint32) (old uint32) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p &= v
	return
}
func OrUint32(p *uint32, v uint32) (old uint32) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p |= v
	return
}
func CompareAndSwapUint32(p *uint32, old, new uint32) bool {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	if *p == old {
		*p = new
		return true
	}
	return false
}

type Uint64 struct {
	o rt.Obj
	v uint64
}

func (a *Uint64) Load() uint64               { rt.Atomic(&a.o); return a.v }
func (a *Uint64) Store(v uint64)             { rt.Atomic(&a.o); a.v = v }
func (a *Uint64) Swap(v uint64) (old uint64) { rt.Atomic(&a.o); old = a.v; a.v = v; return }
func (a *Uint64) Add(d uint64) uint64        { rt.Atomic(&a.o); a.v += d; return a.v }
func (a *Uint64) And(m uint64) (old uint64)  { rt.Atomic(&a.o); old = a.v; a.v &= m; return }
func (a *Uint64) Or(m uint64) (old uint64)   { rt.Atomic(&a.o); old = a.v; a.v |= m; return }
func (a *Uint64) CompareAndSwap(old, new uint64) bool {
	rt.Atomic(&a.o)
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

func LoadUint64(p *uint64) uint64     { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); return *p }
func StoreUint64(p *uint64, v uint64) { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); *p = v }
func AddUint64(p *uint64, d uint64) uint64 {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	*p += d
	return *p
}
func SwapUint64(p *uint64, v uint64) (old uint64) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p = v
	return
}
func AndUint64(p *uint64, v uint64) (old uint64) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p &= v
	return
}
func OrUint64(p *uint64, v uint64) (old uint64) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p |= v
	return
}
func CompareAndSwapUint64(p *uint64, old, new uint64) bool {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	if *p == old {
		*p = new
		return true
	}
	return false
}

type Uintptr struct {
	o rt.Obj
	v uintptr
}

func (a *Uintptr) Load() uintptr                { rt.Atomic(&a.o); return a.v }
func (a *Uintptr) Store(v uintptr)              { rt.Atomic(&a.o); a.v = v }
func (a *Uintptr) Swap(v uintptr) (old uintptr) { rt.Atomic(&a.o); old = a.v; a.v = v; return }
func (a *Uintptr) Add(d uintptr) uintptr        { rt.Atomic(&a.o); a.v += d; return a.v }
func (a *Uintptr) And(m uintptr) (old uintptr)  { rt.Atomic(&a.o); old = a.v; a.v &= m; return }
func (a *Uintptr) Or(m uintptr) (old uintptr)   { rt.Atomic(&a.o); old = a.v; a.v |= m; return }
func (a *Uintptr) CompareAndSwap(old, new uintptr) bool {
	rt.Atomic(&a.o)
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

func LoadUintptr(p *uintptr) uintptr     { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); return *p }
func StoreUintptr(p *uintptr, v uintptr) { rt.AtomicAddr(uintptr(unsafe.Pointer(p))); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	*p += d
	return *p
}
func SwapUintptr(p *uintptr, v uintptr) (old uintptr) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p = v
	return
}
func AndUintptr(p *uintptr, v uintptr) (old uintptr) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p &= v
	return
}
func OrUintptr(p *uintptr, v uintptr) (old uintptr) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p |= v
	return
}
func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	if *p == old {
		*p = new
		return true
	}
	return false
}

type Bool struct {
	o rt.Obj
	v bool
}

func (a *Bool) Load() bool             { rt.Atomic(&a.o); return a.v }
func (a *Bool) Store(v bool)           { rt.Atomic(&a.o); a.v = v }
func (a *Bool) Swap(v bool) (old bool) { rt.Atomic(&a.o); old = a.v; a.v = v; return }
func (a *Bool) CompareAndSwap(old, new bool) bool {
	rt.Atomic(&a.o)
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

type Pointer[T any] struct {
	o rt.Obj
	v *T
}

func (a *Pointer[T]) Load() *T           { rt.Atomic(&a.o); return a.v }
func (a *Pointer[T]) Store(v *T)         { rt.Atomic(&a.o); a.v = v }
func (a *Pointer[T]) Swap(v *T) (old *T) { rt.Atomic(&a.o); old = a.v; a.v = v; return }
func (a *Pointer[T]) CompareAndSwap(old, new *T) bool {
	rt.Atomic(&a.o)
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

type Value struct {
	o rt.Obj
	v any
}

func (a *Value) Load() any            { rt.Atomic(&a.o); return a.v }
func (a *Value) Store(v any)          { rt.Atomic(&a.o); a.v = v }
func (a *Value) Swap(v any) (old any) { rt.Atomic(&a.o); old = a.v; a.v = v; return }
func (a *Value) CompareAndSwap(old, new any) bool {
	rt.Atomic(&a.o)
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	return *p
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	*p = v
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) (old unsafe.Pointer) {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	old = *p
	*p = v
	return
}
func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool {
	rt.AtomicAddr(uintptr(unsafe.Pointer(p)))
	if *p == old {
		*p = new
		return true
	}
	return false
}
