//go:build go1.24

package atomic

import (
	"unsafe"

	"github.com/crimist/trakx/zz/rt"
)

func ld(vc *rt.VC) { rt.SyncOp(); rt.Acquire(*vc) }
func sto(vc *rt.VC) { rt.SyncOp(); rt.Release(vc) }
func rmw(vc *rt.VC) { rt.SyncOp(); rt.Acquire(*vc); rt.Release(vc) }

type Int32 struct {
	v  int32
	vc rt.VC
}

func (x *Int32) Load() int32           { ld(&x.vc); return x.v }
func (x *Int32) Store(v int32)         { sto(&x.vc); x.v = v }
func (x *Int32) Swap(v int32) (o int32) { rmw(&x.vc); o = x.v; x.v = v; return }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	rmw(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func (x *Int32) Add(d int32) int32 { sto(&x.vc); x.v += d; return x.v }
func (x *Int32) And(m int32) (o int32) { rmw(&x.vc); o = x.v; x.v &= m; return }
func (x *Int32) Or(m int32) (o int32)  { rmw(&x.vc); o = x.v; x.v |= m; return }

func LoadInt32(p *int32) int32     { ld(rt.AtomVC(unsafe.Pointer(p))); return *p }
func StoreInt32(p *int32, v int32) { sto(rt.AtomVC(unsafe.Pointer(p))); *p = v }
func AddInt32(p *int32, d int32) int32 { sto(rt.AtomVC(unsafe.Pointer(p))); *p += d; return *p }
func SwapInt32(p *int32, v int32) (o int32) { rmw(rt.AtomVC(unsafe.Pointer(p))); o = *p; *p = v; return }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rmw(rt.AtomVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int64 struct {
	v  int64
	vc rt.VC
}

func (x *Int64) Load() int64           { ld(&x.vc); return x.v }
func (x *Int64) Store(v int64)         { sto(&x.vc); x.v = v }
func (x *Int64) Swap(v int64) (o int64) { rmw(&x.vc); o = x.v; x.v = v; return }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	rmw(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func (x *Int64) Add(d int64) int64 { sto(&x.vc); x.v += d; return x.v }
func (x *Int64) And(m int64) (o int64) { rmw(&x.vc); o = x.v; x.v &= m; return }
func (x *Int64) Or(m int64) (o int64)  { rmw(&x.vc); o = x.v; x.v |= m; return }

func LoadInt64(p *int64) int64     { ld(rt.AtomVC(unsafe.Pointer(p))); return *p }
func StoreInt64(p *int64, v int64) { sto(rt.AtomVC(unsafe.Pointer(p))); *p = v }
func AddInt64(p *int64, d int64) int64 { sto(rt.AtomVC(unsafe.Pointer(p))); *p += d; return *p }
func SwapInt64(p *int64, v int64) (o int64) { rmw(rt.AtomVC(unsafe.Pointer(p))); o = *p; *p = v; return }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rmw(rt.AtomVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint32 struct {
	v  uint32
	vc rt.VC
}

func (x *Uint32) Load() uint32           { ld(&x.vc); return x.v }
func (x *Uint32) Store(v uint32)         { sto(&x.vc); x.v = v }
func (x *Uint32) Swap(v uint32) (o uint32) { rmw(&x.vc); o = x.v; x.v = v; return }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	rmw(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func (x *Uint32) Add(d uint32) uint32 { sto(&x.vc); x.v += d; return x.v }
func (x *Uint32) And(m uint32) (o uint32) { rmw(&x.vc); o = x.v; x.v &= m; return }
func (x *Uint32) Or(m uint32) (o uint32)  { rmw(&x.vc); o = x.v; x.v |= m; return }

func LoadUint32(p *uint32) uint32     { ld(rt.AtomVC(unsafe.Pointer(p))); return *p }
func StoreUint32(p *uint32, v uint32) { sto(rt.AtomVC(unsafe.Pointer(p))); *p = v }
func AddUint32(p *uint32, d uint32) uint32 { sto(rt.AtomVC(unsafe.Pointer(p))); *p += d; return *p }
func SwapUint32(p *uint32, v uint32) (o uint32) { rmw(rt.AtomVC(unsafe.Pointer(p))); o = *p; *p = v; return }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rmw(rt.AtomVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint64 struct {
	v  uint64
	vc rt.VC
}

func (x *Uint64) Load() uint64           { ld(&x.vc); return x.v }
func (x *Uint64) Store(v uint64)         { sto(&x.vc); x.v = v }
func (x *Uint64) Swap(v uint64) (o uint64) { rmw(&x.vc); o = x.v; x.v = v; return }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	rmw(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func (x *Uint64) Add(d uint64) uint64 { sto(&x.vc); x.v += d; return x.v }
func (x *Uint64) And(m uint64) (o uint64) { rmw(&x.vc); o = x.v; x.v &= m; return }
func (x *Uint64) Or(m uint64) (o uint64)  { rmw(&x.vc); o = x.v; x.v |= m; return }

func LoadUint64(p *uint64) uint64     { ld(rt.AtomVC(unsafe.Pointer(p))); return *p }
func StoreUint64(p *uint64, v uint64) { sto(rt.AtomVC(unsafe.Pointer(p))); *p = v }
func AddUint64(p *uint64, d uint64) uint64 { sto(rt.AtomVC(unsafe.Pointer(p))); *p += d; return *p }
func SwapUint64(p *uint64, v uint64) (o uint64) { rmw(rt.AtomVC(unsafe.Pointer(p))); o = *p; *p = v; return }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rmw(rt.AtomVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uintptr struct {
	v  uintptr
	vc rt.VC
}

func (x *Uintptr) Load() uintptr           { ld(&x.vc); return x.v }
func (x *Uintptr) Store(v uintptr)         { sto(&x.vc); x.v = v }
func (x *Uintptr) Swap(v uintptr) (o uintptr) { rmw(&x.vc); o = x.v; x.v = v; return }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	rmw(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
func (x *Uintptr) Add(d uintptr) uintptr { sto(&x.vc); x.v += d; return x.v }
func (x *Uintptr) And(m uintptr) (o uintptr) { rmw(&x.vc); o = x.v; x.v &= m; return }
func (x *Uintptr) Or(m uintptr) (o uintptr)  { rmw(&x.vc); o = x.v; x.v |= m; return }

func LoadUintptr(p *uintptr) uintptr     { ld(rt.AtomVC(unsafe.Pointer(p))); return *p }
func StoreUintptr(p *uintptr, v uintptr) { sto(rt.AtomVC(unsafe.Pointer(p))); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr { sto(rt.AtomVC(unsafe.Pointer(p))); *p += d; return *p }
func SwapUintptr(p *uintptr, v uintptr) (o uintptr) { rmw(rt.AtomVC(unsafe.Pointer(p))); o = *p; *p = v; return }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	rmw(rt.AtomVC(unsafe.Pointer(p)))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Bool struct {
	v  bool
	vc rt.VC
}

func (x *Bool) Load() bool             { ld(&x.vc); return x.v }
func (x *Bool) Store(v bool)           { sto(&x.vc); x.v = v }
func (x *Bool) Swap(v bool) (o bool)   { rmw(&x.vc); o = x.v; x.v = v; return }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	rmw(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	v  *T
	vc rt.VC
}

func (x *Pointer[T]) Load() *T           { ld(&x.vc); return x.v }
func (x *Pointer[T]) Store(v *T)         { sto(&x.vc); x.v = v }
func (x *Pointer[T]) Swap(v *T) (o *T)   { rmw(&x.vc); o = x.v; x.v = v; return }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	rmw(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct {
	v  any
	vc rt.VC
}

func (x *Value) Load() any { ld(&x.vc); return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	sto(&x.vc)
	x.v = v
}
func (x *Value) Swap(v any) (o any) { rmw(&x.vc); o = x.v; x.v = v; return }
func (x *Value) CompareAndSwap(o, n any) bool {
	rmw(&x.vc)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
