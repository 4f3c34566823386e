// Package xatomic stands in for package sync/atomic in the instrumented
// library: every operation is a scheduling point.
package xatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/shim/sched"
)

func AddInt32(p *int32, d int32) int32  { sched.Point(); return atomic.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { sched.Point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { sched.Point(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { sched.Point(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, old, new int32) bool {
	sched.Point()
	return atomic.CompareAndSwapInt32(p, old, new)
}

// Int32 stands in for atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Add(d int32) int32  { sched.Point(); return x.v.Add(d) }
func (x *Int32) Load() int32        { sched.Point(); return x.v.Load() }
func (x *Int32) Store(v int32)      { sched.Point(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32 { sched.Point(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(old, new int32) bool {
	sched.Point()
	return x.v.CompareAndSwap(old, new)
}

func AddInt64(p *int64, d int64) int64  { sched.Point(); return atomic.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { sched.Point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { sched.Point(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { sched.Point(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, old, new int64) bool {
	sched.Point()
	return atomic.CompareAndSwapInt64(p, old, new)
}

// Int64 stands in for atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Add(d int64) int64  { sched.Point(); return x.v.Add(d) }
func (x *Int64) Load() int64        { sched.Point(); return x.v.Load() }
func (x *Int64) Store(v int64)      { sched.Point(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64 { sched.Point(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(old, new int64) bool {
	sched.Point()
	return x.v.CompareAndSwap(old, new)
}

func AddUint32(p *uint32, d uint32) uint32  { sched.Point(); return atomic.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { sched.Point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { sched.Point(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { sched.Point(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, old, new uint32) bool {
	sched.Point()
	return atomic.CompareAndSwapUint32(p, old, new)
}

// Uint32 stands in for atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Add(d uint32) uint32  { sched.Point(); return x.v.Add(d) }
func (x *Uint32) Load() uint32         { sched.Point(); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { sched.Point(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { sched.Point(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(old, new uint32) bool {
	sched.Point()
	return x.v.CompareAndSwap(old, new)
}

func AddUint64(p *uint64, d uint64) uint64  { sched.Point(); return atomic.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { sched.Point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { sched.Point(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { sched.Point(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, old, new uint64) bool {
	sched.Point()
	return atomic.CompareAndSwapUint64(p, old, new)
}

// Uint64 stands in for atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Add(d uint64) uint64  { sched.Point(); return x.v.Add(d) }
func (x *Uint64) Load() uint64         { sched.Point(); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { sched.Point(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { sched.Point(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(old, new uint64) bool {
	sched.Point()
	return x.v.CompareAndSwap(old, new)
}

func AddUintptr(p *uintptr, d uintptr) uintptr  { sched.Point(); return atomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { sched.Point(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { sched.Point(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { sched.Point(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool {
	sched.Point()
	return atomic.CompareAndSwapUintptr(p, old, new)
}

// Uintptr stands in for atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Add(d uintptr) uintptr  { sched.Point(); return x.v.Add(d) }
func (x *Uintptr) Load() uintptr          { sched.Point(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { sched.Point(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { sched.Point(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool {
	sched.Point()
	return x.v.CompareAndSwap(old, new)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sched.Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { sched.Point(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.Point()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool {
	sched.Point()
	return atomic.CompareAndSwapPointer(p, old, new)
}

// Bool stands in for atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                        { sched.Point(); return x.v.Load() }
func (x *Bool) Store(v bool)                      { sched.Point(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool                  { sched.Point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(old, new bool) bool { sched.Point(); return x.v.CompareAndSwap(old, new) }

// Pointer stands in for atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { sched.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { sched.Point(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { sched.Point(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	sched.Point()
	return x.v.CompareAndSwap(old, new)
}

// Value stands in for atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                        { sched.Point(); return x.v.Load() }
func (x *Value) Store(v any)                      { sched.Point(); x.v.Store(v) }
func (x *Value) Swap(v any) any                   { sched.Point(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(old, new any) bool { sched.Point(); return x.v.CompareAndSwap(old, new) }
