// Package vatomic stands in for package sync/atomic when a recorded
// interleaving is replayed.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/chronos-tachyon/morehttp/vharness/vsched"
)

type Value struct{ v atomic.Value }

func (v *Value) Load() interface{}   { vsched.Point(nil); return v.v.Load() }
func (v *Value) Store(x interface{}) { vsched.Point(nil); v.v.Store(x) }

type Bool struct{ v bool }

func (b *Bool) Load() bool   { vsched.Point(nil); return b.v }
func (b *Bool) Store(x bool) { vsched.Point(nil); b.v = x }
func (b *Bool) Swap(x bool) bool {
	vsched.Point(nil)
	old := b.v
	b.v = x
	return old
}
func (b *Bool) CompareAndSwap(old, x bool) bool {
	vsched.Point(nil)
	if b.v != old {
		return false
	}
	b.v = x
	return true
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsched.Point(nil); return *p }
func StorePointer(p *unsafe.Pointer, x unsafe.Pointer) { vsched.Point(nil); *p = x }

func AddInt32(p *int32, d int32) int32 { vsched.Point(nil); *p += d; return *p }
func LoadInt32(p *int32) int32         { vsched.Point(nil); return *p }
func StoreInt32(p *int32, x int32)     { vsched.Point(nil); *p = x }
func SwapInt32(p *int32, x int32) int32 {
	vsched.Point(nil)
	old := *p
	*p = x
	return old
}
func CompareAndSwapInt32(p *int32, old, x int32) bool {
	vsched.Point(nil)
	if *p != old {
		return false
	}
	*p = x
	return true
}

type Int32 struct{ v int32 }

func (a *Int32) Add(d int32) int32                { return AddInt32(&a.v, d) }
func (a *Int32) Load() int32                      { return LoadInt32(&a.v) }
func (a *Int32) Store(x int32)                    { StoreInt32(&a.v, x) }
func (a *Int32) Swap(x int32) int32               { return SwapInt32(&a.v, x) }
func (a *Int32) CompareAndSwap(old, x int32) bool { return CompareAndSwapInt32(&a.v, old, x) }

func AddInt64(p *int64, d int64) int64 { vsched.Point(nil); *p += d; return *p }
func LoadInt64(p *int64) int64         { vsched.Point(nil); return *p }
func StoreInt64(p *int64, x int64)     { vsched.Point(nil); *p = x }
func SwapInt64(p *int64, x int64) int64 {
	vsched.Point(nil)
	old := *p
	*p = x
	return old
}
func CompareAndSwapInt64(p *int64, old, x int64) bool {
	vsched.Point(nil)
	if *p != old {
		return false
	}
	*p = x
	return true
}

type Int64 struct{ v int64 }

func (a *Int64) Add(d int64) int64                { return AddInt64(&a.v, d) }
func (a *Int64) Load() int64                      { return LoadInt64(&a.v) }
func (a *Int64) Store(x int64)                    { StoreInt64(&a.v, x) }
func (a *Int64) Swap(x int64) int64               { return SwapInt64(&a.v, x) }
func (a *Int64) CompareAndSwap(old, x int64) bool { return CompareAndSwapInt64(&a.v, old, x) }

func AddUint32(p *uint32, d uint32) uint32 { vsched.Point(nil); *p += d; return *p }
func LoadUint32(p *uint32) uint32          { vsched.Point(nil); return *p }
func StoreUint32(p *uint32, x uint32)      { vsched.Point(nil); *p = x }
func SwapUint32(p *uint32, x uint32) uint32 {
	vsched.Point(nil)
	old := *p
	*p = x
	return old
}
func CompareAndSwapUint32(p *uint32, old, x uint32) bool {
	vsched.Point(nil)
	if *p != old {
		return false
	}
	*p = x
	return true
}

type Uint32 struct{ v uint32 }

func (a *Uint32) Add(d uint32) uint32               { return AddUint32(&a.v, d) }
func (a *Uint32) Load() uint32                      { return LoadUint32(&a.v) }
func (a *Uint32) Store(x uint32)                    { StoreUint32(&a.v, x) }
func (a *Uint32) Swap(x uint32) uint32              { return SwapUint32(&a.v, x) }
func (a *Uint32) CompareAndSwap(old, x uint32) bool { return CompareAndSwapUint32(&a.v, old, x) }

func AddUint64(p *uint64, d uint64) uint64 { vsched.Point(nil); *p += d; return *p }
func LoadUint64(p *uint64) uint64          { vsched.Point(nil); return *p }
func StoreUint64(p *uint64, x uint64)      { vsched.Point(nil); *p = x }
func SwapUint64(p *uint64, x uint64) uint64 {
	vsched.Point(nil)
	old := *p
	*p = x
	return old
}
func CompareAndSwapUint64(p *uint64, old, x uint64) bool {
	vsched.Point(nil)
	if *p != old {
		return false
	}
	*p = x
	return true
}

type Uint64 struct{ v uint64 }

func (a *Uint64) Add(d uint64) uint64               { return AddUint64(&a.v, d) }
func (a *Uint64) Load() uint64                      { return LoadUint64(&a.v) }
func (a *Uint64) Store(x uint64)                    { StoreUint64(&a.v, x) }
func (a *Uint64) Swap(x uint64) uint64              { return SwapUint64(&a.v, x) }
func (a *Uint64) CompareAndSwap(old, x uint64) bool { return CompareAndSwapUint64(&a.v, old, x) }
