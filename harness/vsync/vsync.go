// Package vsync stands in for package sync when a recorded interleaving is
// replayed.
package vsync

import (
	"sync"

	"github.com/chronos-tachyon/morehttp/vharness/vsched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Cond   = sync.Cond
)

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	vsched.Point(func() bool { return !m.held })
	m.held = true
}

func (m *Mutex) TryLock() bool {
	vsched.Point(nil)
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	vsched.Point(func() bool { return !m.w && m.r == 0 })
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	vsched.Point(nil)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("unlock of unlocked mutex")
	}
	m.w = false
}

func (m *RWMutex) RLock() {
	vsched.Point(func() bool { return !m.w })
	m.r++
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("runlock of unlocked mutex")
	}
	m.r--
}

func (m *RWMutex) RLocker() Locker { return (*rl)(m) }

type rl RWMutex

func (r *rl) Lock()   { (*RWMutex)(r).RLock() }
func (r *rl) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) { w.n += d }
func (w *WaitGroup) Done()     { vsched.Point(nil); w.n-- }
func (w *WaitGroup) Wait()     { vsched.Point(func() bool { return w.n <= 0 }) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vsched.Point(nil)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	vsched.Point(nil)
	if !o.done {
		defer func() {
			vsched.Point(nil)
			o.done = true
		}()
		f()
	}
}

// Pool hands out what was put last.
type Pool struct {
	held []interface{}
	New  func() interface{}
}

func (p *Pool) Get() interface{} {
	if k := len(p.held); k > 0 {
		v := p.held[k-1]
		p.held = p.held[:k-1]
		return v
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v interface{}) {
	p.held = append(p.held, v)
	vsched.Point(nil)
}
