// Package vsync stands in for package sync in the packages under test, so that
// a thread that has to wait gives way to the others of its session.
package vsync

import (
	"sync"
	"sync/atomic"

	"github.com/mearaj/bips/vsched"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	vsched.Point()
	for !m.mu.TryLock() {
		if !vsched.Active() {
			m.mu.Lock()
			return
		}
		vsched.Block(m)
	}
}
func (m *Mutex) TryLock() bool { vsched.Point(); return m.mu.TryLock() }
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	vsched.Wake(m)
	vsched.Point()
}

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	vsched.Point()
	for !m.mu.TryLock() {
		if !vsched.Active() {
			m.mu.Lock()
			return
		}
		vsched.Block(m)
	}
}
func (m *RWMutex) RLock() {
	vsched.Point()
	for !m.mu.TryRLock() {
		if !vsched.Active() {
			m.mu.RLock()
			return
		}
		vsched.Block(m)
	}
}
func (m *RWMutex) TryLock() bool   { vsched.Point(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool  { vsched.Point(); return m.mu.TryRLock() }
func (m *RWMutex) Unlock()         { m.mu.Unlock(); vsched.Wake(m); vsched.Point() }
func (m *RWMutex) RUnlock()        { m.mu.RUnlock(); vsched.Wake(m); vsched.Point() }
func (m *RWMutex) RLocker() Locker { return rl{m} }

type rl struct{ m *RWMutex }

func (r rl) Lock()   { r.m.RLock() }
func (r rl) Unlock() { r.m.RUnlock() }

type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	vsched.Point()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool hands out what was put last: the least friendly pool.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	vsched.Point()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	vsched.Point()
}
