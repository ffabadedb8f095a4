// Package zsync is sync with a scheduling point before every operation.
package zsync

import (
	"sync"

	"github.com/lightstep/otel-launcher-go/zzverif/rt"
)

type Locker = sync.Locker
type Cond = sync.Cond

func NewCond(l Locker) *Cond                                   { return sync.NewCond(l) }
func OnceFunc(f func()) func()                                 { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T                     { return sync.OnceValue(f) }
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { rt.Visible(); rt.Block(m.m.TryLock, m.m.Lock) }
func (m *Mutex) TryLock() bool { rt.Visible(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()           { rt.Visible(); rt.Block(m.m.TryLock, m.m.Lock) }
func (m *RWMutex) TryLock() bool   { rt.Visible(); return m.m.TryLock() }
func (m *RWMutex) Unlock()         { m.m.Unlock() }
func (m *RWMutex) RLock()          { rt.Visible(); rt.Block(m.m.TryRLock, m.m.RLock) }
func (m *RWMutex) TryRLock() bool  { rt.Visible(); return m.m.TryRLock() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return m.m.RLocker() }

type Once struct{ o sync.Once }

func (o *Once) Do(f func()) { rt.Visible(); o.o.Do(f) }

type WaitGroup struct{ w sync.WaitGroup }

func (w *WaitGroup) Add(n int) { rt.Visible(); w.w.Add(n) }
func (w *WaitGroup) Done()     { rt.Visible(); w.w.Done() }
func (w *WaitGroup) Wait()     { rt.Visible(); w.w.Wait() }

type Pool struct {
	mu  sync.Mutex
	l   []any
	New func() any
}

// Get is last-in first-out, as in the symbolic model.
func (p *Pool) Get() any {
	p.mu.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.l = append(p.l, x)
	p.mu.Unlock()
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { rt.Visible(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { rt.Visible(); m.m.Store(k, v) }
func (m *Map) Clear()                           { rt.Visible(); m.m.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool) { rt.Visible(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { rt.Visible(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { rt.Visible(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { rt.Visible(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { rt.Visible(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { rt.Visible(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { rt.Visible(); m.m.Range(f) }
