// Package vsync mirrors package sync on top of vsched.
package vsync

import (
	"sync"
	"unsafe"

	"verif/mc/vsched"
)

type Locker = sync.Locker

type Mutex struct{ _ [8]byte }

func (m *Mutex) Lock()         { vsched.MuLock(unsafe.Pointer(m), "Mutex") }
func (m *Mutex) Unlock()       { vsched.MuUnlock(unsafe.Pointer(m), "Mutex") }
func (m *Mutex) TryLock() bool { return vsched.MuTryLock(unsafe.Pointer(m), "Mutex") }

type RWMutex struct{ _ [8]byte }

func (m *RWMutex) Lock()          { vsched.MuLock(unsafe.Pointer(m), "RWMutex") }
func (m *RWMutex) Unlock()        { vsched.MuUnlock(unsafe.Pointer(m), "RWMutex") }
func (m *RWMutex) TryLock() bool  { return vsched.MuTryLock(unsafe.Pointer(m), "RWMutex") }
func (m *RWMutex) RLock()         { vsched.MuRLock(unsafe.Pointer(m), "RWMutex") }
func (m *RWMutex) RUnlock()       { vsched.MuRUnlock(unsafe.Pointer(m), "RWMutex") }
func (m *RWMutex) TryRLock() bool { return vsched.MuTryRLock(unsafe.Pointer(m), "RWMutex") }

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	vsched.Atomic(unsafe.Pointer(&o.done), false, "Once.Do")
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			vsched.Atomic(unsafe.Pointer(&o.done), true, "Once.done")
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type WaitGroup struct {
	n int
	_ [8]byte
}

func (w *WaitGroup) Add(d int) {
	vsched.Atomic(unsafe.Pointer(w), true, "WaitGroup.Add")
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.Atomic(unsafe.Pointer(w), false, "WaitGroup.Wait")
	vsched.Wait(unsafe.Pointer(w), "WaitGroup", func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L    Locker
	q    []*bool
	dumm int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	f := new(bool)
	c.q = append(c.q, f)
	c.L.Unlock()
	vsched.Wait(unsafe.Pointer(&c.dumm), "Cond", func() bool { return *f })
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.Atomic(unsafe.Pointer(&c.dumm), true, "Cond.Signal")
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	vsched.Atomic(unsafe.Pointer(&c.dumm), true, "Cond.Broadcast")
	for _, f := range c.q {
		*f = true
	}
	c.q = nil
}

// Map is a linearizable map: every method is one atomic step.
type Map struct {
	m sync.Map
	d int64
}

func (m *Map) at(w bool, s string) { vsched.Atomic(unsafe.Pointer(&m.d), w, "sync.Map."+s) }
func (m *Map) Load(k any) (any, bool) {
	m.at(false, "Load")
	return m.m.Load(k)
}
func (m *Map) Store(k, v any) { m.at(true, "Store"); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.at(true, "LoadOrStore")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.at(true, "LoadAndDelete")
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k any) { m.at(true, "Delete"); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.at(true, "Swap")
	return m.m.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.at(true, "CompareAndSwap")
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.at(true, "CompareAndDelete")
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) {
	m.at(false, "Range")
	m.m.Range(f)
}
func (m *Map) Clear() {
	m.at(true, "Clear")
	m.m.Range(func(k, v any) bool { m.m.Delete(k); return true })
}

// Pool hands objects back in LIFO order, which is the reuse that exposes
// objects put back while still in use.
type Pool struct {
	New func() any
	l   []any
	d   int64
}

func (p *Pool) Get() any {
	vsched.Atomic(unsafe.Pointer(&p.d), true, "Pool.Get")
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	vsched.Atomic(unsafe.Pointer(&p.d), true, "Pool.Put")
	p.l = append(p.l, v)
}
