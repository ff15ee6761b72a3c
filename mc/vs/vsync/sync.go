// Package vsync replaces package sync in an instrumented program.
package vsync

import (
	realsync "sync"
	"unsafe"

	"verif/mc/vs"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ s vs.Sema }

func (m *Mutex) Lock()         { m.s.Lock() }
func (m *Mutex) Unlock()       { m.s.Unlock() }
func (m *Mutex) TryLock() bool { return m.s.TryLock() }

type RWMutex struct{ s vs.Sema }

func (m *RWMutex) Lock()          { m.s.Lock() }
func (m *RWMutex) Unlock()        { m.s.Unlock() }
func (m *RWMutex) TryLock() bool  { return m.s.TryLock() }
func (m *RWMutex) RLock()         { m.s.RLock() }
func (m *RWMutex) RUnlock()       { m.s.RUnlock() }
func (m *RWMutex) TryRLock() bool { return m.s.TryRLock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ c vs.Counter }

func (w *WaitGroup) Add(n int) { w.c.Add(n) }
func (w *WaitGroup) Done()     { w.c.Add(-1) }
func (w *WaitGroup) Wait()     { w.c.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	sync byte
	s    vs.Sema
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() {
	vs.Release(unsafe.Pointer(&o.sync))
	vs.Point(unsafe.Pointer(&o.done), false)
	o.done = true
}

func (o *Once) Do(f func()) {
	vs.Point(unsafe.Pointer(&o.done), true)
	if o.isDone() {
		vs.Acquire(unsafe.Pointer(&o.sync))
		return
	}
	o.s.Lock()
	defer o.s.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type Cond struct {
	L Locker
	e vs.Event
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	h := c.e.Enqueue()
	c.L.Unlock()
	c.e.Await(h)
	c.L.Lock()
}
func (c *Cond) Signal()    { c.e.Signal(false) }
func (c *Cond) Broadcast() { c.e.Signal(true) }

// Pool may lose what is put in it.
type Pool struct {
	New  func() any
	head *pooled
	tag  byte
}

type pooled struct {
	v    any
	next *pooled
}

//go:norace
func (p *Pool) put(v any) { p.head = &pooled{v, p.head} }

//go:norace
func (p *Pool) get() any {
	if p.head == nil || vs.Choose(2) == 1 {
		return nil
	}
	h := p.head
	p.head = h.next
	return h.v
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	vs.Point(unsafe.Pointer(&p.tag), false)
	vs.Release(unsafe.Pointer(&p.tag))
	p.put(v)
}

func (p *Pool) Get() any {
	vs.Point(unsafe.Pointer(&p.tag), false)
	if v := p.get(); v != nil {
		vs.Acquire(unsafe.Pointer(&p.tag))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Map has the real map's ordering, and a scheduling point before each operation.
type Map struct{ m realsync.Map }

func (m *Map) at(read bool) { vs.Point(unsafe.Pointer(m), read) }

func (m *Map) Load(k any) (any, bool)           { m.at(true); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { m.at(false); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { m.at(false); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { m.at(false); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.at(false); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { m.at(false); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { m.at(false); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { m.at(false); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { m.at(true); m.m.Range(f) }
func (m *Map) Clear()                           { m.at(false); m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true }) }
