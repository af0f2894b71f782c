// Package sync is the scheduler-aware replacement of package sync.
package sync

import (
	"sync"

	"verif.local/zz/rt"
)

type (
	Mutex     = rt.Mutex
	RWMutex   = rt.RWMutex
	WaitGroup = rt.WaitGroup
	Once      = rt.Once
	Cond      = rt.Cond
	Locker    = rt.Locker
)

func NewCond(l Locker) *Cond { return rt.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Map is sync.Map with a scheduling point before each operation.
type Map struct {
	o rt.Obj
	m sync.Map
}

func (m *Map) Load(k any) (any, bool)           { rt.Atomic(&m.o); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { rt.Atomic(&m.o); m.m.Store(k, v) }
func (m *Map) Delete(k any)                     { rt.Atomic(&m.o); m.m.Delete(k) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { rt.Atomic(&m.o); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { rt.Atomic(&m.o); return m.m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { rt.Atomic(&m.o); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool  { rt.Atomic(&m.o); return m.m.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, a any) bool   { rt.Atomic(&m.o); return m.m.CompareAndDelete(k, a) }
func (m *Map) Clear()                           { rt.Atomic(&m.o); m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true }) }
func (m *Map) Range(f func(k, v any) bool)      { rt.Atomic(&m.o); m.m.Range(f) }

// Pool hands out what was put into it last, at once.
type Pool struct {
	New  func() any
	o    rt.Obj
	x    *rt.Exec
	kept []any
}

func (p *Pool) touch() {
	if p.x != rt.X {
		p.x, p.kept = rt.X, nil
	}
	rt.Atomic(&p.o)
}

func (p *Pool) Get() any {
	p.touch()
	if n := len(p.kept); n > 0 {
		v := p.kept[n-1]
		p.kept = p.kept[:n-1]
		return v
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v any) {
	p.touch()
	if v != nil {
		p.kept = append(p.kept, v)
	}
}
