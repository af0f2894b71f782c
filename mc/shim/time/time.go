// Package time is the virtual-time replacement of package time. Everything not
// declared here is an alias of the real package (generated).
package time

import (
	"time"

	"verif.local/zz/rt"
)

func Now() time.Time { return rt.Epoch.Add(rt.Now()) }

func Since(t time.Time) time.Duration { return Now().Sub(t) }

func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) { rt.Sleep(d) }

// Timer replaces time.Timer. A copy of a Timer has no connection with the
// runtime timer, as with the real type.
type Timer struct {
	C    <-chan time.Time
	self *Timer
	c    chan time.Time
	f    func()
	name string
	t    *rt.Timer
	o    rt.Obj
}

func (t *Timer) start(d time.Duration) {
	if t.f != nil {
		t.t = rt.SpawnAfter(d, t.name, t.f)
		return
	}
	t.t = rt.AfterFunc(d, func() { rt.PushTimer(t.c, Now()) })
	t.t.Name = t.name
}

func (t *Timer) Stop() bool {
	if rt.Killed() {
		return false
	}
	if t == nil || t.self == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	rt.Atomic(&t.o)
	if t.self != t {
		return false
	}
	return rt.StopTimer(t.t)
}

func (t *Timer) Reset(d time.Duration) bool {
	if rt.Killed() {
		return false
	}
	if t == nil || t.self == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	rt.Atomic(&t.o)
	if t.self != t {
		return false
	}
	a := rt.StopTimer(t.t)
	t.start(d)
	return a
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f, name: rt.CallerFast(1)}
	t.self = t
	if rt.Killed() {
		return t
	}
	t.start(d)
	return t
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, name: rt.CallerFast(1)}
	t.self = t
	if rt.Killed() {
		return t
	}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time {
	t := NewTimer(d)
	t.name = "" // collected by the garbage collector in reality: not a leak
	if t.t != nil {
		t.t.Name = ""
	}
	return t.C
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	t    *rt.Timer
	name string
}

func (t *Ticker) start() {
	t.t = rt.AfterFunc(t.d, func() { rt.PushTimer(t.c, Now()); t.start() })
	t.t.Name = t.name
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d, name: rt.CallerFast(1)}
	if rt.Killed() {
		return t
	}
	t.start()
	return t
}

func (t *Ticker) Stop() {
	if rt.Killed() {
		return
	}
	rt.StopTimer(t.t)
}

func (t *Ticker) Reset(d time.Duration) {
	if rt.Killed() {
		return
	}
	rt.StopTimer(t.t)
	t.d = d
	t.start()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
