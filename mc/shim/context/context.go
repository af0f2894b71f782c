// Package context is the replacement of package context on virtual time and
// scheduled channels. Everything not declared here is an alias of the real
// package (generated).
package context

import (
	"context"
	"sync"
	stdtime "time"

	"verif.local/zz/rt"
	"verif.local/zz/time"
)

type ctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline stdtime.Time
	children []*ctx
	after    []func()
	timer    *time.Timer
	values   bool // only carries values: done is the parent's
	key, val any
	o        rt.Obj
}

func (c *ctx) Deadline() (stdtime.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *ctx) Done() <-chan struct{} {
	if c.values {
		return c.parent.Done()
	}
	return c.done
}

func (c *ctx) Err() error {
	if c.values {
		return c.parent.Err()
	}
	rt.Atomic(&c.o)
	return c.err
}

func (c *ctx) Value(k any) any {
	if c.values && c.key == k {
		return c.val
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	rt.Atomic(&c.o)
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	rt.Close(c.done)
	children, after := c.children, c.after
	c.children, c.after = nil, nil
	for _, k := range children {
		k.cancel(err, cause)
	}
	for _, f := range after {
		rt.Go(f)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
	if p := up(c.parent); p != nil {
		for i, k := range p.children {
			if k == c {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				break
			}
		}
	}
}

// up finds the nearest context that can be cancelled.
func up(p context.Context) *ctx {
	for {
		c, ok := p.(*ctx)
		if !ok {
			return nil
		}
		if !c.values {
			return c
		}
		p = c.parent
	}
}

func newCtx(parent context.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p := up(parent); p != nil {
		rt.Atomic(&p.o)
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(context.Canceled, cause) }
}

func WithDeadline(parent context.Context, d stdtime.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d stdtime.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if p, ok := parent.Deadline(); !ok || d.Before(p) {
		c.deadline = d
		if c.err == nil {
			c.timer = time.AfterFunc(time.Until(d), func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

func WithTimeout(parent context.Context, d stdtime.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}

func WithTimeoutCause(parent context.Context, d stdtime.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), cause)
}

func WithValue(parent context.Context, key, val any) context.Context {
	return &ctx{parent: parent, values: true, key: key, val: val}
}

func WithoutCancel(parent context.Context) context.Context {
	return context.WithoutCancel(parent)
}

func Cause(c context.Context) error {
	if k := up(c); k != nil {
		rt.Atomic(&k.o)
		return k.cause
	}
	return context.Cause(c)
}

func AfterFunc(p context.Context, f func()) (stop func() bool) {
	c := up(p)
	if c == nil {
		return context.AfterFunc(p, f)
	}
	rt.Atomic(&c.o)
	if c.err != nil {
		rt.Go(f)
		return func() bool { return false }
	}
	var once sync.Once
	ran, stopped := false, false
	c.after = append(c.after, func() {
		once.Do(func() { ran = true })
		if !stopped {
			f()
		}
	})
	return func() bool {
		rt.Atomic(&c.o)
		if ran || stopped || c.err != nil {
			return false
		}
		stopped = true
		return true
	}
}
