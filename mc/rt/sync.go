package rt

// Mutex, RWMutex and the like as seen by the scheduler. The shim package
// "sync" re-exports them.

type Mutex struct {
	o      Obj
	locked bool
}

func (m *Mutex) Lock() {
	x := X
	if x == nil || x.killed {
		return
	}
	x.block("mutex lock", func() bool { return !m.locked })
	m.locked = true
	x.op(opLock, &m.o)
	x.acquire(&m.o)
}

func (m *Mutex) TryLock() bool {
	x := X
	if x == nil || x.killed {
		return true
	}
	x.point()
	if m.locked {
		return false
	}
	m.locked = true
	x.op(opLock, &m.o)
	x.acquire(&m.o)
	return true
}

func (m *Mutex) Unlock() {
	x := X
	if x == nil || x.killed {
		return
	}
	if !m.locked {
		x.failNow("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	x.op(opUnlock, &m.o)
	x.release(&m.o)
}

type RWMutex struct {
	o       Obj
	writer  bool
	readers int
	pending int // writers waiting: they hold back new readers, as in Go
}

func (m *RWMutex) Lock() {
	x := X
	if x == nil || x.killed {
		return
	}
	x.point()
	if m.writer || m.readers > 0 {
		m.pending++
		x.block("rwmutex write lock", func() bool { return !m.writer && m.readers == 0 })
		m.pending--
	}
	m.writer = true
	x.op(opLock, &m.o)
	x.acquire(&m.o)
}

func (m *RWMutex) TryLock() bool {
	x := X
	if x == nil || x.killed {
		return true
	}
	x.point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	x.op(opLock, &m.o)
	x.acquire(&m.o)
	return true
}

func (m *RWMutex) Unlock() {
	x := X
	if x == nil || x.killed {
		return
	}
	if !m.writer {
		x.failNow("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	x.op(opUnlock, &m.o)
	x.release(&m.o)
}

func (m *RWMutex) RLock() {
	x := X
	if x == nil || x.killed {
		return
	}
	x.block("rwmutex read lock", func() bool { return !m.writer && m.pending == 0 })
	m.readers++
	x.op(opRLock, &m.o)
	x.acquire(&m.o)
}

func (m *RWMutex) TryRLock() bool {
	x := X
	if x == nil || x.killed {
		return true
	}
	x.point()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	x.op(opRLock, &m.o)
	x.acquire(&m.o)
	return true
}

func (m *RWMutex) RUnlock() {
	x := X
	if x == nil || x.killed {
		return
	}
	if m.readers == 0 {
		x.failNow("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	x.op(opRUnlock, &m.o)
	x.release(&m.o)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type WaitGroup struct {
	o Obj
	n int
}

func (w *WaitGroup) Add(d int) {
	x := X
	if x == nil || x.killed {
		return
	}
	x.point()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	x.op(opAtomic, &w.o)
	x.release(&w.o)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	x := X
	if x == nil || x.killed {
		return
	}
	x.block("waitgroup", func() bool { return w.n == 0 })
	x.op(opAtomic, &w.o)
	x.acquire(&w.o)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if X == nil || X.killed {
		return
	}
	if o.done {
		X.point()
		X.acquire(&o.m.o)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L     Locker
	o     Obj
	queue []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	x := X
	if x.killed {
		return
	}
	woken := false
	c.queue = append(c.queue, &woken)
	c.L.Unlock()
	x.block("cond wait", func() bool { return woken })
	x.op(opOther, &c.o)
	x.acquire(&c.o)
	c.L.Lock()
}

func (c *Cond) Signal() {
	x := X
	if x.killed {
		return
	}
	x.point()
	x.op(opOther, &c.o)
	x.release(&c.o)
	if len(c.queue) > 0 {
		*c.queue[0] = true
		c.queue = c.queue[1:]
	}
}

func (c *Cond) Broadcast() {
	x := X
	if x.killed {
		return
	}
	x.point()
	x.op(opOther, &c.o)
	x.release(&c.o)
	for _, w := range c.queue {
		*w = true
	}
	c.queue = nil
}

// Atomic brackets one atomic operation on o.
func Atomic(o *Obj) {
	x := X
	if x == nil || x.killed {
		return
	}
	x.point()
	x.op(opAtomic, o)
	x.acquire(o)
	x.release(o)
}

// AtomicAddr is Atomic for operations on plain addresses.
func AtomicAddr(p uintptr) {
	x := X
	if x == nil || x.killed {
		return
	}
	s := x.state(p, 0, nil)
	Atomic(&s.Obj)
}

// Block waits for cond at a scheduling point (for shims).
func Block(desc string, cond func() bool) {
	x := X
	if x == nil || x.killed {
		return
	}
	x.block(desc, cond)
}

// Op records an operation on o in the happens-before relation (for shims).
func Op(o *Obj) {
	x := X
	if x == nil || x.killed {
		return
	}
	x.op(opOther, o)
	x.acquire(o)
	x.release(o)
}
