// Package rt is the controlled scheduler the instrumented copy of the code
// under test runs on. Exactly one logical thread runs at a time; every
// synchronisation operation, timer, datagram and random choice goes through
// it, so one execution is a function of the recorded choices only.
package rt

import (
	"container/heap"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Kinds of choice points.
const (
	KSched   = iota // which thread runs / fire the next timer early
	KNet            // fate of a datagram
	KSelect         // which ready select case
	KFree           // harness parameter, costs nothing
	KFault          // other environment answer
	NumKinds        // number of kinds
)

var KindNames = [NumKinds]string{"sched", "net", "select", "free", "fault"}

// Point is one recorded choice point.
type Point struct {
	N    int
	Kind int
}

// Thread is one logical goroutine.
type Thread struct {
	ID      int
	Name    string
	wake    chan struct{}
	fn      func()
	enabled func() bool
	wait    string
	idle    bool
	vc      vclock
	hash    uint64
	fatal   bool
	slot    int
	Owner   string
	proc    int
}

// Exec is one execution.
type Exec struct {
	threads  []*Thread
	nextID   int
	cur      *Thread
	now      int64
	timers   timerHeap
	seq      int64
	prefix   []int
	Choices  []int
	Points   []Point
	Budget   *Budget
	killed   bool
	done     chan struct{}
	exited   chan struct{}
	Fails    []string
	FailDump string
	Steps    int64
	SyncOps  int64
	Obs      uint64
	obsLog   []string
	Trace    []string
	Tracing  bool
	Diverged string
	chans    map[uintptr]*chanState
	shadow   map[uintptr]*shadowCell
	roi      struct {
		sched, stmt, net, timer bool
		timerWindow, stall      int64
		stallMode               int64
		stalled, stalls         int
	}
	rng             uint64
	Switch          int64
	fp              uint64
	States          func(uint64)
	ids             map[string]int
	atEnd           []func()
	still, maxStill int64
	stmts           int64
	inCond          bool
	raceOn          bool
	mapOrder        int
	slots           slotPool
	procVars        map[procKey]interface{}
	Locals          map[string]interface{}
}

// X is the current execution.
var X *Exec

// Budget bounds the cost per kind and in total for alternatives to be explored.
type Budget struct {
	Kind  [NumKinds]int
	Total int
}

// Epoch is the virtual time origin.
var Epoch = time.Date(2023, 8, 13, 12, 0, 0, 0, time.UTC)

// ---- worker goroutine pool ------------------------------------------------

type poolG struct{ start chan *Thread }

var pool []*poolG

func startThread(t *Thread) {
	var g *poolG
	if n := len(pool); n > 0 {
		g = pool[n-1]
		pool = pool[:n-1]
	} else {
		g = &poolG{start: make(chan *Thread, 1)}
		go g.loop()
	}
	g.start <- t
}

func (g *poolG) loop() {
	for t := range g.start {
		x := X
		<-t.wake
		if x.killed {
			pool = append(pool, g)
			x.exited <- struct{}{}
			continue
		}
		t.run(x) // comes back only after a normal end or a panic
		pool = append(pool, g)
		x.remove(t)
		switch {
		case t.fatal || t.ID == 0:
			x.killed = true
			x.done <- struct{}{}
		default:
			x.leave()
		}
	}
}

// run executes the thread. When the goroutine is being unwound by Goexit the
// deferred function below is the last thing it does.
func (t *Thread) run(x *Exec) {
	normal := false
	defer func() {
		if normal {
			return
		}
		if r := recover(); r != nil {
			if !x.killed {
				x.Fails = append(x.Fails, fmt.Sprintf("panic in %s: %v", t.Name, r))
				x.FailDump = string(debug.Stack())
				x.trace("PANIC %v", r)
			}
			x.killed = true
			t.fatal = true
			return
		}
		// Goexit
		switch {
		case t.fatal:
			x.remove(t)
			x.done <- struct{}{}
		case x.killed:
			x.exited <- struct{}{}
		default: // called by the code under test
			x.remove(t)
			if t.ID == 0 {
				x.killed = true
				x.done <- struct{}{}
				return
			}
			x.leave()
		}
	}()
	t.fn()
	normal = true
}

// abort ends the execution from the current thread.
func (x *Exec) abort() {
	x.killed = true
	x.cur.fatal = true
	runtime.Goexit()
}

// leave passes control on after the current thread has ended.
func (x *Exec) leave() {
	x.cur = nil
	n := x.pick(nil)
	if n == nil {
		x.killed = true
		x.done <- struct{}{}
		return
	}
	x.cur = n
	n.wake <- struct{}{}
}

func (x *Exec) remove(t *Thread) {
	if x.raceOn {
		x.slots.put(t)
	}
	for i, u := range x.threads {
		if u == t {
			x.threads = append(x.threads[:i], x.threads[i+1:]...)
			return
		}
	}
}

// Run executes main under the choices of prefix (then defaults).
func Run(prefix []int, budget *Budget, tracing bool, states func(uint64), main func()) *Exec {
	x := &Exec{prefix: prefix, Budget: budget, done: make(chan struct{}, 1), exited: make(chan struct{}),
		chans: make(map[uintptr]*chanState), shadow: make(map[uintptr]*shadowCell), rng: 0x9E3779B97F4A7C15,
		Tracing: tracing, States: states, ids: make(map[string]int), maxStill: 400000,
		Locals: make(map[string]interface{})}
	X = x
	t := x.newThread("main", main)
	x.cur = t
	t.wake <- struct{}{}
	<-x.done
	// kill what is left
	for len(x.threads) > 0 {
		u := x.threads[len(x.threads)-1]
		x.threads = x.threads[:len(x.threads)-1]
		u.wake <- struct{}{}
		<-x.exited
	}
	for _, f := range x.atEnd {
		f()
	}
	return x
}

func (x *Exec) newThread(name string, fn func()) *Thread {
	t := &Thread{ID: x.nextID, Name: name, wake: make(chan struct{}, 1), fn: fn}
	x.nextID++
	if x.raceOn {
		t.slot = x.slots.get(t)
	}
	if x.cur != nil {
		t.hash = mix(x.cur.hash, uint64(t.ID)+77)
		t.Owner = x.cur.Owner
		t.proc = x.cur.proc
		if x.raceOn {
			t.vc.join(x.cur.vc)
			x.cur.vc.tick(x.cur.slot)
		}
	} else {
		t.hash = uint64(t.ID)*0x9E37 + 1
	}
	x.fp += t.hash
	x.threads = append(x.threads, t)
	startThread(t)
	return t
}

// Go starts a logical goroutine.
func Go(fn func()) {
	x := X
	if x.killed {
		return
	}
	name := "g"
	if x.Tracing {
		name = callerName(2)
	} else {
		name = callerFast(2)
	}
	x.newThread(name, fn)
	x.op(opGo, nil)
	x.point()
}

// GoNamed starts a named harness goroutine.
func GoNamed(name string, fn func()) {
	x := X
	if x.killed {
		return
	}
	x.newThread(name, fn)
	x.point()
}

func callerName(skip int) string {
	_, f, l, _ := runtime.Caller(skip)
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, l)
}

var callerCache = map[uintptr]string{}

func callerFast(skip int) string {
	var pcs [1]uintptr
	runtime.Callers(skip+1, pcs[:])
	if s, ok := callerCache[pcs[0]]; ok {
		return s
	}
	fr, _ := runtime.CallersFrames(pcs[:]).Next()
	f := fr.File
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	fn := fr.Function
	if i := strings.LastIndexByte(fn, '/'); i >= 0 {
		fn = fn[i+1:]
	}
	s := fmt.Sprintf("%s(%s:%d)", fn, f, fr.Line)
	callerCache[pcs[0]] = s
	return s
}

// ---- scheduling -----------------------------------------------------------

func (x *Exec) failNow(msg string) {
	x.trace("FAIL %s", msg)
	x.Fails = append(x.Fails, msg)
	x.FailDump = x.dump()
	x.abort()
}

// Fail reports a property violation and ends the execution.
func Fail(format string, a ...interface{}) {
	x := X
	if x.killed {
		return
	}
	x.failNow(fmt.Sprintf(format, a...))
}

func (x *Exec) dump() string {
	var b strings.Builder
	fmt.Fprintf(&b, "virtual time %v\n", time.Duration(x.now))
	for _, t := range x.threads {
		w := t.wait
		if t.enabled == nil {
			w = "runnable"
		}
		fmt.Fprintf(&b, "  thread %d %s: %s\n", t.ID, t.Name, w)
	}
	return b.String()
}

// Dump describes all live threads.
func Dump() string { return X.dump() }

// Stacks returns the stacks of all goroutines (for failure reports).
func Stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func (x *Exec) choose(kind, n int) int {
	if n <= 1 {
		return 0
	}
	i := len(x.Choices)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			x.Diverged = fmt.Sprintf("choice %d of %d at point %d (kind %s)", c, n, i, KindNames[kind])
			c = 0
		}
	}
	x.Choices = append(x.Choices, c)
	x.Points = append(x.Points, Point{n, kind})
	return c
}

func (x *Exec) isEnabled(t *Thread) bool {
	if t.enabled == nil {
		return true
	}
	x.inCond = true
	r := t.enabled()
	x.inCond = false
	return r
}

// point is a scheduling point of the current thread.
func (x *Exec) point() {
	if x.inCond {
		panic("HARNESS: scheduling point inside a wait condition")
	}
	t := x.cur
	x.Steps++
	x.still++
	if !x.roi.sched && x.roi.stall == 0 && !t.idle && x.isEnabled(t) {
		if x.still > x.maxStill {
			x.livelock()
		}
		t.enabled = nil
		return
	}
	n := x.pick(t)
	if n == nil {
		x.abort()
	}
	if n != t {
		x.Switch++
		x.cur = n
		n.wake <- struct{}{}
		<-t.wake
		if x.killed {
			runtime.Goexit()
		}
	}
	t.enabled = nil
	t.idle = false
}

func (x *Exec) livelock() {
	x.failNow(fmt.Sprintf("livelock: %d steps without virtual time passing, running thread %s", x.maxStill, x.cur.Name))
}

// pick selects the next thread to run; cur may be nil (ended).
func (x *Exec) pick(cur *Thread) *Thread {
	var buf [32]*Thread
	for {
		if x.still > x.maxStill {
			x.Fails = append(x.Fails, fmt.Sprintf("livelock: %d steps without virtual time passing", x.maxStill))
			x.FailDump = x.dump()
			return nil
		}
		en := buf[:0]
		if cur != nil && !cur.idle && x.isEnabled(cur) {
			en = append(en, cur)
		}
		// cyclic order after the current thread
		start := 0
		if cur != nil {
			for i, t := range x.threads {
				if t.ID > cur.ID {
					start = i
					break
				}
			}
		}
		n := len(x.threads)
		for k := 0; k < n; k++ {
			i := start + k
			if i >= n {
				i -= n
			}
			t := x.threads[i]
			if t == cur || t.idle || !x.isEnabled(t) {
				continue
			}
			en = append(en, t)
			if !x.roi.sched {
				break
			}
		}
		if len(en) == 0 {
			// idle waiters
			for _, t := range x.threads {
				if t.idle {
					return t
				}
			}
			if !x.advance() {
				x.Fails = append(x.Fails, "deadlock: no thread can run and no timer is pending")
				x.FailDump = x.dump()
				return nil
			}
			continue
		}
		if !x.roi.sched && (x.roi.stall == 0 || en[0] != cur) {
			return en[0]
		}
		if !x.roi.sched {
			en = en[:1]
		}
		alts := len(en)
		stall := -1
		if x.roi.stall > 0 && en[0] == cur {
			stall = alts
			alts++
		}
		tm := false
		if x.roi.timer && len(x.timers) > 0 && x.timers[0].when-x.now <= x.roi.timerWindow {
			tm = true
			alts++
		}
		c := x.choose(KSched, alts)
		if tm && c == alts-1 {
			x.trace("-- early timer")
			x.advance()
			x.still++
			continue
		}
		if c == stall {
			x.trace("-- stall %s", cur.Name)
			x.stallThread(cur)
			continue
		}
		if c != 0 {
			x.trace("-- switch to %s", en[c].Name)
		}
		return en[c]
	}
}

// stallThread keeps the thread from running for the stall time.
func (x *Exec) stallThread(t *Thread) {
	over, cond := false, t.enabled
	x.roi.stalled++
	x.roi.stalls++
	x.addTimer(x.roi.stall, func() { over = true; x.roi.stalled-- }).Owner = ""
	t.enabled = func() bool { return over && (cond == nil || cond()) }
}

// block waits until cond holds; it is a scheduling point.
func (x *Exec) block(desc string, cond func() bool) {
	t := x.cur
	t.enabled = cond
	t.wait = desc
	x.point()
}

// Yield is a plain scheduling point.
func Yield() {
	x := X
	if x.killed {
		return
	}
	x.point()
}

// P is a statement-level scheduling point.
func P(site int) {
	x := X
	if x == nil || x.killed {
		return
	}
	if !x.roi.stmt {
		if x.stmts++; x.stmts > maxStmts && x.cur != nil {
			x.failNow(fmt.Sprintf("endless loop: %d statements without virtual time passing, running thread %s at %s", maxStmts, x.cur.Name, SiteName(site)))
		}
		return
	}
	if x.Tracing {
		x.trace("at %s", SiteName(site))
	}
	x.point()
}

// maxStmts is the number of statements executed at one point of virtual time
// that counts as an endless loop.
const maxStmts = 20000000

// SiteName is set by the generated site table.
var SiteName = func(i int) string { return fmt.Sprint(i) }

// ROI switches exploration of scheduling choices on or off.
type ROI struct {
	Sched, Stmt bool
	Net         bool
	Timer       time.Duration // fire timers due within this window early
	Stall       time.Duration // the running thread may be held up this long
}

// SetROI sets what is explored from here on. When that is nothing it waits
// until no thread is held up any more.
func SetROI(r ROI) {
	x := X
	if r == (ROI{}) && x.roi.stalled > 0 {
		x.roi.stall = 0
		x.block("stalled threads", func() bool { return x.roi.stalled == 0 })
	}
	x.roi.sched, x.roi.stmt, x.roi.net = r.Sched, r.Stmt, r.Net
	x.roi.timer = r.Timer > 0
	x.roi.timerWindow = int64(r.Timer)
	x.roi.stall = int64(r.Stall)
	if r.Sched && x.roi.stallMode > 0 {
		x.roi.sched, x.roi.stall = false, x.roi.stallMode
	}
}

// StallMode explores hold-ups of d in this execution wherever the scenario
// asks for schedules.
func StallMode(d time.Duration) { X.roi.stallMode = int64(d) }

// Stall is the time threads may have been held up in this execution.
func Stall() time.Duration {
	n := time.Duration(X.roi.stalls)
	if n < 1 {
		n = 1
	}
	return n * time.Duration(X.roi.stallMode)
}

// NetROI tells whether datagram fates are choices now.
func NetROI() bool { return X.roi.net }

// Choose is a choice of the harness or the environment.
func Choose(kind, n int) int { return X.choose(kind, n) }

// ---- waiting for the harness ------------------------------------------------

// WaitUntil blocks until cond holds or the virtual timeout has passed.
func WaitUntil(timeout time.Duration, cond func() bool) bool {
	x := X
	expired := false
	tm := x.addTimer(int64(timeout), func() { expired = true })
	x.block("harness wait", func() bool { return expired || cond() })
	x.stopTimer(tm)
	return cond()
}

// Poll runs cond (which may use the code under test) every step of virtual
// time until it holds or the timeout has passed.
func Poll(timeout, step time.Duration, cond func() bool) bool {
	end := Now() + timeout
	for {
		if cond() {
			return true
		}
		if Now() >= end {
			return false
		}
		Sleep(step)
	}
}

// Sleep suspends the current thread in virtual time.
func Sleep(d time.Duration) {
	x := X
	if x.killed {
		return
	}
	if d <= 0 {
		x.point()
		return
	}
	fired := false
	x.addTimer(int64(d), func() { fired = true })
	x.block("sleep", func() bool { return fired })
}

// Idle waits until no other thread can run (virtual time does not move).
func Idle() {
	x := X
	x.cur.idle = true
	x.cur.wait = "idle"
	x.point()
}

// Call runs fn on its own thread and waits for it; false if it has not
// returned within the virtual timeout.
func Call(name string, timeout time.Duration, fn func()) bool {
	done := false
	GoNamed(name, func() { fn(); done = true })
	return WaitUntil(timeout, func() bool { return done })
}

// Now is the virtual time since the start.
func Now() time.Duration { return time.Duration(X.now) }

// Live lists live threads other than harness threads given by filter.
func Live() (names []string) {
	for _, t := range X.threads {
		names = append(names, t.Name)
	}
	return
}

// LiveThreads returns the live threads.
func LiveThreads() []*Thread { return X.threads }

// Wait describes what the thread waits for.
func (t *Thread) Wait() string { return t.wait }

// SetProc says to which process the current thread and all threads and timers
// it creates belong. Each process has its own package variables.
func SetProc(p int) { X.cur.proc = p }

// Proc is the process of the current thread.
func Proc() int { return X.cur.proc }

type procKey struct {
	proc int
	p    uintptr
}

// ProcVar is where the current process keeps a package variable.
func ProcVar[T any](p *T, initialised bool) *T {
	x := X
	if x == nil || x.cur == nil || x.cur.proc == 0 {
		return p
	}
	k := procKey{x.cur.proc, uintptr(unsafe.Pointer(p))}
	if v, ok := x.procVars[k]; ok {
		return v.(*T)
	}
	n := new(T)
	if initialised {
		*n = *p
	}
	if x.procVars == nil {
		x.procVars = map[procKey]interface{}{}
	}
	x.procVars[k] = n
	return n
}

// SetOwner labels the current thread and all threads and timers it creates.
func SetOwner(o string) { X.cur.Owner = o }

// Owner returns the label of the current thread.
func Owner() string {
	if X == nil || X.cur == nil {
		return ""
	}
	return X.cur.Owner
}

// ---- timers -----------------------------------------------------------------

type Timer struct {
	when  int64
	seq   int64
	idx   int
	f     func()
	Name  string
	Owner string
	proc  int
	vc    vclock
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].when < h[j].when || h[i].when == h[j].when && h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(v interface{}) { t := v.(*Timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

func (x *Exec) addTimer(d int64, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	x.seq++
	t := &Timer{when: x.now + d, seq: x.seq, f: f}
	if x.cur != nil {
		t.Owner = x.cur.Owner
		t.proc = x.cur.proc
		if x.raceOn {
			t.vc = x.cur.vc.copy()
			x.cur.vc.tick(x.cur.slot)
		}
	}
	heap.Push(&x.timers, t)
	return t
}

func (x *Exec) stopTimer(t *Timer) bool {
	if t.idx < 0 {
		return false
	}
	heap.Remove(&x.timers, t.idx)
	t.idx = -1
	return true
}

func (x *Exec) advance() bool {
	if len(x.timers) == 0 {
		return false
	}
	t := heap.Pop(&x.timers).(*Timer)
	if t.when > x.now {
		x.now = t.when
		x.still = 0
		x.stmts = 0
	}
	cur := x.cur
	x.cur = nil
	t.f()
	x.cur = cur
	return true
}

// FireDue fires all timers due within d now, before any other thread runs: what
// they start and what the caller starts next is then ready at the same time.
func FireDue(d time.Duration) {
	x := X
	for end := x.now + int64(d); len(x.timers) > 0 && x.timers[0].when <= end; {
		x.advance()
	}
}

// AfterFunc runs f in scheduler context (f must not block) after d.
func AfterFunc(d time.Duration, f func()) *Timer { return X.addTimer(int64(d), f) }

// StopTimer cancels a timer.
func StopTimer(t *Timer) bool { return X.stopTimer(t) }

// SpawnAfter starts a thread running f after d.
func SpawnAfter(d time.Duration, name string, f func()) *Timer {
	x := X
	var tm *Timer
	tm = x.addTimer(int64(d), func() {
		t := x.newThread(name, f)
		if x.raceOn {
			t.vc.join(tm.vc)
		}
		t.Owner = tm.Owner
		t.proc = tm.proc
	})
	tm.Name = name
	return tm
}

// CallerFast names the caller for diagnostics.
func CallerFast(skip int) string { return callerFast(skip + 1) }

// TimerActive tells whether the timer is pending.
func TimerActive(t *Timer) bool { return t.idx >= 0 && t.when >= 0 && X.has(t) }

func (x *Exec) has(t *Timer) bool { return t.idx < len(x.timers) && x.timers[t.idx] == t }

// PendingTimers returns names of pending timers with the given owner.
func PendingTimers(owner string) (names []string) {
	for _, t := range X.timers {
		if t.Owner == owner && t.Name != "" {
			names = append(names, t.Name)
		}
	}
	sort.Strings(names)
	return
}

// Killed tells whether the execution is being torn down.
func Killed() bool { return X == nil || X.killed }

// ---- observations -----------------------------------------------------------

// Observe adds to the observation of this execution.
func Observe(format string, a ...interface{}) {
	x := X
	s := fmt.Sprintf(format, a...)
	x.trace("OBS %s", s)
	x.Obs = mix(x.Obs, hashString(s))
	if len(x.obsLog) < 64 {
		x.obsLog = append(x.obsLog, s)
	}
}

// ObsLog returns the first observations.
func (x *Exec) ObsLog() []string { return x.obsLog }

func (x *Exec) trace(format string, a ...interface{}) {
	if !x.Tracing {
		return
	}
	name := "-"
	if x.cur != nil {
		name = fmt.Sprintf("%d:%s", x.cur.ID, x.cur.Name)
	}
	if len(x.Trace) < 200000 {
		x.Trace = append(x.Trace, fmt.Sprintf("%10v %-44s %s", time.Duration(x.now), name, fmt.Sprintf(format, a...)))
	}
}

// Tracef adds a line to the trace.
func Tracef(format string, a ...interface{}) { X.trace(format, a...) }

// IsTracing tells whether traces are recorded.
func IsTracing() bool { return X.Tracing }

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9E3779B97F4A7C15 + (a << 6) + (a >> 2)
	a *= 0xff51afd7ed558ccd
	a ^= a >> 32
	return a
}

// Rand is the deterministic random source of the execution.
func Rand() uint64 {
	x := X
	x.rng ^= x.rng << 13
	x.rng ^= x.rng >> 7
	x.rng ^= x.rng << 17
	return x.rng
}

// RandRead fills b deterministically.
func RandRead(b []byte) {
	for i := range b {
		b[i] = byte(Rand() >> 24)
	}
}

// Exit replaces os.Exit in the code under test.
func Exit(code int) {
	x := X
	if x == nil {
		os.Exit(code)
	}
	if f, ok := x.Locals["exit"]; ok {
		f.(func(int))(code)
	}
	runtime.Goexit()
}

// ---- happens-before fingerprint ----------------------------------------------

const (
	opGo = iota + 1
	opLock
	opUnlock
	opRLock
	opRUnlock
	opSend
	opRecv
	opClose
	opSelect
	opAtomic
	opOther
)

// Obj is the bookkeeping every shim object embeds.
type Obj struct {
	vc   vclock
	hash uint64
}

func (x *Exec) op(code int, o *Obj) {
	x.SyncOps++
	t := x.cur
	if t == nil {
		return
	}
	h := mix(t.hash, uint64(code))
	if o != nil {
		h = mix(h, o.hash)
		o.hash = mix(o.hash, h)
	}
	x.fp += h - t.hash
	t.hash = h
	if x.States != nil && (x.roi.sched || x.roi.net) {
		x.States(mix(x.fp, uint64(x.now)))
	}
}

// MixState folds an external event into the state fingerprint.
func MixState(v uint64) {
	x := X
	x.fp = mix(x.fp, v)
	if x.States != nil {
		x.States(mix(x.fp, uint64(x.now)))
	}
}

// Zero puts a package variable back to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Gosched gives everything else a chance.
func Gosched() { Sleep(time.Microsecond) }

// Getch replaces the terminal read: the harness provides the keys.
func Getch() []byte {
	x := X
	if x == nil || x.killed {
		runtime.Goexit()
	}
	f, ok := x.Locals["getch"]
	if !ok {
		x.block("key press", never)
	}
	return f.(func() []byte)()
}

// SetStill sets how many steps may go by at one moment before that is a livelock.
func SetStill(n int64) { X.maxStill = n }
