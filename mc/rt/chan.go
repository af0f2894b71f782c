package rt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"unsafe"
)

// chanState is the scheduler's view of a Go channel. The real channel only
// serves as its identity.
type chanState struct {
	Obj
	keep   interface{}
	cap    int
	buf    []interface{}
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	t         *Thread
	committed *bool // shared by all cases of a select
	idx       *int
	myIdx     int
	val       interface{}
	ok        *bool
	out       *interface{}
	panics    *bool
}

func ptr[T any](c T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c))) }

func (x *Exec) state(p uintptr, cp int, keep interface{}) *chanState {
	s := x.chans[p]
	if s == nil {
		s = &chanState{cap: cp, keep: keep}
		x.chans[p] = s
	}
	return s
}

func (s *chanState) popRecv() *waiter {
	for len(s.recvq) > 0 {
		w := s.recvq[0]
		s.recvq = s.recvq[1:]
		if !*w.committed {
			return w
		}
	}
	return nil
}

func (s *chanState) popSend() *waiter {
	for len(s.sendq) > 0 {
		w := s.sendq[0]
		s.sendq = s.sendq[1:]
		if !*w.committed {
			return w
		}
	}
	return nil
}

func (s *chanState) hasRecv() bool {
	for _, w := range s.recvq {
		if !*w.committed {
			return true
		}
	}
	return false
}

func (s *chanState) hasSend() bool {
	for _, w := range s.sendq {
		if !*w.committed {
			return true
		}
	}
	return false
}

// trySend performs a send if it need not block.
func (s *chanState) trySend(v interface{}) bool {
	if s.closed {
		panic(plainError("send on closed channel"))
	}
	if w := s.popRecv(); w != nil {
		*w.committed = true
		*w.idx = w.myIdx
		*w.out = v
		*w.ok = true
		return true
	}
	if len(s.buf) < s.cap {
		s.buf = append(s.buf, v)
		return true
	}
	return false
}

// tryRecv performs a receive if it need not block.
func (s *chanState) tryRecv() (v interface{}, ok, done bool) {
	if len(s.buf) > 0 {
		v = s.buf[0]
		s.buf = append([]interface{}{}, s.buf[1:]...)
		if w := s.popSend(); w != nil {
			*w.committed = true
			*w.idx = w.myIdx
			s.buf = append(s.buf, w.val)
		}
		return v, true, true
	}
	if w := s.popSend(); w != nil {
		*w.committed = true
		*w.idx = w.myIdx
		return w.val, true, true
	}
	if s.closed {
		return nil, false, true
	}
	return nil, false, false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// SendTo returns the function that sends on c.
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) { send(c, v) }
}

func send[T any](c chan<- T, v T) {
	x := X
	if x.killed {
		return
	}
	x.point()
	if c == nil {
		x.block("send on nil channel", never)
	}
	s := x.state(ptr(c), cap(c), c)
	x.op(opSend, &s.Obj)
	x.release(&s.Obj)
	if s.trySend(v) {
		return
	}
	var com, pan bool
	var idx int
	s.sendq = append(s.sendq, &waiter{t: x.cur, committed: &com, idx: &idx, val: v, panics: &pan})
	x.block("channel send", func() bool { return com })
	x.acquire(&s.Obj)
	if pan {
		panic(plainError("send on closed channel"))
	}
}

func never() bool { return false }

func cast[T any](v interface{}) (r T) {
	if v != nil {
		r = v.(T)
	}
	return
}

// Recv receives from c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 receives from c with the ok flag.
func Recv2[T any](c <-chan T) (r T, ok bool) {
	x := X
	if x.killed {
		return
	}
	x.point()
	if c == nil {
		x.block("receive from nil channel", never)
	}
	s := x.state(ptr(c), cap(c), c)
	x.op(opRecv, &s.Obj)
	v, ok, done := s.tryRecv()
	if !done {
		var com bool
		var idx int
		w := &waiter{t: x.cur, committed: &com, idx: &idx, ok: &ok, out: &v}
		s.recvq = append(s.recvq, w)
		x.block("channel receive", func() bool { return com })
	}
	x.acquire(&s.Obj)
	return cast[T](v), ok
}

// Close closes c.
func Close[T any](c chan<- T) {
	x := X
	if x.killed {
		return
	}
	x.point()
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	s := x.state(ptr(c), cap(c), c)
	x.op(opClose, &s.Obj)
	x.release(&s.Obj)
	if s.closed {
		panic(plainError("close of closed channel"))
	}
	s.closed = true
	for w := s.popRecv(); w != nil; w = s.popRecv() {
		*w.committed = true
		*w.idx = w.myIdx
		*w.ok = false
		*w.out = nil
	}
	for w := s.popSend(); w != nil; w = s.popSend() {
		*w.committed = true
		*w.idx = w.myIdx
		*w.panics = true
	}
}

// Len is len(c).
func Len[T any](c <-chan T) int {
	x := X
	if x.killed || c == nil {
		return 0
	}
	s := x.state(ptr(c), cap(c), c)
	return len(s.buf)
}

// PushTimer does a non-blocking send from scheduler context.
func PushTimer[T any](c chan T, v T) {
	s := X.state(ptr(c), cap(c), c)
	if !s.closed {
		s.trySend(v)
	}
}

// DrainTimer empties a timer channel.
func DrainTimer[T any](c chan T) {
	s := X.state(ptr(c), cap(c), c)
	s.buf = nil
}

// SelCase is one case of a select statement.
type SelCase interface {
	info() *selInfo
	set(v interface{}, ok bool)
}

type selInfo struct {
	p    uintptr
	cap  int
	keep interface{}
	send bool
	val  interface{}
}

// RecvCase is a receive case; V and Ok hold the result.
type RecvCase[T any] struct {
	in selInfo
	V  T
	Ok bool
}

func (c *RecvCase[T]) info() *selInfo             { return &c.in }
func (c *RecvCase[T]) set(v interface{}, ok bool) { c.V, c.Ok = cast[T](v), ok }

// SendCase is a send case.
type SendCase struct{ in selInfo }

func (c *SendCase) info() *selInfo        { return &c.in }
func (c *SendCase) set(interface{}, bool) {}

// CaseRecv makes a receive case.
func CaseRecv[T any](c <-chan T) *RecvCase[T] {
	return &RecvCase[T]{in: selInfo{p: ptr(c), cap: cap(c), keep: c}}
}

// CaseSend makes a send case.
func CaseSend[T any](c chan<- T) func(T) *SendCase {
	return func(v T) *SendCase {
		return &SendCase{selInfo{p: ptr(c), cap: cap(c), keep: c, send: true, val: v}}
	}
}

// Select performs a select statement; index -1 is the default case.
func Select(hasDefault bool, cases ...SelCase) int {
	x := X
	if x.killed {
		return leaveKilled(hasDefault)
	}
	x.point()
	var ready []int
	st := make([]*chanState, len(cases))
	for i, sc := range cases {
		c := sc.info()
		if c.p == 0 {
			continue
		}
		s := x.state(c.p, c.cap, c.keep)
		st[i] = s
		x.op(opSelect, &s.Obj)
		if c.send {
			if s.closed || len(s.buf) < s.cap || s.hasRecv() {
				ready = append(ready, i)
			}
		} else if len(s.buf) > 0 || s.hasSend() || s.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && (x.roi.sched || x.roi.net) {
			k = x.choose(KSelect, len(ready))
		}
		i := ready[k]
		c := cases[i].info()
		if c.send {
			x.release(&st[i].Obj)
			st[i].trySend(c.val)
			return i
		}
		v, ok, _ := st[i].tryRecv()
		x.acquire(&st[i].Obj)
		cases[i].set(v, ok)
		return i
	}
	if hasDefault {
		return -1
	}
	var com, pan, ok bool
	var idx int
	var val interface{}
	any := false
	for i, sc := range cases {
		if st[i] == nil {
			continue
		}
		c := sc.info()
		any = true
		w := &waiter{t: x.cur, committed: &com, idx: &idx, myIdx: i, val: c.val, ok: &ok, out: &val, panics: &pan}
		if c.send {
			x.release(&st[i].Obj)
			st[i].sendq = append(st[i].sendq, w)
		} else {
			st[i].recvq = append(st[i].recvq, w)
		}
	}
	if !any {
		x.block("select without cases", never)
	}
	x.block("select", func() bool { return com })
	x.acquire(&st[idx].Obj)
	if pan {
		panic(plainError("send on closed channel"))
	}
	if !cases[idx].info().send {
		cases[idx].set(val, ok)
	}
	return idx
}

// leaveKilled ends a goroutine whose deferred calls run into a select while
// the execution is torn down.
func leaveKilled(hasDefault bool) int {
	if !hasDefault {
		runtime.Goexit()
	}
	return -1
}

// ChanIter iterates over a channel.
type ChanIter[T any] struct{ c <-chan T }

// RangeChan starts an iteration over c.
func RangeChan[T any](c <-chan T) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{c}, z
}

// Next receives the next value.
func (r *ChanIter[T]) Next(v *T) bool {
	w, ok := Recv2(r.c)
	if ok && v != nil {
		*v = w
	}
	return ok
}

// MapIter iterates over a map in a deterministic order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// RangeMap starts an iteration over m.
func RangeMap[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	var k K
	var v V
	MapRd(m)
	return &MapIter[K, V]{m, Keys(m)}, k, v
}

// Next goes to the next entry that is still there.
func (r *MapIter[K, V]) Next(k *K, v *V) bool {
	for len(r.keys) > 0 {
		key := r.keys[0]
		r.keys = r.keys[1:]
		MapRd(r.m)
		val, ok := r.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// MapOrder selects the iteration order of maps in this execution: 0 ascending,
// 1 descending, 2 rotated by one.
func MapOrder(o int) { X.mapOrder = o }

func order[T any](s []T) []T {
	n := len(s)
	if X == nil || n < 2 {
		return s
	}
	switch X.mapOrder {
	case 1:
		for i := 0; i < n/2; i++ {
			s[i], s[n-1-i] = s[n-1-i], s[i]
		}
	case 2:
		s = append(append([]T{}, s[1:]...), s[0])
	}
	return s
}

// Keys returns the keys of m in a deterministic order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return less(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })
	return order(keys)
}

// SeqKeys, SeqValues and SeqAll replace the iterators of package maps.
func SeqKeys[M ~map[K]V, K comparable, V any](m M) func(yield func(K) bool) {
	return func(yield func(K) bool) { SeqAll[M, K, V](m)(func(k K, _ V) bool { return yield(k) }) }
}

func SeqValues[M ~map[K]V, K comparable, V any](m M) func(yield func(V) bool) {
	return func(yield func(V) bool) { SeqAll[M, K, V](m)(func(_ K, v V) bool { return yield(v) }) }
}

func SeqAll[M ~map[K]V, K comparable, V any](m M) func(yield func(K, V) bool) {
	return func(yield func(K, V) bool) {
		r, k, v := RangeMap[M, K, V](m)
		for r.Next(&k, &v) {
			if !yield(k, v) {
				return
			}
		}
	}
}

// SortValues orders the result of reflect.Value.MapKeys.
func SortValues(v []reflect.Value) []reflect.Value {
	sort.Slice(v, func(i, j int) bool { return less(v[i], v[j]) })
	return order(v)
}

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// MapRd and MapWr tell the race monitor about map accesses.
func MapRd[M ~map[K]V, K comparable, V any](m M) M {
	if X != nil && X.raceOn {
		Access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false, "a map")
	}
	return m
}

func MapWr[M ~map[K]V, K comparable, V any](m M) M {
	if X != nil && X.raceOn {
		Access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true, "a map")
	}
	return m
}
