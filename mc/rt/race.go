package rt

import (
	"fmt"
	"unsafe"
)

// vclock is a vector clock over thread slots.
type vclock []uint32

func (v vclock) copy() vclock { return append(vclock(nil), v...) }

func (v *vclock) tick(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// slotPool hands out vector clock slots; freed slots are reused late and with
// a continued clock, so reuse can only hide a race, never invent one.
type slotPool struct {
	clock []uint32
	free  []int
}

func (p *slotPool) get(t *Thread) int {
	s := len(p.clock)
	if len(p.free) > 24 {
		s = p.free[0]
		p.free = p.free[1:]
		p.clock[s]++
	} else {
		p.clock = append(p.clock, 1)
	}
	for len(t.vc) <= s {
		t.vc = append(t.vc, 0)
	}
	t.vc[s] = p.clock[s]
	return s
}

func (p *slotPool) put(t *Thread) {
	if c := t.vc.at(t.slot); c > p.clock[t.slot] {
		p.clock[t.slot] = c
	}
	p.free = append(p.free, t.slot)
}

type shadowCell struct {
	wslot  int
	wclock uint32
	wname  string
	reads  map[int]readInfo
	keep   unsafe.Pointer // the container, so that its address is not used again
}

type readInfo struct {
	clock uint32
	name  string
}

// SetRace switches the race monitor of this execution on (call first).
func SetRace(on bool) {
	X.raceOn = on
	if on {
		t := X.cur
		t.slot = X.slots.get(t)
	}
}

// Access tells the race monitor about an access to a shared container.
func Access(p unsafe.Pointer, write bool, what string) {
	x := X
	key := uintptr(p)
	if x == nil || x.killed || !x.raceOn || key == 0 || x.cur == nil {
		return
	}
	t := x.cur
	c := x.shadow[key]
	if c == nil {
		c = &shadowCell{keep: p, wslot: -1, reads: map[int]readInfo{}}
		x.shadow[key] = c
	}
	if c.wslot >= 0 && c.wslot != t.slot && t.vc.at(c.wslot) < c.wclock {
		x.failNow(fmt.Sprintf("unsynchronised concurrent access to %s: write by %s, then %s by %s", what, c.wname, rw(write), t.Name))
	}
	if write {
		for s, r := range c.reads {
			if s != t.slot && t.vc.at(s) < r.clock {
				x.failNow(fmt.Sprintf("unsynchronised concurrent access to %s: read by %s, then write by %s", what, r.name, t.Name))
			}
		}
		c.wslot, c.wclock, c.wname = t.slot, t.vc.at(t.slot), t.Name
		for s := range c.reads {
			delete(c.reads, s)
		}
	} else {
		c.reads[t.slot] = readInfo{t.vc.at(t.slot), t.Name}
	}
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}

// acquire joins the object's clock into the current thread.
func (x *Exec) acquire(o *Obj) {
	if x.raceOn && x.cur != nil {
		x.cur.vc.join(o.vc)
	}
}

// release publishes the current thread's clock in the object.
func (x *Exec) release(o *Obj) {
	if x.raceOn && x.cur != nil {
		o.vc.join(x.cur.vc)
		x.cur.vc.tick(x.cur.slot)
	}
}

// SlRd and SlWr tell the monitor about a slice kept in a structure with a mutex.
func SlRd[S ~[]E, E any](p *S) *S {
	if X != nil && X.raceOn {
		Access(unsafe.Pointer(p), false, "a list")
	}
	return p
}

func SlWr[S ~[]E, E any](p *S) *S {
	if X != nil && X.raceOn {
		Access(unsafe.Pointer(p), true, "a list")
	}
	return p
}
