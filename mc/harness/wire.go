package main

import (
	"time"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// Wire observes the datagrams of an execution.
type Wire struct {
	n *vnet.Net
	// first and last transmission of every data datagram, per direction
	data map[string][]*sentData
	seen []*vnet.Dgram
	on   []func(d *vnet.Dgram)
	// retransmission rules are checked unless off
	off bool
	// a thread may be held up for this long while timers fire
	slack time.Duration
}

type sentData struct {
	dir   string
	id    int
	body  string
	times []time.Duration
	acked time.Duration // delivery of the first acknowledgement, -1: none
}

func dirKey(d *vnet.Dgram) string  { return d.Src.String() + ">" + d.Dst.String() }
func backKey(d *vnet.Dgram) string { return d.Dst.String() + ">" + d.Src.String() }

// watch starts observing. It checks the rules for retransmissions: pauses
// grow, at least 30 ms and at most 3 s (plus the tick of the timer), and
// nothing is sent again after its acknowledgement.
func watch() *Wire {
	w := &Wire{n: vnet.Get(), data: map[string][]*sentData{}}
	w.n.OnSend = func(d *vnet.Dgram) {
		for _, f := range w.on {
			f(d)
		}
		w.send(d)
	}
	w.n.OnDeliver = w.deliver
	return w
}

func (w *Wire) find(key string, id int) *sentData {
	l := w.data[key]
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].id == id {
			return l[i]
		}
	}
	return nil
}

func (w *Wire) send(d *vnet.Dgram) {
	if !isData(d) {
		return
	}
	key, id := dirKey(d), wID(d.Data)
	s := w.find(key, id)
	if s == nil || s.acked >= 0 && s.body != string(d.Data) {
		w.data[key] = append(w.data[key], &sentData{dir: key, id: id, body: string(d.Data), times: []time.Duration{rt.Now()}, acked: -1})
		return
	}
	now := rt.Now()
	if !w.off {
		if s.acked >= 0 && now > s.acked+w.slack+rt.Stall() {
			rt.Fail("packet %d (%s) is sent again at %v although its acknowledgement arrived at %v", id, key, now, s.acked)
		}
		if s.body != string(d.Data) {
			rt.Fail("packet %d (%s) is sent again with other content, or its number was given to two packets in flight", id, key)
		}
		last := s.times[len(s.times)-1]
		n := len(s.times) // number of this pause
		least := 30 * time.Millisecond * time.Duration(n)
		if least > 3*time.Second {
			least = 3 * time.Second
		}
		if now-last < least-rt.Stall() {
			rt.Fail("retransmission %d of packet %d (%s) comes %v after the one before, expected at least %v", n, id, key, now-last, least)
		}
		if now-last > 3200*time.Millisecond+rt.Stall() {
			rt.Fail("retransmission %d of packet %d (%s) comes %v after the one before, more than about 3 s", n, id, key, now-last)
		}
		if len(s.times) > 100 {
			rt.Fail("packet %d (%s) is retransmitted %d times", id, key, len(s.times))
		}
	}
	s.times = append(s.times, now)
}

func (w *Wire) deliver(d *vnet.Dgram) {
	w.seen = append(w.seen, d)
	if wType(d.Data) == wAck {
		if s := w.find(backKey(d), wID(d.Data)); s != nil && s.acked < 0 {
			s.acked = rt.Now()
		}
	}
}

// count counts datagrams sent, by type, in the given direction ("" any).
func (w *Wire) count(from string, types ...int) (n int) {
	for _, d := range w.n.Log {
		if from != "" && d.Src.String() != from {
			continue
		}
		for _, t := range types {
			if wType(d.Data) == t {
				n++
			}
		}
	}
	return
}

// quiet ends the exploration and lets d pass.
func quiet(d time.Duration) {
	rt.SetROI(rt.ROI{})
	if d > 0 {
		rt.Sleep(d)
	}
}

// pass lets d pass without changing what is explored.
func pass(d time.Duration) { rt.WaitUntil(d, func() bool { return false }) }

// pick is a free choice among n.
func pick(n int) int { return rt.Choose(rt.KFree, n) }

func sel[T any](v ...T) T { return v[pick(len(v))] }

// after is a fate with one delay.
func after(name string, d time.Duration) vnet.Fate {
	return vnet.Fate{Name: name, Delays: []time.Duration{d}}
}
