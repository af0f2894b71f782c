package main

import (
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// delivery is the oracle of one delivery callback.
type delivery struct {
	name    string
	at      time.Duration
	timeout time.Duration
	calls   int
	err     error
	when    time.Duration
	acked   func() bool
}

func (d *delivery) call(pac *tru.Packet, err error) {
	rt.Observe("%s called, error %v", d.name, err != nil)
	d.calls++
	if d.calls > 1 {
		rt.Fail("%s: called again (errors %v, then %v)", d.name, d.err, err)
	}
	d.err = err
	d.when = rt.Now() - d.at
	if pac == nil {
		rt.Fail("%s: called without a packet", d.name)
	}
	if err == nil && !d.acked() {
		rt.Fail("%s: success reported before the acknowledgement arrived", d.name)
	}
	if err != nil && d.when < d.timeout {
		rt.Fail("%s: error %v after %v, timeout is %v", d.name, err, d.when, d.timeout)
	}
}

// done checks the callback at the end; t is the time allowed after the timeout.
func (d *delivery) done() {
	if d.calls != 1 {
		rt.Fail("%s: callback called %d times", d.name, d.calls)
	}
	if d.when > d.timeout+100*time.Millisecond+rt.Stall() {
		rt.Fail("%s: called after %v, timeout is %v", d.name, d.when, d.timeout)
	}
}

func newDelivery(name string, timeout time.Duration, acked func() bool) *delivery {
	return &delivery{name: name, at: rt.Now(), timeout: timeout, acked: acked}
}

func init() {
	add(&Scenario{Prop: "C06", Name: "faults", Max: [2]int{3, 5},
		Desc: "three writes with callbacks of 5 s, 1 s and 250 ms; data and acknowledgements lost, repeated, delayed",
		Body: func(int) {
			p := newPair(pairOpt{})
			w := watch()
			key := p.C.addr() + ">" + p.S.addr()
			p.fates(nil, vnet.OK, vnet.Drop, vnet.Dup, vnet.Late, vnet.Later, after("late2", 245*time.Millisecond))
			rt.SetROI(rt.ROI{Net: true})
			var l []*delivery
			for i, t := range []time.Duration{5 * time.Second, time.Second, 250 * time.Millisecond} {
				i := i
				d := newDelivery([]string{"default", "1s", "250ms"}[i], t, func() bool { s := w.find(key, i); return s != nil && s.acked >= 0 })
				if i == 0 {
					p.up(10, d.call)
				} else {
					p.up(10+40*i, tru.PacketDeliveryFunc(d.call), t)
				}
				l = append(l, d)
			}
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
			pass(6 * time.Second)
			for _, d := range l {
				d.done()
			}
		}})
	add(&Scenario{Prop: "C06", Name: "split", Max: [2]int{2, 3},
		Desc: "callbacks of split messages fire once per message",
		Body: func(int) {
			p := newPair(pairOpt{maxData: 10})
			w := watch()
			server := pick(2) == 1
			key := dirKeyOf(p, server)
			p.fates(nil, vnet.OK, vnet.Drop, vnet.Dup, vnet.Later)
			rt.SetROI(rt.ROI{Net: true})
			var l []*delivery
			id := -1
			for i, n := range []int{25, 10, 11} {
				id += (n + 9) / 10
				last := id
				d := newDelivery(sel2(i), 3*time.Second, func() bool { s := w.find(key, last); return s != nil && s.acked >= 0 })
				if server {
					p.down(n, d.call, 3*time.Second)
				} else {
					p.up(n, 3*time.Second, d.call)
				}
				l = append(l, d)
			}
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
			pass(6 * time.Second)
			for _, d := range l {
				d.done()
			}
		}})
	add(&Scenario{Prop: "C06", Name: "ack-meets-timeout", Stalls: held, Max: [2]int{2, 3},
		Desc: "the acknowledgement arrives at the moment of the timeout, under every schedule and timer order",
		Body: func(int) {
			p := newPair(pairOpt{})
			w := watch()
			w.off = true
			key := p.C.addr() + ">" + p.S.addr()
			timeout := sel(150*time.Millisecond, 60*time.Millisecond)
			start := rt.Now()
			at := start + timeout + time.Duration(pick(7)-3)*300*time.Microsecond
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if wType(d.Data) == wAck {
					f := after("at-timeout", at-rt.Now())
					return &f
				}
				return nil
			}
			d := newDelivery("callback", timeout, func() bool { return w.find(key, 0).acked >= 0 })
			p.up(20, d.call, timeout)
			rt.Sleep(at - rt.Now() - 1100*time.Microsecond)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Timer: time.Millisecond})
			rt.WaitUntil(20*time.Millisecond, func() bool { return d.calls > 0 && w.find(key, 0).acked >= 0 })
			pass(2 * time.Millisecond)
			quiet(7 * time.Second)
			d.done()
		}})
	add(&Scenario{Prop: "C06", Name: "close", Stalls: held, Max: [2]int{2, 3}, Kind: [rt.NumKinds]int{rt.KNet: 1},
		Desc: "the connection is closed by either side, or its node, while callbacks are pending, under every schedule",
		Body: func(int) {
			p := newPair(pairOpt{})
			w := watch()
			w.off = true
			key := p.C.addr() + ">" + p.S.addr()
			p.fates(nil, vnet.OK, vnet.Drop, vnet.Late)
			how := pick(4)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Net: true})
			d := newDelivery("callback", 300*time.Millisecond, func() bool { return w.find(key, 0).acked >= 0 })
			accepted := false
			a := p.C.spawn("writer", func() {
				accepted = true
				d.at = rt.Now()
				if p.up(20, d.call, 300*time.Millisecond) != nil {
					accepted = false
				}
			})
			var b *task
			switch how {
			case 0:
				b = p.C.spawn("closer", func() { p.Ch.Close() })
			case 1:
				b = p.S.spawn("closer", func() { p.Sch.Close() })
			case 2:
				b = p.C.spawn("closer", func() { p.C.Close() })
			case 3:
				b = p.S.spawn("closer", func() { p.S.Close() })
			}
			if !wait(5*time.Second, a, b) {
				rt.Fail("write or close does not return\n%s", rt.Dump())
			}
			pass(5 * time.Millisecond)
			quiet(5 * time.Second)
			if accepted {
				d.done()
			} else if d.calls != 0 {
				rt.Fail("callback called for a write that failed")
			}
		}})
	add(&Scenario{Prop: "C06", Name: "timeouts", Max: [2]int{0, 0},
		Desc: "the peer never answers: every timeout from 0 to 10 s fires once, in time",
		Body: func(int) {
			p := newPair(pairOpt{})
			w := watch()
			w.off = true
			ms := []int{0, 1, 29, 30, 31, 99, 100, 101, 200, 500, 1000, 4999, 5000, 5001, 10000}[pick(15)]
			server := pick(2) == 1
			dead := pick(2) == 1
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if dead || isData(d) {
					return &vnet.Drop
				}
				return nil
			}
			d := newDelivery("callback", time.Duration(ms)*time.Millisecond, func() bool { return false })
			if server {
				p.down(20, d.call, d.timeout)
			} else {
				p.up(20, d.call, d.timeout)
			}
			pass(20 * time.Second)
			d.done()
			if d.err == nil {
				rt.Fail("success reported although nothing arrives")
			}
		}})
	add(&Scenario{Prop: "C06", Name: "no-retransmit-after", Max: [2]int{2, 3},
		Desc: "writes with and without callbacks mixed, from inside callbacks too",
		Body: func(int) {
			p := newPair(pairOpt{})
			w := watch()
			key := p.C.addr() + ">" + p.S.addr()
			p.fates(nil, vnet.OK, vnet.Drop, vnet.Dup)
			rt.SetROI(rt.ROI{Net: true})
			d1 := newDelivery("first", 2*time.Second, func() bool { return w.find(key, 0).acked >= 0 })
			var d2 *delivery
			p.up(5, func(pac *tru.Packet, err error) {
				d1.call(pac, err)
				d2 = newDelivery("second", 2*time.Second, func() bool {
					for _, s := range w.data[key] {
						if s.id > 1 && s.acked >= 0 {
							return true
						}
					}
					return false
				})
				m := msg("up", len(p.Up.Sent), 30)
				p.Up.Sent = append(p.Up.Sent, m)
				p.Ch.WriteTo([]byte(m), d2.call, 2*time.Second)
			}, 2*time.Second)
			p.up(70)
			rt.WaitUntil(450*time.Millisecond, func() bool { return p.allDelivered() && len(p.Up.Sent) == 3 })
			p.settle(20 * time.Second)
			pass(6 * time.Second)
			d1.done()
			d2.done()
		}})
}

func sel2(i int) string { return []string{"first", "second", "third"}[i] }
