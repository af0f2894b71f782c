package main

import (
	"fmt"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

func init() {
	// a continuous loss streak of every length
	streak := func(ack bool) func(int) {
		return func(tier int) {
			p := newPair(pairOpt{})
			w := watch()
			up := pick(2) == 0
			k := pick(103) // number of lost transmissions
			lost := 0
			wr, rd := p.C, p.S
			if !up {
				wr, rd = p.S, p.C
			}
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if lost < k && (!ack && isData(d) && d.Src.String() == wr.addr() || ack && wType(d.Data) == wAck && d.Src.String() == rd.addr()) {
					lost++
					return &vnet.Drop
				}
				return nil
			}
			st := p.Up
			ch := p.Ch
			if up {
				p.up(40)
			} else {
				p.down(40)
				st = p.Down
				ch = p.Sch
			}
			if ack && !up {
				// the client must stay audible: it writes now and then
				p.OnUp = func(*tru.Channel, *tru.Packet) {}
				p.C.spawn("chatter", func() {
					for !p.Ch.Destroyed() {
						p.Ch.WriteTo([]byte("I am here"))
						rt.Sleep(2 * time.Second)
					}
				})
			}
			sends := func() int { return w.count(wr.addr(), wData) }
			over := func() bool {
				return ch.Destroyed() || st.Got == 1 && (!ack || lost == k && w.find(wr.addr()+">"+rd.addr(), 0).acked >= 0)
			}
			if !rt.Poll(400*time.Second, 20*time.Millisecond, over) {
				rt.Fail("after %d lost transmissions the packet was neither delivered nor given up: %d sent", k, sends())
			}
			pass(10 * time.Millisecond)
			if k <= 100 {
				if ch.Destroyed() {
					rt.Fail("connection destroyed after %d of 100 retransmissions (%d losses)", sends()-1, lost)
				}
				if sends() != k+1 || st.Got != 1 {
					rt.Fail("%d losses: %d transmissions, %d deliveries", k, sends(), st.Got)
				}
				// the connection is still good
				if up {
					p.up(30)
				} else {
					p.down(30)
				}
				if !rt.WaitUntil(2*time.Second, p.allDelivered) {
					rt.Fail("the next message does not arrive within 2 s on a perfect network")
				}
				return
			}
			if sends() != 101 {
				rt.Fail("connection given up after %d retransmissions, expected 100", sends()-1)
			}
			if ack && st.Got != 1 {
				rt.Fail("message delivered %d times", st.Got)
			}
			errs := p.CErr
			if !up {
				errs = p.SErr
			}
			if len(errs) != 1 || errs[0] != tru.ErrChannelDestroyed.Error() {
				rt.Fail("connection given up, reader told: %v", errs)
			}
			var err error
			wr.do(func() { _, err = ch.WriteTo([]byte("x")) })
			if err == nil {
				rt.Fail("write succeeds after the connection was given up")
			}
			n := sends()
			pass(10 * time.Second)
			if sends() != n {
				rt.Fail("data sent after the connection was given up")
			}
		}
	}
	add(&Scenario{Prop: "C02", Name: "loss-streak", Max: [2]int{0, 0},
		Desc: "the data packet is lost k times in a row, every k from 0 to 102, either side writing", Body: streak(false)})
	add(&Scenario{Prop: "C02", Name: "ack-loss-streak", Max: [2]int{0, 0},
		Desc: "the acknowledgement is lost k times in a row, every k from 0 to 102, either side writing", Body: streak(true)})
	add(&Scenario{Prop: "C02", Name: "burst", Max: [2]int{3, 5},
		Desc: "bursts in both directions, every datagram may be lost or delayed past a retransmission",
		Body: func(int) {
			p := newPair(pairOpt{})
			watch()
			p.fates(nil, vnet.OK, vnet.Drop, vnet.Later, vnet.Dup)
			rt.SetROI(rt.ROI{Net: true})
			for i := 0; i < 3; i++ {
				p.up(20)
				p.down(90)
			}
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
			pass(8 * time.Second)
			if p.Ch.Destroyed() || p.Sch.Destroyed() {
				rt.Fail("the connection was destroyed although the network delivers everything")
			}
		}})
	add(&Scenario{Prop: "C02", Name: "triptime", Max: [2]int{0, 0},
		Desc: "networks of every delay from 1 ms to 2.5 s, whole and split messages, at different moments of the retransmission timer: everything arrives, pauses keep to the rules, and nothing is sent twice when round trips take less than 200 ms",
		Body: func(int) {
			p := newPair(pairOpt{maxData: sel(0, 70)})
			pass(time.Duration(pick(4)) * 27 * time.Millisecond)
			watch()
			d := time.Duration([]int{1, 10, 20, 29, 30, 31, 60, 99, 100, 101, 150, 250, 500, 1000, 1600, 2500}[pick(16)]) * time.Millisecond
			n := 1 + pick(4)
			p.Net.Force = func(*vnet.Dgram) *vnet.Fate { f := after("slow", d); return &f }
			for i := 0; i < 6; i++ {
				for j := 0; j < n; j++ {
					p.up(20)
					p.down(70 + 100*(i%2))
				}
				pass(time.Duration(1+i%3) * 700 * time.Millisecond)
			}
			p.settle(60 * time.Second)
			if sent := map[string]bool{}; d < 100*time.Millisecond {
				for _, g := range p.Net.Log {
					if k := fmt.Sprint(g.Src, wID(g.Data)); isData(g) {
						if sent[k] {
							rt.Fail("packet %d is sent again although nothing is lost and its acknowledgement takes %v", wID(g.Data), 2*d)
						}
						sent[k] = true
					}
				}
			}
			if d > 600*time.Millisecond {
				return // the keepalive is not made for round trips of this length
			}
			pass(20 * time.Second)
			if p.Ch.Destroyed() || p.Sch.Destroyed() {
				rt.Fail("the connection was destroyed although the network delivers everything with a delay of %v", d)
			}
		}})
	add(&Scenario{Prop: "C02", Name: "write-vs-retransmit", Stalls: held, Max: [2]int{2, 3},
		Desc: "a message is written at the moment the retransmission timer ticks, and its first copy is lost, under every schedule; nothing else is written",
		Body: func(int) {
			p := newPair(pairOpt{})
			pre := pick(2) == 1
			at := rt.Now() + sel(91*time.Millisecond, 291*time.Millisecond) + time.Duration(pick(6))*800*time.Microsecond
			lost := map[int]bool{}
			n := 0
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if wType(d.Data) == wData && rt.Now() > at-3*time.Millisecond && !lost[wID(d.Data)] {
					lost[wID(d.Data)] = true
					n++
					return &vnet.Drop
				}
				return nil
			}
			if pre {
				p.up(20)
			}
			rt.Sleep(at - rt.Now() - 100*time.Microsecond)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Timer: time.Millisecond})
			t := p.C.spawn("write", func() { p.up(80) })
			rt.WaitUntil(1500*time.Microsecond, func() bool { return false })
			wait(time.Second, t)
			quiet(0)
			p.settle(20 * time.Second)
			rt.Observe("%d", n)
		}})
	add(&Scenario{Prop: "C02", Name: "ack-vs-retransmit", Stalls: held, Max: [2]int{2, 3}, Kind: [rt.NumKinds]int{rt.KNet: 1},
		Desc: "the acknowledgement arrives at the moment of a retransmission, under every schedule",
		Body: func(int) {
			p := newPair(pairOpt{})
			w := watch()
			w.slack = time.Millisecond
			// the acknowledgement of the first packet arrives around the tick
			// of the retransmission timer (every 100 ms)
			at := rt.Now() + 291*time.Millisecond + time.Duration(pick(8))*800*time.Microsecond
			key := p.C.addr() + ">" + p.S.addr()
			sent := false
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if wType(d.Data) == wAck && !sent {
					sent = true
					f := after("tick", at-rt.Now())
					return &f
				}
				return nil
			}
			p.up(20)
			p.up(80)
			rt.Sleep(at - rt.Now() - 1200*time.Microsecond)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Timer: time.Millisecond})
			rt.WaitUntil(250*time.Millisecond, func() bool { return w.find(key, 0).acked >= 0 })
			pass(2 * time.Millisecond)
			p.settle(20 * time.Second)
		}})
}
