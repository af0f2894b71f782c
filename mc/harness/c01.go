package main

import (
	"time"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

func init() {
	add(&Scenario{Prop: "C01", Name: "oneway-net", Max: [2]int{3, 5},
		Desc: "client writes 4 messages (10, 100, 0, 64 bytes); every datagram may be lost, duplicated, delayed by 4 ms or 330 ms",
		Body: func(int) {
			p := newPair(pairOpt{})
			p.fates(nil, vnet.OK, vnet.Drop, vnet.Dup, vnet.Late, vnet.Later, vnet.Dup2)
			rt.SetROI(rt.ROI{Net: true})
			for _, n := range []int{10, 100, 0, 64} {
				p.up(n)
			}
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
		}})
	add(&Scenario{Prop: "C01", Name: "twoway-net", Max: [2]int{2, 4},
		Desc: "both sides write 3 messages at once; every datagram may be lost, duplicated, delayed",
		Body: func(int) {
			p := newPair(pairOpt{})
			p.fates(nil, vnet.OK, vnet.Drop, vnet.Dup, vnet.Late, vnet.Later)
			rt.SetROI(rt.ROI{Net: true})
			a := p.C.spawn("up", func() {
				for _, n := range []int{10, 70, 20} {
					p.up(n)
				}
			})
			b := p.S.spawn("down", func() {
				for _, n := range []int{80, 5, 30} {
					p.down(n)
				}
			})
			wait(5*time.Second, a, b)
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
		}})
	add(&Scenario{Prop: "C01", Name: "long-gap", Max: [2]int{0, 0},
		Desc: "one packet is lost and 10 to 6000 (thorough: 30000) later ones arrive before its retransmission, in either direction; with the first, a middle or two packets lost",
		Body: func(tier int) {
			p := newPair(pairOpt{})
			st := p.Up
			wr, write := p.C, p.up
			if pick(2) == 1 {
				st, wr, write = p.Down, p.S, p.down
			}
			n := []int{10, 40, 150, 600, 1500, 6000, 30000}[pick(6+tier)]
			lose := map[int]bool{}
			switch pick(3) {
			case 0:
				lose[0] = true
			case 1:
				lose[n/3] = true
			case 2:
				lose[1], lose[n/2] = true, true
			}
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if isData(d) && d.Src.String() == wr.addr() && lose[wID(d.Data)] {
					delete(lose, wID(d.Data))
					return &vnet.Drop
				}
				return nil
			}
			for i := 0; i < n; i++ {
				write(4 + i%3*40)
			}
			if st.Got >= n && len(lose) > 0 {
				rt.Fail("HARNESS: nothing was lost")
			}
			p.settle(30 * time.Second)
			pass(7 * time.Second)
			if p.Ch.Destroyed() || p.Sch.Destroyed() {
				rt.Fail("the connection ended after a gap of %d packets", n)
			}
		}})
	add(&Scenario{Prop: "C01", Name: "twoway-sched", Stalls: held, Max: [2]int{1, 2}, Kind: [rt.NumKinds]int{rt.KNet: 1},
		Desc: "both sides write 2 messages at once under every schedule of statement-level switches, with one datagram disturbed",
		Body: func(int) {
			p := newPair(pairOpt{})
			p.fates(isData, vnet.OK, vnet.Drop, vnet.Dup, vnet.Late)
			rt.SetROI(rt.ROI{Net: true, Sched: true, Stmt: true})
			a := p.C.spawn("up", func() { p.up(10); p.up(70) })
			b := p.S.spawn("down", func() { p.down(80); p.down(5) })
			wait(5*time.Second, a, b)
			rt.WaitUntil(20*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
		}})
}
