package main

import (
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

const idSpace = 0x100000

var idPositions = func() (l []uint32) {
	for _, b := range []uint32{0, 0x100, 0x8000, 0x10000, 0x20000, 0x40000, 0x80000, idSpace} {
		for d := -4; d <= 1; d++ {
			l = append(l, uint32(int(b)+d+idSpace)%idSpace)
		}
	}
	return
}()

var wrapPositions = []uint32{idSpace - 1, idSpace - 2, idSpace - 3, idSpace/2 - 1, idSpace / 2}

func init() {
	at := func(p *Pair, id uint32) { _ = setID(p.Ch, id, id) && setID(p.Sch, id, id) }
	add(&Scenario{Prop: "C03", Name: "wrap-net", Max: [2]int{2, 4},
		Desc: "5 messages each way starting just before the wrap or the middle, faults on every datagram",
		Body: func(int) {
			p := newPair(pairOpt{})
			at(p, wrapPositions[pick(len(wrapPositions))])
			watch()
			p.fates(nil, vnet.OK, vnet.Drop, vnet.Dup, vnet.Late, vnet.Later)
			rt.SetROI(rt.ROI{Net: true})
			for i := 0; i < 4; i++ {
				p.up([]int{10, 70, 0, 30}[i])
			}
			p.down(20)
			p.down(80)
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
		}})
	add(&Scenario{Prop: "C03", Name: "positions", Max: [2]int{1, 2},
		Desc: "6 messages each way from every position around every power of two",
		Body: func(int) {
			p := newPair(pairOpt{})
			at(p, idPositions[pick(len(idPositions))])
			watch()
			p.fates(isData, vnet.OK, vnet.Drop, vnet.Dup, vnet.Late)
			rt.SetROI(rt.ROI{Net: true})
			for i := 0; i < 6; i++ {
				p.up(10 + i)
				p.down(70 + i)
			}
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
		}})
	add(&Scenario{Prop: "C03", Name: "split-wrap", Max: [2]int{2, 3},
		Desc: "messages split over the wrap, faults on every datagram",
		Body: func(int) {
			p := newPair(pairOpt{maxData: sel(5, 70)})
			at(p, sel[uint32](idSpace-1, idSpace-2, idSpace-4))
			watch()
			p.fates(isData, vnet.OK, vnet.Drop, vnet.Dup, vnet.Late, vnet.Later)
			rt.SetROI(rt.ROI{Net: true})
			n := 20
			if p.C.newMax() == 70 {
				n = 270
			}
			p.up(n)
			p.up(3)
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
		}})
	add(&Scenario{Prop: "C03", Name: "delivery-wrap", Max: [2]int{2, 3},
		Desc: "delivery callbacks across the wrap with faults",
		Body: func(int) {
			p := newPair(pairOpt{})
			at(p, sel[uint32](idSpace-1, idSpace-2, idSpace/2-1))
			p.fates(nil, vnet.OK, vnet.Drop, vnet.Dup, vnet.Later)
			rt.SetROI(rt.ROI{Net: true})
			calls := make([]int, 4)
			for i := 0; i < 4; i++ {
				i := i
				p.up(10+20*i, func(pac *tru.Packet, err error) {
					calls[i]++
					if err != nil {
						rt.Fail("delivery callback of message %d: %v", i, err)
					}
				})
			}
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
			pass(6 * time.Second)
			for i, n := range calls {
				if n != 1 {
					rt.Fail("delivery callback of message %d called %d times", i, n)
				}
			}
		}})
	offs := []int{0, 1, 2, 3, 10, 100, 255, 256, 1000, 32767, 32768, 65535, 65536, 100000, 262143, 262144, 400000,
		524286, 524287, 524288, 524289, 524290, 600000, 786432, 900000, 983040, 1040000, 1048319, 1048320, 1048574, 1048575}
	add(&Scenario{Prop: "C03", Name: "half-space", Max: [2]int{0, 0},
		Desc: "a packet at every kind of distance from the expected number is taken as early or as already received",
		Body: func(int) {
			p := newPair(pairOpt{})
			exp := []uint32{0, 1, 5, 0x7FFFF, 0x80000, 0x80001, 0xC0000, idSpace - 2, idSpace - 1}[pick(9)]
			off := offs[pick(len(offs))]
			up := pick(2) == 0
			rd, ch, other := p.S, p.Sch, p.Ch
			st := p.Up
			if !up {
				rd, ch, other = p.C, p.Ch, p.Sch
				st = p.Down
			}
			if !setID(ch, 0, exp) || !setID(other, (exp+uint32(off))%idSpace, 0) {
				return
			}
			w := watch()
			w.off = true
			if up {
				p.up(20)
			} else {
				p.down(20)
			}
			pass(20 * time.Millisecond)
			var s tru.ChannelsStatistic
			rd.do(func() { s = rd.Statistic() })
			if len(s) != 1 {
				rt.Fail("%d statistic entries", len(s))
			}
			got, parked, dropped := 0, 0, 0
			switch {
			case off == 0:
				got = 1
			case off < idSpace/2:
				parked = 1
			default:
				dropped = 1
			}
			if st.Got != got || int(s[0].RQ) != parked || int(s[0].Drop) != dropped {
				rt.Fail("expected number %d, packet %d ahead: delivered %d, kept for later %d, dropped %d; should be %d, %d, %d",
					exp, off, st.Got, s[0].RQ, s[0].Drop, got, parked, dropped)
			}
			if w.count(rd.addr(), wAck) != 1 {
				rt.Fail("packet %d ahead was acknowledged %d times", off, w.count(rd.addr(), wAck))
			}
		}})
	farApart := func(n int) {
		p := newPair(pairOpt{})
		p.Net.Keep = false
		rt.SetStill(100 * int64(n))
		// the server's side: the client's slows down while a packet is unanswered
		acks := pick(2) == 1
		from, to := p.S.addr(), p.C.addr()
		first, lost := -1, true
		p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
			if isData(d) && d.Src.String() == from && first < 0 {
				first = wID(d.Data)
			}
			if lost && first >= 0 && wID(d.Data) == first &&
				(!acks && isData(d) && d.Src.String() == from || acks && wType(d.Data) == wAck && d.Src.String() == to) {
				return &vnet.Drop
			}
			return nil
		}
		for i := 0; i < n; i++ {
			if p.down(9); i%500 == 499 {
				pass(5 * time.Millisecond)
			}
		}
		pass(time.Second)
		if acks && p.Down.Got != n {
			rt.Fail("%d of %d messages have arrived", p.Down.Got, n)
		}
		lost = false
		if !rt.WaitUntil(20*time.Second, p.allDelivered) {
			rt.Fail("%d of %d messages have arrived", p.Down.Got, n)
		}
		pass(4 * time.Second)
		p.settle(20 * time.Second)
		// everything is acknowledged: nothing is sent again
		sent := 0
		p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
			if isData(d) {
				sent++
			}
			return nil
		}
		pass(7 * time.Second)
		if sent > 0 {
			rt.Fail("%d packets are sent in the 7 s after the last message arrived", sent)
		}
		if p.Ch.Destroyed() || p.Sch.Destroyed() {
			rt.Fail("the connection was destroyed")
		}
	}
	add(&Scenario{Prop: "C03", Name: "far-apart", Max: [2]int{0, 0},
		Desc: "one packet, or its acknowledgement, is lost again and again while 66000 further messages are written",
		Body: func(int) { farApart(66000) }})
	gaps := []int{1, 2, 1000, 262144, 524285, 524286, 524287, 524288, 524289, 786432, 1048570, 1048575}
	add(&Scenario{Prop: "C03", Name: "window", Max: [2]int{0, 0},
		Desc: "a message is written when the first unanswered packet is up to all numbers behind: it is refused or its packets are not taken for already received",
		Body: func(int) {
			parts := 1 + 2*pick(2)
			p := newPair(pairOpt{maxData: 70})
			up := pick(2) == 0
			base := []uint32{0, 5, idSpace / 2, idSpace - 2}[pick(4)]
			gap := gaps[pick(len(gaps))]
			rd, snd, other, st, write := p.S, p.Ch, p.Sch, p.Up, p.up
			if !up {
				rd, snd, other, st, write = p.C, p.Sch, p.Ch, p.Down, p.down
			}
			if !setID(snd, base, 0) || !setID(other, 0, base) {
				return
			}
			lost := true
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if lost && isData(d) {
					return &vnet.Drop
				}
				return nil
			}
			write(20)
			pass(2 * time.Millisecond)
			// as if the messages in between had been written and acknowledged
			if !setID(snd, (base+uint32(gap))%idSpace, 0) {
				return
			}
			w := watch()
			w.off = true
			err := write(70*parts - 20)
			lost = false
			rt.Sleep(3 * time.Second)
			var s tru.ChannelsStatistic
			rd.do(func() { s = rd.Statistic() })
			if len(s) != 1 {
				rt.Fail("%d statistic entries", len(s))
			}
			switch {
			case err != nil:
				if gap <= 1000 {
					rt.Fail("the write of a message %d numbers after the first unanswered packet is refused: %v", gap, err)
				}
				if st.Got != 1 || w.count(rd.addr(), wAck) != 1 {
					rt.Fail("a refused message was sent in part")
				}
			case gap == 1:
				if st.Got != 2 {
					rt.Fail("%d of 2 messages delivered", st.Got)
				}
			default:
				if int(s[0].RQ) != parts {
					rt.Fail("a message of %d packets was accepted %d numbers after the first unanswered packet, its peer kept %d of the packets, acknowledged %d and dropped %d",
						parts, gap, s[0].RQ, w.count(rd.addr(), wAck)-1, s[0].Drop)
				}
			}
		}})
	add(&Scenario{Prop: "C03", Name: "whole-space", Max: [2]int{0, 0}, ThoroughOnly: true,
		Desc: "more messages than there are numbers on one connection",
		Body: func(int) {
			p := newPair(pairOpt{})
			p.Net.Keep = false
			const batch = 500
			for n := 0; n < idSpace+2000; n += batch {
				p.Up.Sent, p.Up.Got = nil, 0
				for i := 0; i < batch; i++ {
					p.up(9)
				}
				if !rt.WaitUntil(20*time.Second, p.allDelivered) {
					rt.Fail("message after number %d does not arrive", n)
				}
			}
		}})
}
