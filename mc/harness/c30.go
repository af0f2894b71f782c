package main

import (
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// C30: errors of the socket. A datagram that cannot be sent counts as lost, a
// read that fails as nothing read.
func init() {
	// calls counts the answers of a delivery callback
	type calls struct {
		n, bad int
		err    error
	}
	callback := func(c *calls) tru.PacketDeliveryFunc {
		return func(pac *tru.Packet, err error) {
			c.n++
			c.err = err
			if err != nil {
				c.bad++
			}
		}
	}
	alive := func(p *Pair, what string) {
		if p.Ch.Destroyed() || p.Sch.Destroyed() || len(p.SErr)+len(p.CErr) > 0 {
			rt.Fail("%s ended the connection (%v, %v)", what, p.CErr, p.SErr)
		}
	}
	add(&Scenario{Prop: "C30", Name: "write-errors", Max: [2]int{4, 5},
		Desc: "both sides write whole and split messages; every datagram of theirs, also an acknowledgement, may meet a write error, be lost or late: all arrive, once and in order, and the connection stays",
		Body: func(int) {
			p := newPair(pairOpt{maxData: 50})
			p.fates(nil, vnet.OK, vnet.WriteErr, vnet.Late)
			rt.SetROI(rt.ROI{Net: true})
			var c [2]calls
			for i, n := range []int{10, 120, 0} {
				if i == 1 {
					p.up(n, callback(&c[0]))
					p.down(n+5, callback(&c[1]))
					continue
				}
				p.up(n)
				p.down(n + 3)
			}
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
			alive(p, "write errors")
			for i := range c {
				if c[i].n != 1 || c[i].bad > 0 {
					rt.Fail("a delivery callback was called %d times, %d times with an error (%v)", c[i].n, c[i].bad, c[i].err)
				}
			}
			pass(9 * time.Second)
			alive(p, "write errors")
			p.up(20)
			p.down(20)
			p.settle(5 * time.Second)
		}})
	add(&Scenario{Prop: "C30", Name: "handshake", Max: [2]int{4, 5},
		Desc: "every datagram of a handshake may meet a write error, reads of either node fail at every step of it: connect succeeds or fails in time, the next attempt works",
		Body: func(int) {
			p := newPair(pairOpt{noConnect: true})
			var up []string
			p.OnUp = func(ch *tru.Channel, pac *tru.Packet) { up = append(up, string(pac.Data())) }
			p.fates(nil, vnet.OK, vnet.WriteErr, vnet.Late)
			who, at, k := pick(3), pick(6), sel(1, 3)
			rt.SetROI(rt.ROI{Net: true})
			a := p.attempt("connect")
			if who > 0 {
				n := sel(p.C, p.S)
				pass(time.Duration(at) * 500 * time.Microsecond)
				p.Net.FailReads(n.ip(), n.port, k)
			}
			pass(10 * time.Millisecond)
			rt.SetROI(rt.ROI{})
			a.result()
			if a.err != nil {
				lost := false
				for _, d := range p.Net.Log {
					lost = lost || d.Fate == vnet.WriteErr.Name
				}
				if !lost {
					rt.Fail("connect failed (%v) although everything was sent and arrived", a.err)
				}
				rt.Sleep(10 * time.Second)
				if len(p.C.channels())+len(p.S.channels()) > 0 {
					rt.Fail("a failed connect left connections: %d on the client, %d on the server", len(p.C.channels()), len(p.S.channels()))
				}
				a = p.attempt("again")
				a.result()
				if a.err != nil {
					rt.Fail("after write errors connect fails on a perfect network: %v", a.err)
				}
			}
			usable(p.C, p.S, a, &up)
			pass(9 * time.Second)
			if a.ch.Destroyed() || len(p.S.channels()) != 1 {
				rt.Fail("the fresh connection does not live")
			}
		}})
	add(&Scenario{Prop: "C30", Name: "outage", Max: [2]int{0, 0},
		Desc: "nothing can be sent by one side or both for 20 ms to 3.4 s, at different moments of the timers, idle or with messages written before, during and after it, whole or split: all arrive and the connection stays; an outage of 13.5 s ends it on both sides and a new one works",
		Body: func(int) {
			p := newPair(pairOpt{maxData: 40})
			side := pick(3)
			d := sel(20, 110, 400, 900, 2100, 2800, 3400, 13500)
			phase := sel(0, 60, 95, 330, 1000)
			load := pick(4)
			pass(time.Duration(phase) * time.Millisecond)
			write := func() {
				n := 8
				if load >= 2 {
					n = 130
				}
				if load == 0 {
					return
				}
				p.up(n)
				p.down(n)
			}
			if load == 3 {
				p.up(10)
			}
			on := true
			p.Net.Force = func(g *vnet.Dgram) *vnet.Fate {
				if on && (side == 2 || (side == 0) == (g.Src.String() == p.C.addr())) {
					return &vnet.WriteErr
				}
				return nil
			}
			write()
			pass(time.Duration(d/2) * time.Millisecond)
			if d < 6000 {
				write()
			}
			pass(time.Duration(d-d/2) * time.Millisecond)
			if d >= 6000 {
				if !p.Ch.Destroyed() || !p.Sch.Destroyed() {
					rt.Fail("a connection over which nothing can be sent for 13.5 s does not end: client %v, server %v", p.Ch.Destroyed(), p.Sch.Destroyed())
				}
				if len(p.CErr) != 1 || len(p.SErr) != 1 {
					rt.Fail("readers were told %d and %d times of the end", len(p.CErr), len(p.SErr))
				}
				on = false
				p.Sch, p.Ch, p.Up, p.Down, p.SErr, p.CErr = nil, nil, &Stream{Name: "up2"}, &Stream{Name: "down2"}, nil, nil
				p.connect()
			}
			on = false
			write()
			p.settle(12 * time.Second)
			alive(p, "an outage")
			pass(8 * time.Second)
			alive(p, "an outage")
			p.up(20)
			p.down(90)
			p.settle(time.Second)
		}})
	add(&Scenario{Prop: "C30", Name: "read-errors", Stalls: held, Max: [2]int{1, 2}, Kind: [rt.NumKinds]int{rt.KNet: 1},
		Desc: "reads of a node fail 1 or 40 times, once or twice, at any moment of messages in both directions: nothing is lost by it and the connections live on",
		Body: func(int) {
			p := newPair(pairOpt{maxData: 50})
			n := sel(p.C, p.S)
			at, k, again := pick(8), sel(1, 40), pick(2)
			p.fates(isData, vnet.OK, vnet.WriteErr, vnet.Late)
			rt.SetROI(rt.ROI{Net: true, Sched: true})
			a := p.C.spawn("up", func() { p.up(10); p.up(120) })
			b := p.S.spawn("down", func() { p.down(7); p.down(70) })
			pass(time.Duration(at) * 500 * time.Microsecond)
			p.Net.FailReads(n.ip(), n.port, k)
			if again > 0 {
				pass(time.Duration(again) * 700 * time.Microsecond)
				p.Net.FailReads(n.ip(), n.port, 1)
			}
			wait(5*time.Second, a, b)
			rt.WaitUntil(20*time.Millisecond, p.allDelivered)
			p.settle(10 * time.Second)
			alive(p, "read errors")
			p.Net.FailReads(n.ip(), n.port, k)
			pass(8 * time.Second)
			alive(p, "read errors")
			// a new connection
			o := node("oth", 0)
			t := attemptTo(o, "connect", n.addr())
			t.result()
			if t.err != nil {
				rt.Fail("connecting to a node whose reads failed: %v", t.err)
			}
		}})
	add(&Scenario{Prop: "C30", Name: "one-destination", Max: [2]int{0, 1},
		Desc: "a hub cannot send to one of three peers for a second, or ever again, while it writes to all: the others get their messages at once, all the time",
		Body: func(int) {
			s := newStar(pick(2) == 1, []string{"10.0.0.1/a", "10.0.0.2/b", "10.0.0.2/c"}, []int{5000, 5001, 5002})
			bad := pick(3)
			ever := pick(2) == 1
			size := sel(20, 3000)
			on := true
			n := vnet.Get()
			n.Force = func(g *vnet.Dgram) *vnet.Fate {
				if on && g.Src.String() == s.hub.addr() && g.Dst.String() == s.peers[bad].addr() {
					return &vnet.WriteErr
				}
				return nil
			}
			n.Fates = func(g *vnet.Dgram) []vnet.Fate { return []vnet.Fate{vnet.OK, vnet.WriteErr} }
			if ever {
				s.ended[bad] = true
			}
			for r := 0; r < 40; r++ {
				if r == 4 {
					on = ever
				}
				for i := range s.peers {
					s.send(^i, size)
					s.send(i, 30)
				}
				rt.SetROI(rt.ROI{Net: r == 1})
				pass(250 * time.Millisecond)
				for i := range s.peers {
					if i != bad && r != 1 && (s.in[i].Got < len(s.in[i].Sent) || s.out[i].Got < len(s.out[i].Sent)) {
						rt.Fail("peer %d waits for messages because the hub cannot send to peer %d (round %d)", i, bad, r)
					}
				}
				rt.SetROI(rt.ROI{})
			}
			if !rt.WaitUntil(10*time.Second, s.all) {
				rt.Fail("messages are missing after a destination was out of reach for a second")
			}
			for i := range s.peers {
				if i != bad && (s.ch[i].Destroyed() || s.hch[i].Destroyed()) {
					rt.Fail("connection %d has ended", i)
				}
			}
		}})
	add(&Scenario{Prop: "C30", Name: "close", Stalls: held, Max: [2]int{2, 3},
		Desc: "a connection or a node is closed, or the peer is closed, while nothing can be sent or reads fail, with or without unfinished messages: the call returns, everything is released and the peer notices",
		Body: func(int) {
			p := newPair(pairOpt{})
			n, ch, pch := p.C, p.Ch, p.Sch
			if pick(2) == 1 {
				n, ch, pch = p.S, p.Sch, p.Ch
			}
			how, load, reads := pick(2), pick(2), pick(2)
			on := true
			p.Net.Force = func(g *vnet.Dgram) *vnet.Fate {
				if on && g.Src.String() == n.addr() {
					return &vnet.WriteErr
				}
				return nil
			}
			var c calls
			if load == 1 {
				n.do(func() { ch.WriteTo([]byte("x"), callback(&c)); ch.WriteTo([]byte(msg("y", 0, 100))) })
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			if reads == 1 {
				p.Net.FailReads(n.ip(), n.port, 2)
			}
			t := n.spawn("close", func() {
				if how == 0 {
					ch.Close()
				} else {
					n.Close()
				}
			})
			wait(3*time.Millisecond, t)
			rt.SetROI(rt.ROI{})
			if !wait(time.Second, t) {
				rt.Fail("close does not return\n%s", rt.Dump())
			}
			if !ch.Destroyed() {
				rt.Fail("the connection is not destroyed after close")
			}
			if how == 1 {
				released(n, []*tru.Channel{ch}, 7*time.Second)
			}
			rt.Sleep(7 * time.Second)
			if !pch.Destroyed() {
				rt.Fail("the peer of a connection closed while nothing could be sent has not noticed it")
			}
			if c.n > 1 {
				rt.Fail("a delivery callback was called %d times", c.n)
			}
			on = false
			if how == 0 {
				// the node lives on
				o := node("oth", 0)
				t := attemptTo(n, "connect", o.addr())
				t.result()
				if t.err != nil {
					rt.Fail("connecting after an outage: %v", t.err)
				}
			}
		}})
	add(&Scenario{Prop: "C30", Name: "keep-alive", Max: [2]int{2, 2},
		Desc: "any two of the datagrams of 12 idle seconds meet a write error, and reads of either side fail 1 or 3 times every half second: the connection stays",
		Body: func(int) {
			p := newPair(pairOpt{})
			p.fates(nil, vnet.OK, vnet.WriteErr)
			k := pick(3)
			rt.SetROI(rt.ROI{Net: true})
			for i := 0; i < 24; i++ {
				pass(500 * time.Millisecond)
				if k > 0 {
					n := []*Node{p.C, p.S}[i/2%2]
					p.Net.FailReads(n.ip(), n.port, 2*k-1)
				}
			}
			p.settle(time.Second)
			alive(p, "write errors on an idle connection")
			p.up(10)
			p.down(10)
			p.settle(time.Second)
		}})
}
