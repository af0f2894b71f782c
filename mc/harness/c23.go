package main

import (
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// punched collects what a punch callback was given and knows what it must get.
type punched struct {
	n    *Node
	got  []string
	keep [][]byte // the slices given to the callback
	want []string
}

func punchLine(from string, data []byte) string { return fmt.Sprintf("%s %x", from, data) }

func (p *punched) cb(addr net.Addr, data []byte) {
	p.got = append(p.got, punchLine(addr.String(), data))
	p.keep = append(p.keep, data)
}

// expect counts every punch datagram that arrives at the node.
func expectPunch(ps ...*punched) {
	vnet.Get().OnDeliver = func(d *vnet.Dgram) {
		if wType(d.Data) != wPunch {
			return
		}
		for _, p := range ps {
			if d.Dst.String() == p.n.addr() {
				p.want = append(p.want, punchLine(d.Src.String(), d.Data[4:]))
			}
		}
	}
}

// check compares once nothing is under way.
func (p *punched) check(what string) {
	a, b := append([]string(nil), p.got...), append([]string(nil), p.want...)
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		rt.Fail("%s: punch callback of %s was called with\n%s\nreceived was\n%s", what, p.n.Owner, cut(a), cut(b))
	}
	for i, k := range p.keep {
		if !strings.HasSuffix(p.got[i], fmt.Sprintf(" %x", k)) {
			rt.Fail("%s: the data given to the punch callback of %s changed later", what, p.n.Owner)
		}
	}
}

func cut(l []string) string {
	s := strings.Join(l, "\n")
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// snapshot is what a punch packet must not change.
func snapshot(ns ...*Node) (l []string) {
	for _, n := range ns {
		for _, ch := range n.channels() {
			l = append(l, fmt.Sprintf("%s %p %v", n.Owner, ch, ch.Destroyed()))
		}
		n.do(func() {
			for _, s := range n.Statistic() {
				l = append(l, fmt.Sprint(n.Owner, s.Addr, s.Send, s.Rsnd, s.Recv, s.Ack, s.AckD, s.Drop, s.SQ, s.RQ))
			}
		})
	}
	sort.Strings(l)
	return
}

func init() {
	add(&Scenario{Prop: "C23", Name: "lengths", Max: [2]int{0, 0},
		Desc: "every payload length from 0 to 300 and the largest ones, with patterns that look like other packets, sent to host name or UDP address, with and without a connection, the callback given as parameter, as function or set later",
		Body: func(tier int) {
			a, b := &punched{}, &punched{}
			way := pick(3)
			var par []interface{}
			switch way {
			case 0:
				par = append(par, tru.PunchFunc(b.cb))
			case 1:
				par = append(par, b.cb)
			}
			p := newPair(pairOpt{noConnect: true, sParams: par, cParams: []interface{}{tru.PunchFunc(a.cb)}})
			a.n, b.n = p.C, p.S
			if way == 2 {
				p.S.SetPunchCb(b.cb)
			}
			expectPunch(a, b)
			connected := pick(2) == 1
			if connected {
				p.connect()
				p.up(20)
				p.down(20)
				pass(100 * time.Millisecond)
			}
			before := snapshot(p.S, p.C)
			block := pick(8)
			sent := 0
			send := func(n int) {
				for fill := 0; fill < 3; fill++ {
					data := make([]byte, n)
					for i := range data {
						switch fill {
						case 0:
							data[i] = byte(i*7 + n)
						case 2:
							data[i] = 255
						}
					}
					src, dst := p.C, p.S
					if (n+fill)%2 == 1 {
						src, dst = p.S, p.C
					}
					var err error
					m := append([]byte(nil), data...)
					src.do(func() {
						if n%3 == 0 {
							_, err = src.WriteToPunch(m, dst.addr())
						} else {
							_, err = src.WriteToPunch(m, dst.udp())
						}
					})
					if err != nil {
						rt.Fail("punch of %d bytes: %v", n, err)
					}
					for i := range m { // the sender may use its buffer again
						m[i] ^= 0xA5
					}
					sent++
					pass(2 * time.Millisecond)
					l := append(append([]string(nil), a.got...), b.got...)
					if len(l) != sent {
						rt.Fail("punch of %d bytes from %s: callbacks were called %d times in all after %d punches", n, src.Owner, len(l), sent)
					}
					g := b
					if dst == p.C {
						g = a
					}
					if w := punchLine(src.addr(), data); g.got[len(g.got)-1] != w {
						rt.Fail("punch %s was reported as %s", w, g.got[len(g.got)-1])
					}
				}
			}
			for n := block; n <= 300; n += 8 {
				send(n)
			}
			for _, n := range []int{508, 1400, 1472, 9000, 65503 - block} {
				send(n)
			}
			a.check("lengths")
			b.check("lengths")
			if s := snapshot(p.S, p.C); strings.Join(s, "\n") != strings.Join(before, "\n") {
				rt.Fail("punch packets changed the connections from\n%s\nto\n%s", strings.Join(before, "\n"), strings.Join(s, "\n"))
			}
			if connected {
				p.up(70)
				p.down(70)
				p.settle(2 * time.Second)
			}
		}})
	add(&Scenario{Prop: "C23", Name: "positions", Stalls: held, Max: [2]int{1, 2},
		Desc: "punch packets from the peer, a stranger or to the client, at every moment of connecting, exchanging messages, closing and after it, lost, repeated and delayed",
		Body: func(int) {
			a, b := &punched{}, &punched{}
			p := newPair(pairOpt{noConnect: true, sParams: []interface{}{tru.PunchFunc(b.cb)}, cParams: []interface{}{tru.PunchFunc(a.cb)}})
			a.n, b.n = p.C, p.S
			other := node("other", 7100)
			expectPunch(a, b)
			src, dst := p.C, p.S
			switch pick(3) {
			case 1:
				src, dst = p.S, p.C
			case 2:
				src = other
			}
			size := sel(0, 1, 90)
			p.fates(nil, vnet.OK, vnet.Drop, vnet.Dup, vnet.Late)
			at := []time.Duration{0, 50, 150, 250, 350, 450, 600, 1100, 1300}[pick(9)] * time.Microsecond
			rt.SetROI(rt.ROI{Net: true, Sched: true})
			pt := src.spawn("punch", func() {
				rt.Sleep(at)
				for i := 0; i < 2; i++ {
					if _, err := src.WriteToPunch([]byte(msg("punch", i, size)), dst.addr()); err != nil {
						rt.Fail("punch: %v", err)
					}
				}
			})
			at1 := attemptTo(p.C, "connect", p.S.addr())
			at1.result()
			if !wait(time.Second, pt) {
				rt.Fail("WriteToPunch does not return")
			}
			if at1.err == nil {
				p.Ch = at1.ch
				p.findServerSide()
				p.up(30)
				pass(time.Millisecond)
				rt.SetROI(rt.ROI{})
				if !rt.WaitUntil(2*time.Second, p.allDelivered) {
					rt.Fail("the connection made while punch packets arrive carries no message\n%s", rt.Dump())
				}
				if p.Announce != 1 {
					rt.Fail("%d connections announced", p.Announce)
				}
				p.C.do(p.Ch.Close)
				src.do(func() { src.WriteToPunch([]byte("late"), dst.addr()) })
			} else {
				rt.SetROI(rt.ROI{})
				src.do(func() { src.WriteToPunch([]byte("late"), dst.addr()) })
			}
			pass(400 * time.Millisecond)
			a.check("positions")
			b.check("positions")
			for _, ch := range append(p.S.channels(), p.C.channels()...) {
				if at1.err == nil || ch.Addr().String() == other.addr() {
					rt.Fail("connection %s is there after close", ch.Addr())
				}
			}
			rt.Observe("%d %d", len(a.got), len(b.got))
		}})
	add(&Scenario{Prop: "C23", Name: "no-effect", Stalls: held, Max: [2]int{1, 2},
		Desc: "a burst of punch packets while messages are under way, with callbacks that answer, write or are missing, under every schedule and with faults on the punch packets",
		Body: func(int) {
			a, b := &punched{}, &punched{}
			p := newPair(pairOpt{})
			a.n, b.n = p.C, p.S
			expectPunch(a, b)
			answers := 0
			kind := pick(4) // plain, answer, write on the connection, no callback
			p.C.SetPunchCb(a.cb)
			if kind != 3 {
				p.S.SetPunchCb(func(addr net.Addr, data []byte) {
					b.cb(addr, data)
					switch {
					case kind == 1 && answers < 2:
						answers++
						if _, err := p.S.WriteToPunch(append([]byte("answer "), data...), addr); err != nil {
							rt.Fail("answer: %v", err)
						}
					case kind == 2 && answers < 2:
						answers++
						p.down(50)
					}
				})
			}
			p.fates(func(d *vnet.Dgram) bool { return wType(d.Data) == wPunch }, vnet.OK, vnet.Drop, vnet.Dup, vnet.Dup2)
			rt.SetROI(rt.ROI{Net: true, Sched: true, Stmt: true})
			t1 := p.C.spawn("punch", func() {
				p.C.WriteToPunch([]byte("one"), p.S.addr())
				p.C.WriteToPunch(nil, p.S.udp())
			})
			t2 := p.C.spawn("up", func() { p.up(30); p.up(70) })
			if !wait(time.Second, t1, t2) {
				rt.Fail("writes do not return\n%s", rt.Dump())
			}
			p.settle(2 * time.Second)
			a.check("burst")
			if kind == 3 {
				if len(b.got) != 0 {
					rt.Fail("callback called")
				}
			} else {
				b.check("burst")
			}
			if p.Announce != 1 || p.Ch.Destroyed() || p.Sch.Destroyed() || len(p.S.channels()) != 1 || len(p.C.channels()) != 1 {
				rt.Fail("punch packets changed the connections: announced %d, destroyed %v %v", p.Announce, p.Ch.Destroyed(), p.Sch.Destroyed())
			}
			rt.Observe("%d %d", len(a.got), len(b.got))
		}})
	add(&Scenario{Prop: "C23", Name: "keep-alive", Max: [2]int{0, 0},
		Desc: "punch packets from a silent peer or a stranger do not keep a dead connection, and from a live peer do not end one",
		Body: func(int) {
			b := &punched{}
			p := newPair(pairOpt{sParams: []interface{}{tru.PunchFunc(b.cb)}})
			b.n = p.S
			expectPunch(b)
			other := node("other", 7100)
			src := p.C
			if pick(2) == 1 {
				src = other
			}
			every := sel(100, 500, 900)
			n := sel(5, 30)
			for i := 0; i < n; i++ {
				src.do(func() { src.WriteToPunch([]byte{byte(i)}, p.S.addr()) })
				pass(time.Duration(every) * time.Millisecond)
			}
			b.check("regular punches")
			if len(b.got) != n {
				rt.Fail("%d punches of %d reported", len(b.got), n)
			}
			p.up(20)
			p.down(20)
			p.settle(time.Second)
			if p.Announce != 1 || p.Ch.Destroyed() || p.Sch.Destroyed() {
				rt.Fail("punch packets ended the connection")
			}
		}})
	add(&Scenario{Prop: "C23", Name: "no-life", Max: [2]int{0, 0},
		Desc: "the peer of a connection falls silent but for punch packets, or a stranger punches, at several rates: the connection ends just as with a silent peer, on either side",
		Body: func(int) {
			b, bc := &punched{}, &punched{}
			p := newPair(pairOpt{sParams: []interface{}{tru.PunchFunc(b.cb)}, cParams: []interface{}{tru.PunchFunc(bc.cb)}})
			last := map[string]time.Duration{}
			p.Net.OnDeliver = func(d *vnet.Dgram) {
				if wType(d.Data) != wPunch {
					last[d.Dst.String()+"<"+d.Src.String()] = rt.Now()
				}
			}
			p.OnUp = func(*tru.Channel, *tru.Packet) {}
			p.OnDown = func(*tru.Channel, *tru.Packet) {}
			n, ch, peer, cb := p.S, p.Sch, p.C, b
			if pick(2) == 1 {
				n, ch, peer, cb = p.C, p.Ch, p.S, bc
			}
			cb.n = n
			p.up(10)
			p.down(10)
			pass(time.Duration(pick(3)) * 170 * time.Millisecond)
			key := n.addr() + "<" + peer.addr()
			src := peer
			if pick(2) == 1 {
				src = node("other", 7100)
			}
			every := time.Duration(sel(90, 499, 1900, 3300)) * time.Millisecond
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if d.Src.String() == peer.addr() && wType(d.Data) != wPunch {
					return &vnet.Drop
				}
				return nil
			}
			spawn(src.Owner, "punches", func() {
				for i := 0; !ch.Destroyed(); i++ {
					src.WriteToPunch([]byte{byte(i)}, n.addr())
					rt.Sleep(every)
				}
			})
			if !rt.Poll(20*time.Second, 2*time.Millisecond, ch.Destroyed) {
				rt.Fail("the connection lives on although nothing but punch packets has arrived for 20 s")
			}
			since := rt.Now() - last[key]
			if since <= silence-5*time.Millisecond || since > silence+slack {
				rt.Fail("the connection ended %v after the last datagram other than a punch", since)
			}
			if len(cb.got) == 0 {
				rt.Fail("no punch was reported")
			}
		}})
}
