package main

import (
	"net"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

func init() {
	// live checks a connection that must not have been touched
	live := func(p *Pair) {
		if p.Ch.Destroyed() || p.Sch.Destroyed() {
			rt.Fail("the connection was destroyed (client side %v, server side %v)", p.Ch.Destroyed(), p.Sch.Destroyed())
		}
		if len(p.SErr) > 0 || len(p.CErr) > 0 {
			rt.Fail("a reader was told that the connection ended: %v %v", p.SErr, p.CErr)
		}
		if p.Announce != 1 {
			rt.Fail("the server announced %d connections", p.Announce)
		}
		if l := p.S.channels(); len(l) != 1 || l[0] != p.Sch {
			rt.Fail("the server has %d connections or another one", len(l))
		}
		if l := p.C.channels(); len(l) != 1 || l[0] != p.Ch {
			rt.Fail("the client has %d connections or another one", len(l))
		}
	}
	handshake := func(p *Pair) (l []*vnet.Dgram) {
		for t := wConnect; t <= wDone; t++ {
			for _, d := range p.Net.Log {
				if wType(d.Data) == t {
					l = append(l, d)
					break
				}
			}
		}
		if len(l) != 4 {
			rt.Fail("HARNESS: handshake has %d datagrams", len(l))
		}
		return
	}
	talk := func(p *Pair) {
		p.up(30)
		p.down(90)
		p.up(80)
		p.down(7)
	}
	add(&Scenario{Prop: "C08", Name: "late-copies", Max: [2]int{0, 0},
		Desc: "every sequence of up to 4 late copies of the handshake datagrams, before, between and after messages in flight",
		Body: func(tier int) {
			p := newPair(pairOpt{})
			hs := handshake(p)
			where := pick(4)
			var seq []*vnet.Dgram
			for len(seq) < 4 {
				k := pick(5)
				if k == 0 {
					break
				}
				seq = append(seq, hs[k-1])
			}
			send := func(gap time.Duration) {
				for i, d := range seq {
					p.Net.Inject(d.Src, d.Dst, d.Data, time.Duration(i)*gap+100*time.Microsecond)
				}
			}
			switch where {
			case 0:
				send(0)
				pass(20 * time.Millisecond)
				talk(p)
			case 1:
				talk(p)
				send(300 * time.Microsecond)
			case 2:
				talk(p)
				pass(20 * time.Millisecond)
				send(7 * time.Millisecond)
				pass(40 * time.Millisecond)
				talk(p)
			case 3:
				p.up(30)
				send(0)
				p.down(90)
				pass(3 * time.Millisecond)
				send(time.Millisecond)
				talk(p)
			}
			p.settle(20 * time.Second)
			live(p)
			if where == 2 {
				pass(10 * time.Second)
				live(p)
			}
		}})
	add(&Scenario{Prop: "C08", Name: "repeated-by-network", Max: [2]int{4, 5},
		Desc: "the network repeats the handshake datagrams with several delays while messages flow",
		Body: func(int) {
			p := newPair(pairOpt{noConnect: true})
			d := func(x time.Duration) vnet.Fate {
				return vnet.Fate{Name: "again" + x.String(), Delays: []time.Duration{vnet.Latency, x}}
			}
			p.fates(isHandshake, vnet.OK, vnet.Dup, d(2*time.Millisecond), d(3*time.Millisecond), d(4*time.Millisecond), d(6*time.Millisecond), d(40*time.Millisecond), d(3*time.Second))
			rt.SetROI(rt.ROI{Net: true})
			p.C.do(func() {
				ch, err := p.C.Connect(p.S.addr(), p.clientReader)
				if err != nil {
					rt.Fail("connect failed although every datagram arrives: %v", err)
				}
				p.Ch = ch
			})
			rt.SetROI(rt.ROI{})
			p.up(20)
			if !rt.WaitUntil(time.Second, p.allDelivered) {
				rt.Fail("the first message does not arrive within 1 s")
			}
			p.findServerSide()
			if p.Sch == nil {
				rt.Fail("no connection on the server")
			}
			talk(p)
			pass(50 * time.Millisecond)
			talk(p)
			p.settle(20 * time.Second)
			pass(4 * time.Second)
			live(p)
		}})
	add(&Scenario{Prop: "C08", Name: "copy-races", Stalls: held, Max: [2]int{2, 3},
		Desc: "a copy of a handshake datagram arrives while both sides write, under every schedule",
		Body: func(int) {
			p := newPair(pairOpt{})
			d := handshake(p)[pick(4)]
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			a := p.C.spawn("up", func() { p.up(30) })
			b := p.S.spawn("down", func() { p.down(90) })
			p.Net.Inject(d.Src, d.Dst, d.Data, 0)
			wait(5*time.Second, a, b)
			rt.WaitUntil(5*time.Millisecond, p.allDelivered)
			quiet(0)
			p.settle(20 * time.Second)
			live(p)
		}})
	add(&Scenario{Prop: "C08", Name: "unasked", Max: [2]int{0, 0},
		Desc: "every kind of handshake answer nobody asked for, with foreign, empty or the connection's own identifier and any content, from the peer's or a foreign address, to either side",
		Body: func(int) {
			p := newPair(pairOpt{})
			hs := handshake(p)
			typ := sel(wServerAnswer, wClientAnswer, wDone)
			uid := pick(5)
			content := pick(4)
			toServer := pick(2) == 0
			foreign := pick(2) == 1
			busy := pick(2) == 1
			own := hs[1].Data[5 : 5+36]
			id := [][]byte{[]byte("01234567-89ab-cdef-0123-456789abcdef"), {}, own, own[:35], append([]byte(nil), make([]byte, 36)...)}[uid]
			body := append([]byte{byte(len(id))}, id...)
			if typ == wClientAnswer && uid == 2 && toServer && !foreign {
				// the connection's own answer with other content comes from the peer itself or from who knows its secret
				content = 0
			}
			switch content {
			case 1:
				body = append(body, 1, 2, 3)
			case 2:
				body = append(body, hs[1].Data[5+36:]...)
			case 3:
				body = append(body, hs[2].Data[5+36:]...)
			}
			src, dst := p.S.udp(), p.C.udp()
			if toServer {
				src, dst = dst, src
			}
			if foreign {
				src = &netUDP{IP: src.IP, Port: 5999}
			}
			if busy {
				talk(p)
			}
			p.Net.Inject(src, dst, wPacket(typ, 0, body), 0)
			pass(20 * time.Millisecond)
			talk(p)
			p.settle(20 * time.Second)
			live(p)
		}})
	add(&Scenario{Prop: "C08", Name: "while-connecting", Max: [2]int{0, 0},
		Desc: "handshake answers nobody asked for arrive while another connect is under way; neither is disturbed",
		Body: func(int) {
			p := newPair(pairOpt{})
			hs := handshake(p)
			c2 := node("srv2", 7001, tru.ReaderFunc(func(*tru.Channel, *tru.Packet, error) bool { return true }))
			d := hs[pick(4)]
			at := time.Duration(pick(9)) * 500 * time.Microsecond
			foreign := pick(2) == 1
			src := d.Src
			if foreign {
				src = c2.udp()
			}
			if foreign && wType(d.Data) == wConnect {
				return // a connect request of its own
			}
			a := attemptTo(p.C, "connect2", c2.addr())
			p.Net.Inject(src, d.Dst, d.Data, at)
			talk(p)
			a.result()
			if a.err != nil {
				rt.Fail("connect to the other server failed: %v", a.err)
			}
			p.settle(20 * time.Second)
			if p.Ch.Destroyed() || p.Sch.Destroyed() || a.ch.Destroyed() || p.Announce != 1 {
				rt.Fail("a connection was destroyed or announced again")
			}
		}})
}

type netUDP = net.UDPAddr

type netAddr = net.Addr
