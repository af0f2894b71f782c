package main

import (
	"fmt"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// heard records when a node last got something from a peer.
type heard struct {
	at map[string]time.Duration // receiver<sender
}

func newHeard(n *vnet.Net) *heard {
	h := &heard{map[string]time.Duration{}}
	n.OnDeliver = func(d *vnet.Dgram) { h.at[d.Dst.String()+"<"+d.Src.String()] = rt.Now() }
	return h
}

const (
	silence = 6 * time.Second
	slack   = 520 * time.Millisecond
)

// dies waits for the end of ch on node n, whose peer is silent, and checks the
// moment and the consequences.
func (h *heard) dies(n *Node, ch *tru.Channel, peer string, told func() int, what string) {
	key := n.addr() + "<" + peer
	rt.SetROI(rt.ROI{})
	if !rt.Poll(20*time.Second, 2*time.Millisecond, ch.Destroyed) {
		rt.Fail("%s: the connection is not destroyed 20 s later; the peer was last heard at %v, now is %v", what, h.at[key], rt.Now())
	}
	since := rt.Now() - h.at[key]
	if since <= silence-5*time.Millisecond {
		rt.Fail("%s: the connection was destroyed %v after the peer was heard, too early", what, since)
	}
	if since > silence+slack {
		rt.Fail("%s: the connection was destroyed only %v after the peer was heard", what, since)
	}
	pass(5 * time.Millisecond)
	if told() != 1 {
		rt.Fail("%s: the readers were told %d times that the connection ended", what, told())
	}
	n.do(func() {
		if _, err := ch.WriteTo([]byte("too late")); err == nil {
			rt.Fail("%s: a write on the dead connection is accepted", what)
		}
	})
	for _, c := range n.channels() {
		if c == ch {
			rt.Fail("%s: the dead connection is still listed", what)
		}
	}
}

func isKeep(d *vnet.Dgram) bool { t := wType(d.Data); return t == wPing || t == wPong }

func init() {
	up := func(p *Pair, what string) {
		if p.Ch.Destroyed() || p.Sch.Destroyed() || len(p.CErr)+len(p.SErr) > 0 {
			rt.Fail("%s: the connection ended at %v although the peer is alive (client %v, server %v)", what, rt.Now(), p.Ch.Destroyed(), p.Sch.Destroyed())
		}
	}
	idle := func(p *Pair, d time.Duration, what string) {
		for t := time.Duration(0); t < d; t += 500 * time.Millisecond {
			pass(500 * time.Millisecond)
			up(p, what)
		}
	}
	add(&Scenario{Prop: "C11", Name: "idle", Max: [2]int{0, 0},
		Desc: "a connection is idle for 2 minutes (thorough 1 hour) after every short history, with latencies up to 250 ms each way; it stays open and works",
		Body: func(tier int) {
			p := newPair(pairOpt{})
			h := pick(6)
			lat := []time.Duration{vnet.Latency, 20 * time.Millisecond, 250 * time.Millisecond}[pick(3)]
			p.Net.Force = func(*vnet.Dgram) *vnet.Fate { f := after("latency", lat); return &f }
			off := time.Duration(pick(5)) * 130 * time.Millisecond
			pass(off)
			switch h {
			case 1:
				p.up(10)
			case 2:
				p.down(10)
			case 3:
				p.up(100)
				p.down(100)
			case 4:
				pass(3900 * time.Millisecond)
				p.up(10)
			case 5:
				pass(4200 * time.Millisecond)
				p.down(10)
			}
			d := 2 * time.Minute
			if tier > 0 {
				d = time.Hour
			}
			idle(p, d, fmt.Sprintf("idle with latency %v", lat))
			p.up(20)
			p.down(90)
			p.settle(20 * time.Second)
			up(p, "after idling")
		}})
	add(&Scenario{Prop: "C11", Name: "sparse", Max: [2]int{0, 0},
		Desc: "one side writes one message every 0.5 to 7 s for a minute, the other nothing; the connection stays open",
		Body: func(int) {
			p := newPair(pairOpt{})
			gap := time.Duration(1+pick(14)) * 500 * time.Millisecond
			who := pick(3)
			for t := time.Duration(0); t < time.Minute; t += gap {
				switch who {
				case 0:
					p.up(10)
				case 1:
					p.down(10)
				case 2:
					p.up(80)
					p.down(80)
				}
				pass(gap)
				up(p, fmt.Sprintf("one message every %v", gap))
			}
			p.settle(time.Second)
		}})
	add(&Scenario{Prop: "C11", Name: "lost-keepalive", Max: [2]int{2, 2},
		Desc: "any two of the keep-alive packets of 25 idle seconds are lost, delayed or repeated; the connection stays open",
		Body: func(int) {
			p := newPair(pairOpt{})
			p.fates(isKeep, vnet.OK, vnet.Drop, vnet.Dup, after("300ms", 300*time.Millisecond))
			switch pick(3) {
			case 1:
				p.up(10)
			case 2:
				p.down(10)
			}
			pass(time.Duration(pick(3)) * 170 * time.Millisecond)
			rt.SetROI(rt.ROI{Net: true})
			idle(p, 25*time.Second, "with two keep-alive packets disturbed")
			quiet(0)
			p.up(20)
			p.down(20)
			p.settle(20 * time.Second)
			up(p, "at the end")
		}})
	add(&Scenario{Prop: "C11", Name: "dead-peer", Max: [2]int{0, 0},
		Desc: "the peer loses power, or one or both directions of the network fail, at every moment (125 ms steps over 9 s) while idle, writing or being written to; the survivor notices between 6 s and 6.5 s after it heard the peer last",
		Body: func(int) {
			p := newPair(pairOpt{})
			h := newHeard(p.Net)
			moment := time.Duration(pick(72))*125*time.Millisecond + 7*time.Millisecond
			server := pick(2) == 1 // who survives
			how := pick(3)
			traffic := pick(3)
			p.OnUp = func(*tru.Channel, *tru.Packet) {}
			p.OnDown = func(*tru.Channel, *tru.Packet) {}
			n, ch, peer, pch := p.C, p.Ch, p.S, p.Sch
			told := func() int { return len(p.CErr) }
			if server {
				n, ch, peer, pch = p.S, p.Sch, p.C, p.Ch
				told = func() int { return len(p.SErr) }
			}
			end := false
			write := func(n *Node, c *tru.Channel) {
				n.spawn("writer", func() {
					for i := 0; i < 60 && !end; i++ {
						if _, err := c.WriteTo([]byte(fmt.Sprint("message ", i))); err != nil {
							return
						}
						rt.WaitUntil(700*time.Millisecond, func() bool { return end })
					}
				})
			}
			switch traffic {
			case 1:
				write(n, ch)
			case 2:
				write(peer, pch)
			}
			pass(moment)
			what := fmt.Sprintf("peer silent from %v on (how %d, traffic %d, survivor is server %v)", moment, how, traffic, server)
			if told() > 0 || ch.Destroyed() {
				rt.Fail("%s: already destroyed before", what)
			}
			switch how {
			case 0:
				p.Net.Detach(peer.ip(), peer.port)
			case 1: // nothing of the peer arrives any more
				p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
					if d.Src.String() == peer.addr() {
						return &vnet.Drop
					}
					return nil
				}
			case 2:
				p.Net.Force = func(d *vnet.Dgram) *vnet.Fate { return &vnet.Drop }
			}
			h.dies(n, ch, peer.addr(), told, what)
			end = true
		}})
	add(&Scenario{Prop: "C11", Name: "sign-of-life", Max: [2]int{0, 0},
		Desc: "the peer is silent except for one datagram of a kind (keep-alive, data, acknowledgement, a repetition of either) at every moment of the silence: the six seconds start again with it",
		Body: func(int) {
			p := newPair(pairOpt{})
			h := newHeard(p.Net)
			p.OnUp = func(*tru.Channel, *tru.Packet) {}
			p.OnDown = func(*tru.Channel, *tru.Packet) {}
			server := pick(2) == 1
			kind := sel(wPing, wPong, wData, wAck)
			again := false
			if kind == wData || kind == wAck {
				again = pick(2) == 1
			}
			if server && kind == wPong || !server && kind == wPing {
				return
			}
			n, ch, peer, pch := p.C, p.Ch, p.S, p.Sch
			told := func() int { return len(p.CErr) }
			if server {
				n, ch, peer, pch = p.S, p.Sch, p.C, p.Ch
				told = func() int { return len(p.SErr) }
			}
			if pick(2) == 1 {
				// some history first
				p.up(10)
				p.down(10)
				pass(350 * time.Millisecond)
			}
			var old []byte
			if again {
				// a datagram of the kind that has done its work already
				p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
					if wType(d.Data) == kind && d.Src.String() == peer.addr() {
						old = append([]byte(nil), d.Data...)
					}
					return nil
				}
				p.up(20)
				p.down(20)
				pass(5 * time.Millisecond)
			}
			from := time.Duration(pick(24))*250*time.Millisecond + 3*time.Millisecond
			start := rt.Now()
			passed := 0
			if old != nil {
				passed = 1
				p.Net.Inject(peer.udp(), n.udp(), old, from)
			}
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if d.Src.String() != peer.addr() {
					return nil
				}
				if wType(d.Data) == kind && rt.Now() >= start+from && passed == 0 {
					passed++
					return nil
				}
				return &vnet.Drop
			}
			switch {
			case again:
			case kind == wData:
				peer.do(func() { pch.WriteTo([]byte("one")); pch.WriteTo([]byte("two")) })
			case kind == wAck:
				n.do(func() { ch.WriteTo([]byte("one")); ch.WriteTo([]byte("two")) })
			}
			h.dies(n, ch, peer.addr(), told, fmt.Sprintf("one datagram of type %d at or after %v (server %v, %d came through)", kind, from, server, passed))
		}})
	add(&Scenario{Prop: "C11", Name: "several", Max: [2]int{0, 0},
		Desc: "of three connections of a server, started at different moments, each subset dies at once or apart; exactly those end, in time, the others idle on",
		Body: func(int) {
			told := map[string]int{}
			h := newHeard(vnet.Get())
			s := node("srv", 7000, tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
				if err != nil && ch != nil {
					a := ch.Addr().String()
					told[a]++
					since := rt.Now() - h.at["127.0.0.1:7000<"+a]
					if since <= silence-5*time.Millisecond || since > silence+slack {
						rt.Fail("connection from %s ended %v after its peer was heard", a, since)
					}
				}
				return true
			}))
			var cs []*Node
			var chs, schs []*tru.Channel
			apart := time.Duration(pick(4)) * 900 * time.Millisecond
			mask := pick(8)
			late := time.Duration(pick(3)) * 1300 * time.Millisecond
			for i := 0; i < 3; i++ {
				c := node(fmt.Sprintf("10.0.0.%d/cli%d", i+1, i), 4000)
				c.do(func() {
					ch, err := c.Connect("127.0.0.1:7000")
					if err != nil {
						rt.Fail("connect: %v", err)
					}
					chs = append(chs, ch)
				})
				cs = append(cs, c)
				pass(3*time.Millisecond + apart)
				for _, ch := range s.channels() {
					if ch.Addr().String() == c.addr() {
						schs = append(schs, ch)
					}
				}
			}
			if len(schs) != 3 {
				rt.Fail("the server has %d of 3 connections", len(schs))
			}
			pass(3 * time.Second)
			for i, c := range cs {
				if mask>>i&1 == 1 {
					vnet.Get().Detach(c.ip(), c.port)
					pass(late)
				}
			}
			pass(20 * time.Second)
			for i, c := range cs {
				dead := mask>>i&1 == 1
				if dead != schs[i].Destroyed() || told[c.addr()] != map[bool]int{true: 1}[dead] {
					rt.Fail("connection %d of 3: peer dead %v, destroyed %v, readers told %d times", i, dead, schs[i].Destroyed(), told[c.addr()])
				}
				if !dead && chs[i].Destroyed() {
					rt.Fail("connection %d of 3 ended on the client side", i)
				}
			}
		}})
}
