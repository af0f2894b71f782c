package main

import (
	"fmt"
	"strings"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// released checks a node after its Close has returned.
func released(n *Node, chans []*tru.Channel, settle time.Duration) {
	if vnet.Get().InUse(n.ip(), n.port) {
		rt.Fail("the port of the closed node is still in use")
	}
	for _, ch := range chans {
		if ch != nil && !ch.Destroyed() {
			rt.Fail("a connection of the closed node (peer %v) is not destroyed", ch.Addr())
		}
	}
	rt.Sleep(settle)
	for _, ch := range n.channels() {
		if ch != nil {
			rt.Fail("the closed node still has a connection (peer %v, destroyed %v)", ch.Addr(), ch.Destroyed())
		}
	}
	if l := n.threads(); len(l) > 0 {
		rt.Fail("left over %v after the node was closed: %v\n%s", settle, kinds(l), rt.Dump())
	}
	// the port can be used again
	as(n.Owner, func() {
		t, err := tru.New(n.port)
		if err != nil {
			rt.Fail("the port cannot be used again: %v", err)
		}
		t.Close()
	})
}

func init() {
	add(&Scenario{Prop: "C13", Name: "with-calls", Stalls: held, Max: [2]int{2, 3},
		Desc: "a node with a connection closes while one of twelve other things goes on, under every schedule; then everything is released",
		Body: func(int) {
			l := newListened()
			server := pick(2) == 1
			n, ch, peer, pch := l.C, l.Ch, l.S, l.Sch
			if server {
				n, ch, peer, pch = l.S, l.Sch, l.C, l.Ch
			}
			what := pick(12)
			other := node("oth", 0)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			var t *task
			var extra *attempt
			chans := []*tru.Channel{ch}
			switch what {
			case 0:
				t = n.spawn("write", func() { ch.WriteTo([]byte("a")); ch.WriteTo([]byte(msg("b", 0, 90))) })
			case 1:
				t = peer.spawn("peer writes", func() { pch.WriteTo([]byte("a")); pch.WriteTo([]byte("b")) })
			case 2:
				t = n.spawn("close connection", func() { ch.Close() })
			case 3:
				t = peer.spawn("peer closes", func() { pch.Close() })
			case 4:
				t = peer.spawn("peer node closes", func() { peer.Close() })
			case 5:
				t = n.spawn("statistic", func() { n.Statistic() })
			case 6:
				t = n.spawn("walk", func() { n.ForEachChannel(func(c *tru.Channel) { c.WriteTo([]byte("x")) }) })
			case 7:
				t = n.spawn("close again", func() { n.Close() })
			case 8:
				extra = attemptTo(n, "connect", other.addr())
				t = extra.t
			case 9:
				extra = attemptTo(other, "peer connects", n.addr())
				t = extra.t
			case 10:
				t = n.spawn("print", func() { n.StatisticPrint() })
			case 11:
				t = n.spawn("punch", func() { n.WriteToPunch([]byte("p"), peer.addr()) })
			}
			c := n.spawn("node close", func() { n.Close() })
			wait(4*time.Millisecond, c, t)
			pass(2 * time.Millisecond)
			rt.SetROI(rt.ROI{})
			if !wait(time.Second, c) {
				rt.Fail("close does not return (meanwhile: %d)\n%s", what, rt.Dump())
			}
			if !wait(6*time.Second, t) {
				rt.Fail("what went on while the node closed (%d) does not return\n%s", what, rt.Dump())
			}
			told := l.closedC
			if server {
				told = l.closedS
			}
			if told != 1 {
				rt.Fail("the global reader was told %d times that the node was closed", told)
			}
			released(n, chans, 7*time.Second)
			if !pch.Destroyed() {
				rt.Fail("the peer was not told that the connection has ended")
			}
			if what != 4 {
				for _, d := range l.Net.Log {
					if wType(d.Data) == wDisconnect && d.Src.String() == n.addr() {
						return
					}
				}
				if what != 3 {
					rt.Fail("no disconnect was sent to the peer")
				}
			}
		}})
	add(&Scenario{Prop: "C13", Name: "many", Stalls: held, Max: [2]int{1, 2},
		Desc: "a server with three peers (one of them half connected) closes while they write: all are told",
		Body: func(int) {
			a := newAnnounced()
			rt.MapOrder(pick(3))
			cs := []*Node{node("cli", 0), node("10.0.0.2/b", 5000)}
			var ts []*attempt
			for _, c := range cs {
				t := attemptTo(c, "connect", a.s.addr())
				t.result()
				ts = append(ts, t)
			}
			net := vnet.Get()
			var hello *vnet.Dgram
			for _, d := range net.Log {
				if wType(d.Data) == wConnect {
					hello = d
				}
			}
			h := append([]byte(nil), hello.Data...)
			copy(h[5:], "another-")
			net.Inject(&netUDP{IP: cs[0].ip(), Port: 5999}, a.s.udp(), h, 0)
			pass(3 * time.Millisecond)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			w := cs[0].spawn("write", func() { ts[0].ch.WriteTo([]byte("a")) })
			c := a.s.spawn("close", func() { a.s.Close() })
			wait(4*time.Millisecond, c, w)
			pass(2 * time.Millisecond)
			rt.SetROI(rt.ROI{})
			if !wait(time.Second, c, w) {
				rt.Fail("close or write does not return\n%s", rt.Dump())
			}
			rt.Sleep(20 * time.Millisecond)
			for i, t := range ts {
				if !t.ch.Destroyed() {
					rt.Fail("peer %d was not told", i)
				}
			}
			released(a.s, a.all, 7*time.Second)
		}})
	add(&Scenario{Prop: "C13", Name: "in-callbacks", Stalls: held, Max: [2]int{1, 2},
		Desc: "the node is closed from inside a reader, an end notice, the connect, delivery or punch callback, under every schedule",
		Body: func(int) {
			what := pick(5)
			var s, c *Node
			var t *task
			fired := false
			closeIt := func(n **Node) {
				if !fired {
					fired = true
					(*n).Close()
				}
			}
			s = node("srv", 7000, tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
				if what == 0 && err == nil || what == 1 && err == tru.ErrChannelDestroyed {
					closeIt(&s)
				}
				return true
			}), tru.ConnectFunc(func(ch *tru.Channel, err error) {
				if what == 2 {
					closeIt(&s)
				}
			}), tru.PunchFunc(func(a netAddr, data []byte) {
				if what == 4 {
					closeIt(&s)
				}
			}))
			c = node("cli", 0)
			rt.SetROI(rt.ROI{Sched: what == 2, Stmt: what == 2})
			a := attemptTo(c, "connect", s.addr())
			rt.WaitUntil(6*time.Millisecond, func() bool { return a.t.done })
			if what != 2 && a.err != nil {
				rt.Fail("connect: %v", a.err)
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			closed := &s
			switch what {
			case 0:
				t = c.spawn("write", func() { a.ch.WriteTo([]byte("x")); a.ch.WriteTo([]byte("y")) })
			case 1:
				t = c.spawn("close", func() { a.ch.Close() })
			case 3:
				closed = &c
				t = c.spawn("write", func() { a.ch.WriteTo([]byte("x"), func(*tru.Packet, error) { closeIt(&c) }) })
			case 4:
				t = c.spawn("punch", func() { c.WriteToPunch([]byte("x"), s.addr()) })
			default:
				t = &task{done: true}
			}
			rt.WaitUntil(6*time.Millisecond, func() bool { return t.done && fired })
			pass(2 * time.Millisecond)
			quiet(time.Second)
			if !t.done || !fired {
				rt.Fail("HARNESS or hang: done %v, closed %v\n%s", t.done, fired, rt.Dump())
			}
			released(*closed, nil, 7*time.Second)
		}})
	add(&Scenario{Prop: "C13", Name: "busy-reader", Stalls: held, Max: [2]int{1, 2},
		Desc: "the node is closed while its reader is at work for two seconds and messages pile up behind it",
		Body: func(int) {
			n := 0
			p := newPair(pairOpt{})
			p.OnUp = func(ch *tru.Channel, pac *tru.Packet) {
				n++
				if n == 1 {
					rt.Sleep(2 * time.Second)
				}
			}
			k := sel(1, 5, 12, 30)
			w := p.C.spawn("write", func() {
				for i := 0; i < k; i++ {
					if p.up(10) != nil {
						return
					}
				}
			})
			wait(time.Second, w)
			rt.Sleep(sel(0, 50*time.Millisecond))
			rt.SetROI(rt.ROI{Sched: true})
			c := p.S.spawn("close", func() { p.S.Close() })
			wait(10*time.Millisecond, c)
			quiet(0)
			if !wait(500*time.Millisecond, c) {
				rt.Fail("close does not return while the reader is at work\n%s", rt.Dump())
			}
			if !p.Sch.Destroyed() {
				rt.Fail("the connection of the closed node is not destroyed")
			}
			wait(3*time.Second, w)
			rt.Sleep(50 * time.Millisecond)
			if !p.Ch.Destroyed() {
				rt.Fail("the peer was not told")
			}
			released(p.S, []*tru.Channel{p.Sch}, 7*time.Second)
		}})
	add(&Scenario{Prop: "C13", Name: "display", Stalls: held, Max: [2]int{1, 2},
		Desc: "the node is closed while its statistic display is on, also at the moment it is drawn; a node that cannot be created leaves nothing behind",
		Body: func(int) {
			if pick(4) == 0 {
				s := node("srv", 7000)
				as("bad", func() {
					_, err := tru.New(sel(7000, 70000, -1), tru.Stat(pick(2) == 1))
					if err == nil {
						rt.Fail("a node was created on a port in use or out of range")
					}
				})
				if pick(2) == 1 {
					as("bad2", func() {
						if _, err := tru.New(0, tru.Stat(true), 3.14); err == nil {
							rt.Fail("a node was created with a wrong parameter")
						}
					})
				}
				rt.Sleep(2 * time.Second)
				for _, o := range []string{"bad", "bad2"} {
					if l := (&Node{Owner: o}).threads(); len(l) > 0 {
						rt.Fail("a node that could not be created left over: %v", l)
					}
				}
				s.do(func() { s.Close() })
				return
			}
			l := newListened(tru.Stat(true))
			n := sel(l.S, l.C)
			var tick time.Duration
			for _, t := range rt.PendingTimers(n.Owner) {
				_ = t
			}
			_ = tick
			at := sel(499, 500, 1000)
			minilog := pick(2) == 1
			if minilog {
				n.do(func() { n.StatisticMinilog() })
			}
			// nodes are created at 0 virtual time: the display is drawn every 500 ms
			rt.Sleep(time.Duration(at)*time.Millisecond - rt.Now() - 300*time.Microsecond)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Timer: 2 * time.Millisecond})
			c := n.spawn("close", func() { n.Close() })
			wait(3*time.Millisecond, c)
			pass(2 * time.Millisecond)
			rt.SetROI(rt.ROI{})
			if !wait(time.Second, c) {
				rt.Fail("close does not return\n%s", rt.Dump())
			}
			if n.StatisticPrintRunning() {
				rt.Fail("the display of the closed node is still on")
			}
			released(n, nil, 7*time.Second)
		}})
	add(&Scenario{Prop: "C13", Name: "pending-connect", Stalls: held, Max: [2]int{1, 2},
		Desc: "the node is closed at any moment of a connect call of its own or of a peer that gets no answers; the call returns and nothing is left",
		Body: func(int) {
			a := newAnnounced()
			c := node("cli", 0)
			drop := sel(-1, wConnect, wServerAnswer, wClientAnswer, wDone)
			vnet.Get().Force = func(d *vnet.Dgram) *vnet.Fate {
				if wType(d.Data) == drop {
					return &vnet.Drop
				}
				return nil
			}
			t := attemptTo(c, "connect", a.s.addr())
			n := sel(c, a.s)
			rt.Sleep(time.Duration(pick(6)) * time.Millisecond)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			x := n.spawn("close", func() { n.Close() })
			wait(4*time.Millisecond, x)
			quiet(0)
			if !wait(time.Second, x) {
				rt.Fail("close does not return\n%s", rt.Dump())
			}
			t.result()
			rt.Sleep(time.Second)
			chans := a.all
			if n == c {
				chans = nil
				if t.ch != nil {
					chans = []*tru.Channel{t.ch}
				}
			}
			released(n, chans, 7*time.Second)
			rt.Sleep(time.Second)
			for _, o := range []*Node{c, a.s} {
				if l := o.channels(); len(l) > 0 {
					rt.Fail("node %s still has a connection", o.Owner)
				}
			}
		}})
}

var _ = fmt.Sprint
var _ = strings.Contains
