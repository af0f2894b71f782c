package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// ear is a reader and a connection (which stays referenced, so that its
// address is not used again).
type ear struct {
	name string
	ch   *tru.Channel
}

// ears counts what the readers of both sides are told about the end of
// connections, by connection.
type ears struct {
	told map[ear]int
}

func (e *ears) tell(name string, ch *tru.Channel, err error) {
	rt.Observe("%s told: %v", name, err)
	if ch == nil {
		return
	}
	k := ear{name, ch}
	e.told[k]++
	if e.told[k] > 1 {
		rt.Fail("the %s was told %d times that the connection has ended", name, e.told[k])
	}
	if err != tru.ErrChannelDestroyed {
		rt.Fail("the %s was told %v when the connection ended", name, err)
	}
}

func (e *ears) n(name string, ch *tru.Channel) int { return e.told[ear{name, ch}] }

// listened is a pair whose readers all listen for the end.
type listened struct {
	*Pair
	e        *ears
	up, down []string
	baseS    []string
	baseC    []string
	inEnd    func(side string, ch *tru.Channel)
	inMsg    func(side string, ch *tru.Channel)
	inNew    func(ch *tru.Channel)
	closedS  int // times the node's global reader was told that the node closed
	closedC  int
}

func kinds(l []string) []string {
	m := map[string]int{}
	for _, s := range l {
		m[s]++
	}
	var r []string
	for s, n := range m {
		r = append(r, fmt.Sprintf("%s x%d", s, n))
	}
	sort.Strings(r)
	return r
}

func newListened(params ...interface{}) *listened {
	l := &listened{Pair: &Pair{Net: vnet.Get(), Up: &Stream{Name: "up"}, Down: &Stream{Name: "down"}}, e: &ears{told: map[ear]int{}}}
	rd := func(name, side string, log *[]string, closed *int) tru.ReaderFunc {
		return func(ch *tru.Channel, pac *tru.Packet, err error) bool {
			if err == tru.ErrTruClosed {
				if closed != nil {
					*closed++
				}
				return false
			}
			if err != nil {
				l.e.tell(name, ch, err)
				if l.inEnd != nil {
					l.inEnd(side, ch)
				}
				return false
			}
			*log = append(*log, string(pac.Data()))
			if l.inMsg != nil {
				l.inMsg(side, ch)
			}
			return true
		}
	}
	l.S = node("srv", 7000, append([]interface{}{rd("server's global reader", "server", &l.up, &l.closedS),
		tru.ConnectFunc(func(ch *tru.Channel, err error) {
			l.Sch = ch
			l.Announce++
			if l.inNew != nil {
				l.inNew(ch)
			}
		})}, params...)...)
	l.C = node("cli", 0, append([]interface{}{rd("client's global reader", "client", &l.down, &l.closedC)}, params...)...)
	pass(time.Millisecond)
	l.baseS, l.baseC = kinds(l.S.threads()), kinds(l.C.threads())
	l.C.do(func() {
		ch, err := l.C.Connect(l.S.addr(), rd("connection's reader", "client", &l.down, nil))
		if err != nil {
			rt.Fail("connect on a perfect network failed: %v", err)
		}
		l.Ch = ch
	})
	pass(5 * time.Millisecond)
	if l.Sch == nil {
		rt.Fail("the server did not announce the connection")
	}
	return l
}

// over checks that the connection has ended cleanly on both sides (those
// listed: "s", "c") and that nothing of it is left.
func (l *listened) over(sides string, settle time.Duration, nodeClosed string) {
	quiet(settle)
	n0 := len(l.Net.Log)
	tail := 12 * time.Second
	rt.Sleep(tail)
	if strings.Contains(sides, "c") {
		if !l.Ch.Destroyed() {
			rt.Fail("the connection is not reported as destroyed on the client side")
		}
		if n := l.e.n("connection's reader", l.Ch); n != 1 {
			rt.Fail("the connection's reader was told %d times that it has ended", n)
		}
		if n := l.e.n("client's global reader", l.Ch); n != 1 {
			rt.Fail("the client's global reader was told %d times that the connection has ended", n)
		}
		l.dead("client", l.C, l.Ch, l.baseC, nodeClosed == "c" || nodeClosed == "sc")
	}
	if strings.Contains(sides, "s") {
		if !l.Sch.Destroyed() {
			rt.Fail("the connection is not reported as destroyed on the server side")
		}
		if n := l.e.n("server's global reader", l.Sch); n != 1 {
			rt.Fail("the server's global reader was told %d times that the connection has ended", n)
		}
		l.dead("server", l.S, l.Sch, l.baseS, nodeClosed == "s" || nodeClosed == "sc")
	}
	if n := len(l.Net.Log); n != n0 && sides == "cs" {
		rt.Fail("%d datagrams are sent although the connection has ended, the last is %s", n-n0, vnet.Describe(l.Net.Log[n-1].Data))
	}
}

func (l *listened) dead(side string, n *Node, ch *tru.Channel, base []string, closed bool) {
	before := len(l.Net.Log)
	done := spawn(n.Owner, "late write", func() {
		if _, err := ch.WriteTo([]byte("late")); err == nil {
			rt.Fail("a write on the ended connection (%s side) succeeds", side)
		}
		ch.Close()
	})
	if !wait(time.Second, done) {
		rt.Fail("a write or close on the ended connection (%s side) does not return\n%s", side, rt.Dump())
	}
	rt.Sleep(20 * time.Millisecond)
	if k := len(l.Net.Log); k != before {
		rt.Fail("a write or close on the ended connection (%s side) sends %s", side, vnet.Describe(l.Net.Log[k-1].Data))
	}
	for _, x := range n.channels() {
		if x == ch {
			rt.Fail("the ended connection is still listed on the %s side", side)
		}
	}
	if closed {
		base = nil
	}
	if now := kinds(n.threads()); fmt.Sprint(now) != fmt.Sprint(base) {
		rt.Fail("left over on the %s side after the connection has ended: %v, before it existed: %v", side, now, base)
	}
}

// told counts disconnect datagrams sent by a node.
func (l *listened) disconnects(n *Node) (c int) {
	for _, d := range l.Net.Log {
		if wType(d.Data) == wDisconnect && d.Src.String() == n.addr() {
			c++
		}
	}
	return
}

func init() {
	// ending starts one way of ending the connection
	ending := func(l *listened, k int) (*task, string) {
		switch k {
		case 0:
			return l.C.spawn("close", func() { l.Ch.Close() }), ""
		case 1:
			return l.S.spawn("close", func() { l.Sch.Close() }), ""
		case 2:
			return l.C.spawn("node close", func() { l.C.Close() }), "c"
		case 3:
			return l.S.spawn("node close", func() { l.S.Close() }), "s"
		case 4:
			return l.C.spawn("close twice", func() { l.Ch.Close(); l.Ch.Close() }), ""
		case 5:
			return l.C.spawn("close all", func() { l.C.ForEachChannel(func(ch *tru.Channel) { ch.Close() }) }), ""
		default:
			l.Net.Inject(l.S.udp(), l.C.udp(), wPacket(wDisconnect, 0, nil), 0)
			return &task{done: true}, ""
		}
	}
	add(&Scenario{Prop: "C12", Name: "two-endings", Stalls: held, Max: [2]int{2, 3},
		Desc: "every pair of endings (local close, peer's close, closing either node, closing twice, closing all, a disconnect datagram) at once, under every schedule",
		Body: func(int) {
			l := newListened()
			a, b := pick(7), pick(7)
			if a > b {
				return
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			t1, c1 := ending(l, a)
			t2, c2 := ending(l, b)
			wait(4*time.Millisecond, t1, t2)
			pass(3 * time.Millisecond)
			rt.SetROI(rt.ROI{})
			if !wait(time.Second, t1, t2) {
				rt.Fail("endings %d and %d do not return\n%s", a, b, rt.Dump())
			}
			closed := c1
			if c2 != "" && c2 != c1 {
				closed = c2 + c1
				if closed == "cs" {
					closed = "sc"
				}
			}
			if a == 6 && b == 6 {
				// the server was not told anything: it notices the silence
				l.over("cs", 7*time.Second, closed)
				return
			}
			if (a != 6 && b != 6 || a != 6 && rt.Stall() == 0) && l.disconnects(l.C)+l.disconnects(l.S) == 0 {
				rt.Fail("the connection was closed locally and the peer is not told")
			}
			l.over("cs", 7*time.Second, closed)
		}})
	add(&Scenario{Prop: "C12", Name: "with-traffic", Stalls: held, Max: [2]int{2, 3}, Kind: [rt.NumKinds]int{rt.KNet: 1},
		Desc: "an ending while both sides write, with unacknowledged and parked packets and pending delivery timeouts, under every schedule",
		Body: func(int) {
			l := newListened()
			k := pick(4)
			l.fates(isData, vnet.OK, vnet.Drop)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Net: true})
			calls := 0
			w1 := l.C.spawn("up", func() {
				for i := 0; i < 2; i++ {
					l.Ch.WriteTo([]byte(msg("u", i, 30)), func(*tru.Packet, error) { calls++ }, 200*time.Millisecond)
				}
			})
			w2 := l.S.spawn("down", func() { l.Sch.WriteTo([]byte(msg("d", 0, 80))) })
			t, closed := ending(l, k)
			wait(4*time.Millisecond, t, w1, w2)
			pass(3 * time.Millisecond)
			rt.SetROI(rt.ROI{})
			if !wait(time.Second, t, w1, w2) {
				rt.Fail("ending %d or a write does not return\n%s", k, rt.Dump())
			}
			l.over("cs", 7*time.Second, closed)
		}})
	add(&Scenario{Prop: "C12", Name: "during-retransmit", Stalls: held, Max: [2]int{2, 3},
		Desc: "an ending at the moment the retransmission, activity or speed timers run, with timers and goroutines in every order",
		Body: func(int) {
			l := newListened()
			k := pick(6)
			// the peer hears nothing, so packets stay in the send queue
			l.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if isData(d) {
					return &vnet.Drop
				}
				return nil
			}
			l.C.do(func() { l.Ch.WriteTo([]byte("one")); l.Ch.WriteTo([]byte("two")) })
			l.S.do(func() { l.Sch.WriteTo([]byte("three")) })
			// the timers were started at nearly the same moment, with periods of 100 and 500 ms
			at := sel(300, 500, 600)
			created := time.Duration(0)
			for _, d := range l.Net.Log {
				if wType(d.Data) == wClientAnswer {
					created = d.At
				}
			}
			rt.Sleep(created + time.Duration(at)*time.Millisecond - rt.Now() - 1500*time.Microsecond)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Timer: 4 * time.Millisecond})
			pass(1300 * time.Microsecond)
			t, closed := ending(l, k)
			wait(4*time.Millisecond, t)
			pass(4 * time.Millisecond)
			rt.SetROI(rt.ROI{})
			if !wait(time.Second, t) {
				rt.Fail("ending %d does not return\n%s", k, rt.Dump())
			}
			l.over("cs", 8*time.Second, closed)
		}})
	add(&Scenario{Prop: "C12", Name: "silence", Stalls: held, Max: [2]int{1, 2},
		Desc: "the network dies and an ending meets the moment at which the silence is noticed on either side, with timers and goroutines in every order",
		Body: func(int) {
			l := newListened()
			k := pick(7)
			dead := false
			l.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if dead {
					return &vnet.Drop
				}
				return nil
			}
			dead = true
			// find the tick at which it happens: first run without the second ending
			created := time.Duration(0)
			for _, d := range l.Net.Log {
				if wType(d.Data) == wClientAnswer {
					created = d.At
				}
			}
			at := sel(6000, 6500)
			rt.Sleep(created + time.Duration(at)*time.Millisecond - rt.Now() - 2500*time.Microsecond)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Timer: 4 * time.Millisecond})
			pass(2 * time.Millisecond)
			closed := ""
			t := &task{done: true}
			if k < 6 {
				t, closed = ending(l, k)
			}
			wait(4*time.Millisecond, t)
			pass(4 * time.Millisecond)
			rt.SetROI(rt.ROI{})
			if !wait(time.Second, t) {
				rt.Fail("ending %d does not return\n%s", k, rt.Dump())
			}
			l.over("cs", 8*time.Second, closed)
		}})
	add(&Scenario{Prop: "C12", Name: "limit", Max: [2]int{0, 1},
		Desc: "the retransmission limit ends the connection while the peer stays reachable, alone or together with another ending at that moment",
		Body: func(int) {
			l := newListened()
			k := pick(5)
			l.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if isData(d) {
					return &vnet.Drop
				}
				return nil
			}
			l.Net.Keep = false
			n := 0
			server := pick(2) == 1
			var last time.Duration
			l.Net.OnSend = func(d *vnet.Dgram) {
				if isData(d) {
					n++
					last = rt.Now()
				}
			}
			nd, ch := l.C, l.Ch
			if server {
				nd, ch = l.S, l.Sch
			}
			nd.do(func() {
				ch.WriteTo([]byte("one"))
			})
			if !rt.WaitUntil(400*time.Second, func() bool { return n == 101 }) {
				rt.Fail("only %d transmissions in 400 s", n)
			}
			l.Net.Keep = true
			_ = last
			closed := ""
			t := &task{done: true}
			if k < 4 {
				rt.Sleep(3000*time.Millisecond - 2*time.Millisecond)
				rt.SetROI(rt.ROI{Sched: true, Timer: 4 * time.Millisecond})
				t, closed = ending(l, k)
				pass(5 * time.Millisecond)
				rt.SetROI(rt.ROI{})
				wait(time.Second, t)
			} else if !rt.Poll(3300*time.Millisecond, 10*time.Millisecond, ch.Destroyed) {
				rt.Fail("not destroyed after 100 unanswered retransmissions")
			}
			if !t.done {
				rt.Fail("ending does not return\n%s", rt.Dump())
			}
			l.over("cs", 8*time.Second, closed)
		}})
	add(&Scenario{Prop: "C12", Name: "in-readers", Stalls: held, Max: [2]int{1, 2},
		Desc: "readers that close the connection, write to it, list the connections or close the node when told about its end, under every schedule",
		Body: func(int) {
			l := newListened()
			what := pick(4)
			k := pick(4)
			l.inEnd = func(side string, ch *tru.Channel) {
				n := l.C
				if side == "server" {
					n = l.S
				}
				switch what {
				case 0:
					ch.Close()
				case 1:
					if _, err := ch.WriteTo([]byte("x")); err == nil {
						rt.Fail("a write from a reader told about the end succeeds")
					}
				case 2:
					n.Statistic()
					n.ForEachChannel(func(*tru.Channel) {})
				case 3:
					n.ForEachChannel(func(c *tru.Channel) { c.Close() })
				}
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			t, closed := ending(l, k)
			wait(4*time.Millisecond, t)
			pass(3 * time.Millisecond)
			rt.SetROI(rt.ROI{})
			if !wait(time.Second, t) {
				rt.Fail("ending %d does not return\n%s", k, rt.Dump())
			}
			l.over("cs", 7*time.Second, closed)
		}})
	add(&Scenario{Prop: "C12", Name: "again", Max: [2]int{0, 0},
		Desc: "every sequence of up to three endings one after another: the later ones do nothing",
		Body: func(int) {
			l := newListened()
			closed := map[string]bool{}
			for i := 0; i < 3; i++ {
				k := pick(8)
				if k == 7 {
					if i == 0 {
						return
					}
					break
				}
				if i > 0 && k == 6 {
					continue
				}
				t, c := ending(l, k)
				if c != "" && closed[c] {
					// closing a node twice belongs to C13
					return
				}
				if c != "" {
					closed[c] = true
				}
				if !wait(time.Second, t) {
					rt.Fail("ending %d does not return\n%s", k, rt.Dump())
				}
				pass(sel(0, 3*time.Millisecond, 700*time.Millisecond))
			}
			c := ""
			if closed["s"] {
				c = "s"
			}
			if closed["c"] {
				c += "c"
			}
			l.over("cs", 8*time.Second, c)
		}})
	add(&Scenario{Prop: "C12", Name: "timers-stop", Max: [2]int{0, 0},
		Desc: "every ending (and silence, and the retransmission limit), at every phase of the connection's timers, idle or with unacknowledged packets: right after it no timer or goroutine of the connection is left on the side that has ended",
		Body: func(int) {
			l := newListened()
			k := pick(8)
			busy := pick(3)
			cut := busy == 2 || k == 7
			l.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if cut && (isData(d) || wType(d.Data) == wAck || k == 7) {
					return &vnet.Drop
				}
				return nil
			}
			if busy > 0 {
				l.C.do(func() { l.Ch.WriteTo([]byte("one")); l.Ch.WriteTo([]byte("two")) })
				l.S.do(func() { l.Sch.WriteTo([]byte("three")) })
			}
			pass(time.Duration(pick(11)) * 53 * time.Millisecond)
			closed := ""
			if k < 7 {
				var t *task
				t, closed = ending(l, k)
				if !wait(time.Second, t) {
					rt.Fail("ending %d does not return\n%s", k, rt.Dump())
				}
			}
			left := func(side string, n *Node, ch *tru.Channel, base []string) {
				if !rt.Poll(20*time.Second, 2*time.Millisecond, ch.Destroyed) {
					rt.Fail("ending %d: the connection goes on on the %s side", k, side)
				}
				pass(10 * time.Millisecond)
				if closed == side[:1] {
					base = nil
				}
				if now := kinds(n.threads()); fmt.Sprint(now) != fmt.Sprint(base) {
					rt.Fail("ending %d: left over on the %s side right after the connection has ended: %v, before it existed: %v", k, side, now, base)
				}
			}
			left("client", l.C, l.Ch, l.baseC)
			if k != 6 {
				left("server", l.S, l.Sch, l.baseS)
			}
		}})
}
