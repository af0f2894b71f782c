package main

import (
	"fmt"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// C31: the walk over the connections and what a connection says of itself.

// known is a connection of the hub as the driver knows it.
type known struct {
	ch     *tru.Channel
	peer   *Node
	server bool // accepted by the hub
	pch    *tru.Channel
}

type walked struct {
	hub  *Node
	all  []*tru.Channel // as announced
	told map[*tru.Channel]int
	live []*known
}

func newWalked() *walked {
	w := &walked{told: map[*tru.Channel]int{}}
	w.hub = node("srv", 7000,
		tru.ConnectFunc(func(ch *tru.Channel, err error) { w.all = append(w.all, ch) }),
		tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
			if err != nil && ch != nil {
				w.told[ch]++
			}
			return true
		}))
	return w
}

// join connects a peer to the hub or the hub to it.
func (w *walked) join(p *Node, dial bool) *known {
	k := &known{peer: p, server: !dial}
	from, to := p, w.hub
	if dial {
		from, to = to, from
	}
	n := len(w.all)
	var ch *tru.Channel
	from.do(func() {
		var err error
		if ch, err = from.Connect(to.addr()); err != nil {
			rt.Fail("connect on a perfect network failed: %v", err)
		}
	})
	pass(2 * time.Millisecond)
	if !dial {
		rt.WaitUntil(500*time.Millisecond, func() bool { return len(w.all) == n+1 })
	}
	for i := 0; dial && i < 100 && len(p.channels()) == 0; i++ {
		pass(5 * time.Millisecond)
	}
	if dial {
		k.ch = ch
		for _, c := range p.channels() {
			if c.Addr().String() == w.hub.addr() {
				k.pch = c
			}
		}
	} else {
		if len(w.all) != n+1 {
			rt.Fail("%d connections were announced for one", len(w.all)-n)
		}
		k.ch, k.pch = w.all[n], ch
	}
	w.live = append(w.live, k)
	return k
}

func (w *walked) drop(k *known) {
	for i, x := range w.live {
		if x == k {
			w.live = append(w.live[:i:i], w.live[i+1:]...)
			return
		}
	}
}

// check walks over the connections of the hub.
func (w *walked) check(what string) {
	seen := map[*tru.Channel]bool{}
	for _, ch := range w.hub.channels() {
		if ch == nil {
			rt.Fail("%s: a walk visits nothing (nil)", what)
		}
		if seen[ch] {
			rt.Fail("%s: a walk visits the connection with %v twice", what, ch.Addr())
		}
		seen[ch] = true
		if ch.Destroyed() {
			rt.Fail("%s: a walk visits the connection with %v that has ended", what, ch.Addr())
		}
	}
	for _, k := range w.live {
		if !seen[k.ch] {
			rt.Fail("%s: a walk does not visit the connection with %s", what, k.peer.addr())
		}
		delete(seen, k.ch)
		self(k.ch, k.peer, k.server)
		if k.pch == nil {
			rt.Fail("%s: a walk over the connections of the peer does not visit the one it has", what)
		}
		self(k.pch, w.hub, !k.server)
		if l := k.peer.channels(); len(l) != 1 || l[0] != k.pch {
			rt.Fail("%s: the peer %s has %d connections", what, k.peer.addr(), len(l))
		}
	}
	for ch := range seen {
		rt.Fail("%s: a walk visits an unknown connection with %v", what, ch.Addr())
	}
}

// self checks what a connection says of itself.
func self(ch *tru.Channel, peer *Node, server bool) {
	if ch.Addr().String() != peer.addr() || ch.String() != peer.addr() || !ch.IP().Equal(peer.ip()) || ch.Port() != peer.port {
		rt.Fail("a connection with %s says it is with %v, %s, %v port %d", peer.addr(), ch.Addr(), ch, ch.IP(), ch.Port())
	}
	if ch.ServerMode() != server {
		rt.Fail("a connection with %s: server mode %v", peer.addr(), ch.ServerMode())
	}
}

func init() {
	peers := func(n int) (l []*Node) {
		for i := 0; i < n; i++ {
			l = append(l, node([]string{"10.0.0.1/a", "10.0.0.1/b", "10.0.0.11/c", "10.0.0.2/d"}[i], []int{5000, 5001, 5000, 500}[i]))
		}
		return
	}
	add(&Scenario{Prop: "C31", Name: "histories", Max: [2]int{0, 0},
		Desc: "every sequence of four (thorough: five) of: a peer connects, the hub connects to a peer, either side closes the oldest or the newest connection, the newest peer dies, its node closes, a failed connect, an unfinished handshake: a walk over the connections before and after each visits exactly the live ones, each once, on both sides",
		Body: func(tier int) {
			w := newWalked()
			ps := peers(4)
			dead := map[*Node]bool{}
			rt.MapOrder(pick(2))
			free := func() *Node {
				for _, p := range ps {
					used := dead[p]
					for _, k := range w.live {
						used = used || k.peer == p
					}
					if !used {
						return p
					}
				}
				return nil
			}
			w.check("at the start")
			for i := 0; i < 4+tier; i++ {
				op := pick(9)
				var k *known
				if n := len(w.live); n > 0 {
					k = w.live[n-1]
					if op == 2 || op == 4 {
						k = w.live[0]
					}
				}
				what := ""
				switch {
				case op < 2:
					p := free()
					if p == nil {
						return
					}
					w.join(p, op == 1)
					what = fmt.Sprintf("after connection %d", i)
				case op < 8 && k == nil:
					return
				case op == 2 || op == 3:
					w.hub.do(func() { k.ch.Close() })
					w.drop(k)
					what = "after the node has closed a connection"
				case op == 4 || op == 5:
					k.peer.do(func() { k.pch.Close() })
					w.drop(k)
					what = "after the peer has closed a connection"
				case op == 6:
					vnet.Get().Detach(k.peer.ip(), k.peer.port)
					dead[k.peer] = true
					pass(7 * time.Second)
					w.drop(k)
					what = "after a peer fell silent"
				case op == 7:
					k.peer.do(func() { k.peer.Close() })
					dead[k.peer] = true
					w.drop(k)
					what = "after the peer's node was closed"
				case op == 8:
					// a first handshake step from nowhere, and a connect to nowhere
					a := attemptTo(w.hub, "connect", "10.9.9.9:99")
					a.result()
					if a.err == nil {
						rt.Fail("connected to nowhere")
					}
					what = "after a failed connect"
				}
				pass(10 * time.Millisecond)
				w.check(what)
			}
		}})
	add(&Scenario{Prop: "C31", Name: "in-walk", Max: [2]int{1, 2}, Stalls: held,
		Desc: "at each step of a walk over up to three connections one thing happens inside it: that connection, an other one or all are closed by either side, a new one is made, messages are written, a second walk is made, the node is closed: each connection that lives throughout is visited once, none twice",
		Body: func(int) {
			w := newWalked()
			ps := peers(4)
			n := 1 + pick(3)
			for i := 0; i < n; i++ {
				w.join(ps[i], i == 1)
			}
			rt.MapOrder(pick(3))
			at := pick(n)
			op := pick(8)
			start := append([]*known{}, w.live...)
			touched := map[*tru.Channel]bool{}
			seen := map[*tru.Channel]int{}
			step := 0
			visit := func(ch *tru.Channel) {
				if ch == nil {
					rt.Fail("a walk visits nothing (nil)")
				}
				seen[ch]++
				if step++; step != at+1 {
					return
				}
				var k, o *known
				for _, x := range start {
					if x.ch == ch {
						k = x
					} else {
						o = x
					}
				}
				if k == nil {
					rt.Fail("a walk visits an unknown connection with %v", ch.Addr())
				}
				gone := func(l ...*known) {
					for _, x := range l {
						touched[x.ch] = true
						w.drop(x)
					}
				}
				switch op {
				case 0:
					ch.Close()
					gone(k)
				case 1:
					if o != nil {
						o.ch.Close()
						gone(o)
					}
				case 2:
					w.hub.ForEachChannel(func(c *tru.Channel) { c.Close() })
					gone(start...)
				case 3:
					k.peer.do(func() { k.pch.Close() })
					pass(3 * time.Millisecond)
					gone(k)
				case 4:
					w.join(ps[3], pick(2) == 1)
				case 5:
					m := map[*tru.Channel]int{}
					w.hub.ForEachChannel(func(c *tru.Channel) { m[c]++ })
					if len(m) != n {
						rt.Fail("a walk inside a walk visits %d connections of %d", len(m), n)
					}
				case 6:
					for _, x := range start {
						x.ch.WriteTo([]byte("x"))
					}
					w.hub.Statistic()
				case 7:
					w.hub.Close()
					gone(start...)
				}
			}
			rt.SetRace(true)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			t := w.hub.spawn("walk", func() { w.hub.ForEachChannel(visit) })
			if !wait(7*time.Second, t) {
				rt.Fail("a walk over the connections does not return\n%s", rt.Dump())
			}
			rt.SetROI(rt.ROI{})
			for ch, c := range seen {
				if c > 1 {
					rt.Fail("a walk visits the connection with %v %d times", ch.Addr(), c)
				}
			}
			for _, k := range start {
				if !touched[k.ch] && seen[k.ch] != 1 {
					rt.Fail("a walk visits the connection with %s %d times; it lived all the time", k.peer.addr(), seen[k.ch])
				}
			}
			pass(300 * time.Millisecond)
			w.check("after the walk")
		}})
	add(&Scenario{Prop: "C31", Name: "schedules", Stalls: held, Max: [2]int{2, 3},
		Desc: "a walk, or two, over two connections while one of them is closed by either side, a third one is made by either side, or all end, under every schedule: the others are visited exactly once, what is visited was there",
		Body: func(int) {
			w := newWalked()
			ps := peers(3)
			a := w.join(ps[0], false)
			b := w.join(ps[1], pick(2) == 1)
			rt.MapOrder(pick(2))
			op := pick(5)
			start := append([]*known{}, w.live...)
			rt.SetRace(true)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			walk := func(seen map[*tru.Channel]int) func() {
				return func() {
					w.hub.ForEachChannel(func(ch *tru.Channel) {
						if ch == nil {
							rt.Fail("a walk visits nothing (nil)")
						}
						seen[ch]++
					})
				}
			}
			s1, s2 := map[*tru.Channel]int{}, map[*tru.Channel]int{}
			t1 := w.hub.spawn("walk", walk(s1))
			t2 := w.hub.spawn("second walk", walk(s2))
			var t3 *task
			var at *attempt
			must := map[*tru.Channel]bool{a.ch: true, b.ch: true}
			switch op {
			case 0:
				t3 = w.hub.spawn("close", func() { a.ch.Close() })
				delete(must, a.ch)
				w.drop(a)
			case 1:
				t3 = b.peer.spawn("peer closes", func() { b.pch.Close() })
				delete(must, b.ch)
				w.drop(b)
			case 2:
				at = attemptTo(ps[2], "peer connects", w.hub.addr())
			case 3:
				at = attemptTo(w.hub, "connect", ps[2].addr())
			case 4:
				t3 = w.hub.spawn("node closes", func() { w.hub.Close() })
				must = nil
				w.live = nil
			}
			ts := []*task{t1, t2}
			if t3 != nil {
				ts = append(ts, t3)
			}
			if !wait(time.Second, ts...) {
				rt.Fail("a walk does not return\n%s", rt.Dump())
			}
			if at != nil {
				wait(20*time.Millisecond, at.t)
			}
			rt.SetROI(rt.ROI{})
			extra := 0
			for i, s := range []map[*tru.Channel]int{s1, s2} {
				for ch := range must {
					if s[ch] != 1 {
						rt.Fail("walk %d visits a connection that lived all the time %d times", i+1, s[ch])
					}
				}
				for ch, c := range s {
					if c != 1 {
						rt.Fail("walk %d visits the connection with %v %d times", i+1, ch.Addr(), c)
					}
					if ch != start[0].ch && ch != start[1].ch {
						extra++
						if at == nil || ch.Addr().String() != ps[2].addr() {
							rt.Fail("walk %d visits an unknown connection with %v", i+1, ch.Addr())
						}
					}
				}
			}
			if at != nil {
				at.result()
				if at.err != nil {
					rt.Fail("connect meanwhile failed: %v", at.err)
				}
				pass(300 * time.Millisecond)
				k := &known{peer: ps[2], server: op == 2, ch: at.ch}
				for _, c := range ps[2].channels() {
					k.pch = c
				}
				if op == 2 {
					k.ch = w.all[len(w.all)-1]
				}
				w.live = append(w.live, k)
			}
			pass(300 * time.Millisecond)
			w.check("afterwards")
		}})
}
