package main

import (
	"fmt"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// attempt is one call of Connect and its outcome.
type attempt struct {
	ch    *tru.Channel
	err   error
	took  time.Duration
	t     *task
	got   []string
	errs  []string
	early bool
}

func (p *Pair) attempt(name string) *attempt { return attemptTo(p.C, name, p.S.addr()) }

func attemptTo(c *Node, name, addr string) *attempt {
	a := &attempt{}
	start := rt.Now()
	a.t = c.spawn(name, func() {
		a.ch, a.err = c.Connect(addr, func(ch *tru.Channel, pac *tru.Packet, err error) bool {
			if err != nil {
				a.errs = append(a.errs, err.Error())
			} else {
				a.got = append(a.got, string(pac.Data()))
			}
			return true
		})
		a.took = rt.Now() - start
	})
	return a
}

// result checks what a connect call must give.
func (a *attempt) result() {
	if !a.t.done {
		if !wait(6*time.Second, a.t) {
			rt.Fail("connect does not return within 6 s\n%s", rt.Dump())
		}
	}
	if a.took > 5300*time.Millisecond {
		rt.Fail("connect returned after %v", a.took)
	}
	if (a.ch == nil) == (a.err == nil) {
		rt.Fail("connect returned connection %v and error %v", a.ch != nil, a.err)
	}
	rt.Observe("connected %v", a.err == nil)
}

func (n *Node) channels() (l []*tru.Channel) {
	n.do(func() { n.ForEachChannel(func(ch *tru.Channel) { l = append(l, ch) }) })
	return
}

// usable checks that the connection carries messages both ways at once.
func usable(c, s *Node, a *attempt, serverGot *[]string) {
	if a.ch.Destroyed() {
		rt.Fail("connect returned a destroyed connection")
	}
	var sch *tru.Channel
	for _, ch := range s.channels() {
		if ch != nil && ch.Addr().String() == c.addr() {
			sch = ch
		}
	}
	if sch == nil {
		rt.Fail("connect succeeded but the server has no connection")
	}
	n0, m0 := len(a.got), len(*serverGot)
	for i := 0; i < 2; i++ {
		m := fmt.Sprintf("hello %d, %s", i, msg("x", i, 60*i+20))
		c.do(func() {
			if _, err := a.ch.WriteTo([]byte(m)); err != nil {
				rt.Fail("write on a fresh connection: %v", err)
			}
		})
		s.do(func() {
			if _, err := sch.WriteTo([]byte("s" + m)); err != nil {
				rt.Fail("write on a fresh connection: %v", err)
			}
		})
	}
	if !rt.WaitUntil(5*time.Second, func() bool { return len(a.got) >= n0+2 && len(*serverGot) >= m0+2 }) {
		rt.Fail("messages do not pass on a fresh connection: %d of 2 from the server, %d of 2 from the client", len(a.got)-n0, len(*serverGot)-m0)
	}
	quiet(800 * time.Millisecond)
	if len(a.got) != n0+2 || len(*serverGot) != m0+2 {
		rt.Fail("messages of a fresh connection were delivered several times")
	}
	for i := 0; i < 2; i++ {
		m := fmt.Sprintf("hello %d, %s", i, msg("x", i, 60*i+20))
		if a.got[n0+i] != "s"+m || (*serverGot)[m0+i] != m {
			rt.Fail("message %d of a fresh connection arrives as %s and %s", i, short(a.got[n0+i]), short((*serverGot)[m0+i]))
		}
	}
}

func init() {
	judge := func(p *Pair, a *attempt, up *[]string) {
		a.result()
		quiet(0)
		if a.err != nil {
			rt.Sleep(50 * time.Millisecond)
			if l := p.C.channels(); len(l) != 0 {
				rt.Fail("connect failed (%v) but left %d connections on the connecting side", a.err, len(l))
			}
			// late handshake datagrams must not bring it back
			rt.Sleep(2 * time.Second)
			if l := p.C.channels(); len(l) != 0 {
				rt.Fail("connect failed (%v) but left %d connections on the connecting side", a.err, len(l))
			}
			rt.Sleep(8 * time.Second)
			if l := p.S.channels(); len(l) != 0 {
				rt.Fail("connect failed (%v); the server still has a connection 10 s later", a.err)
			}
			// and the next attempt works
			b := p.attempt("again")
			b.result()
			if b.err != nil {
				rt.Fail("after a failed connect the next one fails on a perfect network: %v", b.err)
			}
			usable(p.C, p.S, b, up)
			return
		}
		usable(p.C, p.S, a, up)
		rt.Sleep(10 * time.Second)
		if a.ch.Destroyed() || len(p.S.channels()) != 1 || len(p.C.channels()) != 1 {
			rt.Fail("the fresh connection does not live: destroyed %v, %d on the server, %d on the client", a.ch.Destroyed(), len(p.S.channels()), len(p.C.channels()))
		}
	}
	fresh := func() (*Pair, *[]string) {
		p := newPair(pairOpt{noConnect: true})
		var up []string
		p.OnUp = func(ch *tru.Channel, pac *tru.Packet) { up = append(up, string(pac.Data())) }
		return p, &up
	}
	add(&Scenario{Prop: "C07", Name: "faults", Max: [2]int{4, 5},
		Desc: "every handshake datagram may be lost, repeated, delayed a little, a lot, or to either side of the timeout",
		Body: func(int) {
			p, up := fresh()
			p.fates(isHandshake, vnet.OK, vnet.Drop, vnet.Dup, vnet.Dup2, vnet.Late, vnet.Later, after("4.9s", 4900*time.Millisecond), after("5.1s", 5100*time.Millisecond),
				vnet.Fate{Name: "dup6s", Delays: []time.Duration{vnet.Latency, 6 * time.Second}})
			rt.SetROI(rt.ROI{Net: true})
			a := p.attempt("connect")
			wait(6*time.Second, a.t)
			judge(p, a, up)
		}})
	add(&Scenario{Prop: "C07", Name: "schedules", Stalls: held, Max: [2]int{2, 3}, Kind: [rt.NumKinds]int{rt.KNet: 1},
		Desc: "the handshake under every schedule with one datagram disturbed",
		Body: func(int) {
			p, up := fresh()
			p.fates(isHandshake, vnet.OK, vnet.Drop, vnet.Dup)
			dropped := false
			p.Net.OnSend = func(d *vnet.Dgram) { dropped = dropped || d.Fate == vnet.Drop.Name }
			rt.SetROI(rt.ROI{Net: true, Sched: true, Stmt: true})
			a := p.attempt("connect")
			rt.WaitUntil(8*time.Millisecond, func() bool { return a.t.done })
			pass(3 * time.Millisecond)
			quiet(0)
			if a.result(); a.err != nil && !dropped {
				rt.Fail("connect fails although all datagrams of the handshake arrive in time: %v", a.err)
			}
			judge(p, a, up)
		}})
	add(&Scenario{Prop: "C07", Name: "at-timeout", Stalls: held, Max: [2]int{2, 3},
		Desc: "the last or the second handshake answer arrives at the moment of the timeout, perhaps twice, under every schedule and timer order",
		Body: func(int) {
			p, up := fresh()
			typ := sel(wDone, wServerAnswer)
			start := rt.Now()
			at := start + 5*time.Second + time.Duration(pick(5)-3)*400*time.Microsecond
			two := pick(2) == 1
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if wType(d.Data) == typ && rt.Now() < start+4*time.Second {
					f := after("at-timeout", at-rt.Now())
					if two {
						f.Delays = append(f.Delays, at-rt.Now())
					}
					return &f
				}
				return nil
			}
			a := p.attempt("connect")
			rt.Sleep(at - rt.Now() - 700*time.Microsecond)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Timer: 500 * time.Microsecond})
			rt.WaitUntil(3*time.Millisecond, func() bool { return a.t.done })
			pass(3 * time.Millisecond)
			quiet(0)
			judge(p, a, up)
		}})
	add(&Scenario{Prop: "C07", Name: "two-at-once", Stalls: held, Max: [2]int{1, 2}, Kind: [rt.NumKinds]int{rt.KNet: 1},
		Desc: "one node connects to two servers at once, and two nodes to one server, under every schedule",
		Body: func(int) {
			p, up := fresh()
			var up2 []string
			rd := tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
				if err == nil {
					up2 = append(up2, string(pac.Data()))
				}
				return true
			})
			p.fates(isHandshake, vnet.OK, vnet.Drop, vnet.Dup)
			if pick(2) == 0 {
				s2 := node("srv2", 7001, rd)
				rt.SetROI(rt.ROI{Sched: true, Stmt: true, Net: true})
				a := p.attempt("connect")
				b := attemptTo(p.C, "connect2", s2.addr())
				rt.WaitUntil(8*time.Millisecond, func() bool { return a.t.done && b.t.done })
				quiet(0)
				a.result()
				b.result()
				if a.err == nil {
					usable(p.C, p.S, a, up)
				}
				if b.err == nil {
					usable(p.C, s2, b, &up2)
				}
			} else {
				c2 := node("cli2", 0)
				rt.SetROI(rt.ROI{Sched: true, Stmt: true, Net: true})
				a := p.attempt("connect")
				b := attemptTo(c2, "connect2", p.S.addr())
				rt.WaitUntil(8*time.Millisecond, func() bool { return a.t.done && b.t.done })
				quiet(0)
				a.result()
				b.result()
				if a.err == nil {
					usable(p.C, p.S, a, up)
				}
				if b.err == nil {
					*up = nil
					usable(c2, p.S, b, up)
				}
			}
		}})
	add(&Scenario{Prop: "C07", Name: "bad-address", Max: [2]int{0, 0},
		Desc: "connects to addresses where nobody listens or that do not exist",
		Body: func(int) {
			p, up := fresh()
			addr := sel("127.0.0.1:9", "127.0.0.1:65535", "10.1.2.3:7000", "nohost:1", "127.0.0.1", "", ":", "127.0.0.1:99999", "[::1]:9")
			a := attemptTo(p.C, "connect", addr)
			a.result()
			if a.err == nil {
				rt.Fail("connect to %q succeeded", addr)
			}
			judge(p, a, up)
		}})
	add(&Scenario{Prop: "C07", Name: "many-attempts", Max: [2]int{2, 3},
		Desc: "three attempts one after another with faults, the last on a perfect network works",
		Body: func(int) {
			p, up := fresh()
			p.fates(isHandshake, vnet.OK, vnet.Drop, vnet.Dup, after("5.1s", 5100*time.Millisecond))
			for i := 0; i < 2; i++ {
				rt.SetROI(rt.ROI{Net: true})
				a := p.attempt("connect")
				wait(6*time.Second, a.t)
				rt.SetROI(rt.ROI{})
				a.result()
				if a.err == nil {
					a.ch.Close()
					rt.Sleep(20 * time.Millisecond)
				}
			}
			a := p.attempt("connect")
			wait(6*time.Second, a.t)
			a.result()
			if a.err == nil {
				usable(p.C, p.S, a, up)
			}
		}})
	add(&Scenario{Prop: "C07", Name: "server-closes", Stalls: held, Max: [2]int{1, 2},
		Desc: "the server node closes, or the connecting node closes, during the handshake, under every schedule",
		Body: func(int) {
			p, _ := fresh()
			n := sel(p.S, p.C)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			a := p.attempt("connect")
			b := n.spawn("close", func() { n.Close() })
			rt.WaitUntil(8*time.Millisecond, func() bool { return a.t.done && b.done })
			quiet(0)
			if !wait(time.Second, b) {
				rt.Fail("node close does not return\n%s", rt.Dump())
			}
			a.result()
		}})
	add(&Scenario{Prop: "C07", Name: "crowd", Max: [2]int{0, 0},
		Desc: "one node connects to up to 40 servers at once, or up to 40 nodes connect to one server: all succeed and work",
		Body: func(tier int) {
			p, up := fresh()
			n := sel(3, 17, 40)
			toOne := pick(2) == 1
			var as []*attempt
			var from, to []*Node
			for i := 0; i < n; i++ {
				f, t := p.C, p.S
				if toOne {
					f = node(fmt.Sprintf("10.0.0.%d/c", i+1), 4000+i)
				} else {
					t = node(fmt.Sprintf("10.0.0.%d/s", i+1), 4000+i, tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
						if err == nil {
							*up = append(*up, string(pac.Data()))
						}
						return true
					}))
				}
				from, to = append(from, f), append(to, t)
				as = append(as, attemptTo(f, fmt.Sprint("connect", i), t.addr()))
			}
			for i, a := range as {
				if !wait(6*time.Second, a.t) {
					rt.Fail("connect %d does not return\n%s", i, rt.Dump())
				}
				if a.result(); a.err != nil {
					rt.Fail("connect %d of %d at once fails although all datagrams of the handshake arrive in time: %v", i, n, a.err)
				}
			}
			for _, i := range []int{0, n / 2, n - 1} {
				*up = nil
				usable(from[i], to[i], as[i], up)
			}
		}})
}
