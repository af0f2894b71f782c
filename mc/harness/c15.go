package main

import (
	"fmt"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

func init() {
	// works checks that a connection carries messages both ways, from the
	// first on, and stays.
	works := func(l *listened, c *Node, ch, sch *tru.Channel, up, down *[]string, tag string) {
		u0, d0 := len(*up), len(*down)
		var wu, wd []string
		for i := 0; i < 2; i++ {
			u, d := msg("up"+tag, i, 20+70*i), msg("down"+tag, i, 90-60*i)
			wu, wd = append(wu, u), append(wd, d)
			c.do(func() {
				if _, err := ch.WriteTo([]byte(u)); err != nil {
					rt.Fail("write on the new connection: %v", err)
				}
			})
			l.S.do(func() {
				if _, err := sch.WriteTo([]byte(d)); err != nil {
					rt.Fail("write on the new connection (server side): %v", err)
				}
			})
		}
		rt.WaitUntil(3*time.Second, func() bool { return len(*up) >= u0+2 && len(*down) >= d0+2 })
		rt.Sleep(300 * time.Millisecond)
		if fmt.Sprint((*up)[u0:]) != fmt.Sprint(wu) || fmt.Sprint((*down)[d0:]) != fmt.Sprint(wd) {
			rt.Fail("the new connection delivers %d of 2 and %d of 2 messages, or others", len(*up)-u0, len(*down)-d0)
		}
	}
	// again connects a node to the server of l and returns the new connection
	again := func(l *listened, c *Node, down *[]string, errs *int) *tru.Channel {
		var ch *tru.Channel
		var err error
		old := l.Sch
		t := c.spawn("reconnect", func() {
			ch, err = c.Connect(l.S.addr(), func(ch *tru.Channel, pac *tru.Packet, err error) bool {
				if err != nil {
					*errs++
				} else {
					*down = append(*down, string(pac.Data()))
				}
				return true
			})
		})
		if !wait(6*time.Second, t) || err != nil {
			rt.Fail("connecting again: returned %v, error %v", t.done, err)
		}
		rt.WaitUntil(20*time.Millisecond+rt.Stall(), func() bool { return l.Sch != old })
		if l.Sch == old {
			rt.Fail("the new connection is not announced")
		}
		return ch
	}
	check := func(l *listened, c *Node, ch, och, osch *tru.Channel, errs *int, oldClient bool) {
		if ch.Destroyed() || l.Sch.Destroyed() || *errs > 0 {
			rt.Fail("the new connection was destroyed (client %v, server %v)", ch.Destroyed(), l.Sch.Destroyed())
		}
		if !osch.Destroyed() || l.e.n("server's global reader", osch) != 1 {
			rt.Fail("the old connection: server side destroyed %v, reader told %d times", osch.Destroyed(), l.e.n("server's global reader", osch))
		}
		if oldClient && (!och.Destroyed() || l.e.n("connection's reader", och) != 1) {
			rt.Fail("the old connection: client side destroyed %v, reader told %d times", och.Destroyed(), l.e.n("connection's reader", och))
		}
		if s := l.S.channels(); len(s) != 1 || s[0] != l.Sch {
			rt.Fail("the server lists %d connections or another one", len(s))
		}
		if s := c.channels(); len(s) != 1 || s[0] != ch {
			rt.Fail("the client lists %d connections or another one", len(s))
		}
	}
	add(&Scenario{Prop: "C15", Name: "histories", Max: [2]int{1, 2}, Kind: [rt.NumKinds]int{rt.KNet: 1},
		Desc: "traffic with unfinished packets, one of seven endings or none, a pause, connect again, repeated close of the old handles: the new connection works from the first message and stays",
		Body: func(int) {
			l := newListened()
			och, osch := l.Ch, l.Sch
			// leave packets in the queues of the old connection
			var drop func(d *vnet.Dgram) bool
			l.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if drop != nil && drop(d) {
					return &vnet.Drop
				}
				return nil
			}
			switch pick(3) {
			case 1: // lost data both ways
				drop = isData
			case 2: // gaps: the first is lost
				drop = func(d *vnet.Dgram) bool { return isData(d) && wID(d.Data) == 0 }
			}
			l.C.do(func() { och.WriteTo([]byte("o0")); och.WriteTo([]byte(msg("o1", 0, 80)), func(*tru.Packet, error) {}) })
			l.S.do(func() { osch.WriteTo([]byte("q0")); osch.WriteTo([]byte(msg("q1", 0, 80))) })
			rt.Sleep(3 * time.Millisecond)
			how := pick(7)
			oldClient := true
			c := l.C
			switch how {
			case 0: // nothing: connect again right away
			case 1:
				l.C.do(func() { och.Close() })
			case 2:
				l.S.do(func() { osch.Close() })
			case 3:
				l.C.spawn("a", func() { och.Close() })
				l.S.spawn("b", func() { osch.Close() })
			case 4, 5: // the client node goes away (crash or close) and a new one uses its port
				oldClient = false
				if how == 4 {
					l.Net.Detach(l.C.ip(), l.C.port)
				} else {
					l.C.do(func() { l.C.Close() })
				}
				c = node("cli2", l.C.port)
			case 6: // everything is lost until both sides notice
				drop = func(*vnet.Dgram) bool { return true }
				rt.Sleep(7 * time.Second)
			}
			rt.Sleep(sel(0, 5*time.Millisecond, 260*time.Millisecond))
			drop = nil
			rt.Sleep(3 * time.Millisecond) // nothing of the old connection is in the network
			var down []string
			errs := 0
			l.up = nil
			l.fates(isData, vnet.OK, vnet.Drop)
			rt.SetROI(rt.ROI{Net: true})
			ch := again(l, c, &down, &errs)
			l.up = nil
			works(l, c, ch, l.Sch, &l.up, &down, "n")
			rt.SetROI(rt.ROI{})
			// old handles
			l.C.do(func() { och.Close(); och.WriteTo([]byte("old")) })
			l.S.do(func() { osch.Close(); osch.WriteTo([]byte("old")) })
			rt.Sleep(9 * time.Second)
			works(l, c, ch, l.Sch, &l.up, &down, "m")
			check(l, c, ch, och, osch, &errs, oldClient)
		}})
	add(&Scenario{Prop: "C15", Name: "races", Stalls: held, Max: [2]int{2, 3},
		Desc: "the old connection's end (closing, timers, statistics, a blocked write) meets the new connection's start, under every schedule",
		Body: func(int) {
			l := newListened()
			och, osch := l.Ch, l.Sch
			var down []string
			errs := 0
			what := pick(5)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			var t *task
			switch what {
			case 0:
				t = l.C.spawn("close old", func() { och.Close() })
			case 1:
				t = l.S.spawn("close old", func() { osch.Close() })
			case 2:
				t = l.C.spawn("write old", func() { och.WriteTo([]byte("old")) })
			case 3:
				t = l.S.spawn("write old", func() { osch.WriteTo([]byte("old")) })
			case 4:
				t = l.S.spawn("walk", func() {
					l.S.Statistic()
					l.S.ForEachChannel(func(c *tru.Channel) {
						if c == osch {
							c.WriteTo([]byte("walk"))
						}
					})
				})
			}
			var ch *tru.Channel
			var err error
			r := l.C.spawn("reconnect", func() {
				if what == 0 {
					// the application closes and connects again one after the other
					rt.WaitUntil(time.Second, func() bool { return t.done })
				}
				ch, err = l.C.Connect(l.S.addr(), func(ch *tru.Channel, pac *tru.Packet, err error) bool {
					if err != nil {
						errs++
					} else {
						down = append(down, string(pac.Data()))
					}
					return true
				})
			})
			wait(12*time.Millisecond, t, r)
			pass(2 * time.Millisecond)
			quiet(0)
			if !wait(6*time.Second, t, r) {
				rt.Fail("the calls do not return\n%s", rt.Dump())
			}
			if what == 1 && err != nil {
				// the disconnect of the old connection may meet the new one half way
				rt.Sleep(8 * time.Second)
				ch = again(l, l.C, &down, &errs)
			} else if err != nil {
				rt.Fail("connecting again: %v", err)
			}
			rt.Sleep(10 * time.Millisecond)
			if what == 1 && ch.Destroyed() {
				return // closed by the disconnect of the server's own close, which overtook the new connection
			}
			l.up, down = nil, nil
			works(l, l.C, ch, l.Sch, &l.up, &down, "n")
			rt.Sleep(9 * time.Second)
			if errs > 0 {
				rt.Fail("the new connection was destroyed")
			}
			check(l, l.C, ch, och, osch, &errs, true)
		}})
	add(&Scenario{Prop: "C15", Name: "old-timers", Stalls: held, Max: [2]int{1, 2},
		Desc: "connecting again at the moment the old connection's timers run or its silence is noticed, with timers and goroutines in every order",
		Body: func(int) {
			l := newListened()
			och, osch := l.Ch, l.Sch
			drop := true
			l.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if drop {
					return &vnet.Drop
				}
				return nil
			}
			created := time.Duration(0)
			for _, d := range l.Net.Log {
				if wType(d.Data) == wClientAnswer {
					created = d.At
				}
			}
			l.C.do(func() { och.WriteTo([]byte("lost")) })
			l.S.do(func() { osch.WriteTo([]byte("lost")) })
			at := sel(300, 6000, 6500)
			rt.Sleep(created + time.Duration(at)*time.Millisecond - rt.Now() - 3*time.Millisecond)
			drop = false
			var down []string
			errs := 0
			l.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				// packets of the old connection no longer pass
				if isData(d) && l.Sch == osch {
					return &vnet.Drop
				}
				return nil
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Timer: 5 * time.Millisecond})
			pass(time.Duration(pick(3)) * 1200 * time.Microsecond)
			ch := again(l, l.C, &down, &errs)
			pass(3 * time.Millisecond)
			quiet(0)
			l.up, down = nil, nil
			works(l, l.C, ch, l.Sch, &l.up, &down, "n")
			rt.Sleep(9 * time.Second)
			check(l, l.C, ch, och, osch, &errs, true)
		}})
	add(&Scenario{Prop: "C15", Name: "many-times", Max: [2]int{0, 0},
		Desc: "every sequence of four ends and reconnects over one pair of addresses; messages and statistics of each connection are its own",
		Body: func(int) {
			l := newListened()
			ch, sch := l.Ch, l.Sch
			var down []string
			errs := 0
			for i := 0; i < 4; i++ {
				errs = 0
				switch pick(4) {
				case 0:
					l.C.do(func() { ch.Close() })
				case 1:
					l.S.do(func() { sch.Close() })
				case 2:
					l.C.do(func() { ch.WriteTo([]byte("unread")) })
					l.C.do(func() { ch.Close() })
				case 3:
				}
				rt.Sleep(3 * time.Millisecond)
				errs = 0
				ch = again(l, l.C, &down, &errs)
				sch = l.Sch
				errs = 0
				l.up = nil
				works(l, l.C, ch, sch, &l.up, &down, fmt.Sprint(i))
				st := l.S.Statistic()
				if len(st) != 1 || st[0].Send != 2 || st[0].Recv != 2 {
					rt.Fail("statistic of the new connection on the server: %+v", st)
				}
			}
			rt.Sleep(8 * time.Second)
			if ch.Destroyed() || sch.Destroyed() {
				rt.Fail("the last connection was destroyed")
			}
		}})
}
