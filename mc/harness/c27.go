package main

import (
	"fmt"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

func init() {
	// readers records what each reader is offered
	type offers struct {
		ch, global []string
		depth      int
		most       int
	}
	body := func(o *offers, log *[]string, slow bool, ret bool) tru.ReaderFunc {
		return func(ch *tru.Channel, pac *tru.Packet, err error) bool {
			if err != nil {
				return false
			}
			o.depth++
			if o.depth > 1 {
				rt.Fail("two message callbacks of a node run at the same time")
			}
			*log = append(*log, string(pac.Data()))
			if slow {
				rt.Sleep(300 * time.Microsecond)
			} else {
				rt.Yield()
			}
			o.depth--
			return ret
		}
	}
	add(&Scenario{Prop: "C27", Name: "table", Max: [2]int{2, 3}, Kind: [rt.NumKinds]int{rt.KNet: 2},
		Desc: "connection reader absent, processing or declining, global reader present or absent, whole and split messages, with faults: the right readers get every message in order",
		Body: func(int) {
			o := &offers{}
			cr := pick(3)
			gr := pick(2) == 1
			a := newAnnounced(tru.MaxDataLenType(40))
			var params []interface{}
			if gr {
				params = append(params, body(o, &o.global, false, pick(2) == 1))
			}
			c := node("cli", 0, params...)
			var ch *tru.Channel
			c.do(func() {
				var err error
				switch cr {
				case 0:
					ch, err = c.Connect(a.s.addr())
				case 1:
					ch, err = c.Connect(a.s.addr(), body(o, &o.ch, false, true))
				case 2:
					ch, err = c.Connect(a.s.addr(), body(o, &o.ch, false, false))
				}
				if err != nil {
					rt.Fail("connect: %v", err)
				}
			})
			pass(3 * time.Millisecond)
			if len(a.all) != 1 {
				rt.Fail("announced %d times", len(a.all))
			}
			net := vnet.Get()
			net.Fates = func(*vnet.Dgram) []vnet.Fate { return []vnet.Fate{vnet.OK, vnet.Drop, vnet.Dup, vnet.Late} }
			rt.SetROI(rt.ROI{Net: true})
			var want []string
			for i, n := range []int{10, 100, 0, 40} {
				m := msg("dn", i, n)
				want = append(want, m)
				a.s.do(func() { a.all[0].WriteTo([]byte(m)) })
			}
			c.do(func() { ch.WriteTo([]byte("up")) })
			pass(time.Second)
			quiet(5 * time.Second)
			var wc, wg []string
			if cr > 0 {
				wc = want
			}
			if gr && cr != 1 {
				wg = want
			}
			if fmt.Sprint(o.ch) != fmt.Sprint(wc) || len(o.ch) != len(wc) {
				rt.Fail("connection reader (kind %d) was offered %q, expected %q", cr, o.ch, wc)
			}
			if fmt.Sprint(o.global) != fmt.Sprint(wg) || len(o.global) != len(wg) {
				rt.Fail("global reader (connection reader kind %d) was offered %q, expected %q", cr, o.global, wg)
			}
			if fmt.Sprint(a.up) != "[up]" {
				rt.Fail("the server's reader was offered %q", a.up)
			}
		}})
	add(&Scenario{Prop: "C27", Name: "per-message", Max: [2]int{0, 0},
		Desc: "a connection reader that declines any subset of five messages: the global reader gets exactly those, in order, before the next message is offered",
		Body: func(int) {
			a := newAnnounced()
			var log []string
			decline := pick(32)
			c := node("cli", 0, tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
				if err == nil {
					log = append(log, "g"+string(pac.Data()))
				}
				return true
			}))
			c.do(func() {
				_, err := c.Connect(a.s.addr(), func(ch *tru.Channel, pac *tru.Packet, err error) bool {
					if err != nil {
						return false
					}
					log = append(log, "c"+string(pac.Data()))
					return decline>>int(pac.Data()[0]-'0')&1 == 0
				})
				if err != nil {
					rt.Fail("connect: %v", err)
				}
			})
			pass(3 * time.Millisecond)
			var want []string
			for i := 0; i < 5; i++ {
				a.s.do(func() { a.all[0].WriteTo([]byte(fmt.Sprint(i))) })
				want = append(want, fmt.Sprint("c", i))
				if decline>>i&1 == 1 {
					want = append(want, fmt.Sprint("g", i))
				}
			}
			pass(50 * time.Millisecond)
			if fmt.Sprint(log) != fmt.Sprint(want) {
				rt.Fail("readers were offered %v, expected %v", log, want)
			}
		}})
	add(&Scenario{Prop: "C27", Name: "early", Stalls: held, Max: [2]int{2, 3},
		Desc: "the server writes at once, the connecting side's reader must see the first message, under every schedule and with the last handshake answer delayed",
		Body: func(int) {
			o := &offers{}
			a := newAnnounced()
			a.in = func(ch *tru.Channel) {
				for i := 0; i < 3; i++ {
					ch.WriteTo([]byte(fmt.Sprint("m", i)))
				}
			}
			c := node("cli", 0, body(o, &o.global, false, true))
			late := sel(0, 1, 3)
			net := vnet.Get()
			net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if wType(d.Data) == wDone && late > 0 {
					f := after("late", time.Duration(late)*vnet.Latency)
					return &f
				}
				return nil
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			var err error
			t := c.spawn("connect", func() {
				_, err = c.Connect(a.s.addr(), body(o, &o.ch, false, true))
			})
			rt.WaitUntil(8*time.Millisecond, func() bool { return t.done && len(o.ch) == 3 })
			quiet(0)
			wait(6*time.Second, t)
			rt.Sleep(2 * time.Second)
			if err != nil {
				rt.Fail("connect: %v", err)
			}
			if fmt.Sprint(o.ch) != "[m0 m1 m2]" || len(o.global) != 0 {
				rt.Fail("the reader given to connect was offered %q, the global one %q", o.ch, o.global)
			}
		}})
	add(&Scenario{Prop: "C27", Name: "one-at-a-time", Stalls: held, Max: [2]int{1, 2},
		Desc: "two peers write to one node whose readers take time: callbacks never overlap and each message goes with its own connection, under every schedule",
		Body: func(int) {
			o := &offers{}
			by := map[string][]string{}
			inner := body(o, &o.global, pick(2) == 1, true)
			s := node("srv", 7000, tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
				if err != nil {
					return false
				}
				by[ch.Addr().String()] = append(by[ch.Addr().String()], string(pac.Data()))
				return inner(ch, pac, err)
			}))
			a, b := node("cli", 0), node("10.0.0.2/b", 5000)
			ta := attemptTo(a, "a", s.addr())
			ta.result()
			tb := attemptTo(b, "b", s.addr())
			tb.result()
			var own []string
			c := node("cli2", 0)
			tc := s.spawn("connect", func() {}) // s connects to c as well: a connection reader on the same node
			_ = tc
			var cc *tru.Channel
			s.do(func() {
				s.Connect(c.addr(), func(ch *tru.Channel, pac *tru.Packet, err error) bool {
					if err != nil {
						return false
					}
					own = append(own, string(pac.Data()))
					return inner(ch, pac, err)
				})
			})
			pass(3 * time.Millisecond)
			for _, ch := range c.channels() {
				cc = ch
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			w := a.spawn("wa", func() { ta.ch.WriteTo([]byte("a0")); ta.ch.WriteTo([]byte("a1")) })
			x := b.spawn("wb", func() { tb.ch.WriteTo([]byte("b0")) })
			y := c.spawn("wc", func() { cc.WriteTo([]byte("c0")) })
			rt.WaitUntil(8*time.Millisecond, func() bool { return w.done && x.done && y.done && len(o.global) == 4 })
			quiet(2 * time.Second)
			if fmt.Sprint(by[a.addr()]) != "[a0 a1]" || fmt.Sprint(by[b.addr()]) != "[b0]" || fmt.Sprint(own) != "[c0]" || len(by) != 2 {
				rt.Fail("readers were offered %v and %v", by, own)
			}
		}})
	add(&Scenario{Prop: "C27", Name: "replies", Stalls: held, Max: [2]int{1, 2},
		Desc: "readers that write, ask for statistics or close from inside keep getting the following messages, under every schedule",
		Body: func(int) {
			what := pick(4)
			p := newPair(pairOpt{})
			n := 0
			p.OnUp = func(ch *tru.Channel, pac *tru.Packet) {
				p.Up.deliver(pac.Data())
				switch what {
				case 0:
					p.down(10)
				case 1:
					p.S.Statistic()
				case 2:
					p.S.ForEachChannel(func(c *tru.Channel) { p.down(20) })
				case 3:
					p.down(5, func(*tru.Packet, error) { n++ })
				}
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			t := p.C.spawn("up", func() { p.up(10); p.up(70) })
			rt.WaitUntil(8*time.Millisecond, func() bool { return t.done && p.allDelivered() && p.Up.Got == 2 })
			quiet(0)
			wait(time.Second, t)
			p.settle(5 * time.Second)
			if what == 3 && n != 2 {
				rt.Fail("%d of 2 delivery callbacks ran", n)
			}
		}})
}
