package main

import (
	"fmt"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// announced is a server that counts announcements by peer.
type announced struct {
	s     *Node
	calls map[string]int
	all   []*tru.Channel
	up    []string
	errs  []string
	in    func(ch *tru.Channel) // runs inside the callback
}

func newAnnounced(params ...interface{}) *announced {
	a := &announced{calls: map[string]int{}}
	a.s = node("srv", 7000, append([]interface{}{
		tru.ConnectFunc(func(ch *tru.Channel, err error) {
			if err != nil {
				return
			}
			if ch == nil {
				rt.Fail("a connection was announced without the connection")
			}
			rt.Observe("announced")
			a.calls[ch.Addr().String()]++
			a.all = append(a.all, ch)
			if a.in != nil {
				a.in(ch)
			}
		}),
		tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
			if err != nil {
				a.errs = append(a.errs, err.Error())
				return false
			}
			a.up = append(a.up, string(pac.Data()))
			return true
		})}, params...)...)
	return a
}

// answers counts the client answers that reached the server.
func answers(w *Wire, from string) (n int) {
	for _, d := range w.seen {
		if wType(d.Data) == wClientAnswer && d.Src.String() == from {
			n++
		}
	}
	return
}

func init() {
	add(&Scenario{Prop: "C26", Name: "faults", Max: [2]int{4, 5},
		Desc: "every fault of the handshake: announced once when the client's answer arrived, and never otherwise; the announcing server writes at once",
		Body: func(int) {
			a := newAnnounced()
			w := watch()
			w.off = true
			c := node("cli", 0)
			a.in = func(ch *tru.Channel) {
				if answers(w, c.addr()) == 0 {
					rt.Fail("a connection is announced before the client's answer arrived")
				}
				for _, n := range []int{5, 90} {
					if _, err := ch.WriteTo([]byte(msg("cb", n, n))); err != nil {
						rt.Fail("write from the connect callback: %v", err)
					}
				}
			}
			w.n.Fates = func(d *vnet.Dgram) []vnet.Fate {
				if !isHandshake(d) {
					return nil
				}
				return []vnet.Fate{vnet.OK, vnet.Drop, vnet.Dup, vnet.Dup2, vnet.Late, vnet.Later, after("5.1s", 5100*time.Millisecond),
					{Name: "dup3s", Delays: []time.Duration{vnet.Latency, 3 * time.Second}}}
			}
			rt.SetROI(rt.ROI{Net: true})
			t := attemptTo(c, "connect", a.s.addr())
			wait(6*time.Second, t.t)
			rt.SetROI(rt.ROI{})
			t.result()
			rt.Sleep(4 * time.Second)
			want := 0
			if answers(w, c.addr()) > 0 {
				want = 1
			}
			if n := a.calls[c.addr()]; n != want && !(n == 0 && t.err != nil) {
				rt.Fail("the connection was announced %d times, its handshake was completed %d times", n, want)
			}
			if t.err == nil {
				if a.calls[c.addr()] != 1 {
					rt.Fail("connect succeeded, announced %d times", a.calls[c.addr()])
				}
				if len(t.got) != 2 || t.got[0] != msg("cb", 5, 5) || t.got[1] != msg("cb", 90, 90) {
					rt.Fail("messages written in the connect callback: the client got %d: %q", len(t.got), t.got)
				}
			}
		}})
	add(&Scenario{Prop: "C26", Name: "half-open", Max: [2]int{0, 0},
		Desc: "attempts that stop after the first request, with good or bad content, repeated or from several ports, are never announced, alone or next to a good one",
		Body: func(int) {
			a := newAnnounced()
			c := node("cli", 0)
			t := attemptTo(c, "connect", a.s.addr())
			t.result()
			net := vnet.Get()
			var hello, answer *vnet.Dgram
			for _, d := range net.Log {
				if wType(d.Data) == wConnect {
					hello = d
				}
				if wType(d.Data) == wClientAnswer {
					answer = d
				}
			}
			src := &netUDP{IP: c.ip(), Port: 5999}
			id := []byte("01234567-89ab-cdef-0123-456789abcdef")
			first := append([]byte(nil), hello.Data...)
			copy(first[5:], id)
			second := append([]byte(nil), answer.Data...)
			switch pick(4) {
			case 0:
				second = nil
			case 1: // answer of another connection
			case 2:
				second = wPacket(wClientAnswer, 0, append([]byte{36}, id...))
			case 3:
				second = wPacket(wClientAnswer, 0, append(append([]byte{36}, id...), 1, 2, 3))
			}
			net.Inject(src, a.s.udp(), first, 0)
			rt.Sleep(2 * time.Millisecond)
			if pick(2) == 1 {
				net.Inject(src, a.s.udp(), first, 0)
				rt.Sleep(2 * time.Millisecond)
			}
			for i := 0; second != nil && i < 2; i++ {
				net.Inject(src, a.s.udp(), second, 0)
				rt.Sleep(2 * time.Millisecond)
			}
			if n := a.calls[src.String()]; n != 0 {
				rt.Fail("an attempt that did not complete was announced %d times", n)
			}
			usable(c, a.s, t, &a.up)
			rt.Sleep(8 * time.Second)
			if len(a.all) != 1 {
				rt.Fail("%d connections announced, 1 handshake completed", len(a.all))
			}
		}})
	add(&Scenario{Prop: "C26", Name: "in-callback", Stalls: held, Max: [2]int{1, 2},
		Desc: "inside the callback: write, ask for statistics, walk over the connections, close, in several combinations, under every schedule",
		Body: func(int) {
			a := newAnnounced()
			c := node("cli", 0)
			what := pick(6)
			done := false
			var wrote []string
			a.in = func(ch *tru.Channel) {
				write := func(n int) {
					m := msg("cb", len(wrote), n)
					if _, err := ch.WriteTo([]byte(m)); err != nil {
						rt.Fail("write from the connect callback: %v", err)
					}
					wrote = append(wrote, m)
				}
				switch what {
				case 0:
					for i := 0; i < 12; i++ {
						write(10 + 10*i)
					}
				case 1:
					write(20)
					if st := a.s.Statistic(); len(st) != 1 || st[0].Addr != c.addr() {
						rt.Fail("statistic in the connect callback: %v", st)
					}
				case 2:
					a.s.ForEachChannel(func(x *tru.Channel) {
						if x != ch {
							rt.Fail("another connection")
						}
						write(80)
					})
				case 3:
					write(5)
					ch.Close()
				case 4:
					ch.Close()
					if _, err := ch.WriteTo([]byte("x")); err == nil {
						rt.Fail("write after close in the connect callback succeeds")
					}
				case 5:
					write(7)
					if _, ok := interface{}(ch.Triptime()).(time.Duration); !ok || !ch.ServerMode() || ch.Destroyed() || ch.Addr() == nil {
						rt.Fail("connection in the callback is not ready")
					}
				}
				done = true
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			t := attemptTo(c, "connect", a.s.addr())
			rt.WaitUntil(8*time.Millisecond, func() bool { return t.t.done && done })
			pass(time.Millisecond)
			quiet(0)
			t.result()
			rt.Sleep(time.Second)
			if !done {
				rt.Fail("the connect callback does not complete\n%s", rt.Dump())
			}
			closed := what == 3 || what == 4
			if !closed {
				if t.err != nil {
					rt.Fail("connect fails: %v", t.err)
				}
				if fmt.Sprint(t.got) != fmt.Sprint(wrote) {
					rt.Fail("the callback wrote %d messages, the client got %d or others", len(wrote), len(t.got))
				}
				a.s.do(func() {})
				usable(c, a.s, t, &a.up)
			} else if l := a.s.channels(); len(l) != 0 {
				rt.Fail("the connection closed in the callback is still there")
			}
			if len(a.all) != 1 {
				rt.Fail("announced %d times", len(a.all))
			}
		}})
	add(&Scenario{Prop: "C26", Name: "handed-over", Stalls: held, Max: [2]int{1, 2},
		Desc: "the callback hands the connection to a goroutine that writes at once, while the client writes as soon as connect returns, under every schedule",
		Body: func(int) {
			a := newAnnounced()
			c := node("cli", 0)
			var w *task
			a.in = func(ch *tru.Channel) {
				w = a.s.spawn("worker", func() {
					for i := 0; i < 2; i++ {
						if _, err := ch.WriteTo([]byte(msg("dn", i, 30+40*i))); err != nil {
							rt.Fail("write by the goroutine started in the callback: %v", err)
						}
					}
				})
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			t := attemptTo(c, "connect", a.s.addr())
			rt.WaitUntil(8*time.Millisecond+rt.Stall(), func() bool { return t.t.done })
			if t.t.done && t.err == nil {
				c.do(func() { t.ch.WriteTo([]byte("first")) })
			}
			rt.WaitUntil(8*time.Millisecond, func() bool { return len(t.got) == 2 && len(a.up) == 1 })
			quiet(0)
			t.result()
			rt.WaitUntil(2*time.Second, func() bool { return len(t.got) == 2 && len(a.up) == 1 && w != nil && w.done })
			if t.err != nil || len(a.all) != 1 {
				rt.Fail("connect: %v, announced %d times", t.err, len(a.all))
			}
			if w == nil || !w.done {
				rt.Fail("the goroutine does not complete")
			}
			if len(t.got) != 2 || t.got[0] != msg("dn", 0, 30) || t.got[1] != msg("dn", 1, 70) {
				rt.Fail("the client got %d of 2 messages or others: %q", len(t.got), t.got)
			}
			if len(a.up) != 1 || a.up[0] != "first" {
				rt.Fail("the server got %q", a.up)
			}
		}})
	add(&Scenario{Prop: "C26", Name: "several", Max: [2]int{2, 3}, Kind: [rt.NumKinds]int{rt.KNet: 2},
		Desc: "three nodes, one of them twice, connect at once with faults; one announcement per completed handshake",
		Body: func(int) {
			a := newAnnounced()
			w := watch()
			w.off = true
			w.n.Fates = func(d *vnet.Dgram) []vnet.Fate {
				if !isHandshake(d) {
					return nil
				}
				return []vnet.Fate{vnet.OK, vnet.Drop, vnet.Dup, vnet.Later}
			}
			cs := []*Node{node("cli", 0), node("10.0.0.2/b", 5000), node("10.0.0.3/c", 5000)}
			rt.SetROI(rt.ROI{Net: true})
			var ts []*attempt
			for _, c := range cs {
				ts = append(ts, attemptTo(c, "connect", a.s.addr()))
			}
			for _, t := range ts {
				wait(6*time.Second, t.t)
			}
			rt.SetROI(rt.ROI{})
			for i, t := range ts {
				t.result()
				addr := cs[i].addr()
				if i == 0 {
					addr = cs[i].addr()
				}
				n := a.calls[addr]
				if t.err == nil && n != 1 || n > 1 || n == 1 && answers(w, addr) == 0 {
					rt.Fail("connect of %s: %v, announced %d times", addr, t.err, n)
				}
				if t.err == nil && pick(2) == 1 {
					t.ch.Close()
					rt.Sleep(20 * time.Millisecond)
					b := attemptTo(cs[i], "reconnect", a.s.addr())
					b.result()
					if b.err != nil || a.calls[addr] != 2 {
						rt.Fail("second connection of %s: %v, announced %d times in all", addr, b.err, a.calls[addr])
					}
				}
			}
		}})
	add(&Scenario{Prop: "C26", Name: "slow-callback", Max: [2]int{0, 0},
		Desc: "the callback takes up to 5.5 s, perhaps writes before or after it: the client's connect succeeds, and what was written arrives",
		Body: func(int) {
			a := newAnnounced()
			d := sel(time.Millisecond, time.Second, 3*time.Second, 5500*time.Millisecond)
			before, later := pick(2) == 1, pick(2) == 1
			var want []string
			put := func(ch *tru.Channel, m string) {
				want = append(want, m)
				if _, err := ch.WriteTo([]byte(m)); err != nil {
					rt.Fail("a write in the callback fails: %v", err)
				}
			}
			a.in = func(ch *tru.Channel) {
				if before {
					put(ch, "before")
				}
				rt.Sleep(d)
				if later {
					put(ch, "after")
				}
			}
			c := node("cli", 0)
			b := attemptTo(c, "connect", a.s.addr())
			b.result()
			if b.err != nil {
				rt.Fail("the callback takes %v, connect fails: %v", d, b.err)
			}
			rt.Sleep(d + 500*time.Millisecond)
			if fmt.Sprint(b.got) != fmt.Sprint(want) {
				rt.Fail("written in the callback: %v, received: %v", want, b.got)
			}
			if n := a.calls[c.addr()]; n != 1 {
				rt.Fail("announced %d times", n)
			}
		}})
}
