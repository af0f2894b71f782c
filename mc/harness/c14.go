package main

import (
	"fmt"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// apiOps are the calls of the mixes; every one must return.
var apiNames = []string{"write", "write large", "peer writes", "close", "peer closes", "statistic", "walk", "walk and write", "connect elsewhere", "peer reconnects", "punch", "settings", "display on", "display off", "look", "write with delivery"}

func apiOp(l *listened, other *Node, k int) *task {
	s := l.S
	switch apiNames[k] {
	case "write":
		return s.spawn("write", func() { l.Sch.WriteTo([]byte("w")) })
	case "write large":
		return s.spawn("write large", func() { l.Sch.WriteTo([]byte(msg("l", 0, 100))) })
	case "peer writes":
		return l.C.spawn("peer writes", func() { l.Ch.WriteTo([]byte("p")); l.Ch.WriteTo([]byte(msg("q", 0, 70))) })
	case "close":
		return s.spawn("close", func() { l.Sch.Close() })
	case "peer closes":
		return l.C.spawn("peer closes", func() { l.Ch.Close() })
	case "statistic":
		return s.spawn("statistic", func() { st := s.Statistic(); _ = st.String(); _ = st.NumRows() })
	case "walk":
		return s.spawn("walk", func() {
			s.ForEachChannel(func(ch *tru.Channel) {
				if ch == nil {
					rt.Fail("the walk over the connections yields nil")
				}
				_ = ch.Destroyed()
			})
		})
	case "walk and write":
		return s.spawn("walk and write", func() { s.ForEachChannel(func(ch *tru.Channel) { ch.WriteTo([]byte("x")) }) })
	case "connect elsewhere":
		return s.spawn("connect", func() { s.Connect(other.addr()) })
	case "peer reconnects":
		return l.C.spawn("reconnect", func() { l.C.Connect(l.S.addr()) })
	case "punch":
		return s.spawn("punch", func() { s.WriteToPunch([]byte("p"), l.C.addr()) })
	case "settings":
		return s.spawn("settings", func() { s.SetMaxDataLen(50); s.SetSendDelay(20); s.LocalPort() })
	case "display on":
		return s.spawn("display on", func() { s.StatisticPrint(); s.StatisticMinilog() })
	case "display off":
		return s.spawn("display off", func() { s.StatisticPrint(); s.StatisticPrintStop(); s.StatisticPrintRunning() })
	case "look":
		return s.spawn("look", func() {
			_ = l.Sch.Triptime()
			_ = l.Sch.Destroyed()
			_ = l.Sch.String()
			_ = l.Sch.ServerMode()
			_ = l.Sch.IP()
			_ = l.Sch.Port()
		})
	default:
		return s.spawn("write with delivery", func() {
			l.Sch.WriteTo([]byte("d"), func(*tru.Packet, error) {}, 3*time.Millisecond)
		})
	}
}

func init() {
	finish := func(l *listened, names string, ts ...*task) {
		wait(4*time.Millisecond, ts...)
		pass(2 * time.Millisecond)
		rt.SetROI(rt.ROI{})
		if !wait(6*time.Second, ts...) {
			rt.Fail("the calls %s do not all return\n%s", names, rt.Dump())
		}
		// the node still works
		c := l.S.spawn("alive", func() { l.S.Statistic(); l.S.ForEachChannel(func(ch *tru.Channel) { ch.WriteTo([]byte("alive")) }) })
		if !wait(time.Second, c) {
			rt.Fail("after %s the node is blocked\n%s", names, rt.Dump())
		}
		n := node("fresh", 0)
		t := attemptTo(n, "connect", l.S.addr())
		t.result()
		if t.err != nil {
			rt.Fail("after %s the node accepts no connections: %v\n%s", names, t.err, rt.Dump())
		}
		rt.Sleep(2 * time.Second)
		for _, n := range []*Node{l.S, l.C} {
			d := n.spawn("node close", func() { n.Close() })
			if !wait(time.Second, d) {
				rt.Fail("after %s the node cannot be closed\n%s", names, rt.Dump())
			}
		}
	}
	add(&Scenario{Prop: "C14", Name: "pairs", Stalls: held, StallsLate: true, Max: [2]int{1, 2}, Weight: 3,
		Desc: "every pair of 16 calls on one node with a connection, under every schedule, with the monitor for unsynchronised table accesses",
		Body: func(int) {
			rt.SetRace(true)
			l := newListened()
			other := node("oth", 0)
			n := len(apiNames)
			a := pick(n)
			b := pick(n)
			if b < a {
				return
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			t1 := apiOp(l, other, a)
			t2 := apiOp(l, other, b)
			finish(l, apiNames[a]+", "+apiNames[b], t1, t2)
		}})
	add(&Scenario{Prop: "C14", Name: "triples", Stalls: held, Max: [2]int{1, 2},
		Desc: "triples of the heavier calls with the timers of the connection, switching only where goroutines meet",
		Body: func(int) {
			rt.SetRace(true)
			l := newListened()
			other := node("oth", 0)
			h := []int{0, 2, 3, 4, 5, 7, 9}
			a, b, c := pick(len(h)), pick(len(h)), pick(len(h))
			if a > b || b > c {
				return
			}
			rt.SetROI(rt.ROI{Sched: true})
			t1 := apiOp(l, other, h[a])
			t2 := apiOp(l, other, h[b])
			t3 := apiOp(l, other, h[c])
			finish(l, fmt.Sprint(apiNames[h[a]], ", ", apiNames[h[b]], ", ", apiNames[h[c]]), t1, t2, t3)
		}})
	add(&Scenario{Prop: "C14", Name: "timers", Stalls: held, Max: [2]int{2, 3},
		Desc: "calls at the moment the retransmission and activity timers run with packets in both queues, timers and goroutines in every order",
		Body: func(int) {
			rt.SetRace(true)
			l := newListened()
			other := node("oth", 0)
			dropped := 0
			l.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if isData(d) && (wID(d.Data) == 0 || d.Src.Port == 7000) && dropped < 6 {
					dropped++
					return &vnet.Drop
				}
				return nil
			}
			l.C.do(func() { l.Ch.WriteTo([]byte("p0")); l.Ch.WriteTo([]byte("p1")); l.Ch.WriteTo([]byte("p2")) })
			l.S.do(func() { l.Sch.WriteTo([]byte("s0")); l.Sch.WriteTo([]byte("s1")) })
			created := time.Duration(0)
			for _, d := range l.Net.Log {
				if wType(d.Data) == wConnect {
					created = d.At + time.Millisecond
				}
			}
			rt.Sleep(created + 300*time.Millisecond - rt.Now() - 300*time.Microsecond)
			k := pick(9)
			h := []int{0, 1, 3, 4, 5, 7, 9, 14, 15}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Timer: 500 * time.Microsecond})
			if pick(2) == 1 {
				// the timers' work is ready at the same time
				rt.FireDue(500 * time.Microsecond)
			}
			t := apiOp(l, other, h[k])
			finish(l, "timers, "+apiNames[h[k]], t)
		}})
	add(&Scenario{Prop: "C14", Name: "timers-pairs", Stalls: held, StallsLate: true, Max: [2]int{1, 2}, Weight: 2,
		Desc: "the statistic or a walk together with a write, an arriving acknowledgement or a close, at the moment the retransmission timer works on packets in the send queue",
		Body: func(int) {
			rt.SetRace(true)
			l := newListened()
			other := node("oth", 0)
			hold := true
			l.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if hold && isData(d) && d.Src.Port == 7000 {
					return &vnet.Drop
				}
				return nil
			}
			l.S.do(func() { l.Sch.WriteTo([]byte("s0")); l.Sch.WriteTo([]byte("s1")) })
			// the first retransmission arms the next one; acknowledgements of
			// the copies arrive one trip after the timer
			late := pick(2) == 1
			created := time.Duration(0)
			for _, d := range l.Net.Log {
				if wType(d.Data) == wConnect {
					created = d.At + time.Millisecond
				}
			}
			rt.Sleep(created + 300*time.Millisecond - rt.Now() - 300*time.Microsecond)
			early := pick(2) == 1
			hold = late
			a := []int{5, 7, 14, 6}[pick(4)]
			b := []int{0, 1, 3, 4, 2, 15}[pick(6)]
			rt.SetROI(rt.ROI{Sched: true, Timer: 500 * time.Microsecond})
			var ts []*task
			if !early {
				// the timers' work and the calls are ready at the same time
				rt.FireDue(500 * time.Microsecond)
			}
			if pick(2) == 0 {
				ts = append(ts, apiOp(l, other, a), apiOp(l, other, b))
			} else {
				ts = append(ts, apiOp(l, other, b), apiOp(l, other, a))
			}
			finish(l, "timers, "+apiNames[a]+", "+apiNames[b], ts...)
		}})
	add(&Scenario{Prop: "C14", Name: "in-callbacks", Stalls: held, Max: [2]int{1, 2},
		Desc: "every call made from inside the message reader, the end notice, the connect, the delivery and the punch callback, while messages flow",
		Body: func(int) {
			rt.SetRace(true)
			where := pick(5)
			what := pick(7)
			var l *listened
			ran := 0
			call := func(ch *tru.Channel) {
				ran++
				if ran > 1 {
					return
				}
				s := l.S
				switch what {
				case 0:
					ch.WriteTo([]byte("from a callback"))
				case 1:
					ch.Close()
				case 2:
					s.Statistic()
				case 3:
					s.ForEachChannel(func(c *tru.Channel) { c.WriteTo([]byte("walk")) })
				case 4:
					s.WriteToPunch([]byte("x"), l.C.addr())
				case 5:
					s.ForEachChannel(func(c *tru.Channel) { c.Close() })
				case 6:
					s.StatisticPrint()
					s.SetSendDelay(10)
					ch.Triptime()
				}
			}
			var first *tru.Channel
			l = newListened(tru.PunchFunc(func(a netAddr, d []byte) {
				if where == 4 {
					call(first)
				}
			}))
			first = l.Sch
			at := func(k int) func(string, *tru.Channel) {
				return func(side string, ch *tru.Channel) {
					if side == "server" && where == k {
						call(ch)
					}
				}
			}
			l.inMsg, l.inEnd = at(0), at(1)
			l.inNew = func(ch *tru.Channel) {
				if where == 2 {
					call(ch)
				}
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			var ts []*task
			switch where {
			case 0:
				ts = append(ts, l.C.spawn("write", func() { l.Ch.WriteTo([]byte("a")); l.Ch.WriteTo([]byte("b")) }))
			case 1:
				ts = append(ts, l.C.spawn("close", func() { l.Ch.Close() }))
			case 2:
				ts = append(ts, l.C.spawn("connect", func() { l.C.Connect(l.S.addr()) }))
			case 3:
				ts = append(ts, l.S.spawn("write", func() {
					first.WriteTo([]byte("a"), func(*tru.Packet, error) { call(first) })
				}))
			case 4:
				ts = append(ts, l.C.spawn("punch", func() { l.C.WriteToPunch([]byte("a"), l.S.addr()) }))
			}
			rt.WaitUntil(4*time.Millisecond, func() bool { return ran > 0 && ts[0].done })
			if ran == 0 {
				rt.WaitUntil(time.Second, func() bool { return ran > 0 })
			}
			if ran == 0 {
				rt.Fail("callback %d does not run\n%s", where, rt.Dump())
			}
			finish(l, fmt.Sprintf("call %d in callback %d", what, where), ts...)
		}})
	add(&Scenario{Prop: "C14", Name: "display", Stalls: held, Max: [2]int{1, 2},
		Desc: "the display with its log of messages is drawn while connections come and go and the log is full or not, with the monitor for unsynchronised table accesses",
		Body: func(int) {
			rt.SetRace(true)
			l := newListened()
			third := node("third", 0)
			full := pick(2) == 1
			what := pick(5)
			start := rt.Now()
			l.S.do(func() { l.S.StatisticPrint(); l.S.StatisticMinilog() })
			if full {
				// 256 messages are kept
				for i := 0; i < 128; i++ {
					third.do(func() {
						if ch, err := third.Connect(l.S.addr()); err == nil {
							ch.Close()
						}
					})
					pass(50 * time.Microsecond)
				}
			}
			pass(start + 499900*time.Microsecond - rt.Now())
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			// the frame and what follows are ready at the same time
			rt.FireDue(200 * time.Microsecond)
			var t *task
			switch what {
			case 0:
				t = third.spawn("connect", func() { third.Connect(l.S.addr()) })
			case 1:
				t = l.S.spawn("close", func() { l.Sch.Close() })
			case 2:
				t = l.C.spawn("peer closes", func() { l.Ch.Close() })
			case 3:
				t = l.S.spawn("minilog", func() { l.S.StatisticMinilog(); l.S.StatisticMinilog() })
			case 4:
				t = l.S.spawn("statistic", func() { st := l.S.Statistic(); _ = st.String() })
			}
			finish(l, fmt.Sprintf("display, %d", what), t)
		}})
	add(&Scenario{Prop: "C14", Name: "tables", Stalls: held, Max: [2]int{2, 3}, Kind: [rt.NumKinds]int{rt.KNet: 1},
		Desc: "two connects from one node, one to it, and a walk over the connections at once; with a lost datagram; monitor for unsynchronised table accesses",
		Body: func(int) {
			rt.SetRace(true)
			l := newListened()
			other, third := node("oth", 0), node("third", 0)
			l.fates(isHandshake, vnet.OK, vnet.Drop, vnet.Dup)
			rt.SetROI(rt.ROI{Sched: true, Net: true})
			t1 := l.S.spawn("connect", func() { l.S.Connect(other.addr()) })
			t2 := third.spawn("connect", func() { third.Connect(l.S.addr()) })
			t3 := l.S.spawn("connect2", func() { l.S.Connect(third.addr()) })
			t4 := l.S.spawn("walk", func() { l.S.ForEachChannel(func(ch *tru.Channel) { ch.WriteTo([]byte("x")) }); l.S.Statistic() })
			finish(l, "three connects and a walk", t1, t2, t3, t4)
		}})
}
