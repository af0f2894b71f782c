package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// books counts on the wire what the statistic of every end of a connection
// must show. It is kept per direction (source>destination).
type books struct {
	dir map[string]*book
}

type book struct {
	first   map[int]time.Duration // packets sent and not acknowledged: time of the first transmission
	again   map[int]int           // retransmissions of them
	order   []int                 // unacknowledged packets in the order of their first transmission
	resent  int64                 // retransmissions
	ack     int64                 // acknowledgements of packets in flight
	ackDrop int64                 // other acknowledgements
	parked  map[int]bool          // packets received ahead of their turn
	next    int                   // next packet in turn
	dup     int64                 // packets received that were received before
	min     time.Duration         // shortest and longest time from a transmission to the acknowledgement
	max     time.Duration
	last    map[int]time.Duration // last transmission
	wrote   []time.Duration
	got     []time.Duration
}

func keepBooks() *books {
	b := &books{dir: map[string]*book{}}
	n := vnet.Get()
	n.OnSend = func(d *vnet.Dgram) {
		if !isData(d) {
			return
		}
		k, id := b.get(dirKey(d)), wID(d.Data)
		if _, ok := k.first[id]; ok {
			k.again[id]++
			k.resent++
		} else {
			k.first[id] = rt.Now()
			k.order = append(k.order, id)
		}
		k.last[id] = rt.Now()
	}
	n.OnDeliver = func(d *vnet.Dgram) {
		switch id := wID(d.Data); {
		case isData(d):
			k := b.get(dirKey(d))
			ahead := (id - k.next) & 0xFFFFF
			switch {
			case ahead == 0:
				for k.next = (k.next + 1) & 0xFFFFF; k.parked[k.next]; k.next = (k.next + 1) & 0xFFFFF {
					delete(k.parked, k.next)
				}
			case ahead >= 0x80000 || k.parked[id]:
				k.dup++
			default:
				k.parked[id] = true
			}
		case wType(d.Data) == wAck:
			k := b.get(backKey(d))
			if _, ok := k.first[id]; !ok {
				k.ackDrop++
				break
			}
			k.ack++
			if t := rt.Now() - k.first[id]; t > k.max {
				k.max = t
			}
			if t := rt.Now() - k.last[id]; k.min < 0 || t < k.min {
				k.min = t
			}
			delete(k.first, id)
			delete(k.again, id)
			for i, o := range k.order {
				if o == id {
					k.order = append(k.order[:i:i], k.order[i+1:]...)
					break
				}
			}
		}
	}
	return b
}

func (b *books) get(key string) *book {
	k := b.dir[key]
	if k == nil {
		k = &book{first: map[int]time.Duration{}, again: map[int]int{}, parked: map[int]bool{}, last: map[int]time.Duration{}, min: -1}
		b.dir[key] = k
	}
	return k
}

// end is one end of a connection as its statistic must show it.
type end struct {
	me, peer  *Node
	out, in   *Stream
	wrote     []time.Duration // times of writes
	delivered []time.Duration
}

func rate(l []time.Duration, from, to time.Duration) (n int64) {
	for _, t := range l {
		if t >= from && t <= to {
			n++
		}
	}
	return
}

// check compares one row with the books; nothing may be running.
func (b *books) check(s tru.ChannelStatistic, e *end, when string) {
	out := b.get(e.me.addr() + ">" + e.peer.addr())
	in := b.get(e.peer.addr() + ">" + e.me.addr())
	bad := func(name string, got, want interface{}) {
		rt.Fail("%s: the statistic of %s says %s = %v, what happened is %v\n%+v", when, e.me.Owner, name, got, want, s)
	}
	if s.Addr != e.peer.addr() {
		bad("Addr", s.Addr, e.peer.addr())
	}
	if s.Send != int64(len(e.out.Sent)) {
		bad("Send", s.Send, len(e.out.Sent))
	}
	if s.Recv != int64(e.in.Got) {
		bad("Recv", s.Recv, e.in.Got)
	}
	if s.Ack != out.ack {
		bad("Ack", s.Ack, out.ack)
	}
	if s.AckD != out.ackDrop {
		bad("AckD", s.AckD, out.ackDrop)
	}
	if s.Rsnd != out.resent {
		bad("Rsnd", s.Rsnd, out.resent)
	}
	if s.Drop != in.dup {
		bad("Drop", s.Drop, in.dup)
	}
	if int(s.SQ) != len(out.first) {
		bad("SQ", s.SQ, len(out.first))
	}
	if int(s.RQ) != len(in.parked) {
		bad("RQ", s.RQ, len(in.parked))
	}
	rta := 0
	if len(out.order) > 0 {
		rta = out.again[out.order[0]]
	}
	if s.RTA != rta {
		bad("RTA", s.RTA, rta)
	}
	if out.ack == 0 && s.TT != 0 {
		bad("TT", s.TT, "nothing acknowledged")
	}
	if tt := time.Duration(s.TT * float64(time.Millisecond)); out.ack > 0 && (tt < out.min-50*time.Microsecond || tt > out.max+50*time.Microsecond+rt.Stall()) {
		bad("TT", tt, fmt.Sprint(out.min, " to ", out.max))
	}
	now := rt.Now()
	r := func(name string, got int64, l []time.Duration) {
		lo, hi := rate(l, now-850*time.Millisecond, now-250*time.Millisecond), rate(l, now-1250*time.Millisecond, now)
		if got < lo || got > hi {
			bad(name, got, fmt.Sprint(lo, " to ", hi))
		}
	}
	r("Ssec", s.Ssec, e.wrote)
	r("Rsec", s.Rsec, e.delivered)
}

func (n *Node) stat() (st tru.ChannelsStatistic) {
	n.do(func() { st = n.Statistic() })
	return
}

// timed notes the times of writes and deliveries of a pair.
func ends(p *Pair) (s, c *end) {
	s = &end{me: p.S, peer: p.C, out: p.Down, in: p.Up}
	c = &end{me: p.C, peer: p.S, out: p.Up, in: p.Down}
	p.OnUp = func(ch *tru.Channel, pac *tru.Packet) {
		p.Up.deliver(pac.Data())
		s.delivered = append(s.delivered, rt.Now())
	}
	p.OnDown = func(ch *tru.Channel, pac *tru.Packet) {
		p.Down.deliver(pac.Data())
		c.delivered = append(c.delivered, rt.Now())
	}
	return
}

func (b *books) both(p *Pair, s, c *end, when string) {
	// to a moment at which no timer is due and nothing is in progress
	pass(37 * time.Microsecond)
	for _, e := range []*end{s, c} {
		st := e.me.stat()
		if len(st) != 1 {
			rt.Fail("%s: the statistic of %s has %d entries, there is one connection", when, e.me.Owner, len(st))
		}
		b.check(st[0], e, when)
	}
}

// table checks the printed statistic: every address once, as many lines as announced.
func table(st tru.ChannelsStatistic, who string) {
	if len(st) == 0 {
		return
	}
	t := st.String()
	if n := strings.Count(strings.TrimRight(t, "\n"), "\n") + 1; n != st.NumRows() {
		rt.Fail("the statistic table of %s has %d lines, NumRows says %d:\n%s", who, n, st.NumRows(), t)
	}
	for _, s := range st {
		n := 0
		for _, l := range strings.Split(t, "\n") {
			for _, f := range strings.Fields(l) {
				if f == s.Addr {
					n++
				}
			}
		}
		if n != 1 {
			rt.Fail("the statistic table of %s shows %s %d times:\n%s", who, s.Addr, n, t)
		}
	}
}

func init() {
	add(&Scenario{Prop: "C19", Name: "faults", Max: [2]int{3, 4},
		Desc: "an exchange of whole and split messages with every datagram lost, repeated or delayed; the statistic of both ends is compared with counters kept on the wire every 12 ms for half a second and at the end",
		Body: func(int) {
			p := newPair(pairOpt{maxData: 100})
			b := keepBooks()
			s, c := ends(p)
			b.both(p, s, c, "at the start")
			p.fates(nil, vnet.OK, vnet.Drop, vnet.Dup, vnet.Late, vnet.Later)
			rt.SetROI(rt.ROI{Net: true})
			up := func(n int) { c.wrote = append(c.wrote, rt.Now()); p.up(n) }
			down := func(n int) { s.wrote = append(s.wrote, rt.Now()); p.down(n) }
			up(30)
			up(250)
			down(10)
			for i := 0; i < 40; i++ {
				pass(12 * time.Millisecond)
				b.both(p, s, c, fmt.Sprint("after ", i*12, " ms"))
				if i == 4 {
					down(20)
					up(0)
				}
			}
			p.settle(20 * time.Second)
			b.both(p, s, c, "after everything has arrived")
			pass(1500 * time.Millisecond)
			b.both(p, s, c, "after a while")
			table(p.S.stat(), "the server")
		}})
	add(&Scenario{Prop: "C19", Name: "positions", Max: [2]int{1, 2},
		Desc: "every starting packet number around the wrap with a stray acknowledgement of every distance and lost or late packets",
		Body: func(int) {
			p := newPair(pairOpt{})
			start := sel[uint32](0, 1, 0xFFFFE, 0xFFFFF, 0x7FFFF, 0x80000)
			if !setID(p.Ch, start, 0) || !setID(p.Sch, 0, start) {
				start = 0
			}
			b := keepBooks()
			b.get(p.C.addr() + ">" + p.S.addr()).next = int(start)
			s, c := ends(p)
			stray := sel(-2, -1, 0, 1, 2, 3, 5)
			inject := func() {
				p.Net.Inject(p.S.udp(), p.C.udp(), wPacket(wAck, (int(start)+stray)&0xFFFFF, nil), time.Millisecond/2)
			}
			at := pick(3)
			p.fates(isData, vnet.OK, vnet.Drop, vnet.Dup, after("90ms", 90*time.Millisecond), vnet.Later)
			rt.SetROI(rt.ROI{Net: true})
			if at == 0 {
				inject()
				pass(time.Millisecond)
			}
			for i := 0; i < 3; i++ {
				c.wrote = append(c.wrote, rt.Now())
				p.up(20)
				pass(3 * time.Millisecond)
				if at == 1 && i == 1 && (stray < 0 || stray > 1) {
					inject()
				}
				pass(time.Millisecond)
				b.both(p, s, c, fmt.Sprint("after message ", i))
			}
			if at == 2 && (stray < 0 || stray > 2) {
				inject()
			}
			for i := 0; i < 12; i++ {
				pass(50 * time.Millisecond)
				b.both(p, s, c, fmt.Sprint("after ", i*50, " ms"))
			}
			p.settle(10 * time.Second)
			b.both(p, s, c, "at the end")
		}})
	add(&Scenario{Prop: "C19", Name: "losing", Max: [2]int{0, 0},
		Desc: "data or acknowledgements are lost for 0 to 12 s while messages are written; the statistic is compared every 25 ms",
		Body: func(int) {
			p := newPair(pairOpt{maxData: 100})
			b := keepBooks()
			s, c := ends(p)
			dir := pick(3)
			d := []time.Duration{0, 100, 350, 1000, 4000, 12000}[pick(6)] * time.Millisecond
			n := 1 + pick(3)
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if isData(d) && dir == 0 && d.Src.String() == p.C.addr() || dir == 1 && wType(d.Data) == wAck || isData(d) && dir == 2 && wID(d.Data) == 1 {
					return &vnet.Drop
				}
				return nil
			}
			for i := 0; i < n; i++ {
				c.wrote = append(c.wrote, rt.Now())
				p.up(60 + 100*i)
				s.wrote = append(s.wrote, rt.Now())
				p.down(20)
			}
			for t := time.Duration(0); t < d; t += 25 * time.Millisecond {
				b.both(p, s, c, fmt.Sprint("after ", t))
				pass(25 * time.Millisecond)
			}
			p.Net.Force = nil
			for i := 0; i < 50; i++ {
				pass(25 * time.Millisecond)
				b.both(p, s, c, fmt.Sprint("after the loss ", i*25, " ms"))
			}
			p.settle(10 * time.Second)
			b.both(p, s, c, "at the end")
		}})
	add(&Scenario{Prop: "C19", Name: "rates", Max: [2]int{0, 0},
		Desc: "messages at every pace for up to three seconds; the messages per second shown are those of about the last second",
		Body: func(int) {
			p := newPair(pairOpt{})
			b := keepBooks()
			s, c := ends(p)
			pass([]time.Duration{0, 30, 70, 99}[pick(4)] * time.Millisecond)
			gap := []time.Duration{7, 30, 100, 150, 400, 900}[pick(6)] * time.Millisecond
			for t := time.Duration(0); t < 3*time.Second; t += gap {
				c.wrote = append(c.wrote, rt.Now())
				p.up(5)
				if t > 1200*time.Millisecond {
					s.wrote = append(s.wrote, rt.Now())
					p.down(5)
				}
				pass(gap)
				b.both(p, s, c, fmt.Sprint("after ", t))
			}
			for i := 0; i < 30; i++ {
				pass(50 * time.Millisecond)
				b.both(p, s, c, fmt.Sprint("after the last message ", i*50, " ms"))
			}
		}})
	add(&Scenario{Prop: "C19", Name: "several", Max: [2]int{0, 0},
		Desc: "one to five peers in every order of connecting, each with a different history; one of them ends; one row per connection, sorted by address, with the values of that connection",
		Body: func(int) {
			hub := node("127.0.0.1/hub", 7000)
			b := keepBooks()
			n := 1 + pick(5)
			turn := pick(5)
			rt.MapOrder(pick(3))
			owners := []string{"10.0.0.2/a", "10.0.0.10/b", "10.0.0.1/c", "9.0.0.1/d", "10.0.0.1/e"}
			ports := []int{4000, 4000, 4001, 5, 500}
			var es []*end
			var chs []*tru.Channel
			for i := 0; i < n; i++ {
				k := (i*2 + turn) % 5
				e := &end{me: hub, in: &Stream{Name: fmt.Sprint("in", k)}, out: &Stream{Name: fmt.Sprint("out", k)}}
				e.peer = node(owners[k], ports[k])
				var ch *tru.Channel
				e.peer.do(func() {
					var err error
					if ch, err = e.peer.Connect(hub.addr()); err != nil {
						rt.Fail("connect: %v", err)
					}
				})
				pass(2 * time.Millisecond)
				chs = append(chs, ch)
				es = append(es, e)
			}
			rows := func(when string, live []*end) {
				sort.Slice(live, func(i, j int) bool { return live[i].peer.addr() < live[j].peer.addr() })
				pass(37 * time.Microsecond)
				st := hub.stat()
				if len(st) != len(live) {
					rt.Fail("%s: the statistic has %d rows, there are %d connections", when, len(st), len(live))
				}
				for i, e := range live {
					b.check(st[i], e, when)
				}
				table(st, "the hub")
			}
			live := append([]*end{}, es...)
			rows("at the start", live)
			// different histories: k messages each way, the last ones lost on the way for a while
			vnet.Get().Force = func(d *vnet.Dgram) *vnet.Fate {
				if isData(d) && wID(d.Data)%3 == 1 {
					return &vnet.Drop
				}
				return nil
			}
			hubCh := map[string]*tru.Channel{}
			for _, c := range hub.channels() {
				hubCh[c.Addr().String()] = c
			}
			for i, e := range es {
				for k := 0; k <= i+1; k++ {
					e.out.Sent = append(e.out.Sent, "x")
					e.wrote = append(e.wrote, rt.Now())
					hub.do(func() { hubCh[e.peer.addr()].WriteTo([]byte("x")) })
				}
			}
			for i := 0; i < 16; i++ {
				pass(50 * time.Millisecond)
				rows(fmt.Sprint("after ", i*50, " ms"), live)
			}
			gone := pick(n)
			how := pick(2)
			if how == 0 {
				es[gone].peer.do(func() { chs[gone].Close() })
			} else {
				hub.do(func() { hubCh[es[gone].peer.addr()].Close() })
			}
			pass(5 * time.Millisecond)
			live = nil
			for i, e := range es {
				if i != gone {
					live = append(live, e)
				}
			}
			rows("after one has ended", live)
			vnet.Get().Force = nil
			pass(2 * time.Second)
			rows("at the end", live)
		}})
	add(&Scenario{Prop: "C19", Name: "meanwhile", Stalls: held, Max: [2]int{1, 2},
		Desc: "the statistic is asked for by two goroutines while messages are written and acknowledged and one of two connections ends or a third is made, under every schedule: no row is missing, doubled or mixed up, no value exceeds what has happened, and none falls",
		Body: func(int) {
			s := newStar(false, []string{"10.0.0.1/a", "10.0.0.2/b"}, []int{4000, 4000})
			how := pick(3)
			b := keepBooks()
			var ts []*task
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			switch how {
			case 0:
				s.ended[1] = true
				ts = append(ts, s.peers[1].spawn("ends", func() { s.ch[1].Close() }))
			case 1:
				third := node("10.0.0.0/z", 4000)
				ts = append(ts, third.spawn("connects", func() {
					if _, err := third.Connect(s.hub.addr()); err != nil {
						rt.Fail("connect: %v", err)
					}
				}))
			}
			ts = append(ts, s.hub.spawn("down", func() { s.send(^0, 20); s.send(^0, 30) }),
				s.peers[0].spawn("up", func() { s.send(0, 20) }))
			for k := 0; k < 2; k++ {
				if k == 1 && how == 2 {
					continue
				}
				ts = append(ts, s.hub.spawn("statistic", func() {
					var last tru.ChannelStatistic
					for i := 0; i < 2; i++ {
						st := s.hub.Statistic()
						seen := map[string]bool{}
						for j, r := range st {
							if seen[r.Addr] || j > 0 && st[j-1].Addr >= r.Addr {
								rt.Fail("row %q is doubled or out of order: %+v", r.Addr, st)
							}
							seen[r.Addr] = true
							if r.Addr != s.peers[0].addr() {
								if r.Send+r.Recv+r.Ack+r.AckD+r.Rsnd+r.Drop+int64(r.SQ)+int64(r.RQ) != 0 {
									rt.Fail("the row of an unused connection has values: %+v", r)
								}
								continue
							}
							if r.Send > 2 || r.Recv > 1 || r.Ack > 2 || r.SQ > 2 || r.AckD+r.Drop+r.Rsnd+int64(r.RQ)+int64(r.RTA) > 0 ||
								r.Send < last.Send || r.Recv < last.Recv || r.Ack < last.Ack || r.Ack > r.Send+1 {
								rt.Fail("impossible values %+v after %+v", r, last)
							}
							last = r
						}
						if !seen[s.peers[0].addr()] || how != 0 && !seen[s.peers[1].addr()] {
							rt.Fail("the row of a live connection is missing: %+v", st)
						}
					}
				}))
			}
			if !wait(6*time.Second, ts...) {
				rt.Fail("a call hangs\n%s", rt.Dump())
			}
			rt.WaitUntil(10*time.Millisecond, s.all)
			quiet(5 * time.Millisecond)
			st := s.hub.stat()
			if want := []int{1, 3, 2}[how]; len(st) != want {
				rt.Fail("the statistic has %d rows, there are %d connections", len(st), want)
			}
			for _, r := range st {
				if r.Addr == s.peers[0].addr() {
					b.check(r, &end{me: s.hub, peer: s.peers[0], out: s.out[0], in: s.in[0],
						wrote: []time.Duration{rt.Now(), rt.Now()}, delivered: []time.Duration{rt.Now()}}, "at the end")
				}
			}
			s.settle()
		}})
}
