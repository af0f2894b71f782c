package main

import (
	"fmt"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// star is a hub node with connections to several others; the hub accepts them
// or, if dials, makes them.
type star struct {
	hub   *Node
	peers []*Node
	ch    []*tru.Channel // the peers' ends
	hch   []*tru.Channel // the hub's ends
	in    []*Stream      // to the hub
	out   []*Stream      // from the hub
	ended map[int]bool   // connections that may have ended
	told  []int
}

func (s *star) index(ch *tru.Channel) int {
	for i, c := range s.hch {
		if c == ch {
			return i
		}
	}
	for i, p := range s.peers {
		if ch.Addr().String() == p.addr() {
			return i
		}
	}
	rt.Fail("a message came with an unknown connection %v", ch.Addr())
	return -1
}

// newStar connects nodes of the given addresses ("ip/name", port).
func newStar(dials bool, owners []string, ports []int) *star {
	s := &star{ended: map[int]bool{}, told: make([]int, len(owners))}
	hubReader := tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
		if err != nil {
			if ch == nil {
				return true
			}
			i := s.index(ch)
			s.told[i]++
			if !s.ended[i] {
				rt.Fail("the hub was told that connection %d has ended although nothing ended it", i)
			}
			return true
		}
		i := s.index(ch)
		if ch.Addr().String() != s.peers[i].addr() {
			rt.Fail("connection %d has address %v, its peer is %v", i, ch.Addr(), s.peers[i].addr())
		}
		s.in[i].deliver(pac.Data())
		return true
	})
	peerReader := func(i int) tru.ReaderFunc {
		return func(ch *tru.Channel, pac *tru.Packet, err error) bool {
			if err != nil {
				if ch != nil && !s.ended[i] {
					rt.Fail("peer %d was told that its connection has ended although nothing ended it", i)
				}
				return true
			}
			if s.ch[i] != nil && ch != s.ch[i] {
				rt.Fail("peer %d got a message with another connection", i)
			}
			s.out[i].deliver(pac.Data())
			return true
		}
	}
	s.hub = node("127.0.0.1/hub", 7000, hubReader)
	for i := range owners {
		s.in = append(s.in, &Stream{Name: fmt.Sprintf("from%d", i)})
		s.out = append(s.out, &Stream{Name: fmt.Sprintf("to%d", i)})
	}
	for i, o := range owners {
		i := i
		p := node(o, ports[i], peerReader(i))
		s.peers = append(s.peers, p)
		s.ch = append(s.ch, nil)
		s.hch = append(s.hch, nil)
		from, to := p, s.hub
		if dials {
			from, to = to, from
		}
		var ch, other *tru.Channel
		from.do(func() {
			var err error
			if ch, err = from.Connect(to.addr()); err != nil {
				rt.Fail("connection %d: %v", i, err)
			}
		})
		pass(2 * time.Millisecond)
		for _, c := range to.channels() {
			if c.Addr().String() == from.addr() {
				other = c
			}
		}
		if other == nil {
			rt.Fail("connection %d: not on the accepting side", i)
		}
		if dials {
			ch, other = other, ch
		}
		s.ch[i], s.hch[i] = ch, other
	}
	return s
}

// send writes a message to the hub (peer >= 0) or from the hub to ^peer.
func (s *star) send(peer, size int) {
	n, ch, st := s.hub, (*tru.Channel)(nil), (*Stream)(nil)
	i := peer
	if peer >= 0 {
		n, ch, st = s.peers[i], s.ch[i], s.in[i]
	} else {
		i = ^peer
		ch, st = s.hch[i], s.out[i]
	}
	m := msg(st.Name, len(st.Sent), size)
	st.Sent = append(st.Sent, m)
	n.do(func() {
		if _, err := ch.WriteTo([]byte(m)); err != nil && !s.ended[i] {
			rt.Fail("write on connection %d: %v", i, err)
		}
	})
}

func (s *star) all() bool {
	for i := range s.peers {
		if !s.ended[i] && (s.in[i].Got < len(s.in[i].Sent) || s.out[i].Got < len(s.out[i].Sent)) {
			return false
		}
	}
	return true
}

func (s *star) settle() {
	rt.SetROI(rt.ROI{})
	if !rt.WaitUntil(20*time.Second, s.all) {
		t := ""
		for i := range s.peers {
			t += fmt.Sprintf(" %d: %d/%d %d/%d", i, s.in[i].Got, len(s.in[i].Sent), s.out[i].Got, len(s.out[i].Sent))
		}
		rt.Fail("messages are missing on a connection nothing ended:%s\n%s", t, rt.Dump())
	}
	rt.Sleep(700 * time.Millisecond)
	for i := range s.peers {
		if !s.ended[i] && (s.ch[i].Destroyed() || s.hch[i].Destroyed()) {
			rt.Fail("connection %d ended although nothing ended it", i)
		}
	}
}

var starAddrs = [][2][]string{
	{{"10.0.0.1/a", "10.0.0.2/b", "10.0.0.1/c"}, {"4000", "4000", "4001"}},      // same port, same host
	{{"1.1.1.1/a", "11.1.1.1/b", "1.1.1.11/c"}, {"11", "1", "1"}},               // concatenations
	{{"127.0.0.1/a", "127.0.0.1/b", "127.0.0.1/c"}, {"700", "7001", "70000"}},   // prefixes (the last is replaced)
	{{"10.0.0.1/a", "10.0.0.10/b", "10.0.0.100/c"}, {"40000", "40000", "4000"}}, // prefixes of hosts
}

func starSet(k int) (o []string, p []int) {
	for i, s := range starAddrs[k][1] {
		n := 0
		fmt.Sscan(s, &n)
		if n > 65535 {
			n = 7002
		}
		o, p = append(o, starAddrs[k][0][i]), append(p, n)
	}
	return
}

func init() {
	order := []int{0, ^0, 1, ^1, 2, ^2}
	add(&Scenario{Prop: "C16", Name: "orders", Max: [2]int{0, 0},
		Desc: "three peers whose addresses share host, port or digits, connected to or by the hub: every order of four (thorough five) messages to and from them",
		Body: func(tier int) {
			o, p := starSet(pick(4))
			s := newStar(pick(2) == 1, o, p)
			gap := pick(2) == 1
			for i := 0; i < 4+tier; i++ {
				s.send(order[pick(6)], []int{10, 90, 0, 64, 65}[i])
				if gap {
					pass(3 * time.Millisecond)
				}
			}
			s.settle()
		}})
	add(&Scenario{Prop: "C16", Name: "faults", Max: [2]int{2, 3},
		Desc: "three peers exchange messages, whole and split, with the hub at once; every datagram may be lost, repeated or delayed",
		Body: func(int) {
			o, p := starSet(0)
			s := newStar(pick(2) == 1, o, p)
			vnet.Get().Fates = func(d *vnet.Dgram) []vnet.Fate {
				return []vnet.Fate{vnet.OK, vnet.Drop, vnet.Dup, vnet.Late, vnet.Later}
			}
			for _, n := range append([]*Node{s.hub}, s.peers...) {
				n.SetMaxDataLen(100)
			}
			rt.SetROI(rt.ROI{Net: true})
			for r, n := range []int{20, 90} {
				for i := 0; i < 3; i++ {
					s.send(i, n+i)
					if r == 0 || i == 1 {
						s.send(^i, n+50+i)
					}
				}
			}
			rt.WaitUntil(450*time.Millisecond, s.all)
			s.settle()
		}})
	add(&Scenario{Prop: "C16", Name: "one-dead", Max: [2]int{1, 2},
		Desc: "one of three peers vanishes (nothing of it or nothing to it arrives) while all have messages under way, with one more fault; the others are served at once all the time",
		Body: func(int) {
			o, p := starSet(pick(2))
			s := newStar(pick(2) == 1, o, p)
			k := pick(3)
			s.ended[k] = true
			dead := s.peers[k]
			how := pick(3)
			vnet.Get().Force = func(d *vnet.Dgram) *vnet.Fate {
				if how != 1 && d.Src.String() == dead.addr() || how != 0 && d.Dst.String() == dead.addr() {
					return &vnet.Drop
				}
				return nil
			}
			vnet.Get().Fates = func(d *vnet.Dgram) []vnet.Fate {
				if d.Src.String() == dead.addr() || d.Dst.String() == dead.addr() {
					return nil
				}
				return []vnet.Fate{vnet.OK, vnet.Drop, vnet.Dup, vnet.Late}
			}
			rt.SetROI(rt.ROI{Net: true})
			for _, n := range []int{20, 90} {
				for i := 0; i < 3; i++ {
					s.send(i, n)
					s.send(^i, n)
				}
			}
			rt.WaitUntil(450*time.Millisecond, s.all)
			quiet(0)
			// the others are not slowed down by the dead one
			for r := 0; r < 9; r++ {
				pass(time.Second)
				for i := 0; i < 3; i++ {
					if i != k {
						s.send(i, 30)
						s.send(^i, 30)
					}
				}
				pass(400 * time.Millisecond)
				if !s.all() {
					rt.Fail("with peer %d dead the messages of the others take more than 0.4 s", k)
				}
			}
			s.settle()
		}})
	add(&Scenario{Prop: "C16", Name: "one-ends", Stalls: held, StallsLate: true, Max: [2]int{1, 2}, Weight: 2,
		Desc: "one of three connections is closed by the hub (with or without packets of it still to be sent), by its peer, by both, or replaced by a new one while the others carry messages, under every schedule",
		Body: func(int) {
			o, p := starSet(pick(2))
			s := newStar(false, o, p)
			k := pick(3)
			how := pick(5)
			s.ended[k] = true
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			var ts []*task
			if how == 4 {
				ts = append(ts, s.hub.spawn("hub writes and closes", func() {
					s.send(^k, 20)
					s.send(^k, 90)
					s.hch[k].Close()
				}))
			}
			if how == 0 || how == 2 {
				ts = append(ts, s.hub.spawn("hub closes", func() { s.hch[k].Close() }))
			}
			if how == 1 || how == 2 {
				ts = append(ts, s.peers[k].spawn("peer closes", func() { s.ch[k].Close() }))
			}
			if how == 3 {
				ts = append(ts, s.peers[k].spawn("peer connects again", func() { s.peers[k].Connect(s.hub.addr()) }))
			}
			for i := range s.peers {
				if i == k {
					continue
				}
				i := i
				ts = append(ts, s.peers[i].spawn(fmt.Sprint("up", i), func() { s.send(i, 30) }))
			}
			ts = append(ts, s.hub.spawn("down", func() {
				for i := range s.peers {
					if i != k {
						s.send(^i, 90)
					}
				}
			}))
			if !wait(6*time.Second, ts...) {
				rt.Fail("a call hangs\n%s", rt.Dump())
			}
			rt.WaitUntil(10*time.Millisecond, s.all)
			quiet(20 * time.Millisecond)
			for i := range s.peers {
				if i != k {
					s.send(i, 10)
					s.send(^i, 10)
				}
			}
			s.settle()
			if how != 3 && (!s.ch[k].Destroyed() || !s.hch[k].Destroyed()) {
				rt.Fail("the closed connection has not ended")
			}
		}})
	add(&Scenario{Prop: "C16", Name: "at-once", Stalls: held, Max: [2]int{1, 2},
		Desc: "a hub writes to and hears from two peers from several goroutines under every schedule with one datagram disturbed",
		Body: func(int) {
			o, p := starSet(0)
			s := newStar(pick(2) == 1, o[:2], p[:2])
			vnet.Get().Fates = func(d *vnet.Dgram) []vnet.Fate {
				if !isData(d) {
					return nil
				}
				return []vnet.Fate{vnet.OK, vnet.Drop, vnet.Dup, vnet.Late}
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true, Net: true})
			var ts []*task
			for _, k := range order[:4] {
				k := k
				n := s.hub
				if k >= 0 {
					n = s.peers[k]
				}
				ts = append(ts, n.spawn(fmt.Sprint("write", k), func() { s.send(k, 20); s.send(k, 70) }))
			}
			wait(6*time.Second, ts...)
			rt.WaitUntil(10*time.Millisecond, s.all)
			s.settle()
		}})
	add(&Scenario{Prop: "C16", Name: "split", Max: [2]int{2, 3},
		Desc: "a hub and two or three peers exchange messages that are split into several packets, all at the same time, with up to two datagrams disturbed",
		Body: func(int) {
			o, p := starSet(0)
			n := sel(2, 3)
			s := newStar(pick(2) == 1, o[:n], p[:n])
			vnet.Get().Fates = func(d *vnet.Dgram) []vnet.Fate {
				if !isData(d) {
					return nil
				}
				return []vnet.Fate{vnet.OK, vnet.Drop, vnet.Dup, vnet.Late}
			}
			rt.SetROI(rt.ROI{Net: true})
			for _, size := range []int{130000, 20} {
				for _, k := range order[:2*n] {
					s.send(k, size+1000*(k+3))
				}
			}
			rt.WaitUntil(50*time.Millisecond, s.all)
			s.settle()
		}})
}
