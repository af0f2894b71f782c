package main

import (
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

const overhead = 4 + 28 // header and AES-GCM

func init() {
	// checkSizes watches that no datagram is too long
	checkSizes := func(p *Pair, w *Wire, max int) {
		w.on = append(w.on, func(d *vnet.Dgram) {
			if !isData(d) {
				return
			}
			lim := max + overhead
			if n := len(d.Data) - 4; n <= 64 {
				lim = max + 4
			}
			if len(d.Data) > lim && max > 0 {
				rt.Fail("datagram of %d bytes with a maximum data length of %d", len(d.Data), max)
			}
		})
	}
	check := func(p *Pair) {
		if p.Net.Oversize > 0 {
			rt.Fail("a datagram of more than %d bytes was to be sent", vnet.MaxPayload)
		}
	}
	run := func(p *Pair, max int, lens ...int) {
		w := watch()
		w.off = true
		checkSizes(p, w, max)
		for _, n := range lens {
			p.up(n)
		}
		for _, n := range lens {
			p.down(n)
		}
		p.settle(30 * time.Second)
		check(p)
	}
	add(&Scenario{Prop: "C04", Name: "lengths-small", Max: [2]int{0, 0},
		Desc: "every message length from 0 to 4 packets and more for maximum data lengths 1 to 9, set by parameter or by method, between two other messages",
		Body: func(int) {
			max := 1 + pick(9)
			n := pick(4*max + 3)
			var p *Pair
			if pick(2) == 0 {
				p = newPair(pairOpt{maxData: max})
			} else {
				p = newPair(pairOpt{noConnect: true})
				p.C.do(func() { p.C.SetMaxDataLen(max) })
				p.S.do(func() { p.S.SetMaxDataLen(max) })
				p.connect()
			}
			run(p, max, 2, n, 3)
		}})
	add(&Scenario{Prop: "C04", Name: "lengths-middle", Max: [2]int{0, 0},
		Desc: "message lengths around every multiple of maximum data lengths 30 to 1500 and around the change of the cipher",
		Body: func(int) {
			max := sel(30, 63, 64, 65, 66, 100, 127, 508, 1024, 1472, 1500)
			k := pick(5)
			n := k*max + pick(7) - 3
			if n < 0 {
				n = 64 + n
			}
			run(newPair(pairOpt{maxData: max}), max, n, 5, n)
		}})
	add(&Scenario{Prop: "C04", Name: "lengths-big", Max: [2]int{0, 0},
		Desc: "no maximum configured or larger ones than possible: lengths around the largest datagram and its multiples",
		Body: func(tier int) {
			mode := pick(6)
			n := sel(65440, 65470, 65474, 65475, 65476, 65477, 65478, 65479, 65480, 65490, 65494, 65495, 65496, 65497, 65500, 65506, 65507, 65508, 65530, 65535, 65536,
				2*65475, 2*65475+1, 2*65475-1, 131072, 200000)
			o := pairOpt{noConnect: true}
			switch mode {
			case 4:
				o.maxData = 65476
			case 5:
				o.maxData = 1 << 20
			}
			p := newPair(o)
			switch mode {
			case 1:
				p.C.do(func() { p.C.SetMaxDataLen(1 << 20) })
				p.S.do(func() { p.S.SetMaxDataLen(1 << 20) })
			case 2:
				p.C.do(func() { p.C.SetMaxDataLen(65535) })
				p.S.do(func() { p.S.SetMaxDataLen(65476) })
			case 3:
				p.C.do(func() { p.C.SetMaxDataLen(60000) })
				p.S.do(func() { p.S.SetMaxDataLen(0) })
			}
			p.connect()
			if mode == 3 {
				w := watch()
				w.off = true
				w.on = append(w.on, func(d *vnet.Dgram) {
					if isData(d) && d.Src.String() == p.C.addr() && len(d.Data) > 60000+overhead {
						rt.Fail("datagram of %d bytes with a maximum data length of 60000", len(d.Data))
					}
				})
			}
			p.up(n)
			p.down(n)
			p.up(3)
			p.settle(30 * time.Second)
			check(p)
		}})
	add(&Scenario{Prop: "C04", Name: "faults", Max: [2]int{3, 4},
		Desc: "split messages between small ones while fragments and acknowledgements are lost, repeated and delayed",
		Body: func(int) {
			max := sel(4, 80)
			p := newPair(pairOpt{maxData: max})
			p.fates(isData, vnet.OK, vnet.Drop, vnet.Dup, vnet.Late, vnet.Later)
			rt.SetROI(rt.ROI{Net: true})
			p.up(max)
			p.up(3*max + 1)
			p.up(1)
			p.up(2 * max)
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
		}})
	add(&Scenario{Prop: "C04", Name: "both-ways", Max: [2]int{2, 3},
		Desc: "split messages in both directions at once with faults",
		Body: func(int) {
			p := newPair(pairOpt{maxData: 6})
			p.fates(isData, vnet.OK, vnet.Drop, vnet.Dup, vnet.Late)
			rt.SetROI(rt.ROI{Net: true})
			a := p.C.spawn("up", func() { p.up(13); p.up(12); p.up(2) })
			b := p.S.spawn("down", func() { p.down(7); p.down(18); p.down(1) })
			wait(5*time.Second, a, b)
			rt.WaitUntil(450*time.Millisecond, p.allDelivered)
			p.settle(20 * time.Second)
		}})
	add(&Scenario{Prop: "C04", Name: "many-fragments", Max: [2]int{0, 1},
		Desc: "messages of hundreds of fragments",
		Body: func(int) {
			max := sel(1, 2, 10, 64, 65)
			p := newPair(pairOpt{maxData: max})
			p.fates(isData, vnet.OK, vnet.Drop)
			n := sel(255, 256, 257, 300, 1000) * max
			rt.SetROI(rt.ROI{Net: true})
			p.up(n + 1)
			p.down(n)
			p.up(5)
			p.settle(60 * time.Second)
		}})

	add(&Scenario{Prop: "C05", Name: "two-writers", Max: [2]int{2, 3},
		Desc: "two goroutines write small and split messages on the client side under every schedule",
		Body: func(int) { writers(false, [][]int{{10, 25}, {7, 3}}) }})
	add(&Scenario{Prop: "C05", Name: "two-writers-server", Max: [2]int{2, 3},
		Desc: "two goroutines write split messages on the server side under every schedule",
		Body: func(int) { writers(true, [][]int{{25}, {17, 3}}) }})
	add(&Scenario{Prop: "C05", Name: "three-writers", Max: [2]int{1, 2},
		Desc: "three goroutines write messages of one, two and three packets under every schedule",
		Body: func(int) { writers(pick(2) == 0, [][]int{{5, 15}, {25}, {9, 8}}) }})
	add(&Scenario{Prop: "C05", Name: "large", Max: [2]int{1, 2},
		Desc: "two goroutines write messages of ten and more packets while a third writes small ones, under every schedule",
		Body: func(int) { writers(pick(2) == 0, [][]int{{93}, {125, 9}, {5}}) }})
	add(&Scenario{Prop: "C05", Name: "writers-and-loss", Max: [2]int{2, 3}, Kind: [rt.NumKinds]int{rt.KNet: 1},
		Desc: "two writers under every schedule while one datagram is lost, repeated or delayed",
		Body: func(int) {
			p := vnet.Get()
			p.Fates = func(d *vnet.Dgram) []vnet.Fate {
				if !isData(d) {
					return nil
				}
				return []vnet.Fate{vnet.OK, vnet.Drop, vnet.Late}
			}
			writers(false, [][]int{{12}, {3, 22}})
		}})
	add(&Scenario{Prop: "C05", Name: "reader-replies", Stalls: held, Max: [2]int{1, 2},
		Desc: "the reader callback answers while another goroutine writes split messages on the same connection",
		Body: func(int) { replies() }})
}

// writers lets several goroutines write at once on one side and checks the
// order per goroutine.
func writers(server bool, plan [][]int) {
	p := newPair(pairOpt{maxData: 10})
	w := watch()
	n, ch := p.C, p.Ch
	if server {
		n, ch = p.S, p.Sch
	}
	want := map[string][2]int{} // message -> writer, position
	next := make([]int, len(plan))
	total, got := 0, 0
	var sent [][]string
	for i, l := range plan {
		var s []string
		for j, size := range l {
			m := msg(string(rune('A'+i)), j, size)
			for want[m] != [2]int{} {
				m = "~" + m[1:]
			}
			want[m] = [2]int{i + 1, j}
			s = append(s, m)
			total++
		}
		sent = append(sent, s)
	}
	rd := func(_ *tru.Channel, pac *tru.Packet) {
		m := string(pac.Data())
		x, ok := want[m]
		if !ok {
			rt.Fail("message %s was never written", short(m))
		}
		i, j := x[0]-1, x[1]
		if next[i] != j {
			rt.Fail("message %d of writer %d arrives when message %d is due", j, i, next[i])
		}
		next[i]++
		got++
		rt.Observe("got %d/%d", i, j)
	}
	p.OnUp, p.OnDown = rd, rd
	ids := map[int]bool{}
	rt.SetROI(rt.ROI{Sched: true, Stmt: true, Net: true})
	var ts []*task
	for i := range plan {
		i := i
		ts = append(ts, n.spawn("writer", func() {
			for j, m := range sent[i] {
				id, err := ch.WriteTo([]byte(m))
				if err != nil {
					rt.Fail("write fails: %v", err)
				}
				if plan[i][j] <= 10 {
					if ids[id] {
						rt.Fail("two writes got the number %d", id)
					}
					ids[id] = true
				}
			}
		}))
	}
	if !wait(5*time.Second, ts...) {
		rt.Fail("a write does not return\n%s", rt.Dump())
	}
	rt.WaitUntil(5*time.Millisecond, func() bool { return got == total })
	quiet(0)
	if !rt.WaitUntil(20*time.Second, func() bool { return got == total }) {
		rt.Fail("%d of %d messages arrive", got, total)
	}
	quiet(700 * time.Millisecond)
	if got != total {
		rt.Fail("%d messages arrive, %d were written", got, total)
	}
	// every packet has its own number, and they are used without gaps
	frag := 0
	for _, l := range plan {
		for _, size := range l {
			frag += (size + 9) / 10
		}
	}
	nums := map[int]bool{}
	for _, s := range w.data[dirKeyOf(p, server)] {
		nums[s.id] = true
	}
	if len(nums) != frag {
		rt.Fail("%d packets were written with %d different numbers", frag, len(nums))
	}
}

func dirKeyOf(p *Pair, server bool) string {
	if server {
		return p.S.addr() + ">" + p.C.addr()
	}
	return p.C.addr() + ">" + p.S.addr()
}

func replies() {
	p := newPair(pairOpt{maxData: 10})
	var up []string
	p.OnUp = func(ch *tru.Channel, pac *tru.Packet) {
		up = append(up, string(pac.Data()))
		m := msg("reply", len(up), 15)
		if _, err := ch.WriteTo([]byte(m)); err != nil {
			rt.Fail("write in the reader: %v", err)
		}
	}
	var replies, own int
	p.OnDown = func(ch *tru.Channel, pac *tru.Packet) {
		m := string(pac.Data())
		switch m {
		case msg("reply", replies+1, 15):
			replies++
		case msg("own", own, 25):
			own++
		default:
			rt.Fail("message %s was never written or is out of order", short(m))
		}
	}
	rt.SetROI(rt.ROI{Sched: true, Stmt: true})
	a := p.C.spawn("client", func() {
		for i := 0; i < 2; i++ {
			p.Ch.WriteTo([]byte(msg("q", i, 5)))
		}
	})
	b := p.S.spawn("server", func() {
		for i := 0; i < 2; i++ {
			p.Sch.WriteTo([]byte(msg("own", i, 25)))
		}
	})
	if !wait(5*time.Second, a, b) {
		rt.Fail("a write does not return\n%s", rt.Dump())
	}
	rt.WaitUntil(5*time.Millisecond, func() bool { return replies == 2 && own == 2 })
	quiet(0)
	if !rt.WaitUntil(20*time.Second, func() bool { return replies == 2 && own == 2 }) {
		rt.Fail("%d of 2 replies and %d of 2 messages arrive", replies, own)
	}
	quiet(700 * time.Millisecond)
}
