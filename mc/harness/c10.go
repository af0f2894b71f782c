package main

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// leak watches the wire for plaintext.
type leak struct {
	plain map[string]bool // short messages
	win   map[uint64]string
	same  int // short data packets equal to a written message
	short int
}

// window is the length of a piece of plaintext that does not turn up by chance.
const window = 8

func newLeak(w *Wire) *leak {
	l := &leak{plain: map[string]bool{}, win: map[uint64]string{}}
	w.on = append(w.on, func(d *vnet.Dgram) {
		if len(d.Data) < 4 || d.Injected {
			return
		}
		b := d.Data[4:]
		for i := 0; i+window <= len(b); i++ {
			if m, ok := l.win[binary.LittleEndian.Uint64(b[i:])]; ok {
				rt.Fail("datagram %s shows plaintext %q of %s", vnet.Describe(d.Data), b[i:i+window], m)
			}
		}
		if isData(d) && len(b) < window && len(b) > 0 {
			l.short++
			if l.plain[string(b)] {
				l.same++
				if len(b) >= 4 {
					rt.Fail("datagram %s carries %q in plaintext", vnet.Describe(d.Data), b)
				}
			}
		}
	})
	return l
}

func (l *leak) add(p []byte) []byte {
	name := short(string(p))
	for i := 0; i+window <= len(p); i += window {
		l.win[binary.LittleEndian.Uint64(p[i:])] = name
	}
	if n := len(p); n >= window {
		l.win[binary.LittleEndian.Uint64(p[n-window:])] = name
	} else {
		l.plain[string(p)] = true
	}
	return p
}

// cipherOf finds the first data datagram of a direction with a number.
func cipherOf(from, to string, id int) []byte {
	for _, d := range vnet.Get().Log {
		if isData(d) && d.Src.String() == from && d.Dst.String() == to && wID(d.Data) == id {
			return d.Data
		}
	}
	return nil
}

func init() {
	add(&Scenario{Prop: "C10", Name: "lengths", Max: [2]int{0, 0},
		Desc: "every message length from 1 to 200 and around powers of two up to the largest packet, both directions, from several packet numbers, whole and split: no plaintext on the wire, also when sent again",
		Body: func(tier int) {
			max := 0
			split := pick(3)
			if split > 0 {
				max = []int{7, 100}[split-1]
			}
			p := newPair(pairOpt{maxData: max})
			w := watch()
			w.off = true
			l := newLeak(w)
			start := []uint32{0, 250, 65533, 0xFFFF0}[pick(4)]
			if !setID(p.Ch, start, start) || !setID(p.Sch, start, start) {
				start = 0
			}
			from := []int{1, 21, 41, 61, 81, 101, 121, 141, 161, 181, 255, 511, 1023, 4095, 32767, 65470}[pick(16)]
			again := pick(2) == 1
			if again {
				n := 0
				p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
					if isData(d) {
						if n++; n%2 == 1 {
							return &vnet.Drop
						}
					}
					return nil
				}
			}
			cnt := 20
			if from > 200 {
				cnt = 3
			}
			if from > 30000 {
				cnt = 1
			}
			if max == 7 && from > 511 || max == 100 && from > 4095 {
				return
			}
			add := func(m string) {
				l.add([]byte(m))
				for max > 0 && max < window && len(m) > 0 {
					k := min(max, len(m))
					l.plain[m[:k]] = true
					m = m[k:]
				}
			}
			for i := 0; i < cnt; i++ {
				m := msg("secret-", i, from+i)
				add(m)
				p.Up.Sent = append(p.Up.Sent, m)
				p.C.do(func() { p.Ch.WriteTo([]byte(m)) })
				m = "d" + msg("other-secret", i, from+i)[1:]
				add(m)
				p.Down.Sent = append(p.Down.Sent, m)
				p.S.do(func() { p.Sch.WriteTo([]byte(m)) })
			}
			p.settle(120 * time.Second)
			if l.short >= 12 && l.same*3 > l.short*2 {
				rt.Fail("%d of %d short data packets are plaintext", l.same, l.short)
			}
		}})
	add(&Scenario{Prop: "C10", Name: "own-key", Max: [2]int{0, 0},
		Desc: "two connections (two clients, one client connecting twice, one client to two servers, or with other nodes between) carry the same messages: no packet of one is the same on or can be read by the other",
		Body: func(int) {
			mode := pick(3)
			busy := pick(2) == 1
			var got []string
			rd := tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
				if err == nil {
					got = append(got, string(pac.Data()))
				}
				return true
			})
			srv := func(owner string, port int) (*Node, func(peer string) *tru.Channel) {
				n := node(owner, port, rd)
				return n, func(peer string) (r *tru.Channel) {
					for _, ch := range n.channels() {
						if ch.Addr().String() == peer {
							r = ch
						}
					}
					return
				}
			}
			s1, find1 := srv("srv", 7000)
			s2, find2 := s1, find1
			if mode == 2 {
				s2, find2 = srv("srv2", 7001)
			}
			c1 := node("cli", 0)
			c2 := c1
			if mode == 0 {
				c2 = node("cli2", 0)
			}
			if busy {
				x := node("cli3", 0)
				x.do(func() { x.Connect(s1.addr(), rd) })
			}
			w := watch()
			w.off = true
			l := newLeak(w)
			type conn struct {
				up, down []string
			}
			texts := []string{"16 bytes of text", "18 bytes of text..", strings.Repeat("thirty-two bytes", 2), strings.Repeat("sixty-four bytes", 4), strings.Repeat("a long message, ", 8)}
			run := func(c, s *Node, find func(string) *tru.Channel) (r conn) {
				got = nil
				n0 := len(w.n.Log)
				var ch *tru.Channel
				c.do(func() {
					var err error
					if ch, err = c.Connect(s.addr(), rd); err != nil {
						rt.Fail("connect: %v", err)
					}
				})
				pass(3 * time.Millisecond)
				sch := find(c.addr())
				if sch == nil {
					rt.Fail("no connection on the server")
				}
				for _, t := range texts {
					l.add([]byte(t))
					c.do(func() { ch.WriteTo([]byte(t)) })
					s.do(func() { sch.WriteTo([]byte(t)) })
				}
				pass(50 * time.Millisecond)
				if len(got) != 2*len(texts) {
					rt.Fail("%d of %d messages arrived", len(got), 2*len(texts))
				}
				for _, d := range w.n.Log[n0:] {
					if !isData(d) {
						continue
					}
					if d.Src.String() == c.addr() {
						r.up = append(r.up, string(d.Data))
					} else {
						r.down = append(r.down, string(d.Data))
					}
				}
				return
			}
			a := run(c1, s1, find1)
			if mode == 1 {
				// the same client again, from the same port
				for _, ch := range c1.channels() {
					c1.do(ch.Close)
				}
				pass(10 * time.Millisecond)
			}
			b := run(c2, s2, find2)
			if len(a.up) != len(texts) || len(b.up) != len(texts) || len(a.down) != len(texts) || len(b.down) != len(texts) {
				rt.Fail("HARNESS: %d %d %d %d data packets", len(a.up), len(b.up), len(a.down), len(b.down))
			}
			for i := range texts {
				if a.up[i] == b.up[i] || a.down[i] == b.down[i] {
					rt.Fail("the same message of %d bytes looks the same on two connections: the key is not the connection's own", len(texts[i]))
				}
			}
			// the long packet of the first connection with the next number of the second
			next := len(texts)
			long := a.up[len(texts)-1]
			// send numbers on the first connection go on to the same place
			got = nil
			base := w.count("", wAck)
			vnet.Get().Inject(c2.udp(), s2.udp(), []byte(long), 0)
			pass(5 * time.Millisecond)
			forged := wPacket(wData, next, []byte(long)[4:])
			vnet.Get().Inject(c2.udp(), s2.udp(), forged, 0)
			pass(20 * time.Millisecond)
			if len(got) > 0 {
				rt.Fail("a packet recorded on another connection was handed over: %s", short(got[0]))
			}
			if n := w.count("", wAck); n != base {
				rt.Fail("a packet recorded on another connection was acknowledged")
			}
		}})
	add(&Scenario{Prop: "C10", Name: "cross-same-number", Max: [2]int{0, 0},
		Desc: "a long packet recorded on one connection is injected into another exactly when its number is the expected one, instead of and before the genuine packet",
		Body: func(int) {
			var got []string
			s := node("srv", 7000, tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
				if err == nil {
					got = append(got, string(pac.Data()))
				}
				return true
			}))
			c1, c2 := node("cli", 0), node("cli2", 0)
			w := watch()
			w.off = true
			conn := func(c *Node) (ch *tru.Channel) {
				c.do(func() {
					var err error
					if ch, err = c.Connect(s.addr()); err != nil {
						rt.Fail("connect: %v", err)
					}
				})
				return
			}
			ch1, ch2 := conn(c1), conn(c2)
			k := pick(3) // messages before
			ln := sel(65, 66, 100, 1000)
			for i := 0; i < k; i++ {
				c1.do(func() { ch1.WriteTo([]byte("before")) })
				c2.do(func() { ch2.WriteTo([]byte("before")) })
			}
			text := msg("one", 0, ln)
			c1.do(func() { ch1.WriteTo([]byte(text)) })
			pass(20 * time.Millisecond)
			rec := cipherOf(c1.addr(), s.addr(), k)
			if rec == nil {
				rt.Fail("HARNESS: no packet %d", k)
			}
			got = nil
			base := w.count("", wAck)
			vnet.Get().Inject(c2.udp(), s.udp(), rec, 0)
			pass(20 * time.Millisecond)
			if len(got) > 0 || w.count("", wAck) != base {
				rt.Fail("a packet recorded on another connection was handed over (%d) or acknowledged (%d)", len(got), w.count("", wAck)-base)
			}
			text2 := msg("two", 0, ln)
			c2.do(func() { ch2.WriteTo([]byte(text2)) })
			pass(20 * time.Millisecond)
			if len(got) != 1 || got[0] != text2 {
				rt.Fail("the genuine packet was not handed over after the foreign one: %q", got)
			}
		}})
	add(&Scenario{Prop: "C10", Name: "altered", Max: [2]int{0, 0},
		Desc: "a long data packet (whole or part of a split message; next in order, early or already received) with each byte of its encrypted part or each bit of its number altered, cut to every length above 64 or lengthened: never handed over nor acknowledged; then the genuine packet is",
		Body: func(tier int) {
			size := sel(65, 66, 80, 128, 300)
			max := 0
			if pick(2) == 1 {
				max = size // two packets
			}
			server := pick(2) == 1
			kind := pick(4)
			place := pick(3) // next in order, early, already received
			p := newPair(pairOpt{maxData: max})
			w := watch()
			w.off = true
			start := []uint32{0, 0xFFFFF}[pick(2)]
			if !setID(p.Ch, start, start) || !setID(p.Sch, start, start) {
				start = 0
			}
			n, ch, st := p.C, p.Ch, p.Up
			src, dst := p.C.udp(), p.S.udp()
			if server {
				n, ch, st = p.S, p.Sch, p.Down
				src, dst = dst, src
			}
			write := func(size int) []*vnet.Dgram {
				k := len(w.n.Log)
				m := msg(st.Name, len(st.Sent), size)
				st.Sent = append(st.Sent, m)
				n.do(func() { ch.WriteTo([]byte(m)) })
				pass(500 * time.Microsecond)
				var r []*vnet.Dgram
				for _, d := range w.n.Log[k:] {
					if isData(d) && d.Src.String() == src.String() {
						r = append(r, d)
					}
				}
				return r
			}
			// data packets are held back by the network and let through by hand
			hold := true
			w.n.Force = func(d *vnet.Dgram) *vnet.Fate {
				if hold && isData(d) && d.Src.String() == src.String() {
					return &vnet.Drop
				}
				return nil
			}
			var first []*vnet.Dgram
			if place == 1 {
				first = write(70)
			}
			ds := write(2 * size)
			if max == 0 {
				ds = ds[:1]
			}
			if len(ds) == 0 {
				rt.Fail("HARNESS: nothing was sent")
			}
			if place == 2 {
				// all genuine packets arrive first
				for _, d := range ds {
					p.Net.Inject(src, dst, d.Data, 0)
				}
				pass(2 * time.Millisecond)
			}
			got0 := st.Got
			acks := w.count(dst.String(), wAck)
			check := func(what string, b []byte) {
				pass(300 * time.Microsecond)
				if st.Got != got0 {
					rt.Fail("%s was handed over", what)
				}
				if k := w.count(dst.String(), wAck); k != acks {
					rt.Fail("%s was acknowledged", what)
				}
			}
			for j, d := range ds {
				genuine := d.Data
				if len(genuine)-4 <= 64 {
					continue
				}
				name := fmt.Sprintf("packet %d (%s)", j, vnet.Describe(genuine))
				switch kind {
				case 0:
					for i := 4; i < len(genuine); i++ {
						for _, x := range []byte{1, 0x80, 0xFF} {
							b := append([]byte(nil), genuine...)
							b[i] ^= x
							p.Net.Inject(src, dst, b, 0)
						}
						if i%16 == 0 || i == len(genuine)-1 {
							check(fmt.Sprintf("%s with byte %d or one of the 15 before altered", name, i), nil)
						}
					}
				case 1:
					for i := 0; i < 20; i++ {
						b := append([]byte(nil), genuine...)
						b[i/8] ^= 1 << (i % 8)
						p.Net.Inject(src, dst, b, 0)
						check(fmt.Sprintf("%s with bit %d of its number altered", name, i), b)
					}
				case 2:
					for k := 65; k < len(genuine)-4; k++ {
						p.Net.Inject(src, dst, genuine[:4+k], 0)
						check(fmt.Sprintf("%s cut to %d", name, k), nil)
					}
				case 3:
					for _, k := range []int{1, 4, 16, 28, 1000} {
						p.Net.Inject(src, dst, append(append([]byte(nil), genuine...), make([]byte, k)...), 0)
						p.Net.Inject(src, dst, append(append(append([]byte(nil), genuine[:4]...), make([]byte, k)...), genuine[4:]...), 0)
						check(fmt.Sprintf("%s lengthened by %d", name, k), nil)
					}
				}
			}
			hold = false
			for _, d := range append(first, ds...) {
				p.Net.Inject(src, dst, d.Data, 0)
			}
			pass(5 * time.Millisecond)
			if max == 0 && st.Got != len(st.Sent) {
				rt.Fail("the genuine packets were not handed over after the altered ones: %d of %d", st.Got, len(st.Sent))
			}
			p.settle(20 * time.Second)
		}})
	add(&Scenario{Prop: "C10", Name: "earliest-writes", Stalls: held, Max: [2]int{1, 2}, Kind: [rt.NumKinds]int{rt.KNet: 1},
		Desc: "both sides write as early as the connection can be seen (connect callback, iteration over connections, on return of connect) under every schedule and handshake fault: no plaintext on the wire",
		Body: func(int) {
			p := newPair(pairOpt{noConnect: true})
			p.OnUp = func(*tru.Channel, *tru.Packet) {}
			p.OnDown = p.OnUp
			w := watch()
			w.off = true
			l := newLeak(w)
			text := [][]byte{l.add([]byte("a secret of some length")), l.add([]byte(msg("secret", 1, 100)))}
			p.fates(isHandshake, vnet.OK, vnet.Dup, vnet.Late)
			rt.SetROI(rt.ROI{Net: true, Sched: true, Stmt: true})
			stop := false
			early := func(n *Node, name string) *task {
				return n.spawn(name, func() {
					for i := 0; i < 12 && !stop; i++ {
						n.ForEachChannel(func(ch *tru.Channel) {
							ch.WriteTo(text[i%2])
						})
						pass(time.Millisecond / 2)
					}
				})
			}
			t1, t2 := early(p.S, "early server"), early(p.C, "early client")
			a := p.attempt("connect")
			wait(50*time.Millisecond, a.t)
			stop = true
			wait(5*time.Second, t1, t2)
			quiet(0)
			a.result()
			if a.err == nil {
				p.C.do(func() { a.ch.WriteTo(text[0]); a.ch.WriteTo(text[1]) })
			}
			pass(20 * time.Millisecond)
		}})
}
