package main

import (
	"fmt"
	"io"
	"net"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// inProc runs fn as a process of its own on behalf of owner.
func inProc(n int, owner string, fn func()) {
	old := rt.Proc()
	rt.SetProc(n)
	as(owner, fn)
	rt.SetProc(old)
}

func procSpawn(n int, owner, name string, fn func()) (t *task) {
	inProc(n, owner, func() { t = spawn(owner, name, fn) })
	return
}

// streams is a listener process and a dialling process with one connection.
type streams struct {
	l    net.Listener
	s, c net.Conn
}

const (
	srvProc = 1
	cliProc = 2
)

func listenNet(port int) (l net.Listener) {
	inProc(srvProc, "srv", func() {
		var err error
		if l, err = tru.Listen("tru", fmt.Sprint(":", port)); err != nil {
			rt.Fail("listen: %v", err)
		}
	})
	return
}

func newStreams() *streams {
	s := &streams{l: listenNet(7000)}
	acc := procSpawn(srvProc, "srv", "accept", func() {
		c, err := s.l.Accept()
		if err != nil {
			rt.Fail("accept: %v", err)
		}
		s.s = c
	})
	inProc(cliProc, "cli", func() {
		c, err := tru.Dial("tru", "127.0.0.1:7000")
		if err != nil {
			rt.Fail("dial: %v", err)
		}
		s.c = c
	})
	if !wait(time.Second, acc) {
		rt.Fail("accept does not return\n%s", rt.Dump())
	}
	pass(3 * time.Millisecond)
	return s
}

// put writes a message from a buffer that is overwritten at once.
func put(c net.Conn, m string) {
	b := []byte(m)
	n, err := c.Write(b)
	for i := range b {
		b[i] = 0xEE
	}
	if err != nil || n != len(m) {
		rt.Fail("a write of %d bytes reports %d, %v", len(m), n, err)
	}
}

// take reads one message with buffers of the given lengths in turn and checks
// it; k is the index of the next buffer length.
func take(c net.Conn, want string, sizes []int, k *int) {
	got := ""
	empty := 0
	for {
		b := make([]byte, sizes[*k%len(sizes)]+2)
		buf := b[: len(b)-2 : len(b)-2]
		b[len(b)-2], b[len(b)-1] = 0x5A, 0x5B
		*k++
		n, err := c.Read(buf)
		if n < 0 || n > len(buf) {
			rt.Fail("a read into %d bytes reports %d", len(buf), n)
		}
		got += string(buf[:n])
		if len(got) > len(want) || want[:len(got)] != got {
			rt.Fail("read %s, written was %s", short(got), short(want))
		}
		if n == 0 && err == nil && len(buf) > 0 {
			if empty++; empty > 1 {
				rt.Fail("reads return nothing again and again")
			}
		}
		if err == io.EOF {
			if n > 0 {
				rt.Fail("a read returns %d bytes together with end-of-file", n)
			}
			if got != want {
				rt.Fail("end-of-file after %d of %d bytes of a message", len(got), len(want))
			}
			return
		}
		if err != nil {
			rt.Fail("read: %v", err)
		}
		if *k > 200000 {
			rt.Fail("reads never end")
		}
	}
}

func init() {
	lens := []int{0, 1, 2, 3, 5, 16, 64, 65, 200}
	bufs := [][]int{{1}, {2}, {3}, {5}, {7}, {64}, {65}, {199}, {200}, {4096}, {1, 4}, {3, 0, 2}, {5, 1, 1}, {64, 1}, {0, 1}, {100, 3}}
	add(&Scenario{Prop: "C17", Name: "patterns", Max: [2]int{0, 0},
		Desc: "every sequence of 3 message lengths and every pattern of read-buffer lengths, read after or while writing, in both directions; write buffers are overwritten as soon as the write returns",
		Body: func(int) {
			s := newStreams()
			w, r := s.c, s.s
			wp, rp := cliProc, srvProc
			wo, ro := "cli", "srv"
			if pick(2) == 1 {
				w, r, wp, rp, wo, ro = r, w, rp, wp, ro, wo
			}
			var ms []string
			for i := 0; i < 3; i++ {
				ms = append(ms, msg("m", i, lens[pick(len(lens))]))
			}
			pat := bufs[pick(len(bufs))]
			var ts []*task
			read := func() {
				ts = append(ts, procSpawn(rp, ro, "reader", func() {
					k := 0
					for _, m := range ms {
						take(r, m, pat, &k)
					}
				}))
			}
			order := pick(2)
			if order == 0 {
				read()
			}
			ts = append(ts, procSpawn(wp, wo, "writer", func() {
				for _, m := range ms {
					put(w, m)
				}
			}))
			if order == 1 {
				pass(300 * time.Millisecond)
				read()
			}
			if !wait(10*time.Second, ts...) {
				rt.Fail("not everything written can be read\n%s", rt.Dump())
			}
			// nothing more is to be read
			more := procSpawn(rp, ro, "more", func() {
				b := make([]byte, 10)
				n, err := r.Read(b)
				rt.Fail("a read with nothing written returns %d, %v", n, err)
			})
			wait(500*time.Millisecond, more)
		}})
	add(&Scenario{Prop: "C17", Name: "faults", Max: [2]int{3, 4},
		Desc: "both directions at once with every datagram lost, repeated or delayed; the bytes sent again are those written",
		Body: func(int) {
			s := newStreams()
			pat := bufs[pick(3)*5+2]
			n := vnet.Get()
			n.Fates = func(d *vnet.Dgram) []vnet.Fate {
				return []vnet.Fate{vnet.OK, vnet.Drop, vnet.Dup, vnet.Late, vnet.Later}
			}
			rt.SetROI(rt.ROI{Net: true})
			up := []string{msg("up", 0, 20), msg("up", 1, 0), msg("up", 2, 100)}
			down := []string{msg("down", 0, 70), msg("down", 1, 5)}
			do := func(p int, o, name string, c net.Conn, ms []string, rd bool) *task {
				return procSpawn(p, o, name, func() {
					k := 0
					for _, m := range ms {
						if rd {
							take(c, m, pat, &k)
						} else {
							put(c, m)
						}
					}
				})
			}
			ts := []*task{do(cliProc, "cli", "write up", s.c, up, false), do(srvProc, "srv", "write down", s.s, down, false),
				do(srvProc, "srv", "read up", s.s, up, true), do(cliProc, "cli", "read down", s.c, down, true)}
			wait(450*time.Millisecond, ts...)
			quiet(0)
			if !wait(20*time.Second, ts...) {
				rt.Fail("not everything written can be read\n%s", rt.Dump())
			}
		}})
	add(&Scenario{Prop: "C17", Name: "schedules", Stalls: held, Max: [2]int{1, 2},
		Desc: "both directions at once under every schedule",
		Body: func(int) {
			s := newStreams()
			pat := bufs[4+pick(2)]
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			up := []string{msg("up", 0, 20), msg("up", 1, 100)}
			down := []string{msg("down", 0, 70), msg("down", 1, 0)}
			do := func(p int, o, name string, c net.Conn, ms []string, rd bool) *task {
				return procSpawn(p, o, name, func() {
					k := 0
					for _, m := range ms {
						if rd {
							take(c, m, pat, &k)
						} else {
							put(c, m)
						}
					}
				})
			}
			ts := []*task{do(cliProc, "cli", "write up", s.c, up, false), do(srvProc, "srv", "write down", s.s, down, false),
				do(srvProc, "srv", "read up", s.s, up, true), do(cliProc, "cli", "read down", s.c, down, true)}
			wait(20*time.Millisecond, ts...)
			quiet(0)
			if !wait(20*time.Second, ts...) {
				rt.Fail("not everything written can be read\n%s", rt.Dump())
			}
		}})
	add(&Scenario{Prop: "C17", Name: "many", Max: [2]int{0, 0},
		Desc: "40 messages of all lengths around each read-buffer length, some larger than a datagram",
		Body: func(tier int) {
			s := newStreams()
			size := sel(1, 3, 16, 64, 500, 4096, 70000)
			base := sel(0, 1, 2, 3)
			slow := pick(2) == 1
			var ms []string
			for i := 0; i < 40; i++ {
				n := base*size + i - 20
				if n < 0 {
					n = -n
				}
				if n > 3000 && i > 22 {
					continue
				}
				ms = append(ms, msg("m", i, n))
			}
			r := procSpawn(srvProc, "srv", "reader", func() {
				k := 0
				for _, m := range ms {
					take(s.s, m, []int{size}, &k)
					if slow {
						pass(30 * time.Millisecond)
					}
				}
			})
			inProc(cliProc, "cli", func() {
				for _, m := range ms {
					put(s.c, m)
				}
			})
			if !wait(60*time.Second, r) {
				rt.Fail("not everything written can be read\n%s", rt.Dump())
			}
		}})
	add(&Scenario{Prop: "C17", Name: "large", Max: [2]int{0, 0},
		Desc: "messages of up to two megabytes, read with large and small buffers",
		Body: func(tier int) {
			s := newStreams()
			n := sel(1<<16-1, 1<<16, 1<<16+1, 1<<17+1, 500000, 1<<20-1, 1<<20, 1<<20+1, 1200000, 1<<21+5)
			size := sel(1000, 1<<15, 1<<16, 1<<20, 1<<22)
			ms := []string{msg("a", 0, 10), msg("b", 1, n), msg("c", 2, 10)}
			r := procSpawn(srvProc, "srv", "reader", func() {
				k := 0
				for _, m := range ms {
					take(s.s, m, []int{size}, &k)
				}
			})
			inProc(cliProc, "cli", func() {
				for _, m := range ms {
					put(s.c, m)
				}
			})
			if !wait(60*time.Second, r) {
				rt.Fail("not everything written can be read\n%s", rt.Dump())
			}
		}})
}
