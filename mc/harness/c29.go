package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
)

// isTimeout says whether err is what an exceeded deadline must return.
func isTimeout(err error) bool {
	var ne net.Error
	return errors.Is(err, os.ErrDeadlineExceeded) && errors.As(err, &ne) && ne.Timeout()
}

// readCall is one call of Read.
type readCall struct {
	t    *task
	n    int
	err  error
	at   time.Duration
	data string
}

func startRead(c net.Conn, size int) *readCall {
	r := &readCall{}
	r.t = procSpawn(cliProc, "cli", "read", func() {
		b := make([]byte, size)
		r.n, r.err = c.Read(b)
		r.at = rt.Now()
		r.data = string(b[:r.n])
	})
	return r
}

// dlModel is what a stream connection with deadlines must do.
type dlModel struct {
	in       []string // received, not read
	part     string   // rest of the message being read
	eof      bool     // the end of a message is to be reported
	deadline time.Duration
	has      bool
}

func (m *dlModel) expired() bool { return m.has && rt.Now() >= m.deadline }

// read predicts a read call that returns now.
func (m *dlModel) read(size int) (data string, err string, now bool) {
	if m.expired() {
		return "", "timeout", true
	}
	if m.part == "" && m.eof {
		m.eof = false
		return "", "EOF", true
	}
	if m.part == "" {
		if len(m.in) == 0 {
			return "", "", false
		}
		m.part, m.in, m.eof = m.in[0], m.in[1:], true
	}
	data = m.part
	if len(data) > size {
		data = data[:size]
	}
	m.part = m.part[len(data):]
	return data, "", true
}

func errName(err error) string {
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "EOF"
	case isTimeout(err):
		return "timeout"
	}
	return err.Error()
}

// sameEnds checks that both ends agree on their addresses.
func sameEnds(s *streams) {
	port := func(a net.Addr) string {
		if a == nil {
			rt.Fail("an address is nil")
		}
		_, p, err := net.SplitHostPort(a.String())
		if err != nil {
			rt.Fail("address %v: %v", a, err)
		}
		return p
	}
	if l, r := s.s.LocalAddr(), s.c.RemoteAddr(); port(l) != "7000" || port(r) != "7000" || r.String() != "127.0.0.1:7000" || port(s.l.Addr()) != "7000" {
		rt.Fail("the listener at %v, its connection at %v, the peer says %v", s.l.Addr(), l, r)
	}
	if l, r := s.c.LocalAddr(), s.s.RemoteAddr(); port(l) != port(r) || port(l) == "0" || port(l) == "7000" {
		rt.Fail("the connection at %v is at %v for its peer", l, r)
	}
}

func init() {
	add(&Scenario{Prop: "C29", Name: "sequences", Max: [2]int{0, 0},
		Desc: "every sequence of five (thorough six) of: a deadline for reads, writes or both in the past, soon, later or removed; a message comes; a read with a small or a large buffer; a write; time passes; every call's result and moment is compared with a reference",
		Body: func(tier int) {
			s := newStreams()
			m := &dlModel{}
			var wdl time.Duration
			var whas bool
			var pending *readCall
			var psize int
			var h []string
			sent, written := 0, 0
			var toPeer []string
			// settle takes the result of a pending read if it must have come
			settle := func() {
				if pending == nil {
					return
				}
				data, e, now := m.read(psize)
				if !now {
					if pending.t.done {
						rt.Fail("%v: a read returns %q, %q although nothing arrived and its deadline is not over", h, pending.data, errName(pending.err))
					}
					return
				}
				if !pending.t.done {
					rt.Fail("%v: a read does not return, should: %q, %q\n%s", h, data, e, rt.Dump())
				}
				if pending.data != data || errName(pending.err) != e {
					rt.Fail("%v: a read returns %q, %q, should: %q, %q", h, pending.data, errName(pending.err), data, e)
				}
				if e == "timeout" && pending.at < m.deadline {
					rt.Fail("%v: a read times out at %v, its deadline is %v", h, pending.at, m.deadline)
				}
				pending = nil
			}
			for i := 0; i < 5+tier; i++ {
				op := pick(12)
				switch op {
				case 0, 1, 2, 3, 4, 5, 6:
					// past, soon, later, none for reads; past, none for writes; soon for both
					d := []time.Duration{-time.Second, 30 * time.Millisecond, 100 * time.Millisecond, 0, -1, 0, 30 * time.Millisecond}[op]
					what := []string{"read", "read", "read", "read", "write", "write", "both"}[op]
					h = append(h, fmt.Sprint(what, " deadline ", d))
					inProc(cliProc, "cli", func() {
						var t time.Time
						if d != 0 {
							t = rt.Epoch.Add(rt.Now()).Add(d)
						}
						var err error
						switch what {
						case "read":
							err = s.c.SetReadDeadline(t)
						case "write":
							err = s.c.SetWriteDeadline(t)
						case "both":
							err = s.c.SetDeadline(t)
						}
						if err != nil {
							rt.Fail("%v: %v", h, err)
						}
					})
					if what != "write" {
						m.has, m.deadline = d != 0, rt.Now()+d
					}
					if what != "read" {
						whas, wdl = d != 0, rt.Now()+d
					}
				case 7:
					h = append(h, "message")
					t := msg("m", sent, 12)
					sent++
					inProc(srvProc, "srv", func() { put(s.s, t) })
					before := m.expired()
					pass(2 * time.Millisecond)
					if !before && m.expired() && pending != nil {
						return // the order is not determined
					}
					m.in = append(m.in, t)
				case 8, 9:
					if pending != nil {
						return
					}
					psize = []int{5, 64}[op-8]
					h = append(h, fmt.Sprint("read ", psize))
					pending = startRead(s.c, psize)
				case 10:
					h = append(h, "write")
					t := msg("w", written, 9)
					inProc(cliProc, "cli", func() {
						n, err := s.c.Write([]byte(t))
						if whas && rt.Now() >= wdl {
							if !isTimeout(err) || n != 0 {
								rt.Fail("%v: a write after its deadline returns %d, %v", h, n, err)
							}
							return
						}
						if err != nil || n != len(t) {
							rt.Fail("%v: a write returns %d, %v", h, n, err)
						}
						written++
						toPeer = append(toPeer, t)
					})
				case 11:
					h = append(h, "40 ms")
					for k := 0; k < 20; k++ {
						pass(2 * time.Millisecond)
						settle()
					}
				}
				pass(time.Millisecond)
				settle()
			}
			sameEnds(s)
			// in the end everything can be read
			inProc(cliProc, "cli", func() { s.c.SetDeadline(time.Time{}) })
			m.has = false
			h = append(h, "no deadline")
			pass(time.Millisecond)
			settle()
			if pending == nil {
				for len(m.in) > 0 || m.part != "" || m.eof {
					psize = 64
					pending = startRead(s.c, psize)
					pass(time.Millisecond)
					settle()
				}
			}
			pass(20 * time.Millisecond)
			t := procSpawn(srvProc, "srv", "read", func() {
				for _, w := range toPeer {
					if g, err := readMsg(s.s); g != w || err != nil {
						rt.Fail("%v: the peer reads %q, %v, should be %q", h, g, err, w)
					}
				}
			})
			if !wait(time.Second, t) {
				rt.Fail("%v: the peer has not received what was written", h)
			}
		}})
	add(&Scenario{Prop: "C29", Name: "schedules", Stalls: held, Max: [2]int{2, 3},
		Desc: "a read waits while a deadline passes, is set, moved or removed, a message arrives or the connection is closed at that moment, under every schedule: it returns a result that fits, and no message is lost",
		Body: func(int) {
			rt.SetRace(true)
			s := newStreams()
			what := pick(8)
			set := func(d time.Duration) {
				inProc(cliProc, "cli", func() {
					var t time.Time
					if d != 0 {
						t = rt.Epoch.Add(rt.Now()).Add(d)
					}
					s.c.SetReadDeadline(t)
				})
			}
			setTask := func(d time.Duration) *task {
				return procSpawn(cliProc, "cli", "set", func() { set(d) })
			}
			start := rt.Now()
			if what != 5 && what != 6 {
				set(50 * time.Millisecond)
			}
			r := startRead(s.c, 64)
			pass(start + 49900*time.Microsecond - rt.Now())
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			rt.FireDue(200 * time.Microsecond)
			var ts []*task
			ok := map[string]bool{}
			message := false
			switch what {
			case 0: // the deadline passes
				ok["timeout"] = true
			case 1: // and a message arrives
				message = true
				inProc(srvProc, "srv", func() { put(s.s, "message") })
				ok["timeout"], ok["message"] = true, true
			case 2: // moved further
				ts = append(ts, setTask(100*time.Millisecond))
				ok["timeout"] = true
			case 3: // removed
				ts = append(ts, setTask(0))
				ok["timeout"], ok["pending"] = true, true
			case 4: // closed
				ts = append(ts, procSpawn(cliProc, "cli", "close", func() { s.c.Close() }))
				ok["timeout"], ok["closed"] = true, true
			case 5: // set while the read waits, and a message arrives
				message = true
				ts = append(ts, setTask(-1))
				inProc(srvProc, "srv", func() { put(s.s, "message") })
				ok["timeout"], ok["message"] = true, true
			case 6: // set twice at once
				ts = append(ts, setTask(time.Millisecond), setTask(0))
				ok["timeout"], ok["pending"] = true, true
			case 7: // closed by the peer
				ts = append(ts, procSpawn(srvProc, "srv", "close", func() { s.s.Close() }))
				ok["timeout"], ok["closed"] = true, true
			}
			if !wait(3*time.Second, ts...) {
				rt.Fail("a call does not return\n%s", rt.Dump())
			}
			pass(time.Millisecond)
			quiet(30 * time.Millisecond)
			pass(400 * time.Millisecond)
			got := "pending"
			if r.t.done {
				switch got = errName(r.err); {
				case got == "":
					got = r.data
				case got != "timeout" && got != "EOF":
					got = "closed"
				}
			}
			if !ok[got] {
				rt.Fail("case %d: the read returned %q at %v\n%s", what, got, r.at-start, rt.Dump())
			}
			if what == 2 && r.at-start > 60*time.Millisecond && r.at-start < 149*time.Millisecond {
				rt.Fail("the read times out after %v, the deadline was moved from 50 to about 150 ms", r.at-start)
			}
			rt.Observe("%d %s", what, got)
			if what == 3 {
				// no deadline any more, whatever became of the read that waited
				r2 := startRead(s.c, 64)
				pass(20 * time.Millisecond)
				if r2.t.done {
					rt.Fail("case %d: a read after the deadline was removed returns %v", what, r2.err)
				}
				inProc(srvProc, "srv", func() { put(s.s, "message") })
				pass(5 * time.Millisecond)
				if (r.t.done && r.data == "message") == (r2.t.done && r2.data == "message") {
					rt.Fail("case %d: the message is not read", what)
				}
				return
			}
			if what == 4 || what == 7 {
				return
			}
			set(0)
			if !message {
				inProc(srvProc, "srv", func() { put(s.s, "message") })
			}
			if got == "message" {
				r2 := startRead(s.c, 64)
				pass(time.Millisecond)
				if !r2.t.done || r2.err != io.EOF {
					rt.Fail("case %d: the end of the message is not reported: %v", what, r2.err)
				}
				return
			}
			if got == "timeout" {
				r = startRead(s.c, 64)
			}
			pass(5 * time.Millisecond)
			if !r.t.done || r.data != "message" {
				rt.Fail("case %d: after the read %s the message is not read", what, got)
			}
		}})
	add(&Scenario{Prop: "C29", Name: "closed", Max: [2]int{0, 0},
		Desc: "connections are closed by either end with deadlines in the past or to come, with or without a waiting read: the read returns and no timer is left",
		Body: func(int) {
			left := -1
			for i := 0; i < 2; i++ {
				l := listenNet(7000 + i)
				var srv, c net.Conn
				acc := procSpawn(srvProc, "srv", "accept", func() { srv, _ = l.Accept() })
				inProc(cliProc, "cli", func() { c, _ = tru.Dial("tru", fmt.Sprint("127.0.0.1:", 7000+i)) })
				if !wait(time.Second, acc) || srv == nil || c == nil {
					rt.Fail("no connection %d", i)
				}
				pass(3 * time.Millisecond)
				var r *readCall
				if i > 0 {
					d := sel(-time.Second, 30*time.Millisecond, 2*time.Second, time.Minute)
					which := pick(3)
					inProc(cliProc, "cli", func() {
						t := rt.Epoch.Add(rt.Now()).Add(d)
						[]func(time.Time) error{c.SetDeadline, c.SetReadDeadline, c.SetWriteDeadline}[which](t)
					})
					if pick(2) == 1 {
						r = startRead(c, 64)
					}
					pass(sel(0, 50*time.Millisecond))
				}
				peer := i > 0 && pick(2) == 1
				if peer {
					inProc(srvProc, "srv", func() { srv.Close() })
				} else {
					inProc(cliProc, "cli", func() { c.Close() })
				}
				pass(500 * time.Millisecond)
				if r != nil && !r.t.done {
					rt.Fail("a read of a closed connection does not return")
				}
				if peer {
					inProc(cliProc, "cli", func() { c.Close() })
				}
				pass(time.Millisecond)
				n := len(rt.PendingTimers("cli"))
				if left >= 0 && n > left {
					rt.Fail("timers are left after a connection with a deadline was closed: %v", rt.PendingTimers("cli"))
				}
				left = n
			}
		}})
}
