package main

import (
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// readMsg reads one message; err is the error read instead of it.
func readMsg(c net.Conn) (m string, err error) {
	b := make([]byte, 64)
	for {
		n, e := c.Read(b)
		m += string(b[:n])
		if e == io.EOF {
			return m, nil
		}
		if e != nil {
			if m != "" {
				rt.Fail("error %v in the middle of message %s", e, short(m))
			}
			return "", e
		}
	}
}

// isClosed checks that a connection that has ended says so on every call.
func isClosed(side string, c net.Conn) {
	for i := 0; i < 2; i++ {
		b := make([]byte, 8)
		t := spawn("", side+" read", func() {
			if n, err := c.Read(b); err == nil || err == io.EOF || n != 0 {
				rt.Fail("%s: a read on an ended connection returns %d, %v", side, n, err)
			}
		})
		if !wait(time.Second, t) {
			rt.Fail("%s: a read on an ended connection hangs\n%s", side, rt.Dump())
		}
		t = spawn("", side+" write", func() {
			if n, err := c.Write([]byte("late")); err == nil || n != 0 {
				rt.Fail("%s: a write on an ended connection returns %d, %v", side, n, err)
			}
		})
		if !wait(time.Second, t) {
			rt.Fail("%s: a write on an ended connection hangs\n%s", side, rt.Dump())
		}
	}
}

func closeAgain(side string, c net.Conn) {
	t := spawn("", side+" close again", func() {
		if err := c.Close(); err == nil {
			rt.Fail("%s: closing an ended connection again returns no error", side)
		}
	})
	if !wait(time.Second, t) {
		rt.Fail("%s: closing an ended connection again hangs\n%s", side, rt.Dump())
	}
}

// dialTask dials in a process of its own.
func dialTask(p int, owner string, port int, fn func(c net.Conn, err error)) *task {
	return procSpawn(p, owner, "dial "+owner, func() {
		c, err := tru.Dial("tru", fmt.Sprint("127.0.0.1:", port))
		if err != nil && c != nil {
			rt.Fail("dial returns a connection and the error %v", err)
		}
		if err == nil && c == nil {
			rt.Fail("dial returns neither a connection nor an error")
		}
		fn(c, err)
	})
}

type meeting struct {
	l       net.Listener
	greeted map[string]int
	heard   map[string]int
	ts      []*task
	srv     []net.Conn
	cli     []net.Conn
}

// accepter accepts n connections, pausing in between; on each it writes a
// greeting at once and reads the first message.
func (m *meeting) accepter(n int, before, pause time.Duration) {
	m.ts = append(m.ts, procSpawn(srvProc, "srv", "accepter", func() {
		if before > 0 {
			rt.Sleep(before)
		}
		for i := 0; i < n; i++ {
			c, err := m.l.Accept()
			if err != nil || c == nil {
				rt.Fail("accept returns %v, %v", c, err)
			}
			m.srv = append(m.srv, c)
			put(c, "welcome")
			m.ts = append(m.ts, procSpawn(srvProc, "srv", "server side", func() {
				s, err := readMsg(c)
				if err != nil {
					rt.Fail("server side of a connection cannot read the first message: %v", err)
				}
				if m.heard[s]++; m.heard[s] > 1 {
					rt.Fail("first message %q read on two connections", s)
				}
				put(c, "re:"+s)
				if s, err = readMsg(c); err != nil || s != "bye" {
					rt.Fail("server side of a connection reads %q, %v after the first message", s, err)
				}
			}))
			if pause > 0 {
				rt.Sleep(pause)
			}
		}
	}))
}

func (m *meeting) caller(i int) {
	m.ts = append(m.ts, dialTask(cliProc+i, fmt.Sprint("cli", i), 7000, func(c net.Conn, err error) {
		if err != nil {
			rt.Fail("dial: %v", err)
		}
		m.cli = append(m.cli, c)
		me := fmt.Sprint("client ", i)
		put(c, me)
		for _, want := range []string{"welcome", "re:" + me} {
			if s, err := readMsg(c); err != nil || s != want {
				rt.Fail("client %d reads %q, %v, expected %q", i, s, err, want)
			}
		}
		put(c, "bye")
	}))
}

func (m *meeting) end(d time.Duration, n int) {
	if !rt.WaitUntil(d, func() bool {
		if len(m.srv) < n || len(m.cli) < n {
			return false
		}
		for _, t := range m.ts {
			if !t.done {
				return false
			}
		}
		return true
	}) {
		rt.Fail("dialled %d of %d, accepted %d; not every first message can be read\n%s", len(m.cli), n, len(m.srv), rt.Dump())
	}
	addr := map[string]bool{}
	for _, c := range m.srv {
		if c.RemoteAddr() == nil || addr[c.RemoteAddr().String()] {
			rt.Fail("two accepted connections have the remote address %v", c.RemoteAddr())
		}
		addr[c.RemoteAddr().String()] = true
	}
	for _, c := range m.cli {
		if c.RemoteAddr() == nil || c.RemoteAddr().String() != "127.0.0.1:7000" {
			rt.Fail("remote address of a dialled connection is %v", c.RemoteAddr())
		}
	}
	// no further connection is accepted
	more := procSpawn(srvProc, "srv", "more", func() {
		c, err := m.l.Accept()
		rt.Fail("accept returns one connection more than were dialled: %v, %v", c, err)
	})
	wait(300*time.Millisecond, more)
}

func meet() *meeting {
	return &meeting{l: listenNet(7000), heard: map[string]int{}, greeted: map[string]int{}}
}

func init() {
	add(&Scenario{Prop: "C18", Name: "slow-accept", Max: [2]int{0, 0},
		Desc: "1 to 4 clients dial one after the other or at once and write at once; Accept is called before, while or up to 3 s after they connect, with pauses in between",
		Body: func(int) {
			m := meet()
			n := 1 + pick(4)
			before := []time.Duration{0, 2 * time.Millisecond, 100 * time.Millisecond, 3 * time.Second}[pick(4)]
			pause := []time.Duration{0, 50 * time.Millisecond, 900 * time.Millisecond}[pick(3)]
			gap := []time.Duration{0, 10 * time.Millisecond}[pick(2)]
			m.accepter(n, before, pause)
			for i := 0; i < n; i++ {
				m.caller(i)
				if gap > 0 {
					pass(gap)
				}
			}
			m.end(12*time.Second, n)
		}})
	add(&Scenario{Prop: "C18", Name: "accept-faults", Max: [2]int{2, 3},
		Desc: "two clients and a late or early Accept, every datagram of handshake and first messages lost, repeated or delayed",
		Body: func(int) {
			m := meet()
			late := []time.Duration{0, 200 * time.Millisecond}[pick(2)]
			m.accepter(2, late, 0)
			n := vnet.Get()
			n.Fates = func(d *vnet.Dgram) []vnet.Fate {
				if isHandshake(d) {
					return []vnet.Fate{vnet.OK, vnet.Dup, vnet.Late}
				}
				return []vnet.Fate{vnet.OK, vnet.Drop, vnet.Dup, vnet.Late}
			}
			rt.SetROI(rt.ROI{Net: true})
			m.caller(0)
			m.caller(1)
			pass(250 * time.Millisecond)
			quiet(0)
			m.end(12*time.Second, 2)
		}})
	add(&Scenario{Prop: "C18", Name: "accept-schedules", Stalls: held, Max: [2]int{1, 2},
		Desc: "one or two clients dial and write at once while the server accepts and writes at once, under every schedule",
		Body: func(int) {
			m := meet()
			n := 1 + pick(2)
			first := pick(2) == 0
			rt.SetROI(rt.ROI{Sched: true, Stmt: n == 1})
			if first {
				m.accepter(n, 0, 0)
			}
			for i := 0; i < n; i++ {
				m.caller(i)
			}
			if !first {
				pass(5 * time.Millisecond)
				m.accepter(n, 0, 0)
			}
			pass(20 * time.Millisecond)
			quiet(0)
			m.end(12*time.Second, n)
		}})
	add(&Scenario{Prop: "C18", Name: "close", Stalls: held, Max: [2]int{1, 2},
		Desc: "a connection is closed by one side, both sides or twice by one side at the same time, with blocked readers, a busy writer or neither, under every schedule",
		Body: func(int) {
			s := newStreams()
			readers := pick(3) // none, both, both and a second one on the client
			how := pick(5)
			writer := pick(2) == 1
			type rd struct {
				side string
				t    *task
			}
			var rs []rd
			reader := func(p int, o string, c net.Conn) {
				rs = append(rs, rd{o, procSpawn(p, o, "reader "+o, func() {
					if readers == 2 { // each gets some part
						b := make([]byte, 64)
						for {
							if _, err := c.Read(b); err != nil && err != io.EOF {
								return
							}
						}
					}
					for {
						m, err := readMsg(c)
						if err != nil {
							return
						}
						if !strings.HasPrefix(m, "w") {
							rt.Fail("%s reads %q", o, m)
						}
					}
				})})
			}
			if readers > 0 {
				reader(srvProc, "srv", s.s)
				reader(cliProc, "cli", s.c)
				if readers > 1 {
					reader(cliProc, "cli", s.c)
				}
			}
			pass(time.Millisecond)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			var ts []*task
			if writer {
				ts = append(ts, procSpawn(srvProc, "srv", "writer", func() {
					for i := 0; i < 2; i++ {
						if _, err := s.s.Write([]byte(fmt.Sprint("w", i))); err != nil {
							return
						}
					}
				}))
			}
			ok := map[string]int{}
			cl := func(p int, o string, c net.Conn) {
				ts = append(ts, procSpawn(p, o, "close "+o, func() {
					if err := c.Close(); err == nil {
						ok[o]++
					}
				}))
			}
			switch how {
			case 0:
				cl(srvProc, "srv", s.s)
			case 1:
				cl(cliProc, "cli", s.c)
			case 2:
				cl(srvProc, "srv", s.s)
				cl(cliProc, "cli", s.c)
			case 3:
				cl(srvProc, "srv", s.s)
				cl(srvProc, "srv", s.s)
			case 4:
				cl(cliProc, "cli", s.c)
				cl(cliProc, "cli", s.c)
			}
			if !wait(3*time.Second, ts...) {
				rt.Fail("close hangs\n%s", rt.Dump())
			}
			for _, r := range rs {
				if !wait(2*time.Second, r.t) {
					rt.Fail("a reader of %s stays blocked after the connection has ended\n%s", r.side, rt.Dump())
				}
			}
			quiet(5 * time.Millisecond)
			for o, n := range ok {
				if n > 1 {
					rt.Fail("two closes of one connection by %s both return no error", o)
				}
			}
			switch how {
			case 0, 3:
				if ok["srv"] != 1 {
					rt.Fail("closing the connection returned an error")
				}
			case 1, 4:
				if ok["cli"] != 1 {
					rt.Fail("closing the connection returned an error")
				}
			}
			if readers == 0 && writer && how != 0 && how != 3 {
				// messages that arrived before the end may still be read
				drain := procSpawn(cliProc, "cli", "drain", func() {
					for i := 0; i < 3; i++ {
						if _, err := readMsg(s.c); err != nil {
							return
						}
					}
				})
				if !wait(time.Second, drain) {
					rt.Fail("reads after the end hang\n%s", rt.Dump())
				}
			} else if readers == 0 && writer {
				drain := procSpawn(cliProc, "cli", "drain", func() {
					for i := 0; i < 3; i++ {
						if _, err := readMsg(s.c); err != nil {
							return
						}
					}
				})
				if !wait(time.Second, drain) {
					rt.Fail("reads after the end hang\n%s", rt.Dump())
				}
			}
			isClosed("server", s.s)
			isClosed("client", s.c)
			closeAgain("server", s.s)
			closeAgain("client", s.c)
			isClosed("server", s.s)
		}})
	add(&Scenario{Prop: "C18", Name: "received-before-end", Max: [2]int{0, 0},
		Desc: "messages that arrived before the peer closed can be read after it, whatever part of them was read before; after a local close reads fail at once",
		Body: func(int) {
			s := newStreams()
			n := pick(4)
			readBefore := pick(3) // nothing, part of the first message, the first message
			local := pick(2) == 1
			for i := 0; i < n; i++ {
				inProc(srvProc, "srv", func() { put(s.s, msg("m", i, 20)) })
			}
			pass(100 * time.Millisecond)
			t := procSpawn(cliProc, "cli", "read", func() {
				b := make([]byte, 8)
				first := 0
				got := ""
				if n > 0 && readBefore > 0 {
					if readBefore == 1 {
						k, err := s.c.Read(b)
						if err != nil || k != 8 {
							rt.Fail("read returns %d, %v", k, err)
						}
						got = string(b)
					} else {
						first = 1
						k := 0
						take(s.c, msg("m", 0, 20), []int{6}, &k)
					}
				}
				if local {
					if err := s.c.Close(); err != nil {
						rt.Fail("close: %v", err)
					}
				} else {
					inProc(srvProc, "srv", func() {
						if err := s.s.Close(); err != nil {
							rt.Fail("close: %v", err)
						}
					})
					rt.Sleep(50 * time.Millisecond)
					for i := first; i < n; i++ {
						m, err := readMsg(s.c)
						if got += m; err != nil || got != msg("m", i, 20) {
							rt.Fail("message %d that arrived before the end: %q, %v", i, got, err)
						}
						got = ""
					}
				}
			})
			if !wait(5*time.Second, t) {
				rt.Fail("reads hang\n%s", rt.Dump())
			}
			pass(10 * time.Millisecond)
			if local {
				// the rest of a message may still be read, then the error comes
				t := procSpawn(cliProc, "cli", "rest", func() {
					for i := 0; i < 40; i++ {
						if _, err := s.c.Read(make([]byte, 8)); err != nil && err != io.EOF {
							return
						}
					}
					rt.Fail("reads after a local close do not fail")
				})
				if !wait(time.Second, t) {
					rt.Fail("a read after a local close hangs\n%s", rt.Dump())
				}
			}
			isClosed("client", s.c)
			isClosed("server", s.s)
			closeAgain("server", s.s)
			closeAgain("client", s.c)
		}})
	add(&Scenario{Prop: "C18", Name: "silent-end", Max: [2]int{0, 0},
		Desc: "the peer falls silent or its disconnect packet is lost: blocked readers are unblocked within the time of the activity check; or the peer's process or node is closed",
		Body: func(int) {
			s := newStreams()
			how := pick(3)
			side := pick(2)
			c, o, p := s.c, "cli", cliProc
			peer, po, pp := s.s, "srv", srvProc
			if side == 1 {
				c, o, p, peer, po, pp = peer, po, pp, c, o, p
			}
			r := procSpawn(p, o, "reader", func() {
				if m, err := readMsg(c); err == nil {
					rt.Fail("reads %q", m)
				}
			})
			pass(10 * time.Millisecond)
			n := vnet.Get()
			switch how {
			case 0:
				n.Force = func(*vnet.Dgram) *vnet.Fate { return &vnet.Drop }
			case 1:
				n.Force = func(*vnet.Dgram) *vnet.Fate { return &vnet.Drop }
				inProc(pp, po, func() { peer.Close() })
			case 2:
				if side == 1 {
					inProc(pp, po, func() { peer.Close() })
				} else {
					inProc(srvProc, "srv", func() { s.l.Close() })
				}
			}
			limit := 9 * time.Second
			if how == 2 {
				limit = time.Second
			}
			if !wait(limit, r) {
				rt.Fail("a reader stays blocked although its peer is gone\n%s", rt.Dump())
			}
			pass(time.Millisecond)
			isClosed(o, c)
			closeAgain(o, c)
		}})
	add(&Scenario{Prop: "C18", Name: "ends-at-once", Stalls: held, Max: [2]int{1, 2},
		Desc: "a connection is ended by either side, by the end of the peer's node or by a new connection of the same peer at the moment it is made, under every schedule: whoever accepts it is told of its end",
		Body: func(int) {
			l := listenNet(7000)
			how := pick(4)
			early := pick(2) == 0
			var told []error
			accepted := 0
			acc := func() {
				procSpawn(srvProc, "srv", "accept", func() {
					for {
						c, err := l.Accept()
						if err != nil {
							return
						}
						accepted++
						procSpawn(srvProc, "srv", "reader", func() {
							b := make([]byte, 8)
							n, err := c.Read(b)
							if n > 0 || err == nil || err == io.EOF {
								rt.Fail("read %d bytes, %v from a peer that wrote nothing", n, err)
							}
							told = append(told, err)
						})
					}
				})
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			if early {
				acc()
			}
			var t *tru.Tru
			var ch *tru.Channel
			call := procSpawn(cliProc, "cli", "connect", func() {
				var err error
				if t, err = tru.New(4000); err != nil {
					rt.Fail("node: %v", err)
				}
				ch, err = t.Connect("127.0.0.1:7000")
				switch {
				case err != nil:
					ch = nil
				case how == 0:
					ch.Close()
				case how == 1:
					t.Close()
				}
			})
			if how == 2 { // the listening side ends it as soon as there is one
				procSpawn(srvProc, "srv", "ender", func() {
					for i := 0; i < 5000; i++ {
						n := 0
						l.(interface{ ForEachChannel(func(*tru.Channel)) }).ForEachChannel(func(c *tru.Channel) { c.Close(); n++ })
						if n > 0 {
							return
						}
						rt.Sleep(100 * time.Microsecond)
					}
				})
			}
			if !wait(6*time.Second, call) {
				rt.Fail("connect hangs\n%s", rt.Dump())
			}
			if how == 3 && ch != nil { // connected once more
				again := procSpawn(cliProc, "cli", "again", func() {
					if c, err := t.Connect("127.0.0.1:7000"); err == nil {
						c.Close()
					}
				})
				wait(6*time.Second, again)
			}
			pass(20 * time.Millisecond)
			quiet(0)
			if !early {
				acc()
			}
			if how == 3 {
				inProc(cliProc, "cli", func() { t.Close() })
			}
			if !rt.WaitUntil(9*time.Second, func() bool { return len(told) == accepted }) {
				rt.Fail("%d connections were accepted, %d of them are told that they have ended\n%s", accepted, len(told), rt.Dump())
			}
			rt.Observe("%d %d", how, accepted)
			end := procSpawn(srvProc, "srv", "close", func() { l.Close() })
			if !wait(3*time.Second, end) || !rt.WaitUntil(time.Second, func() bool { return len(told) == accepted }) {
				rt.Fail("the listener does not end\n%s", rt.Dump())
			}
		}})
	add(&Scenario{Prop: "C18", Name: "unread", Max: [2]int{0, 0},
		Desc: "connections whose messages nobody reads, or that nobody accepts, hold up neither the other connections of the node nor its close",
		Body: func(int) {
			l := listenNet(7000)
			var srv, cli []net.Conn
			n := 2 + pick(2)
			accepted := pick(3) // how many of them are accepted
			if accepted == 0 {
				n--
			}
			acc := procSpawn(srvProc, "srv", "accept", func() {
				for len(srv) < accepted {
					c, err := l.Accept()
					if err != nil {
						rt.Fail("accept: %v", err)
					}
					srv = append(srv, c)
				}
			})
			for i := 0; i < n; i++ {
				t := dialTask(cliProc+i, fmt.Sprint("cli", i), 7000, func(c net.Conn, err error) {
					if err != nil {
						rt.Fail("dial %d: %v", i, err)
					}
					cli = append(cli, c)
					for k := 0; k < 3; k++ {
						put(c, fmt.Sprint("msg", i, k))
					}
				})
				if !wait(6*time.Second, t) {
					rt.Fail("dial hangs\n%s", rt.Dump())
				}
				pass(5 * time.Millisecond)
			}
			wait(time.Second, acc)
			// long enough for the activity check to end connections that are held up
			pass([]time.Duration{10 * time.Millisecond, 9 * time.Second}[pick(2)])
			if accepted > 0 {
				// the connection accepted last works in both directions
				i := accepted - 1
				t := procSpawn(srvProc, "srv", "read", func() {
					for k := 0; k < 3; k++ {
						if m, err := readMsg(srv[i]); err != nil || m != fmt.Sprint("msg", i, k) {
							rt.Fail("connection %d: message %d is %q, %v", i, k, m, err)
						}
					}
					put(srv[i], "answer")
				})
				t2 := procSpawn(cliProc+i, fmt.Sprint("cli", i), "read", func() {
					if m, err := readMsg(cli[i]); err != nil || m != "answer" {
						rt.Fail("connection %d reads %q, %v", i, m, err)
					}
				})
				if !wait(3*time.Second, t, t2) {
					rt.Fail("a connection is held up by another one\n%s", rt.Dump())
				}
			}
			t := procSpawn(srvProc, "srv", "close", func() {
				if err := l.Close(); err != nil {
					rt.Fail("listener close: %v", err)
				}
			})
			if !wait(3*time.Second, t) {
				rt.Fail("close of the listener is held up by connections nobody reads\n%s", rt.Dump())
			}
			for i, c := range cli {
				t := procSpawn(cliProc+i, fmt.Sprint("cli", i), "read", func() {
					for j := 0; j < 3; j++ {
						if _, err := readMsg(c); err != nil {
							return
						}
					}
				})
				if !wait(2*time.Second, t) {
					rt.Fail("peer %d is not told that the listener was closed\n%s", i, rt.Dump())
				}
			}
		}})
	add(&Scenario{Prop: "C18", Name: "listener-close", Stalls: held, Max: [2]int{1, 2},
		Desc: "the listener is closed, once or twice, while Accept is blocked by none, one or two goroutines, while a client connects, and with accepted and unaccepted connections; afterwards Accept fails and listening again on the same port works",
		Body: func(int) {
			l := listenNet(7000)
			blocked := pick(3)
			client := pick(3) // none, connected before, connecting meanwhile
			twice := pick(2) == 1
			var ts, as []*task
			var got []net.Conn
			var cli net.Conn
			accept := func() {
				as = append(as, procSpawn(srvProc, "srv", "accept", func() {
					for {
						c, err := l.Accept()
						if err != nil {
							if c != nil {
								rt.Fail("accept returns a connection and the error %v", err)
							}
							return
						}
						if c == nil {
							rt.Fail("accept returns neither a connection nor an error")
						}
						if len(got) == 1 {
							rt.Fail("a connection is accepted twice")
						}
						got = append(got, c)
					}
				}))
			}
			for i := 0; i < blocked; i++ {
				accept()
			}
			dial := func() *task {
				return dialTask(cliProc, "cli", 7000, func(c net.Conn, err error) { cli = c })
			}
			if client == 1 {
				if !wait(time.Second, dial()) || cli == nil {
					rt.Fail("dial fails")
				}
				pass(5 * time.Millisecond)
			} else {
				pass(time.Millisecond)
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: client != 2})
			if client == 2 {
				ts = append(ts, dial())
			}
			cl := func() {
				ts = append(ts, procSpawn(srvProc, "srv", "close", func() { l.Close() }))
			}
			cl()
			if twice {
				cl()
			}
			if !wait(7*time.Second, ts...) {
				rt.Fail("close of the listener or dial hangs\n%s", rt.Dump())
			}
			if !wait(time.Second, as...) {
				rt.Fail("accept stays blocked after the listener was closed\n%s", rt.Dump())
			}
			quiet(2 * time.Millisecond)
			as = nil
			accept()
			if !wait(time.Second, as...) {
				rt.Fail("accept on a closed listener hangs\n%s", rt.Dump())
			}
			pass(50 * time.Millisecond)
			for _, c := range got {
				isClosed("server", c)
			}
			if cli != nil && client == 1 {
				isClosed("client", cli)
			}
			// listen again
			m := meet()
			m.accepter(1, 0, 0)
			m.caller(3)
			m.end(2*time.Second, 1)
		}})
	add(&Scenario{Prop: "C18", Name: "one-process", Max: [2]int{0, 0},
		Desc: "listeners and dialled connections of one process in every order: dial before listening, two listeners (one on a free port of the system's choice), dialling while listening, several dials, close of each of them; each listener takes the connections of its own port",
		Body: func(int) {
			// a server elsewhere that echoes
			other := listenNet(7000)
			procSpawn(srvProc, "srv", "echo", func() {
				for {
					c, err := other.Accept()
					if err != nil {
						return
					}
					procSpawn(srvProc, "srv", "echo conn", func() {
						for {
							m, err := readMsg(c)
							if err != nil {
								return
							}
							put(c, "echo "+m)
						}
					})
				}
			})
			const me = 9
			var ls [2]net.Listener
			var ports [2]int
			accepted := map[string]int{}
			var dialled []net.Conn
			call := func(p int, o string, port int, want string) {
				if p != me {
					o = o + "-x"
				}
				t := dialTask(p, o, port, func(c net.Conn, err error) {
					if err != nil {
						rt.Fail("dial of port %d: %v", port, err)
					}
					if p == me {
						dialled = append(dialled, c)
					}
					put(c, "hi")
					if m, err := readMsg(c); err != nil || m != want {
						rt.Fail("connection to port %d reads %q, %v, expected %q", port, m, err, want)
					}
				})
				if !wait(2*time.Second, t) {
					rt.Fail("a connection to port %d does not work\n%s", port, rt.Dump())
				}
			}
			nc := 20
			for step := 0; step < 4; step++ {
				switch op := pick(6); op {
				case 0, 1: // listen
					if ls[op] != nil {
						return
					}
					port := 8000
					if op == 1 { // any free port
						port = 0
					}
					inProc(me, "me", func() {
						l, err := tru.Listen("tru", fmt.Sprint(":", port))
						if err != nil {
							rt.Fail("listen on port %d: %v", port, err)
						}
						ls[op] = l
						a, ok := l.Addr().(*net.UDPAddr)
						if !ok || a.Port == 0 || port != 0 && a.Port != port {
							rt.Fail("the address of the listener on port %d is %v", port, a)
						}
						port = a.Port
						ports[op] = port
					})
					procSpawn(me, "me", "accept", func() {
						l := ls[op]
						for {
							c, err := l.Accept()
							if err != nil {
								return
							}
							accepted[fmt.Sprint(port)]++
							procSpawn(me, "me", "conn", func() {
								for {
									m, err := readMsg(c)
									if err != nil {
										return
									}
									put(c, fmt.Sprint(port, " ", m))
								}
							})
						}
					})
				case 2: // dial the other process
					call(me, "me", 7000, "echo hi")
				case 3, 4: // be dialled
					if ls[op-3] == nil {
						return
					}
					nc++
					call(nc, fmt.Sprint("cli", nc), ports[op-3], fmt.Sprint(ports[op-3], " hi"))
				case 5: // close the first listener there is
					i := 0
					if ls[0] == nil {
						i = 1
					}
					if ls[i] == nil {
						return
					}
					t := procSpawn(me, "me", "close", func() { ls[i].Close() })
					if !wait(time.Second, t) {
						rt.Fail("close of a listener hangs\n%s", rt.Dump())
					}
					ls[i] = nil
				}
			}
		}})
	add(&Scenario{Prop: "C18", Name: "dial-failure", Max: [2]int{0, 0},
		Desc: "dialling when nobody answers, with wrong addresses, or to a listener that is closed, ends in an error and no connection within about five seconds, and later dials work",
		Body: func(int) {
			bad := pick(7)
			closedBefore := bad == 6
			if closedBefore {
				l := listenNet(7000)
				pass(time.Millisecond)
				inProc(srvProc, "srv", func() { l.Close() })
			}
			addr := []string{"127.0.0.1:7000", "127.0.0.1", "127.0.0.1:x", "", ":", "127.0.0.1:99999", "127.0.0.1:7000"}[bad]
			t := procSpawn(cliProc+3, "cli3", "dial", func() {
				c, err := tru.Dial("tru", addr)
				if c != nil || err == nil {
					rt.Fail("dialling %q returns %v, %v", addr, c, err)
				}
			})
			if !wait(5500*time.Millisecond, t) {
				rt.Fail("dialling %q hangs\n%s", addr, rt.Dump())
			}
			for _, a := range []string{"127.0.0.1", ":x", "", "1:2:3"} {
				t := procSpawn(srvProc, "srv", "listen", func() {
					if l, err := tru.Listen("tru", a); err == nil {
						rt.Fail("listening on %q returns %v, %v", a, l, err)
					}
				})
				if !wait(time.Second, t) {
					rt.Fail("listen hangs")
				}
			}
			m := meet()
			m.accepter(1, 0, 0)
			m.caller(3)
			m.end(2*time.Second, 1)
		}})
	add(&Scenario{Prop: "C18", Name: "dials", Stalls: held, Max: [2]int{1, 1},
		Desc: "two dials of one process to two servers at the same time, under every schedule; each connection reaches its server",
		Body: func(int) {
			for i := 0; i < 2; i++ {
				i := i
				var l net.Listener
				inProc(srvProc+i*20, fmt.Sprint("srv", i), func() {
					var err error
					if l, err = tru.Listen("tru", fmt.Sprint(":", 7000+i)); err != nil {
						rt.Fail("listen: %v", err)
					}
				})
				procSpawn(srvProc+i*20, fmt.Sprint("srv", i), "accept", func() {
					c, err := l.Accept()
					if err != nil {
						rt.Fail("accept: %v", err)
					}
					m, err := readMsg(c)
					if err != nil {
						rt.Fail("server %d: %v", i, err)
					}
					put(c, fmt.Sprint(i, m))
				})
			}
			rt.SetROI(rt.ROI{Sched: true})
			var ts []*task
			for i := 0; i < 2; i++ {
				i := i
				ts = append(ts, dialTask(cliProc, "cli", 7000+i, func(c net.Conn, err error) {
					if err != nil {
						rt.Fail("dial: %v", err)
					}
					put(c, fmt.Sprint("hi", i))
					if m, err := readMsg(c); err != nil || m != fmt.Sprint(i, "hi", i) {
						rt.Fail("connection to server %d reads %q, %v", i, m, err)
					}
				}))
			}
			wait(20*time.Millisecond, ts...)
			quiet(0)
			if !wait(3*time.Second, ts...) {
				rt.Fail("connections do not work\n%s", rt.Dump())
			}
		}})
}
