package main

import (
	"fmt"
	"net"
	"strings"
	"time"

	tru "github.com/teonet-go/tru"
	"github.com/teonet-go/tru/teolog"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// C32: the parameters of a node, of connect and of a write.

// setup is what a list of parameters should make of a node.
type setup struct {
	reader, announced, punch int // number of the parameter in force, 0: none
	max                      int
	stat, hot                bool
	wrong                    bool
	log                      *teolog.Teolog
	level                    teolog.LogLevel
	filter                   string
	got                      []string
}

func (s *setup) param(kind, n int) interface{} {
	read := func(ch *tru.Channel, pac *tru.Packet, err error) bool {
		if err == nil {
			s.got = append(s.got, fmt.Sprintf("reader %d %s", n, pac.Data()))
		} else if ch == nil {
			s.got = append(s.got, fmt.Sprintf("reader %d closed", n))
		}
		return true
	}
	conn := func(ch *tru.Channel, err error) { s.got = append(s.got, fmt.Sprintf("connect %d", n)) }
	punch := func(a net.Addr, data []byte) { s.got = append(s.got, fmt.Sprintf("punch %d %s", n, data)) }
	switch kind {
	case 0:
		s.reader = n
		return read
	case 1:
		s.reader = n
		return tru.ReaderFunc(read)
	case 2:
		s.announced = n
		return conn
	case 3:
		s.announced = n
		return tru.ConnectFunc(conn)
	case 4:
		s.punch = n
		return punch
	case 5:
		s.punch = n
		return tru.PunchFunc(punch)
	case 6:
		s.max = 100 * n
		return tru.MaxDataLenType(100 * n)
	case 7:
		s.stat = true
		return tru.Stat(true)
	case 8:
		return tru.Stat(false)
	case 9:
		l := pick(4)
		s.level = []teolog.LogLevel{teolog.Debug, teolog.None, teolog.None, teolog.None}[l]
		return []string{"debug", "NONE", "", "no such level"}[l]
	case 10:
		f := pick(2)
		s.filter = []string{"", "x || y"}[f]
		return []teolog.Filter{{}, {"x", "y"}}[f]
	case 11:
		s.log = teolog.New()
		return s.log
	case 12:
		s.hot = false
		return tru.Hotkey(false)
	case 13:
		s.hot = true
		return tru.Hotkey(true)
	}
	s.wrong = true
	return sel[interface{}](3.14, 5, nil, true, []byte("x"), func(ch *tru.Channel) {})
}

const paramKinds = 15

func init() {
	add(&Scenario{Prop: "C32", Name: "node", Max: [2]int{0, 0},
		Desc: "nodes with every sequence of up to three (thorough: four) of 15 kinds of parameters, wrong ones included: each callback, limit and display given is in force, the last one of a kind counts, none is without one, and a wrong parameter makes an error and leaves nothing behind",
		Body: func(tier int) {
			s := &setup{}
			k := newKeyboard()
			scr := getScreen()
			defer scr.release()
			var params []interface{}
			var names []string
			for i, n := 0, pick(4+tier); i < n; i++ {
				params = append(params, s.param(pick(paramKinds), i+1))
				names = append(names, fmt.Sprintf("%T", params[i]))
			}
			what := strings.Join(names, ", ")
			port := sel(0, 7000)
			var n *Node
			as("srv", func() {
				t, err := tru.New(port, params...)
				if (err != nil) != s.wrong {
					rt.Fail("a node with (%s): error %v", what, err)
				}
				if err == nil {
					n = &Node{Tru: t, Owner: "srv", port: t.LocalPort()}
				}
			})
			if s.wrong {
				pass(2 * time.Second)
				if l := (&Node{Owner: "srv"}).threads(); len(l) > 0 {
					rt.Fail("a node that was not created (%s) left over: %v", what, l)
				}
				if vnet.Get().InUse(net.IPv4(127, 0, 0, 1).To4(), 7000) {
					rt.Fail("a node that was not created (%s) left its port open", what)
				}
				return
			}
			if port != 0 && n.LocalPort() != port || n.LocalAddr().(*net.UDPAddr).Port != n.LocalPort() {
				rt.Fail("a node on port %d says it is on %v, %d", port, n.LocalAddr(), n.LocalPort())
			}
			if n.StatisticPrintRunning() != s.stat {
				rt.Fail("a node with (%s): statistic display %v", what, !s.stat)
			}
			if l := s.log; l != nil && (l.Level() != s.level || l.Filter() != s.filter) {
				rt.Fail("a node with (%s): log level %v, filter %q, should be %v, %q", what, l.Level(), l.Filter(), s.level, s.filter)
			}
			if (n.Hotkey() != nil) != s.hot {
				rt.Fail("a node with (%s): hotkey menu %v", what, n.Hotkey())
			}
			if s.hot { // the application stops it
				if !k.idle() {
					rt.Fail("a node with (%s): the hotkey menu does not read keys", what)
				}
				n.do(func() { n.Hotkey().Stop() })
				k.press("h")
			}
			c := node("cli", 0)
			a := attemptTo(c, "connect", n.addr())
			a.result()
			if a.err != nil {
				rt.Fail("connecting to a node with (%s): %v", what, a.err)
			}
			pass(3 * time.Millisecond)
			c.do(func() { a.ch.WriteTo([]byte("m")) })
			pass(20 * time.Millisecond)
			c.do(func() { c.WriteToPunch([]byte("p"), n.addr()) })
			pass(20 * time.Millisecond)
			var want []string
			if s.announced > 0 {
				want = append(want, fmt.Sprintf("connect %d", s.announced))
			}
			if s.reader > 0 {
				want = append(want, fmt.Sprintf("reader %d m", s.reader))
			}
			if s.punch > 0 {
				want = append(want, fmt.Sprintf("punch %d p", s.punch))
			}
			if g, w := fmt.Sprint(s.got), fmt.Sprint(want); g != w {
				rt.Fail("a node with (%s): %s happened, not %s", what, g, w)
			}
			// the maximum length of data
			max := 0
			vnet.Get().OnSend = func(d *vnet.Dgram) {
				if isData(d) && d.Src.String() == n.addr() && len(d.Data)-4 > max {
					max = len(d.Data) - 4
				}
			}
			m := msg("m", 1, 1000)
			n.do(func() {
				n.ForEachChannel(func(ch *tru.Channel) { ch.WriteTo([]byte(m)) })
			})
			if !rt.WaitUntil(time.Second, func() bool { return len(a.got) == 1 }) || a.got[0] != m {
				rt.Fail("a node with (%s): its message does not arrive", what)
			}
			lim := s.max
			if lim == 0 {
				lim = 1000
			}
			if max > lim+64 || max < lim/2 {
				rt.Fail("a node with (%s): a message of 1000 bytes is sent in packets of up to %d bytes", what, max)
			}
			s.got = nil
			n.do(func() { n.Close() })
			pass(time.Second)
			if g := fmt.Sprint(s.got); s.reader > 0 && g != fmt.Sprintf("[reader %d closed]", s.reader) || s.reader == 0 && len(s.got) > 0 {
				rt.Fail("a node with (%s) was closed: %s happened", what, g)
			}
			released(n, nil, 0)
		}})
	add(&Scenario{Prop: "C32", Name: "write", Max: [2]int{0, 0},
		Desc: "writes of whole and split messages with every sequence of up to three parameters, in every form, wrong ones included: the callback in force is the last one, called once in time; a wrong parameter makes an error, nothing is sent and no number is used up",
		Body: func(int) {
			p := newPair(pairOpt{maxData: 40})
			n, ch, write := p.C, p.Ch, p.up
			if pick(2) == 1 {
				n, ch, write = p.S, p.Sch, p.down
			}
			size := sel(10, 100)
			calls := map[int]int{}
			errs := map[int]error{}
			cb, timeout, wrong := 0, tru.DeliveryTimeout, false
			var params []interface{}
			for i, k := 1, pick(4); i <= k; i++ {
				i := i
				f := func(pac *tru.Packet, err error) { calls[i]++; errs[i] = err }
				switch pick(7) {
				case 0:
					params = append(params, f)
					cb = i
				case 1:
					params = append(params, tru.PacketDeliveryFunc(f))
					cb = i
				case 2:
					params = append(params, 100*time.Millisecond)
					timeout = 100 * time.Millisecond
				case 3:
					params = append(params, 2*time.Second)
					timeout = 2 * time.Second
				case 4:
					params = append(params, 100) // no duration
					wrong = true
				case 5:
					params = append(params, "x")
					wrong = true
				case 6:
					params = append(params, func(err error) {})
					wrong = true
				}
			}
			lost := pick(2) == 1
			write(5)
			pass(10 * time.Millisecond)
			sent := 0
			p.Net.Force = func(d *vnet.Dgram) *vnet.Fate {
				if isData(d) && d.Src.String() == n.addr() {
					sent++
					if lost {
						return &vnet.Drop
					}
				}
				return nil
			}
			var err error
			start := rt.Now()
			if wrong {
				n.do(func() { _, err = ch.WriteTo([]byte(msg("z", 0, size)), params...) })
				pass(time.Second)
				if err == nil || sent > 0 || len(calls) > 0 {
					rt.Fail("a write with a wrong parameter: error %v, %d packets sent, callbacks called %v", err, sent, calls)
				}
				p.Net.Force = nil
				write(20)
				p.settle(100 * time.Millisecond)
				return
			}
			if err = write(size, params...); err != nil {
				rt.Fail("a write with right parameters: %v", err)
			}
			d := timeout - 3*time.Millisecond
			if !lost {
				d = 10 * time.Millisecond
			}
			pass(d - (rt.Now() - start))
			want := 0
			if cb > 0 && !lost {
				want = 1
			}
			if len(calls) != want || want == 1 && (calls[cb] != 1 || errs[cb] != nil) {
				rt.Fail("%v after a write (lost: %v) with callback %d in force and a timeout of %v: called %v, errors %v", d, lost, cb, timeout, calls, errs)
			}
			pass(80 * time.Millisecond)
			if cb > 0 && (calls[cb] != 1 || (errs[cb] != nil) != lost) || len(calls) > 1 || cb == 0 && len(calls) > 0 {
				rt.Fail("after a write (lost: %v) with callback %d in force and a timeout of %v: called %v, errors %v", lost, cb, timeout, calls, errs)
			}
			p.Net.Force = nil
			p.settle(10 * time.Second)
			if len(calls) > 1 || cb > 0 && calls[cb] != 1 {
				rt.Fail("after the message has arrived callbacks are called %v", calls)
			}
		}})
}
