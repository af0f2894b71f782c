package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// vt is a terminal: it understands what the display prints.
type vt struct {
	h, top, bottom int
	rows           [][]rune // from row 1 on
	y, x, sy, sx   int
	saved          bool
	nowrap         bool
	bad            string
}

func newVT(h int) *vt {
	t := &vt{h: h, top: 1, bottom: h, rows: make([][]rune, h+1), y: h / 2, x: 1}
	return t
}

// vtWidth is the number of columns; what does not fit is cut while wrapping is
// off: it is kept here to be looked at.
const vtWidth = 60

func (t *vt) newline() {
	t.x = 1
	if t.y == t.bottom {
		copy(t.rows[t.top:t.bottom], t.rows[t.top+1:t.bottom+1])
		t.rows[t.bottom] = nil
	} else if t.y < t.h {
		t.y++
	}
}

func (t *vt) write(s string) {
	r := []rune(s)
	for i := 0; i < len(r); i++ {
		switch {
		case r[i] == '\n':
			t.newline()
		case r[i] == '\r':
			t.x = 1
		case r[i] == '\033' && i+1 < len(r) && r[i+1] == '[':
			j := i + 2
			for j < len(r) && !(r[j] >= '@' && r[j] <= '~') {
				j++
			}
			if j == len(r) {
				t.bad = "unfinished escape sequence"
				return
			}
			t.escape(string(r[i+2:j]), r[j])
			i = j
		default:
			if t.x > vtWidth && !t.nowrap {
				t.newline()
			}
			l := t.rows[t.y]
			for len(l) < t.x {
				l = append(l, ' ')
			}
			l[t.x-1] = r[i]
			t.rows[t.y] = l
			t.x++
		}
	}
}

func (t *vt) escape(arg string, c rune) {
	var a []int
	for _, f := range strings.Split(strings.TrimPrefix(arg, "?"), ";") {
		n, _ := strconv.Atoi(f)
		a = append(a, n)
	}
	at := func(i, def int) int {
		if i >= len(a) || a[i] == 0 {
			return def
		}
		return a[i]
	}
	switch c {
	case 's':
		t.sy, t.sx, t.saved = t.y, t.x, true
	case 'u':
		if t.saved {
			t.y, t.x = t.sy, t.sx
		}
	case 'f', 'H':
		t.y, t.x = at(0, 1), at(1, 1)
		if t.y > t.h {
			t.y = t.h
		}
	case 'K':
		if l := t.rows[t.y]; len(l) >= t.x {
			t.rows[t.y] = l[:t.x-1]
		}
	case 'J':
		for i := t.y; i <= t.h; i++ {
			t.rows[i] = nil
		}
	case 'r':
		if top, bottom := at(0, 1), at(1, t.h); top < bottom && bottom <= t.h {
			t.top, t.bottom = top, bottom
			t.y, t.x = 1, 1
		}
	case 'h', 'l':
		if arg == "?7" {
			t.nowrap = c == 'l'
		}
	case 'm':
	default:
		t.bad = fmt.Sprintf("unknown escape sequence %q", arg+string(c))
	}
}

func (t *vt) line(i int) string { return string(t.rows[i]) }

// String shows the terminal down to the scroll region.
func (t *vt) String() (s string) {
	for i := 1; i < t.top+2 && i <= t.h; i++ {
		s += fmt.Sprintf("%3d %s\n", i, t.line(i))
	}
	return s + fmt.Sprintf("(rows %d to %d scroll)", t.top, t.bottom)
}

var thePty *os.File

// ptySize makes a terminal of h rows the standard input; 0: no terminal.
func ptySize(h int) {
	if h == 0 {
		f, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
		syscall.Dup2(int(f.Fd()), 0)
		f.Close()
		return
	}
	ctl := func(fd, req uintptr, p unsafe.Pointer) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)); e != 0 {
			panic(e)
		}
	}
	if thePty == nil {
		m, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
		if err != nil {
			panic(err)
		}
		var n, zero int32
		ctl(uintptr(m), syscall.TIOCSPTLCK, unsafe.Pointer(&zero))
		ctl(uintptr(m), syscall.TIOCGPTN, unsafe.Pointer(&n))
		s, err := syscall.Open("/dev/pts/"+strconv.Itoa(int(n)), syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
		if err != nil {
			panic(err)
		}
		thePty = os.NewFile(uintptr(s), "pts")
	}
	ws := [4]uint16{uint16(h), vtWidth}
	ctl(thePty.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
	syscall.Dup2(int(thePty.Fd()), 0)
}

// shown is a node whose statistic is displayed.
type shown struct {
	n      *Node
	s      *screen
	t      *vt
	peers  []*Node
	ch     []*tru.Channel
	on     bool
	mini   bool
	closed bool
	events []string // addresses, in the order of the events
	h      []string
	frames int
	last   time.Duration
	buf    strings.Builder
}

const noTerminal = 2000 // rows shown when there is no terminal to ask

func newShown(rows, peers int) *shown {
	x := &shown{s: getScreen()}
	ptySize(rows)
	if rows == 0 {
		rows = noTerminal
	}
	x.t = newVT(rows)
	x.n = node("srv", 7000, tru.ReaderFunc(func(*tru.Channel, *tru.Packet, error) bool { return true }))
	for i := 0; i < peers; i++ {
		x.peers = append(x.peers, node(fmt.Sprintf("10.0.0.%d/p%d", i+1, i), 4000+i))
		x.ch = append(x.ch, nil)
	}
	return x
}

func (x *shown) end() {
	x.s.release()
	ptySize(0)
}

// read takes what was printed; true if it has a frame.
func (x *shown) read() bool {
	n, _ := x.s.f.Seek(0, 1)
	if n == 0 {
		return false
	}
	b := make([]byte, n)
	x.s.f.ReadAt(b, 0)
	x.s.clear()
	y, c := x.t.y, x.t.x
	x.t.write(string(b))
	if x.t.bad != "" {
		rt.Fail("%v: %s", x.h, x.t.bad)
	}
	if x.t.nowrap {
		rt.Fail("%v: long lines are cut in the rest of the screen, too", x.h)
	}
	if !strings.Contains(string(b), x.n.LocalAddr().String()) {
		return false
	}
	x.frames++
	x.last = rt.Now()
	if !strings.Contains(string(b), "\033[r") && (x.t.y != y || x.t.x != c) {
		rt.Fail("%v: a frame moves the cursor from %d,%d to %d,%d", x.h, y, c, x.t.y, x.t.x)
	}
	return true
}

// look lets d pass and counts the frames.
func (x *shown) look(d time.Duration) (n int) {
	x.read()
	for end := rt.Now() + d; rt.Now() < end; {
		pass(20 * time.Millisecond)
		if x.read() {
			n++
		}
	}
	return
}

func (x *shown) do(op int) {
	switch op {
	case 0, 1, 2: // a peer comes or goes
		p := x.peers[op]
		if x.ch[op] != nil {
			p.do(x.ch[op].Close)
			x.ch[op] = nil
		} else {
			p.do(func() {
				ch, err := p.Connect(x.n.addr())
				if err != nil && !x.closed {
					rt.Fail("connect: %v", err)
				}
				x.ch[op] = ch
			})
			if x.closed {
				return
			}
		}
		x.events = append(x.events, p.addr())
		x.h = append(x.h, fmt.Sprint("peer", op))
	case 3: // the node ends a connection
		x.h = append(x.h, "close")
		for i, ch := range x.ch {
			if ch != nil {
				for _, c := range x.n.channels() {
					if c.Addr().String() == x.peers[i].addr() {
						x.n.do(c.Close)
					}
				}
				x.ch[i] = nil
				x.events = append(x.events, x.peers[i].addr())
				break
			}
		}
	case 4: // messages
		x.h = append(x.h, "messages")
		for i, ch := range x.ch {
			if ch != nil {
				for k := 0; k <= i; k++ {
					x.peers[i].do(func() { ch.WriteTo([]byte("up")) })
				}
				for _, c := range x.n.channels() {
					if c.Addr().String() == x.peers[i].addr() {
						for k := 0; k < 12-5*i; k++ {
							x.n.do(func() { c.WriteTo([]byte("down")) })
						}
					}
				}
			}
		}
	case 5:
		x.h = append(x.h, "mini-log")
		var on bool
		x.n.do(func() { on = x.n.StatisticMinilog() })
		x.mini = !x.mini
		if on != x.mini {
			rt.Fail("%v: switching the mini-log returned %v", x.h, on)
		}
	case 6:
		x.on = !x.on
		x.h = append(x.h, fmt.Sprint("display ", x.on))
		x.n.do(func() {
			if x.on {
				x.n.StatisticPrint()
			} else {
				x.n.StatisticPrintStop()
			}
		})
		if x.closed {
			x.on = false
		}
	case 7: // on once more
		x.h = append(x.h, "display on")
		x.n.do(x.n.StatisticPrint)
		x.on = !x.closed
	case 8:
		x.h = append(x.h, "node closed")
		x.n.do(x.n.Close)
		x.on, x.closed = false, true
	}
}

// check looks at the display for a while and compares it with the truth.
func (x *shown) check() {
	pass(5 * time.Millisecond)
	x.read()
	n := x.look(1200 * time.Millisecond)
	if run := x.n.StatisticPrintRunning(); run != x.on {
		rt.Fail("%v: the display runs %v", x.h, run)
	}
	if !x.on {
		if n > 0 {
			rt.Fail("%v: the display is off, %d frames were printed in 1.2 s", x.h, n)
		}
		if x.t.top != 1 || x.t.bottom != x.t.h {
			rt.Fail("%v: the display is off, but the screen scrolls from row %d", x.h, x.t.top)
		}
		return
	}
	if n < 2 || n > 3 {
		rt.Fail("%v: %d frames were printed in 1.2 s", x.h, n)
	}
	var st tru.ChannelsStatistic
	x.n.do(func() { st = x.n.Statistic() })
	t := x.t
	if !strings.Contains(t.line(1), x.n.LocalAddr().String()) {
		rt.Fail("%v: the address is not in the first row\n%v", x.h, t)
	}
	row, totals, head := 0, 0, 0
	var log []string
	last := 1
	table := 1
	for i := 2; i < t.top && i <= t.h; i++ {
		l := t.line(i)
		if strings.TrimSpace(l) == "" {
			continue
		}
		last = i
		f := strings.Fields(l)
		if f[0] == "ADDR" {
			head++
			table = i
			continue
		}
		if strings.Contains(l, "┈") {
			table = i
			continue
		}
		if len(f) == 14 && strings.Contains(f[0], ":") && row < len(st) {
			table = i
			s := st[row]
			row++
			want := []string{s.Addr, fmt.Sprint(s.Send), "", fmt.Sprint(s.Rsnd), fmt.Sprint(s.Ack), fmt.Sprint(s.AckD), fmt.Sprint(s.Recv), "",
				fmt.Sprint(s.Drop), fmt.Sprint(s.SQ), fmt.Sprint(s.RQ), fmt.Sprint(s.RTA), fmt.Sprint(s.Delay), fmt.Sprintf("%.3f", s.TT)}
			for k, w := range want {
				if w != "" && f[k] != w {
					rt.Fail("%v: row %d of the table shows %q in column %d, the statistic is %+v\n%v", x.h, row, f[k], k, s, t)
				}
			}
			continue
		}
		isLog := ""
		for _, p := range x.peers {
			if strings.HasSuffix(l, p.addr()) {
				isLog = p.addr()
			}
		}
		if isLog != "" {
			log = append(log, isLog)
			continue
		}
		totals++
		table = i
		var sum [11]int64
		for _, s := range st {
			for k, v := range []int64{s.Send, -1, s.Rsnd, s.Ack, s.AckD, s.Recv, -1, s.Drop, int64(s.SQ), int64(s.RQ), int64(s.RTA)} {
				sum[k] += v
			}
		}
		if len(f) < 11 {
			rt.Fail("%v: unexpected row %d\n%v", x.h, i, t)
		}
		for k, v := range sum {
			if v >= 0 && f[k] != fmt.Sprint(v) {
				rt.Fail("%v: the totals show %s in column %d, the sum is %d\n%v", x.h, f[k], k+1, v, t)
			}
		}
	}
	if row != len(st) || head > 1 || (head == 1) != (len(st) > 0) || totals != map[bool]int{true: 1}[len(st) > 1] {
		rt.Fail("%v: the table of %d connections has %d rows, %d titles, %d totals\n%v", x.h, len(st), row, head, totals, t)
	}
	live := 0
	for _, ch := range x.ch {
		if ch != nil {
			live++
		}
	}
	if live != len(st) {
		rt.Fail("%v: %d connections, %d in the statistic", x.h, live, len(st))
	}
	want := x.events
	if !x.mini {
		want = nil
	}
	if len(want) > 256 {
		want = want[len(want)-256:]
	}
	if len(log) < len(want) && t.h < noTerminal {
		// no more than fit, and no less but for some empty rows
		if room := t.h - table - 5; len(log) < room {
			rt.Fail("%v: %d of %d events are shown although %d rows are free\n%v", x.h, len(log), len(want), room, t)
		}
		want = want[len(want)-len(log):]
	}
	if len(want) > 0 && (t.top == 1 || last >= t.h) {
		rt.Fail("%v: the display leaves no row of the screen\n%v", x.h, t)
	}
	if fmt.Sprint(log) != fmt.Sprint(want) {
		rt.Fail("%v: the mini-log shows %d events %v, should be %d: %v\n%v", x.h, len(log), log, len(want), want, t)
	}
	if t.top <= last || t.top > last+3 {
		rt.Fail("%v: the display ends in row %d, the screen scrolls from row %d\n%v", x.h, last, t.top, t)
	}
	if t.bottom != t.h {
		rt.Fail("%v: the screen scrolls down to row %d of %d", x.h, t.bottom, t.h)
	}
}

func init() {
	add(&Scenario{Prop: "C28", Name: "sequences", Max: [2]int{0, 0},
		Desc: "every sequence of four (thorough five) of: a peer of three comes or goes, the node ends a connection, messages, mini-log, display on or off or on again, node closed; on terminals of 14 and 30 rows or none; after each the screen is compared with the truth for 1.2 s",
		Body: func(tier int) {
			x := newShown(sel(30, 14, 0), 3)
			defer x.end()
			if pick(2) == 1 {
				x.do(6)
				x.do(5)
			}
			for i := 0; i < 4+tier; i++ {
				x.do(pick(9))
				x.check()
			}
		}})
	add(&Scenario{Prop: "C28", Name: "long-log", Max: [2]int{0, 0},
		Desc: "0 to 300 events with terminals of 11 to 400 rows or none: the latest events are shown in order",
		Body: func(int) {
			x := newShown(sel(0, 11, 12, 13, 24, 100, 250, 265, 266, 400), 2)
			defer x.end()
			n := sel(0, 1, 2, 9, 10, 11, 20, 99, 127, 128, 129, 150)
			if pick(2) == 1 {
				x.do(0)
			}
			x.do(6)
			x.do(5)
			for i := 0; i < n; i++ {
				x.do(1)
				pass(time.Millisecond)
				x.do(1)
				pass(time.Millisecond)
			}
			x.h = nil
			x.check()
		}})
	add(&Scenario{Prop: "C28", Name: "switching", Max: [2]int{2, 3}, Stalls: held,
		Desc: "the display is switched on or off or the node closed at the moment a frame is drawn and while connections come and go, under every schedule: afterwards exactly one display runs, or none",
		Body: func(int) {
			rt.SetRace(true)
			x := newShown(30, 2)
			defer x.end()
			x.do(0)
			x.do(5)
			x.do(6)
			start := rt.Now()
			what := pick(6)
			pass(start + 499900*time.Microsecond - rt.Now())
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			rt.FireDue(200 * time.Microsecond)
			var ts []*task
			switch what {
			case 0:
				ts = append(ts, x.n.spawn("off", x.n.StatisticPrintStop))
				x.on = false
			case 1:
				ts = append(ts, x.n.spawn("off and on", func() { x.n.StatisticPrintStop(); x.n.StatisticPrint() }))
			case 2:
				ts = append(ts, x.n.spawn("on", x.n.StatisticPrint))
			case 3:
				ts = append(ts, x.n.spawn("close", x.n.Close))
				x.on, x.closed = false, true
			case 4:
				ts = append(ts, x.n.spawn("on", x.n.StatisticPrint), x.n.spawn("on2", x.n.StatisticPrint))
			case 5:
				ts = append(ts, spawn(x.peers[1].Owner, "peer comes", func() { x.do(1) }))
			}
			if !wait(3*time.Second, ts...) {
				rt.Fail("a call does not return\n%s", rt.Dump())
			}
			pass(time.Millisecond)
			quiet(30 * time.Millisecond)
			x.h = []string{fmt.Sprint("switching ", what)}
			x.check()
			_ = vnet.Latency
		}})
}
