package main

import (
	"fmt"
	"strings"
	"time"

	tru "github.com/teonet-go/tru"
	"github.com/teonet-go/tru/teolog"

	"verif.local/zz/rt"
)

// menuNode is a node with the hotkey menu and the state its menu must have.
type menuNode struct {
	n      *Node
	k      *keyboard
	l      *teolog.Teolog
	level  int
	filter string
	stat   bool
	mini   bool
	page   bool // help or level is shown until the next key
	ended  bool
	exits  int
	h      []string
}

func newMenuNode(level int) *menuNode {
	m := &menuNode{k: newKeyboard(), l: teolog.New(), level: level}
	rt.X.Locals["exit"] = func(code int) {
		if code != 0 {
			rt.Fail("the menu exits with code %d", code)
		}
		m.exits++
	}
	m.n = node("srv", 7000, m.l, levelNames[level], tru.Hotkey(true))
	if !m.k.idle() {
		rt.Fail("the menu does not read keys\n%s", rt.Dump())
	}
	m.check()
	return m
}

// inputs are what is typed after the keys that ask for a line.
type menuKey struct{ name, key, line string }

var menuKeys = []menuKey{
	{"h", "h", ""}, {"?", "?", ""}, {"L", "L", ""}, {"l", "l", ""}, {"u", "u", ""}, {"U", "U", ""},
	{"enter", "\r", ""}, {"unknown", "z", ""}, {"arrow", arrow, ""},
	{"filter", "f", "alpha || beta\n"}, {"level connect", "\x0c", "Connect\n"}, {"level all", "\x0c", " debugvvv \n"},
	{"Ctrl+C", "\x03", ""}, {"q", "q", ""},
}

func (m *menuNode) press(k menuKey) {
	m.h = append(m.h, k.name)
	if k.line != "" {
		keyboardLine(k.line)
	}
	m.k.press(k.key)
	if m.ended {
		pass(time.Millisecond)
		return
	}
	m.page = false
	switch k.name {
	case "h", "?", "L":
		m.page = true
	case "l":
		m.level = (m.level + 1) % 9
	case "u":
		m.stat = !m.stat
	case "U":
		m.mini = !m.mini
	case "filter":
		m.filter = "alpha || beta"
	case "level connect":
		m.level = 4
	case "level all":
		m.level = 8
	case "Ctrl+C", "q":
		m.ended = true
	}
	if m.ended {
		pass(time.Millisecond)
	} else if !m.k.idle() {
		rt.Fail("after keys %v the menu does not read keys\n%s", m.h, rt.Dump())
	}
}

func (m *menuNode) check() {
	if !m.page && int(m.l.Level()) != m.level {
		rt.Fail("after keys %v the log level is %v, expected %s", m.h, m.l.Level(), levelNames[m.level])
	}
	if f := m.l.Filter(); f != m.filter {
		rt.Fail("after keys %v the log filter is %q, expected %q", m.h, f, m.filter)
	}
	if s := m.n.StatisticPrintRunning(); s != m.stat {
		rt.Fail("after keys %v the statistic is displayed: %v, expected %v", m.h, s, m.stat)
	}
	// the switch of the mini log tells the new state
	a, b := m.n.StatisticMinilog(), m.n.StatisticMinilog()
	if a == m.mini || b != m.mini {
		rt.Fail("after keys %v the mini log is shown: %v, expected %v", m.h, b, m.mini)
	}
}

func init() {
	add(&Scenario{Prop: "C22", Name: "keys", Max: [2]int{0, 0},
		Desc: "every sequence of three (thorough: five) menu keys, with the lines typed for those that ask, from three log levels; level, filter and displays are compared with a model after each key and after one more key",
		Body: func(tier int) {
			m := newMenuNode([]int{0, 5, 8}[pick(3)])
			for i := 0; i < 3+2*tier; i++ {
				k := menuKeys[pick(len(menuKeys))]
				quits := k.name == "q" && !m.ended
				m.press(k)
				if quits {
					if m.exits != 1 {
						rt.Fail("after keys %v the application has exited %d times", m.h, m.exits)
					}
					m.level = int(m.l.Level())
					m.stat = m.n.StatisticPrintRunning()
				}
				m.check()
			}
			if !m.ended {
				m.press(menuKeys[7])
				m.check()
			}
			pass(600 * time.Millisecond)
			m.check()
			rt.Observe("%d %q %v %v", m.level, m.filter, m.stat, m.mini)
		}})
	add(&Scenario{Prop: "C22", Name: "levels", Max: [2]int{0, 0},
		Desc: "every start level, zero to ten presses of the switch key, with help or level shown before, in between or after; every level name typed in, several node settings",
		Body: func(int) {
			start, n := pick(9), pick(11)
			m := newMenuNode(start)
			show := pick(4)
			at := pick(3)
			for i := 0; i <= n; i++ {
				if show > 0 && (at == 0 && i == 0 || at == 1 && i == n/2 || at == 2 && i == n) {
					m.press(menuKeys[show-1])
				}
				if i < n {
					m.press(menuKeys[3])
				}
				m.check()
			}
			for i, name := range levelNames {
				keyboardLine(strings.ToLower(name) + "\n")
				m.h = append(m.h, "level "+name)
				m.k.press("\x0c")
				if !m.k.idle() {
					rt.Fail("the menu does not read keys")
				}
				m.page = false
				m.level = i
				m.check()
			}
		}})
	add(&Scenario{Prop: "C22", Name: "help", Max: [2]int{0, 0},
		Desc: "the help screen at every log level lists every menu key, and the level page shows the level",
		Body: func(int) {
			s := getScreen()
			defer s.release()
			lv := pick(9)
			m := newMenuNode(lv)
			s.lines()
			k := menuKeys[pick(3)]
			m.press(k)
			out := strings.Join(s.lines(), "\n")
			if k.name == "L" {
				if !strings.Contains(strings.ToLower(out), strings.ToLower(levelNames[lv])) {
					rt.Fail("the level page at level %s shows %q", levelNames[lv], out)
				}
			} else {
				for _, name := range []string{"h", "u", "U", "l", "L", "Ctrl+L", "f", "Ctrl+C", "q"} {
					n := 0
					for _, line := range strings.Split(out, "\n") {
						if strings.HasPrefix(line, "   ") {
							for _, f := range strings.Fields(strings.NewReplacer("[", " ", "]", " ").Replace(line[:14])) {
								if f == name {
									n++
								}
							}
						}
					}
					if n != 1 {
						rt.Fail("the help shows key %s %d times:\n%s", name, n, out)
					}
				}
			}
			m.press(menuKeys[7])
			m.check()
		}})
	add(&Scenario{Prop: "C22", Name: "early-keys", Max: [2]int{2, 3},
		Desc: "keys typed before or while the node is created, or while it cannot be created, under every schedule: none is lost, misunderstood or fatal",
		Body: func(int) {
			rt.SetRace(true)
			k := newKeyboard()
			l := teolog.New()
			s := getScreen()
			defer s.release()
			key := []string{"l", "L", "u"}[pick(3)]
			first := pick(2) == 1
			params := []interface{}{l, "Error", tru.Hotkey(true)}
			if first {
				params = []interface{}{tru.Hotkey(true), "Error", l}
			}
			taken := pick(2) == 1
			if taken {
				node("other", 7000)
			}
			k.press(key)
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			var n *tru.Tru
			t := spawn("srv", "new", func() {
				var err error
				if n, err = tru.New(7000, params...); (err != nil) != taken {
					rt.Fail("creating the node: %v", err)
				}
			})
			if !wait(time.Second, t) {
				rt.Fail("creating the node hangs")
			}
			if taken {
				quiet(5 * time.Millisecond)
				return
			}
			if !k.idle() {
				rt.Fail("the key is not handled\n%s", rt.Dump())
			}
			quiet(5 * time.Millisecond)
			for _, line := range s.lines() {
				if strings.Contains(line, "unknown") {
					rt.Fail("menu key %q is taken for an unknown key: %s", key, line)
				}
			}
			k.press("z")
			k.idle()
			want := 1
			if key == "l" {
				want = 2
			}
			if int(l.Level()) != want {
				rt.Fail("key %q pressed early: level %v, expected %s", key, l.Level(), levelNames[want])
			}
			if n.StatisticPrintRunning() != (key == "u") {
				rt.Fail("key %q pressed early: statistic displayed: %v", key, n.StatisticPrintRunning())
			}
			rt.Observe(fmt.Sprint(key))
		}})
}
