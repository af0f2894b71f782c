package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/teonet-go/tru/hotkey"

	"verif.local/zz/rt"
)

// keyboard hands keys to whoever reads the terminal.
type keyboard struct {
	q       [][]byte
	waiting int // reads that wait
	taken   int
}

func newKeyboard() *keyboard {
	k := &keyboard{}
	rt.X.Locals["getch"] = func() []byte {
		k.waiting++
		for !rt.WaitUntil(time.Hour, func() bool { return len(k.q) > 0 }) {
		}
		k.waiting--
		b := k.q[0]
		k.q = k.q[1:]
		k.taken++
		return append([]byte(nil), b...)
	}
	return k
}

func (k *keyboard) press(b string) { k.q = append(k.q, []byte(b)) }

// idle waits until every key has been read and handled.
func (k *keyboard) idle() bool {
	return rt.WaitUntil(time.Second, func() bool { return len(k.q) == 0 && k.waiting > 0 })
}

// entry is a registered entry of the menu model.
type entry struct {
	keys  []string // names
	codes []string
	desc  string
	act   string // "": no action
}

type menuModel struct {
	keys    map[string]*entry
	unknown string
	once    string
	stopped bool
	stops   []string
	log     []string
	n       int
}

// press is what has to happen on a key press.
func (m *menuModel) press(k string) {
	if m.stopped {
		return
	}
	if m.once != "" {
		o := m.once
		m.once = ""
		m.log = append(m.log, o+" "+k)
		m.effect(o)
	}
	if e := m.keys[k]; e != nil {
		if e.act != "" {
			m.log = append(m.log, e.act)
			m.effect(e.act)
		}
		return
	}
	if m.unknown != "" {
		m.log = append(m.log, m.unknown+" "+k)
	}
}

// effect is what an action does besides being noted; the kind is the part of
// its name before the number.
func (m *menuModel) effect(a string) {
	switch strings.TrimRight(a, "0123456789") {
	case "asks": // an action that sets a one-shot action
		m.once = "asked" + strings.TrimLeft(a, "asks")
	case "again": // a one-shot action that sets another
		m.once = "second" + strings.TrimLeft(a, "again")
	case "bind": // a one-shot action that registers key a
		m.keys["a"] = &entry{keys: []string{"a"}, codes: []string{"a"}, desc: "bound", act: "bound"}
	case "cancel":
		m.once = ""
	case "stops":
		m.stopped = true
		m.log = append(m.log, m.stops...)
	}
}

// menu is the real menu with callbacks that note their names.
type menu struct {
	h   *hotkey.Hotkey
	log []string
}

func (r *menu) note(f string, a ...interface{}) { r.log = append(r.log, fmt.Sprintf(f, a...)) }

func (r *menu) action(name string) func(h *hotkey.Hotkey) {
	return func(h *hotkey.Hotkey) {
		if h != r.h {
			rt.Fail("an action is given another menu")
		}
		r.note("%s", name)
		r.effect(name)
	}
}

func (r *menu) once(name string) func([]byte) {
	return func(ch []byte) {
		r.note("%s %s", name, ch)
		r.effect(name)
	}
}

func (r *menu) effect(a string) {
	switch strings.TrimRight(a, "0123456789") {
	case "asks":
		r.h.NextKeyAction(r.once("asked" + strings.TrimLeft(a, "asks")))
	case "again":
		r.h.NextKeyAction(r.once("second" + strings.TrimLeft(a, "again")))
	case "bind":
		r.h.Add("a", "bound", r.action("bound"))
	case "cancel":
		r.h.NextKeyAction(nil)
	case "stops":
		r.h.Stop()
	}
}

const arrow = "\x1b[D"

type menuOp struct {
	name string
	do   func(r *menu, m *menuModel, k *keyboard)
}

func menuOps() (ops []menuOp) {
	op := func(name string, do func(r *menu, m *menuModel, k *keyboard)) {
		ops = append(ops, menuOp{name, do})
	}
	reg := func(name string, keys interface{}, names, codes []string, kind string) {
		op("Add "+name+" "+kind, func(r *menu, m *menuModel, k *keyboard) {
			m.n++
			e := &entry{keys: names, codes: codes, desc: fmt.Sprint("entry", m.n), act: fmt.Sprint(kind, m.n)}
			if kind == "" {
				e.act = ""
			}
			for _, c := range codes {
				m.keys[c] = e
			}
			var f func(*hotkey.Hotkey)
			if e.act != "" {
				f = r.action(e.act)
			}
			if r.h.Add(keys, e.desc, f) != r.h {
				rt.Fail("Add does not return the menu")
			}
		})
	}
	reg("a", "a", []string{"a"}, []string{"a"}, "act")
	reg("a", "a", []string{"a"}, []string{"a"}, "asks")
	reg("a", "a", []string{"a"}, []string{"a"}, "")
	reg("a,b", []string{"b", "a"}, []string{"b", "a"}, []string{"b", "a"}, "act")
	reg("Bee", hotkey.KeyCode{Code: []byte("b"), Name: "Bee"}, []string{"Bee"}, []string{"b"}, "cancel")
	reg("Left,c", []hotkey.KeyCode{{Code: []byte(arrow), Name: "Left"}, {Code: []byte("c")}}, []string{"Left", "c"}, []string{arrow, "c"}, "act")
	reg("bytes", []byte(arrow), []string{arrow}, []string{arrow}, "stops")
	op("AddUnknown", func(r *menu, m *menuModel, k *keyboard) {
		m.n++
		name := fmt.Sprint("unknown", m.n)
		m.unknown = name
		r.h.AddUnknown(func(h *hotkey.Hotkey, ch []byte) { r.note("%s %s", name, ch) })
	})
	op("AddUnknown(nil)", func(r *menu, m *menuModel, k *keyboard) { m.unknown = ""; r.h.AddUnknown(nil) })
	for _, kind := range []string{"once", "again", "bind"} {
		kind := kind
		op("NextKeyAction "+kind, func(r *menu, m *menuModel, k *keyboard) {
			m.n++
			m.once = fmt.Sprint(kind, m.n)
			r.h.NextKeyAction(r.once(m.once))
		})
	}
	op("NextKeyAction(nil)", func(r *menu, m *menuModel, k *keyboard) { m.once = ""; r.h.NextKeyAction(nil) })
	for _, c := range []string{"a", "b", arrow, "x"} {
		c := c
		op("press "+c, func(r *menu, m *menuModel, k *keyboard) { m.press(c); k.press(c) })
	}
	op("Stop", func(r *menu, m *menuModel, k *keyboard) {
		if m.stopped {
			return
		}
		m.stopped = true
		m.log = append(m.log, m.stops...)
		r.h.Stop()
	})
	op("SetStopAction", func(r *menu, m *menuModel, k *keyboard) {
		m.n++
		name := fmt.Sprint("stopaction", m.n)
		m.stops = append(m.stops, name)
		r.h.SetStopAction(func() { r.note("%s", name) })
	})
	return
}

// help compares the help text with the entries.
func (m *menuModel) help(text string) {
	var es []*entry
	seen := map[*entry]bool{}
	for _, e := range m.keys {
		if !seen[e] {
			seen[e] = true
			es = append(es, e)
		}
	}
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, l)
		}
	}
	if len(lines) != len(es) {
		rt.Fail("the help has %d lines for %d entries:\n%s", len(lines), len(es), text)
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].keys[0] < es[j].keys[0] })
	// entries with the same first key may be shown in any order
	shown := make([]bool, len(es))
	first := ""
	for _, l := range lines {
		found := -1
		for i, e := range es {
			if shown[i] || !strings.HasSuffix(strings.TrimRight(l, " "), e.desc) {
				continue
			}
			all := true
			f := strings.Fields(strings.NewReplacer("[", " ", "]", " ").Replace(strings.TrimSuffix(l, e.desc)))
			for _, k := range e.keys {
				n := 0
				for _, w := range f {
					if w == k || k == "[" || k == "]" || strings.Contains(k, "[") {
						n++
					}
				}
				all = all && n > 0
			}
			if all && (found < 0 || len(e.keys) > len(es[found].keys)) {
				found = i
			}
		}
		if found < 0 {
			rt.Fail("the help line %q is no entry or shows one twice:\n%s", l, text)
		}
		shown[found] = true
		if es[found].keys[0] < first {
			rt.Fail("the help is not in the order of the first keys:\n%s", text)
		}
		first = es[found].keys[0]
	}
}

func init() {
	add(&Scenario{Prop: "C21", Name: "histories", Max: [2]int{0, 0},
		Desc: "every sequence of four (thorough: five) registrations, one-shot actions, key presses and stops, followed by every key; the actions run and the help text are compared with a model",
		Body: func(tier int) {
			k := newKeyboard()
			m := &menuModel{keys: map[string]*entry{}, unknown: "unknown0"}
			r := &menu{h: hotkey.New()}
			m.unknown = ""
			r.h.AddUnknown(nil)
			r.h.Run()
			ops := menuOps()
			var h []string
			done := func() {
				if m.stopped {
					pass(time.Millisecond)
				} else if !k.idle() {
					rt.Fail("after %v a key is not handled\n%s", h, rt.Dump())
				}
				if a, b := strings.Join(r.log, ", "), strings.Join(m.log, ", "); a != b {
					rt.Fail("after %v these actions have run: %s\nexpected: %s", h, a, b)
				}
			}
			for i := 0; i < 4+tier; i++ {
				o := ops[pick(len(ops))]
				h = append(h, o.name)
				o.do(r, m, k)
				done()
			}
			m.help(r.h.String())
			for _, c := range []string{"a", "b", "c", arrow, "x", "a", "ab", "\033", "A", "ba"} {
				h = append(h, "press "+c)
				m.press(c)
				k.press(c)
				done()
			}
			if m.stopped {
				// the menu can be used again
				m.stopped = false
				k.q = nil
				r.h.Run()
				h = append(h, "Run")
				k.idle()
				for _, c := range []string{"b", "a", "x"} {
					h = append(h, "press "+c)
					m.press(c)
					k.press(c)
					done()
				}
			}
			rt.Observe("%d", len(r.log))
		}})
	add(&Scenario{Prop: "C21", Name: "help", Max: [2]int{0, 0},
		Desc: "every sequence of up to four registrations of one or two of four keys, named or not, each with one of two descriptions; the help is compared with the entries still reachable, and every key runs the entry registered last",
		Body: func(int) {
			k := newKeyboard()
			r := &menu{h: hotkey.New()}
			m := &menuModel{keys: map[string]*entry{}}
			r.h.AddUnknown(nil)
			r.h.Run()
			n := pick(5)
			for i := 0; i < n; i++ {
				codes := [][]string{{"a"}, {"b"}, {"m"}, {"z"}, {"b", "a"}, {"z", "m"}, {"a", "a"}, {"m", "b", "z"}}[pick(8)]
				named := pick(2) == 1
				e := &entry{desc: []string{"open", "close"}[pick(2)], act: fmt.Sprint("act", i)}
				e.codes = codes
				var kc []hotkey.KeyCode
				for _, c := range codes {
					name := c
					if named {
						// the names are in another order than the codes
						name = map[string]string{"a": "Zero", "b": "Yes", "m": "Mid", "z": "All"}[c]
						kc = append(kc, hotkey.KeyCode{Code: []byte(c), Name: name})
					}
					e.keys = append(e.keys, name)
					m.keys[c] = e
				}
				if named {
					r.h.Add(kc, e.desc, r.action(e.act))
				} else {
					r.h.Add(codes, e.desc, r.action(e.act))
				}
			}
			m.help(r.h.String())
			for _, c := range []string{"a", "b", "m", "z"} {
				m.press(c)
				k.press(c)
				if !k.idle() {
					rt.Fail("key %s is not handled\n%s", c, rt.Dump())
				}
			}
			if a, b := strings.Join(r.log, ", "), strings.Join(m.log, ", "); a != b {
				rt.Fail("these actions have run: %s\nexpected: %s", a, b)
			}
			rt.Observe("%d", len(r.log))
		}})
	add(&Scenario{Prop: "C21", Name: "defaults", Max: [2]int{0, 0},
		Desc: "menus of every number of entries from 0 to 40, state, default unknown-key action, every single-byte key",
		Body: func(int) {
			k := newKeyboard()
			s := getScreen()
			defer s.release()
			r := &menu{h: hotkey.New()}
			m := &menuModel{keys: map[string]*entry{}}
			if r.h.SetState(m) != r.h || r.h.State() != interface{}(m) {
				rt.Fail("the state is not kept")
			}
			n := pick(41)
			turn := pick(3)
			for i := 0; i < n; i++ {
				c := string(rune(33 + (i*[]int{1, 7, 11}[turn]+turn*5)%41))
				e := &entry{keys: []string{c}, codes: []string{c}, desc: fmt.Sprint("entry", i), act: fmt.Sprint("act", i)}
				m.keys[c] = e
				r.h.Add(c, e.desc, r.action(e.act))
			}
			m.help(r.h.String())
			r.h.Run()
			var keys []string
			for c := 0; c < 256; c++ {
				keys = append(keys, string([]byte{byte(c)}))
			}
			for c := 33; c < 74; c += 3 {
				keys = append(keys, string(rune(c))+"x", string([]byte{byte(c), 0}), "\033"+string(rune(c)), string(rune(c))+string(rune(c+1))+string(rune(c)))
			}
			for c, key := range keys {
				m.press(key)
				k.press(key)
				if !k.idle() {
					rt.Fail("key %d is not handled\n%s", c, rt.Dump())
				}
				if a, b := strings.Join(r.log, ", "), strings.Join(m.log, ", "); a != b {
					rt.Fail("after key %d these actions have run: %s\nexpected: %s", c, a, b)
				}
				got := len(s.lines())
				if want := m.keys[key] == nil; want != (got == 1) {
					rt.Fail("key %d prints %d lines although registered: %v", c, got, !want)
				}
			}
		}})
	add(&Scenario{Prop: "C21", Name: "at-once", Max: [2]int{2, 3},
		Desc: "keys are pressed while another goroutine registers entries, sets a one-shot action, asks for the help or stops the menu, under every schedule, with the race monitor on",
		Body: func(int) {
			rt.SetRace(true)
			k := newKeyboard()
			r := &menu{h: hotkey.New()}
			r.h.Add("a", "first", r.action("act1")).AddUnknown(func(h *hotkey.Hotkey, ch []byte) { r.note("unknown %s", ch) })
			what := pick(6)
			running := pick(2) == 1
			if running {
				r.h.Run()
				k.idle()
			}
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			if !running {
				r.h.Run()
			}
			t1 := spawn("", "keys", func() { k.press("a"); k.press("b") })
			t2 := spawn("", "calls", func() {
				switch what {
				case 0:
					r.h.Add("a", "second", r.action("act2"))
				case 1:
					r.h.Add([]string{"b", "c"}, "second", r.action("act2"))
				case 2:
					r.h.NextKeyAction(r.once("once"))
				case 3:
					r.h.AddUnknown(func(h *hotkey.Hotkey, ch []byte) { r.note("unknown2 %s", ch) })
				case 4:
					_ = r.h.String()
				case 5:
					r.h.SetStopAction(func() { r.note("stopaction") })
					r.h.Stop()
				}
			})
			if !wait(time.Second, t1, t2) {
				rt.Fail("a call hangs\n%s", rt.Dump())
			}
			if what == 5 {
				quiet(5 * time.Millisecond)
				n := len(r.log)
				k.press("a")
				k.press("b")
				pass(5 * time.Millisecond)
				if len(r.log) != n {
					rt.Fail("keys are handled after stop: %v", r.log)
				}
				if c := strings.Count(strings.Join(r.log, " "), "stopaction"); c != 1 {
					rt.Fail("the stop action has run %d times", c)
				}
				return
			}
			if !k.idle() {
				rt.Fail("the keys are not handled\n%s", rt.Dump())
			}
			quiet(0)
			got := strings.Join(r.log, ", ")
			ok := map[int][]string{
				0: {"act1, unknown b", "act2, unknown b"},
				1: {"act1, unknown b", "act1, act2"},
				2: {"act1, unknown b", "once a, act1, unknown b", "act1, once b, unknown b"},
				3: {"act1, unknown b", "act1, unknown2 b"},
				4: {"act1, unknown b"},
			}[what]
			found := false
			for _, s := range ok {
				found = found || s == got
			}
			if !found {
				rt.Fail("these actions have run: %s; possible are %q", got, ok)
			}
			rt.Observe("%s", got)
			// from now on the registration counts
			r.log = nil
			k.press("a")
			k.press("b")
			if !k.idle() {
				rt.Fail("the keys are not handled\n%s", rt.Dump())
			}
			second := map[int]string{0: "act2, unknown b", 1: "act1, act2", 2: "act1, unknown b", 3: "act1, unknown2 b", 4: "act1, unknown b"}[what]
			if what == 2 && !strings.Contains(got, "once") {
				second = "once a, act1, unknown b"
			}
			if s := strings.Join(r.log, ", "); s != second {
				rt.Fail("after the registration these actions run: %s, expected %s", s, second)
			}
		}})
}
