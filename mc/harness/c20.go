package main

import (
	"fmt"
	"io"
	stdlog "log"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/teonet-go/tru/teolog"

	"verif.local/zz/rt"
)

// screen stands for the standard output (file descriptor 1), so that what the
// code under test prints can be read.
type screen struct{ f *os.File }

var theScreen *screen

func getScreen() *screen {
	if theScreen == nil {
		f, err := os.CreateTemp("", "tru-mc-screen")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		theScreen = &screen{f}
	}
	s := theScreen
	s.clear()
	if err := syscall.Dup2(int(s.f.Fd()), 1); err != nil {
		panic(err)
	}
	return s
}

func (s *screen) clear() {
	s.f.Truncate(0)
	s.f.Seek(0, io.SeekStart)
}

// lines returns what was printed since the last call.
func (s *screen) lines() (l []string) {
	n, _ := s.f.Seek(0, io.SeekCurrent)
	b := make([]byte, n)
	s.f.ReadAt(b, 0)
	s.clear()
	for _, x := range strings.Split(string(b), "\n") {
		if x != "" {
			l = append(l, x)
		}
	}
	return
}

// release gives the standard output back to /dev/null.
func (s *screen) release() {
	f, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	syscall.Dup2(int(f.Fd()), 1)
	f.Close()
}

// keyboardLine makes text the standard input.
func keyboardLine(text string) {
	f, err := os.CreateTemp("", "tru-mc-in")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	f.WriteString(text)
	f.Seek(0, io.SeekStart)
	syscall.Dup2(int(f.Fd()), 0)
	f.Close()
}

var levelNames = []string{"None", "Error", "User", "Info", "Connect", "Debug", "Debugv", "Debugvv", "Debugvvv"}
var levelPrefix = []string{"[erro] ", "[user] ", "[info] ", "[conn] ", "[debu] ", "[debv] ", "[devv] ", "[dvvv] "}

// logModel is the configuration as the history says it must be.
type logModel struct {
	level  int
	filter []string
	file   bool
}

func (m *logModel) alternatives(s string) {
	m.filter = nil
	for _, a := range strings.Split(s, "||") {
		m.filter = append(m.filter, strings.TrimSpace(a))
	}
}

// printed tells whether a message of a level (1 is Error) is to be printed.
func (m *logModel) printed(level int, text string) bool {
	if level > m.level {
		return false
	}
	if len(m.filter) == 0 {
		return true
	}
	line := levelPrefix[level-1] + text
	if m.file {
		line = "c20.go:1: " + line
	}
	for _, f := range m.filter {
		if strings.Contains(line, f) {
			return true
		}
	}
	return false
}

func loggers(l *teolog.Teolog) []*stdlog.Logger {
	return []*stdlog.Logger{l.Error, l.User, l.Info, l.Connect, l.Debug, l.Debugv, l.Debugvv, l.Debugvvv}
}

var logTexts = []string{"alpha", "beta gamma", "ALPHA beta"}

// probe logs one message per level and text and compares what is printed.
func (m *logModel) probe(s *screen, l *teolog.Teolog, after string) {
	s.lines()
	for i, lg := range loggers(l) {
		for _, t := range logTexts {
			lg.Println(t)
			got := s.lines()
			want := m.printed(i+1, t)
			if !want && len(got) > 0 || want && len(got) != 1 {
				rt.Fail("after %s (level %d, filter %q): message %q of level %s: printed %q, expected to be printed: %v", after, m.level, m.filter, t, levelNames[i+1], got, want)
			}
			if want && (!strings.Contains(got[0], levelPrefix[i]) || !strings.HasSuffix(got[0], t)) {
				rt.Fail("message %q of level %s is printed as %q", t, levelNames[i+1], got[0])
			}
		}
	}
	if m.level >= 0 && m.level < 9 {
		if int(l.Level()) != m.level {
			rt.Fail("after %s the level is %d, expected %d", after, l.Level(), m.level)
		}
		if !strings.EqualFold(l.String(), levelNames[m.level]) {
			rt.Fail("after %s the level is named %q, expected %q", after, l.String(), levelNames[m.level])
		}
	}
	if f := l.Filter(); f != strings.Join(m.filter, " || ") {
		rt.Fail("after %s the filter is %q, expected %q", after, f, strings.Join(m.filter, " || "))
	}
}

type logOp struct {
	name string
	do   func(l *teolog.Teolog, m *logModel)
}

func logOps() (ops []logOp) {
	op := func(name string, do func(l *teolog.Teolog, m *logModel)) { ops = append(ops, logOp{name, do}) }
	for _, n := range []int{0, 1, 4, 8} {
		n := n
		op(fmt.Sprintf("SetLevel(%d)", n), func(l *teolog.Teolog, m *logModel) { l.SetLevel(n); m.level = n })
	}
	for _, n := range []int{2, 5, 7} {
		n := n
		op(fmt.Sprintf("SetLevel(%s)", levelNames[n]), func(l *teolog.Teolog, m *logModel) { l.SetLevel(teolog.LogLevel(n)); m.level = n })
	}
	for _, x := range []struct {
		s string
		n int
	}{{"info", 3}, {" DebugVV\n", 7}, {"all", 8}, {"nonsense", 0}} {
		x := x
		op(fmt.Sprintf("SetLevel(%q)", x.s), func(l *teolog.Teolog, m *logModel) { l.SetLevel(x.s); m.level = x.n })
	}
	op("SwitchLevel", func(l *teolog.Teolog, m *logModel) {
		m.level = (m.level + 1) % 9
		if n := l.SwitchLevel(); int(n) != m.level {
			rt.Fail("SwitchLevel returns %d, expected %d", n, m.level)
		}
	})
	for _, f := range []string{"alpha", " beta||ALPHA ", "gamma || alpha||erro", "nothing", "", "debu||", "a b"} {
		f := f
		op(fmt.Sprintf("SetFilter(%q)", f), func(l *teolog.Teolog, m *logModel) { l.SetFilter(f); m.alternatives(f) })
	}
	for _, f := range []teolog.Filter{nil, {}, {"beta", "alpha"}, {"ALPHA"}} {
		f := f
		op(fmt.Sprintf("SetFilter(%#v)", f), func(l *teolog.Teolog, m *logModel) {
			l.SetFilter(append(teolog.Filter(nil), f...))
			m.filter = append([]string(nil), f...)
		})
	}
	op("SetFilter(Filter())", func(l *teolog.Teolog, m *logModel) {
		if len(m.filter) > 0 {
			l.SetFilter(l.Filter())
		}
	})
	op("ClearFilter", func(l *teolog.Teolog, m *logModel) { l.ClearFilter(); m.filter = nil })
	op("SetFlags(0)", func(l *teolog.Teolog, m *logModel) { l.SetFlags(0); m.file = false })
	op("SetFlags(file)", func(l *teolog.Teolog, m *logModel) { l.SetFlags(stdlog.Lshortfile); m.file = true })
	op("two logs", func(l *teolog.Teolog, m *logModel) {
		o := teolog.New()
		o.SetLevel(8)
		o.SetFilter("other")
		o.SwitchLevel()
	})
	return
}

func init() {
	add(&Scenario{Prop: "C20", Name: "histories", Max: [2]int{0, 0},
		Desc: "every sequence of three (thorough: four) level, filter and flag changes, followed by three messages per level; the lines on the standard output are compared with a model",
		Body: func(tier int) {
			s := getScreen()
			defer s.release()
			l := teolog.New()
			m := &logModel{file: true}
			ops := logOps()
			var h []string
			for i := 0; i < 3+tier; i++ {
				o := ops[pick(len(ops))]
				h = append(h, o.name)
				o.do(l, m)
			}
			m.probe(s, l, strings.Join(h, ", "))
			rt.Observe("level %d filters %d", m.level, len(m.filter))
		}})
	add(&Scenario{Prop: "C20", Name: "levels", Max: [2]int{0, 0},
		Desc: "every start level with every number of switches up to twice round, every name in every spelling, a new log, and text around the filter's alternatives",
		Body: func(int) {
			s := getScreen()
			defer s.release()
			l := teolog.New()
			m := &logModel{file: true}
			m.probe(s, l, "New")
			start, n := pick(9), pick(19)
			switch pick(3) {
			case 0:
				l.SetLevel(start)
			case 1:
				l.SetLevel(teolog.LogLevel(start))
			case 2:
				l.SetLevel(levelNames[start])
			}
			m.level = start
			m.probe(s, l, "SetLevel")
			for i := 0; i < n; i++ {
				m.level = (m.level + 1) % 9
				if k := l.SwitchLevel(); int(k) != m.level {
					rt.Fail("SwitchLevel number %d from level %d returns %d, expected %d", i, start, k, m.level)
				}
				m.probe(s, l, fmt.Sprint(i+1, " switches from level ", start))
			}
			for i, name := range levelNames {
				if got := teolog.LogLevel(i).String(); !strings.EqualFold(got, name) {
					rt.Fail("level %d is named %q", i, got)
				}
				for _, v := range []string{name, strings.ToUpper(name), strings.ToLower(name), "  " + name + " \n", teolog.LogLevel(i).String()} {
					l.SetLevel(v)
					if int(l.Level()) != i {
						rt.Fail("level name %q gives level %d, expected %d", v, l.Level(), i)
					}
				}
				k := 0
				for _, line := range strings.Split(l.Levels(), "\n") {
					if f := strings.Fields(line); len(f) > 0 && strings.EqualFold(f[0], name) && !strings.Contains(line, "List") {
						k++
					}
				}
				if k != 1 {
					rt.Fail("the list of levels shows %s %d times:\n%s", name, k, l.Levels())
				}
			}
		}})
	add(&Scenario{Prop: "C20", Name: "texts", Max: [2]int{0, 0},
		Desc: "every message of up to three letters against every filter of up to two alternatives of up to two letters",
		Body: func(int) {
			s := getScreen()
			defer s.release()
			l := teolog.New()
			l.SetFlags(0)
			l.SetLevel(8)
			word := func(max int) (w string) {
				for i := 0; i < max; i++ {
					c := pick(4)
					if c == 0 {
						break
					}
					w += string("xyz"[c-1])
				}
				return
			}
			m := &logModel{level: 8}
			f := word(2)
			if pick(2) == 1 {
				f += []string{"||", " || "}[pick(2)] + word(2)
			}
			l.SetFilter(f)
			m.alternatives(f)
			for _, t := range []string{"x", "y", "xy", "yx", "zz", "xyz", "zyx", "xzy", "xxy", "yzz"} {
				l.User.Print(t)
				got := s.lines()
				if want := m.printed(2, t); want != (len(got) == 1) || len(got) > 1 {
					rt.Fail("filter %q, message %q: printed %q, expected to be printed: %v", f, t, got, want)
				}
			}
		}})
	add(&Scenario{Prop: "C20", Name: "spaces", Max: [2]int{0, 0},
		Desc: "filters given as alternatives with blanks, tabs and line ends in them, against messages with blanks at their ends, of one and several lines",
		Body: func(int) {
			s := getScreen()
			defer s.release()
			l := teolog.New()
			l.SetFlags(0)
			l.SetLevel(8)
			m := &logModel{level: 8}
			words := []string{" ", "x ", " x", "x", "  ", "\t", "y\nx", "user] x", "x  y"}
			m.filter = []string{words[pick(len(words))]}
			if n := pick(len(words) + 1); n > 0 {
				m.filter = append(m.filter, words[n-1])
			}
			l.SetFilter(append(teolog.Filter{}, m.filter...))
			lg := loggers(l)[pick(2)]
			for _, t := range []string{"x", " x", "x ", " x ", "y", "y ", "x  ", "x\ty", "y\nx", "y\n x", "x  y", ""} {
				lg.Print(t)
				got := s.lines()
				level := 1
				if lg == l.User {
					level = 2
				}
				if want := m.printed(level, t); want != (len(got) > 0) {
					rt.Fail("filter %q, message %q: printed %q, expected to be printed: %v", m.filter, t, got, want)
				} else if want && strings.Join(got, "\n") != levelPrefix[level-1]+t {
					rt.Fail("filter %q, message %q: printed %q", m.filter, t, got)
				}
			}
		}})
	add(&Scenario{Prop: "C20", Name: "node", Max: [2]int{0, 0},
		Desc: "a node is created with a log, a level name and a filter in every order of the parameters, over every earlier configuration of the log",
		Body: func(int) {
			s := getScreen()
			defer s.release()
			l := teolog.New()
			m := &logModel{file: true}
			ops := logOps()
			ops[pick(len(ops))].do(l, m)
			params := []interface{}{l}
			m.level, m.filter = 0, nil
			if n := pick(10); n < 9 {
				name := levelNames[n]
				params = append(params, name)
				m.level = n
			}
			switch pick(3) {
			case 1:
				params = append(params, teolog.Filter{"alpha"})
				m.filter = []string{"alpha"}
			case 2:
				params = append(params, teolog.Logfilter("beta || gamma"))
				m.filter = []string{"beta", "gamma"}
			}
			if k := pick(len(params)); k > 0 {
				params[0], params[k] = params[k], params[0]
			}
			n := node("srv", 7000, params...)
			pass(time.Millisecond)
			m.probe(s, l, "creating a node")
			n.do(func() { n.Close() })
		}})
	add(&Scenario{Prop: "C20", Name: "at-once", Max: [2]int{1, 2},
		Desc: "one goroutine switches the level or sets filters while another logs, under every schedule; each message is printed whole or not at all, and the last setting counts",
		Body: func(int) {
			s := getScreen()
			defer s.release()
			l := teolog.New()
			m := &logModel{file: true}
			l.SetLevel(5)
			ops := logOps()
			o := ops[pick(len(ops))]
			m.level = 5
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			a := spawn("", "set", func() { o.do(l, m) })
			b := spawn("", "log", func() {
				l.Error.Println("alpha")
				l.Debug.Println("beta gamma")
			})
			if !wait(time.Second, a, b) {
				rt.Fail("setting or logging hangs\n%s", rt.Dump())
			}
			quiet(0)
			for _, x := range s.lines() {
				if !strings.HasSuffix(x, "alpha") && !strings.HasSuffix(x, "beta gamma") {
					rt.Fail("printed line %q", x)
				}
			}
			m.probe(s, l, o.name)
		}})
}
