package main

import (
	"fmt"
	"hash/fnv"
	"strconv"
	"strings"

	"github.com/teonet-go/tru/term"

	"verif.local/zz/rt"
)

// C33: the control sequences of package term.

type cell struct {
	r    rune
	col  int // 0: default, 1 + colour otherwise
	bold bool
}

// tty is a terminal of ttyW columns and ttyH rows.
type tty struct {
	cells       [ttyH][ttyW]cell
	y, x        int // from 0
	sy, sx      int
	top, bottom int
	nowrap      bool
	hidden      bool
	pending     bool // the cursor is behind the last column
	col         int
	bold        bool
}

const ttyW, ttyH = 8, 5

func newTTY() *tty { return &tty{bottom: ttyH - 1} }

func (t *tty) clear()         { t.cells = [ttyH][ttyW]cell{} }
func (t *tty) wrap(on bool)   { t.nowrap = !on }
func (t *tty) save()          { t.sy, t.sx = t.y, t.x }
func (t *tty) restore()       { t.y, t.x, t.pending = t.sy, t.sx, false }
func (t *tty) cursor(on bool) { t.hidden = !on }
func (t *tty) colour(c int, bold bool) {
	t.col, t.bold = c, bold
}

func (t *tty) pos(x, y int) {
	t.x, t.y, t.pending = min0(max0(x-1), ttyW-1), min0(max0(y-1), ttyH-1), false
}

func (t *tty) clearLine() {
	for i := t.x; i < ttyW; i++ {
		t.cells[t.y][i] = cell{}
	}
}

func (t *tty) region(top, bottom int) {
	if top < 1 {
		top = 1
	}
	if bottom == 0 || bottom > ttyH {
		bottom = ttyH
	}
	if top < bottom {
		t.top, t.bottom = top-1, bottom-1
		t.pos(1, 1)
	}
}

func (t *tty) newline() {
	t.x, t.pending = 0, false
	switch {
	case t.y == t.bottom:
		for i := t.top; i < t.bottom; i++ {
			t.cells[i] = t.cells[i+1]
		}
		t.cells[t.bottom] = [ttyW]cell{}
	case t.y < ttyH-1:
		t.y++
	}
}

func (t *tty) text(s string) {
	for _, r := range s {
		if r == '\n' {
			t.newline()
			continue
		}
		if t.pending && !t.nowrap {
			t.newline()
		}
		t.cells[t.y][t.x] = cell{r, t.col, t.bold}
		if t.x == ttyW-1 {
			t.pending = true
		} else {
			t.x++
		}
	}
}

func max0(a int) int {
	if a < 0 {
		return 0
	}
	return a
}

func min0(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// print understands control sequences.
func (t *tty) print(s string) error {
	for len(s) > 0 {
		i := strings.IndexByte(s, 27)
		if i < 0 {
			i = len(s)
		}
		t.text(s[:i])
		if s = s[i:]; s == "" {
			break
		}
		if strings.HasPrefix(s, "\0337") || strings.HasPrefix(s, "\0338") {
			if s[1] == '7' {
				t.save()
			} else {
				t.restore()
			}
			s = s[2:]
			continue
		}
		if len(s) < 3 || s[1] != '[' {
			return fmt.Errorf("not a control sequence: %q", s)
		}
		j := 2
		for j < len(s) && !(s[j] >= '@' && s[j] <= '~') {
			j++
		}
		if j == len(s) {
			return fmt.Errorf("unfinished control sequence: %q", s)
		}
		arg, c := s[2:j], s[j]
		var a []int
		for _, f := range strings.Split(strings.TrimPrefix(arg, "?"), ";") {
			n, err := strconv.Atoi(f)
			if f != "" && err != nil {
				return fmt.Errorf("control sequence %q", s[:j+1])
			}
			a = append(a, n)
		}
		at := func(i int) int {
			if i < len(a) {
				return a[i]
			}
			return 0
		}
		switch {
		case c == 'm':
			for _, n := range a {
				switch {
				case n == 0:
					t.colour(0, false)
				case n == 1:
					t.bold = true
				case n == 22:
					t.bold = false
				case n >= 30 && n <= 37:
					t.col = n - 29
				case n == 39:
					t.col = 0
				default:
					return fmt.Errorf("colour %q", s[:j+1])
				}
			}
		case c == 'J' && at(0) == 2:
			t.clear()
		case c == 'K' && at(0) == 0:
			t.clearLine()
		case c == 'K' && at(0) == 2:
			t.cells[t.y] = [ttyW]cell{}
		case c == 'J' && at(0) == 0:
			t.clearLine()
			for i := t.y + 1; i < ttyH; i++ {
				t.cells[i] = [ttyW]cell{}
			}
		case (c == 'h' || c == 'l') && arg == "?7":
			t.wrap(c == 'h')
		case (c == 'h' || c == 'l') && arg == "?25":
			t.cursor(c == 'h')
		case c == 's' && arg == "":
			t.save()
		case c == 'u' && arg == "":
			t.restore()
		case c == 'f' || c == 'H':
			t.pos(at(1), at(0))
		case c == 'r':
			t.region(at(0), at(1))
		default:
			return fmt.Errorf("control sequence %q", s[:j+1])
		}
		s = s[j+1:]
	}
	return nil
}

func (t *tty) String() (s string) {
	for _, l := range t.cells {
		s += "|"
		for _, c := range l {
			if c.r == 0 {
				s += " "
			} else {
				s += string(c.r)
			}
		}
		s += "|\n"
	}
	return s + fmt.Sprintf("cursor %d,%d region %d-%d nowrap %v hidden %v colour %d %v", t.x+1, t.y+1, t.top+1, t.bottom+1, t.nowrap, t.hidden, t.col, t.bold)
}

// colours in the order of what they mean on a terminal.
func colours() []struct {
	f    func() string
	col  int
	bold bool
	name string
} {
	c := term.Color
	return []struct {
		f    func() string
		col  int
		bold bool
		name string
	}{
		{c.None, 0, false, "none"},
		{c.Black, 1, false, "black"}, {c.Red, 2, false, "red"}, {c.Green, 3, false, "green"}, {c.Brown, 4, false, "brown"},
		{c.Blue, 5, false, "blue"}, {c.Magenta, 6, false, "magenta"}, {c.Cyan, 7, false, "cyan"}, {c.Grey, 8, false, "grey"},
		{c.DarkGrey, 1, true, "dark grey"}, {c.LightRed, 2, true, "light red"}, {c.LightGreen, 3, true, "light green"}, {c.Yellow, 4, true, "yellow"},
		{c.LightBlue, 5, true, "light blue"}, {c.LightMagenta, 6, true, "light magenta"}, {c.LightCyan, 7, true, "light cyan"}, {c.White, 8, true, "white"},
	}
}

// screenState counts a screen as a state.
func screenState(t *tty) {
	rt.X.Steps++
	if rt.X.States != nil {
		f := fnv.New64a()
		fmt.Fprint(f, *t)
		rt.X.States(f.Sum64())
	}
}

func init() {
	add(&Scenario{Prop: "C33", Name: "sequences", Max: [2]int{0, 0},
		Desc: "every sequence of four (thorough five) of 22 terminal functions and texts on a terminal of 8 columns and 5 rows: after each the screen, cursor, modes and colours are what the functions' names say",
		Body: func(tier int) {
			real, ref := newTTY(), newTTY()
			f := term.Func
			cs := colours()
			var h []string
			n := 0
			for i := 0; i < 4+tier; i++ {
				s, name := "", ""
				switch op := pick(22); op {
				case 0, 1, 2: // text: short, longer than a line, with a line end
					n++
					s = []string{"ab", "0123456789", "x\ny"}[op]
					name = "text"
					ref.text(s)
				case 3, 4, 5, 6:
					c := cs[[]int{0, 2, 12, 9}[op-3]]
					s, name = c.f(), c.name
					ref.colour(c.col, c.bold)
				case 7:
					c := cs[14]
					s, name = term.SetColor(c.f(), "mg"), "SetColor"
					ref.colour(c.col, c.bold)
					ref.text("mg")
					ref.colour(0, false)
				case 8:
					s, name = f.Clear(), "Clear"
					ref.clear()
				case 9:
					s, name = f.WrapOn(), "WrapOn"
					ref.wrap(true)
				case 10:
					s, name = f.WrapOff(), "WrapOff"
					ref.wrap(false)
				case 11:
					s, name = f.SaveCursorPosition(), "SaveCursorPosition"
					ref.save()
				case 12:
					s, name = f.RestoreCursorPosition(), "RestoreCursorPosition"
					ref.restore()
				case 13, 14, 15:
					x, y := []int{1, 3, 7}[op-13], []int{1, 5, 2}[op-13]
					s, name = f.SetCursorPosition(x, y), "SetCursorPosition"
					ref.pos(x, y)
				case 16:
					s, name = f.HideCursor(), "HideCursor"
					ref.cursor(false)
				case 17:
					s, name = f.ShowCursor(), "ShowCursor"
					ref.cursor(true)
				case 18:
					s, name = f.ClearLine(), "ClearLine"
					ref.clearLine()
				case 19:
					s, name = f.SetScrollRegion(3), "SetScrollRegion"
					ref.region(3, 0)
				case 20:
					s, name = f.SetScrollRegion(2, 4), "SetScrollRegion"
					ref.region(2, 4)
				case 21:
					s, name = f.ResetScrollRegion(), "ResetScrollRegion"
					ref.region(1, ttyH)
				}
				h = append(h, name)
				screenState(real)
				if err := real.print(s); err != nil {
					rt.Fail("%v: %v", h, err)
				}
				if *real != *ref {
					rt.Fail("%v: the terminal shows\n%v\nshould be\n%v", h, real, ref)
				}
			}
		}})
	add(&Scenario{Prop: "C33", Name: "colours", Max: [2]int{0, 0},
		Desc: "every colour after every other one, set and in SetColor, around texts with and without colours of their own: each part has its colour, what follows has none",
		Body: func(int) {
			cs := colours()
			a, b := cs[pick(len(cs))], cs[pick(len(cs))]
			txt := sel("", "t", "two\nlines")
			real, ref := newTTY(), newTTY()
			s := a.f() + "1" + term.SetColor(b.f(), txt) + "2" + b.f() + "3"
			ref.colour(a.col, a.bold)
			ref.text("1")
			ref.colour(b.col, b.bold)
			ref.text(txt)
			ref.colour(0, false)
			ref.text("2")
			ref.colour(b.col, b.bold)
			ref.text("3")
			if err := real.print(s); err != nil {
				rt.Fail("%s, %s: %v", a.name, b.name, err)
			}
			screenState(real)
			if *real != *ref {
				rt.Fail("%s, then %s: the terminal shows\n%v\nshould be\n%v", a.name, b.name, real, ref)
			}
		}})
	add(&Scenario{Prop: "C33", Name: "positions", Max: [2]int{0, 0},
		Desc: "every position and scroll region of a terminal, and keys",
		Body: func(int) {
			real, ref := newTTY(), newTTY()
			x, y := 1+pick(ttyW), 1+pick(ttyH)
			top, bottom := 1+pick(ttyH-1), pick(ttyH+1)
			f := term.Func
			r := f.SetScrollRegion(top)
			if bottom > 0 {
				r = f.SetScrollRegion(top, bottom)
			} else if pick(2) == 1 {
				r = f.SetScrollRegion(top, 0)
			}
			real.print("a\nb\nc\nd" + r + f.SetCursorPosition(x, y) + "e\nf\ng")
			ref.text("a\nb\nc\nd")
			ref.region(top, bottom)
			ref.pos(x, y)
			ref.text("e\nf\ng")
			screenState(real)
			if *real != *ref {
				rt.Fail("position %d,%d, region %d,%d: the terminal shows\n%v\nshould be\n%v", x, y, top, bottom, real, ref)
			}
			for i, k := range [][]byte{term.Keys.CtrlC(), term.Keys.CtrlD(), term.Keys.Left()} {
				if want := []string{"\x03", "\x04", "\x1b[D"}[i]; string(k) != want {
					rt.Fail("key %d is %q, should be %q", i, k, want)
				}
			}
		}})
}
