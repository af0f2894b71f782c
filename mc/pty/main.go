// Command ptyhelper runs the real terminal package on a pseudo terminal. One
// call handles one initial setting and reports the first deviation.
package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"

	"github.com/teonet-go/tru/term"
	"golang.org/x/sys/unix"
)

const hang = 10 * time.Second

var master, slave int

func fail(code int, f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(code)
}

func must(err error, what string) {
	if err != nil {
		fail(2, "HARNESS: %s: %v", what, err)
	}
}

func openPty() {
	if master > 0 {
		unix.Close(master)
		unix.Close(slave)
	}
	var err error
	master, err = unix.Open("/dev/ptmx", unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC|unix.O_NONBLOCK, 0)
	must(err, "open /dev/ptmx")
	must(unix.IoctlSetPointerInt(master, unix.TIOCSPTLCK, 0), "unlock")
	n, err := unix.IoctlGetInt(master, unix.TIOCGPTN)
	must(err, "number")
	slave, err = unix.Open("/dev/pts/"+strconv.Itoa(n), unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC, 0)
	must(err, "open slave")
	must(unix.Dup2(slave, 0), "dup")
}

func get() unix.Termios {
	t, err := unix.IoctlGetTermios(slave, unix.TCGETS)
	must(err, "tcgetattr")
	return *t
}

func set(t unix.Termios) {
	must(unix.IoctlSetTermios(slave, unix.TCSETS, &t), "tcsetattr")
}

// config makes the initial setting of a number.
func config(c int) unix.Termios {
	t := get()
	cfgNo := c
	t.Iflag &^= unix.INLCR | unix.IGNCR
	bit := func(p *uint32, m uint32) {
		if c&1 != 0 {
			*p |= m
		} else {
			*p &^= m
		}
		c >>= 1
	}
	bit(&t.Lflag, unix.ICANON)
	bit(&t.Lflag, unix.ECHO)
	bit(&t.Lflag, unix.ISIG)
	bit(&t.Lflag, unix.IEXTEN|unix.ECHOE|unix.ECHOK|unix.ECHOCTL)
	bit(&t.Iflag, unix.ICRNL)
	if c := cfgNo >> 2 & 7; t.Iflag&unix.ICRNL == 0 && c < 2 {
		t.Iflag |= []uint32{unix.INLCR, unix.IGNCR}[c]
	}
	bit(&t.Oflag, unix.OPOST|unix.ONLCR)
	t.Iflag &^= unix.IXON | unix.ISTRIP
	if c&1 != 0 {
		t.Cc[unix.VINTR], t.Cc[unix.VEOF], t.Cc[unix.VERASE] = 'a', 'b', 'c'
	}
	c >>= 1
	vm := [][2]byte{{1, 0}, {0, 0}, {0, 1}, {5, 0}, {3, 2}}[c%5]
	if t.Lflag&unix.ICANON == 0 {
		// with canonical input the two bytes mean something else
		t.Cc[unix.VMIN], t.Cc[unix.VTIME] = vm[0], vm[1]
	}
	set(t)
	return get()
}

// Configs is the number of initial settings.
const Configs = 128 * 5

type result struct {
	b []byte
	p interface{}
}

func getch() chan result {
	c := make(chan result, 1)
	go func() {
		var r result
		defer func() {
			r.p = recover()
			c <- r
		}()
		r.b = term.Getch()
	}()
	return c
}

// reading waits until the terminal is set for reading a key.
func reading(c chan result, key []byte, cfg int) {
	end := time.Now().Add(hang)
	for i := 0; ; i++ {
		if t := get(); t.Lflag&(unix.ICANON|unix.ECHO|unix.ISIG) == 0 {
			return
		}
		select {
		case r := <-c:
			fail(1, "setting %d: Getch returned %v (%v) although no key was pressed", cfg, r.b, r.p)
		default:
		}
		if time.Now().After(end) {
			fail(1, "setting %d: while a key is awaited the terminal has local flags %#x: line input, echo or signals are on", cfg, get().Lflag)
		}
		if i < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

func wait(c chan result, key []byte, cfg int, when string, orig unix.Termios) {
	want := key
	select {
	case r := <-c:
		if r.p != nil {
			fail(1, "setting %d: Getch panics: %v", cfg, r.p)
		}
		if !bytes.Equal(r.b, want) {
			fail(1, "setting %d, key %v pressed %s: Getch returned %v", cfg, key, when, r.b)
		}
	case <-time.After(hang):
		fail(1, "setting %d, key %v pressed %s: Getch does not return", cfg, key, when)
	}
	if t := get(); t != orig {
		fail(1, "setting %d, key %v pressed %s: the terminal was\n%+v\nafterwards it is\n%+v", cfg, key, when, orig, t)
	}
}

func press(key []byte) {
	n, err := unix.Write(master, key)
	if n != len(key) {
		must(fmt.Errorf("%d %v", n, err), "write to terminal")
	}
}

func echoed() []byte {
	b := make([]byte, 4096)
	n, _ := unix.Read(master, b)
	if n < 0 {
		n = 0
	}
	return b[:n]
}

// keys of one to three bytes
func keys() (l [][]byte) {
	for i := 0; i < 256; i++ {
		l = append(l, []byte{byte(i)})
	}
	for c := byte('A'); c <= 'Z'; c++ {
		l = append(l, []byte{27, '[', c}, []byte{27, 'O', c}, []byte{27, c})
	}
	for _, s := range []string{"é", "я", "€", "\x1b\x1b", "\r\n", "abc", "\x03\x03", "\x00\x00\x00"} {
		l = append(l, []byte(s))
	}
	return
}

func main() {
	cfg, _ := strconv.Atoi(os.Args[1])
	n := 0
	openPty()
	orig := config(cfg)
	switch os.Args[2] {
	case "keys":
		// without any of these flags it cannot be seen that the read began
		blind := orig.Lflag&(unix.ICANON|unix.ECHO|unix.ISIG) == 0
		for i, k := range keys() {
			if blind && bytes.ContainsAny(k, "\r\n") {
				continue
			}
			c := getch()
			reading(c, k, cfg)
			if i == 100 {
				// nothing may be returned without a key
				time.Sleep(130 * time.Millisecond)
				select {
				case r := <-c:
					fail(1, "setting %d: Getch returned %v (%v) although no key was pressed", cfg, r.b, r.p)
				default:
				}
			}
			press(k)
			wait(c, k, cfg, "while it is awaited", orig)
			if e := echoed(); len(e) > 0 {
				fail(1, "setting %d: key %v is echoed as %q", cfg, k, e)
			}
			n++
		}
	case "early":
		// typed before Getch is called; line ends and the terminal's own line
		// editing and signal keys where they are on are left out
		for _, k := range keys() {
			skip := false
			for _, b := range k {
				skip = skip || b == 10 || b == 13
				if orig.Lflag&(unix.ICANON|unix.ISIG) != 0 {
					skip = skip || b < 32 || b == 127 || b > 127 || bytes.IndexByte(orig.Cc[:], b) >= 0
				}
			}
			if skip {
				continue
			}
			press(k)
			time.Sleep(50 * time.Microsecond)
			c := getch()
			wait(c, k, cfg, "before it is awaited", orig)
			echoed()
			n++
		}
		// several keys typed ahead are not lost
		press([]byte("wxyz"))
		time.Sleep(2 * time.Millisecond)
		var got []byte
		for len(got) < 4 {
			c := getch()
			select {
			case r := <-c:
				if len(r.b) == 0 || r.p != nil {
					fail(1, "setting %d: Getch returned %v (%v) with keys typed ahead", cfg, r.b, r.p)
				}
				got = append(got, r.b...)
			case <-time.After(hang):
				fail(1, "setting %d: of four keys typed ahead %q came", cfg, got)
			}
			if t := get(); t != orig {
				fail(1, "setting %d: after a key typed ahead the terminal was\n%+v\nafterwards it is\n%+v", cfg, orig, t)
			}
		}
		if string(got) != "wxyz" {
			fail(1, "setting %d: keys wxyz typed ahead came as %q", cfg, got)
		}
	case "state":
		if !term.IsTerminal(slave) || !term.IsTerminal(0) {
			fail(1, "setting %d: the terminal is not taken for one", cfg)
		}
		r, w, err := os.Pipe()
		must(err, "pipe")
		null, err := os.Open("/dev/null")
		must(err, "null")
		for _, f := range []*os.File{r, w, null} {
			if term.IsTerminal(int(f.Fd())) {
				fail(1, "%s is taken for a terminal", f.Name())
			}
			if _, err := term.MakeNonBlock(int(f.Fd())); err == nil {
				fail(1, "MakeNonBlock of %s gives no error", f.Name())
			}
			if _, err := term.GetState(int(f.Fd())); err == nil {
				fail(1, "GetState of %s gives no error", f.Name())
			}
			if _, _, err := term.GetSize(int(f.Fd())); err == nil {
				fail(1, "GetSize of %s gives no error", f.Name())
			}
		}
		s, err := term.GetState(slave)
		if err != nil {
			fail(1, "GetState: %v", err)
		}
		// every single bit changed after the state was taken comes back
		for w := 0; w < 4; w++ {
			for b := 0; b < 16; b++ {
				t := orig
				*[]*uint32{&t.Iflag, &t.Oflag, &t.Lflag, &t.Cflag}[w] ^= 1 << b
				set(t)
				m, err := term.MakeNonBlock(slave)
				if err != nil {
					fail(1, "MakeNonBlock: %v", err)
				}
				now := get()
				if now.Lflag&(unix.ICANON|unix.ECHO|unix.ISIG) != 0 || now.Cc[unix.VMIN] != 1 || now.Cc[unix.VTIME] != 0 {
					fail(1, "setting %d: MakeNonBlock leaves local flags %#x, VMIN %d, VTIME %d", cfg, now.Lflag, now.Cc[unix.VMIN], now.Cc[unix.VTIME])
				}
				set(t)
				before := get()
				set(now)
				if err := term.RestoreState(slave, m); err != nil || get() != before {
					fail(1, "setting %d with bit %d of flags %d changed: the state given by MakeNonBlock restores\n%+v\nexpected\n%+v\nerror %v", cfg, b, w, get(), before, err)
				}
				if err := term.RestoreState(slave, s); err != nil || get() != orig {
					fail(1, "setting %d: restored is\n%+v\nexpected\n%+v\nerror %v", cfg, get(), orig, err)
				}
				n++
			}
		}
		for _, sz := range [][2]int{{80, 24}, {1, 1}, {132, 50}, {300, 200}, {65535, 1}, {2, 65535}, {0, 0}} {
			must(unix.IoctlSetWinsize(slave, unix.TIOCSWINSZ, &unix.Winsize{Col: uint16(sz[0]), Row: uint16(sz[1])}), "size")
			if w, h, err := term.GetSize(slave); w != sz[0] || h != sz[1] || err != nil {
				fail(1, "a terminal of %v has size %d x %d, error %v", sz, w, h, err)
			}
		}
		// a terminal that goes away while a key is awaited
		c := getch()
		reading(c, nil, cfg)
		unix.Close(master)
		master = 0
		select {
		case r := <-c:
			// where the setting alone does not tell that the read began, the
			// terminal may be gone before it
			early := orig.Lflag&(unix.ICANON|unix.ECHO|unix.ISIG) == 0
			if r.p != nil && !early || len(r.b) != 0 {
				fail(1, "setting %d: the terminal goes away: Getch returned %v (%v)", cfg, r.b, r.p)
			}
		case <-time.After(hang):
			fail(1, "setting %d: the terminal goes away: Getch does not return", cfg)
		}
	}
	fmt.Println("ok", n)
}
