package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"verif.local/zz/rt"
)

// ptyRun lets the helper handle one initial setting on a real pseudo terminal.
func ptyRun(cfg int, mode string) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(filepath.Join(filepath.Dir(self), "ptyhelper"), strconv.Itoa(cfg), mode)
	out, err := cmd.CombinedOutput()
	s := strings.TrimSpace(string(out))
	if err != nil {
		if e, ok := err.(*exec.ExitError); !ok || e.ExitCode() == 2 && strings.Contains(s, "HARNESS") {
			panic("HARNESS: " + s + err.Error())
		}
		rt.Fail("%s (%v)", s, err)
	}
	if !strings.HasPrefix(s, "ok ") {
		rt.Fail("terminal helper: %s", s)
	}
	n, _ := strconv.Atoi(s[3:])
	rt.X.Steps += int64(n)
	rt.Observe("%s %s", mode, s)
}

// settings picks an initial terminal setting: all combinations of line input,
// echo, signals, extended functions, CR mapping, output processing, odd
// control characters and five read modes; quick leaves out some combinations.
func settings(tier int) int {
	if tier == 1 {
		return pick(128 * 5)
	}
	n := pick(128)
	c := n & 15 // ICANON, ECHO, ISIG, IEXTEN
	return c | []int{0, 1, 2, 7}[n>>4&3]<<4 | (c>>1+n>>6*2)%5<<7
}

func init() {
	add(&Scenario{Prop: "C25", Name: "keys", Max: [2]int{0, 0},
		Desc: "every one-byte key and 86 keys of two or three bytes, pressed while awaited, for every initial terminal setting: bytes returned, no echo, nothing returned before, settings afterwards",
		Body: func(tier int) { ptyRun(settings(tier), "keys") }})
	add(&Scenario{Prop: "C25", Name: "early", Max: [2]int{0, 0},
		Desc: "the same keys pressed before they are awaited, and four keys typed ahead",
		Body: func(tier int) { ptyRun(settings(tier), "early") }})
	add(&Scenario{Prop: "C25", Name: "state", Max: [2]int{0, 0},
		Desc: "MakeNonBlock, GetState, RestoreState, GetSize and IsTerminal for every initial setting with every single flag bit changed; a terminal that goes away",
		Body: func(tier int) { ptyRun(settings(tier), "state") }})
}
