package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"time"
)

func main() {
	if len(os.Args) > 3 && os.Args[1] == "worker" {
		devnull()
		workerMain(os.Args[2], os.Args[3])
		return
	}
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	limit := flag.Duration("limit", 25*time.Second, "time limit")
	out := flag.String("evidence", "", "evidence file")
	replayDir := flag.String("replays", "/tmp", "directory for replay files")
	dir := flag.String("dir", "", "scratch directory")
	seed := flag.Int("seed", 1, "seed (no random choices are made)")
	replay := flag.String("replay", "", "replay file to execute")
	workers := flag.Int("workers", runtime.NumCPU(), "worker processes")
	only := flag.String("only", "", "one scenario only")
	list := flag.Bool("list", false, "list scenarios")
	flag.Parse()
	if *list {
		for _, s := range scenarios {
			fmt.Printf("%s %-28s bounds quick %d thorough %d  %s\n", s.Prop, s.Name, s.Max[0], s.Max[1], s.Desc)
		}
		return
	}
	t := 0
	if *tier == "thorough" {
		t = 1
	}
	if *dir == "" {
		d, err := os.MkdirTemp("", "mc")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		*dir = d
	}
	if *replay != "" {
		os.Exit(replayMain(*replay, *dir))
	}
	code := runProperty(*prop, t, *limit, *out, *replayDir, *dir, *seed, *workers, *only)
	os.RemoveAll(*dir)
	os.Exit(code)
}

// replayMain executes a replay file once and shows the trace.
func replayMain(name, dir string) int {
	b, err := os.ReadFile(name)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	for i, s := range scenarios {
		if s.Prop == r.Property && s.Name == r.Scenario {
			p := &parent{dir: dir}
			res, err := p.single(i, r.Tier, r.Node, 300*time.Second)
			if err != nil {
				fmt.Println("VIOLATED:", err)
				return 1
			}
			if res.Fail == nil {
				fmt.Println("the replay does not violate the property")
				return 0
			}
			for _, l := range res.Fail.Trace {
				fmt.Println(l)
			}
			fmt.Println(res.Fail.Dump)
			for _, m := range res.Fail.Msgs {
				fmt.Println("VIOLATED:", m)
			}
			return 1
		}
	}
	fmt.Println("no such scenario")
	return 2
}
