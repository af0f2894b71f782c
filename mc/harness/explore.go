package main

// The explorer: deviation-bounded exhaustive search over the choices of a
// scenario, iterated over the bound, spread over worker processes.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/zz/rt"
)

// Scenario is one closed driver with its bounds.
type Scenario struct {
	Prop, Name string
	Desc       string
	// Max is the largest total deviation bound explored per tier (quick, thorough).
	Max [2]int
	// Kind caps deviations per kind (0: no cap of its own, -1: none allowed).
	Kind [rt.NumKinds]int
	// Weight scales the share of the time budget (default 1).
	Weight float64
	Body   func(tier int)
	// Quick2 restricts the scenario to the thorough tier.
	ThoroughOnly bool
	// Stalls adds a variant in which threads are held up for these times.
	Stalls []time.Duration
	// StallsLate leaves that variant to the thorough tier.
	StallsLate bool
}

var scenarios []*Scenario

// held is the usual choice for Stalls: longer than a round trip, and longer
// than the period of the retransmission timer.
var held = []time.Duration{5 * time.Millisecond, 120 * time.Millisecond}

func add(s *Scenario) {
	scenarios = append(scenarios, s)
	if len(s.Stalls) == 0 {
		return
	}
	c := *s
	c.Name += "-stalls"
	c.Desc += "; instead of the schedules: any thread is held up at any statement while everything else goes on"
	c.ThoroughOnly = c.ThoroughOnly || s.StallsLate
	for i := range c.Max {
		if c.Max[i] > i+1 {
			c.Max[i] = i + 1
		}
	}
	c.Body = func(tier int) {
		rt.StallMode(sel(s.Stalls...))
		s.Body(tier)
	}
	scenarios = append(scenarios, &c)
}

// Dev is a deviation from the default choice.
type Dev struct {
	P int `json:"p"`
	A int `json:"a"`
}

// Token is a piece of the search tree: the node itself (Start<0) and/or its
// children number Start.. that are Rem modulo Mod.
type Token struct {
	Node  []Dev `json:"n"`
	Self  bool  `json:"s"`
	Start int   `json:"i"`
	Mod   int   `json:"m"`
	Rem   int   `json:"r"`
}

// Job is what a worker gets.
type Job struct {
	Scen    int     `json:"scen"`
	Tier    int     `json:"tier"`
	Bound   int     `json:"bound"`
	Tok     Token   `json:"tok"`
	SliceMs int     `json:"slice"`
	Single  bool    `json:"single"` // only execute this node, with trace
	Limit   float64 `json:"limit"`
}

// Failure is a violation found.
type Failure struct {
	Node    []Dev    `json:"node"`
	Choices []int    `json:"choices"`
	Msgs    []string `json:"msgs"`
	Dump    string   `json:"dump"`
	Trace   []string `json:"trace,omitempty"`
	Obs     []string `json:"obs,omitempty"`
}

// Result is a worker's answer.
type Result struct {
	Execs    int64          `json:"execs"`
	New      int64          `json:"new"`
	Steps    int64          `json:"steps"`
	SyncOps  int64          `json:"ops"`
	Points   int64          `json:"points"`
	MaxPts   int            `json:"maxpts"`
	Replayed int64          `json:"replayed"`
	Diverged string         `json:"diverged,omitempty"`
	Tokens   []Token        `json:"tokens,omitempty"`
	Fail     *Failure       `json:"fail,omitempty"`
	Outcomes []uint64       `json:"outcomes,omitempty"`
	Samples  []string       `json:"samples,omitempty"`
	Known    map[string]int `json:"known,omitempty"`
}

func expand(n []Dev) []int {
	if len(n) == 0 {
		return nil
	}
	p := make([]int, n[len(n)-1].P+1)
	for _, d := range n {
		p[d.P] = d.A
	}
	return p
}

func sparse(choices []int) (n []Dev) {
	for i, c := range choices {
		if c != 0 {
			n = append(n, Dev{i, c})
		}
	}
	return
}

func budgetFor(s *Scenario, bound int) *rt.Budget {
	b := &rt.Budget{Total: bound}
	for k := range b.Kind {
		switch {
		case s.Kind[k] == 0:
			b.Kind[k] = bound
		case s.Kind[k] < 0:
			b.Kind[k] = 0
		default:
			b.Kind[k] = s.Kind[k]
		}
	}
	return b
}

func costOf(kind int) int {
	if kind == rt.KFree {
		return 0
	}
	return 1
}

// ---- worker -----------------------------------------------------------------

const bitmapBits = 1 << 24

type worker struct {
	bitmap   []byte
	curFile  []byte
	outcomes map[uint64]bool
	known    []*knownFinding
	execNo   int64
}

func mmapFile(name string, size int) []byte {
	f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(int64(size)); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return b
}

func (w *worker) state(h uint64) {
	i := h & (bitmapBits - 1)
	w.bitmap[i>>3] |= 1 << (i & 7)
}

func (w *worker) run(s *Scenario, tier int, node []Dev, tracing bool) *rt.Exec {
	if w.curFile != nil {
		b, _ := json.Marshal(node)
		if len(b) < len(w.curFile)-8 {
			n := copy(w.curFile[8:], b)
			w.curFile[0], w.curFile[1], w.curFile[2] = byte(n), byte(n>>8), byte(n>>16)
		}
	}
	var st func(uint64)
	if w.bitmap != nil {
		st = w.state
	}
	return rt.Run(expand(node), nil, tracing, st, func() { prepare(); s.Body(tier) })
}

type frame struct {
	node []Dev
	used [rt.NumKinds]int
	tot  int
	kids []Dev
	next int
	mod  int
	rem  int
}

// kids lists the affordable children of an executed node.
func kidsOf(x *rt.Exec, node []Dev, b *rt.Budget) (kids []Dev, used [rt.NumKinds]int, tot int) {
	base := 0
	if len(node) > 0 {
		base = node[len(node)-1].P + 1
	}
	for _, d := range node {
		if d.P < len(x.Points) {
			k := x.Points[d.P].Kind
			used[k]++
			tot += costOf(k)
		}
	}
	add := func(i int) {
		p := x.Points[i]
		if costOf(p.Kind) == 1 && (tot >= b.Total || used[p.Kind] >= b.Kind[p.Kind]) {
			return
		}
		for a := 1; a < p.N; a++ {
			kids = append(kids, Dev{i, a})
		}
	}
	// free choices first, then the rest in strides so that a run cut short by
	// its deadline has covered the whole length of the execution
	n := len(x.Points)
	for i := base; i < n; i++ {
		if x.Points[i].Kind == rt.KFree {
			add(i)
		}
	}
	const stride = 13
	for o := 0; o < stride; o++ {
		for i := base + o; i < n; i += stride {
			if x.Points[i].Kind != rt.KFree {
				add(i)
			}
		}
	}
	return
}

func (w *worker) explore(job *Job) (res Result) {
	s := scenarios[job.Scen]
	b := budgetFor(s, job.Bound)
	deadline := time.Now().Add(time.Duration(job.SliceMs) * time.Millisecond)
	var stack []*frame
	exec := func(node []Dev, count bool) *rt.Exec {
		x := w.run(s, job.Tier, node, false)
		res.Execs++
		w.execNo++
		res.Steps += x.Steps
		res.SyncOps += x.SyncOps
		res.Points += int64(len(x.Points))
		if len(x.Points) > res.MaxPts {
			res.MaxPts = len(x.Points)
		}
		if x.Diverged != "" {
			res.Diverged = x.Diverged
		}
		if len(x.Fails) > 0 {
			if !w.isKnown(s, x.Fails, &res) {
				res.Fail = &Failure{Node: node, Choices: x.Choices, Msgs: x.Fails, Dump: x.FailDump, Obs: x.ObsLog()}
				return x
			}
		}
		if !w.outcomes[x.Obs] && len(w.outcomes) < 20000 {
			w.outcomes[x.Obs] = true
			res.Outcomes = append(res.Outcomes, x.Obs)
			if len(res.Samples) < 2 {
				res.Samples = append(res.Samples, fmt.Sprintf("choices %v: %s", node, strings.Join(x.ObsLog(), "; ")))
			}
		}
		// replay some executions and compare
		if w.execNo%97 == 1 {
			y := w.run(s, job.Tier, sparse(x.Choices), false)
			res.Replayed++
			if y.Obs != x.Obs || y.Steps != x.Steps || len(y.Choices) != len(x.Choices) || y.Diverged != "" {
				res.Diverged = fmt.Sprintf("replay of %v differs: %d/%d steps, %d/%d choices", node, x.Steps, y.Steps, len(x.Choices), len(y.Choices))
			}
		}
		return x
	}
	push := func(x *rt.Exec, node []Dev) *frame {
		kids, used, tot := kidsOf(x, node, b)
		if len(kids) == 0 {
			return nil
		}
		f := &frame{node: node, used: used, tot: tot, kids: kids, mod: 1}
		stack = append(stack, f)
		return f
	}
	cost := func(x *rt.Exec, node []Dev) (c int) {
		for _, d := range node {
			if d.P < len(x.Points) {
				c += costOf(x.Points[d.P].Kind)
			}
		}
		return
	}
	x := exec(job.Tok.Node, job.Tok.Self)
	if job.Tok.Self && cost(x, job.Tok.Node) == job.Bound {
		res.New++
	}
	if res.Fail != nil {
		return
	}
	if f := push(x, job.Tok.Node); f != nil {
		f.next, f.mod, f.rem = job.Tok.Start, job.Tok.Mod, job.Tok.Rem
	}
	progress := false // slow executions: at least one new one per job
	for len(stack) > 0 {
		f := stack[len(stack)-1]
		for f.next < len(f.kids) && f.next%f.mod != f.rem {
			f.next++
		}
		if f.next >= len(f.kids) {
			stack = stack[:len(stack)-1]
			continue
		}
		if progress && time.Now().After(deadline) {
			break
		}
		progress = true
		d := f.kids[f.next]
		f.next++
		node := append(append(make([]Dev, 0, len(f.node)+1), f.node...), d)
		x := exec(node, true)
		if res.Fail != nil {
			return
		}
		if cost(x, node) == job.Bound {
			res.New++
		}
		push(x, node)
	}
	for _, f := range stack {
		if f.next < len(f.kids) {
			res.Tokens = append(res.Tokens, Token{Node: f.node, Start: f.next, Mod: f.mod, Rem: f.rem})
		}
	}
	return
}

func workerMain(dir string, id string) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	w := &worker{bitmap: mmapFile(filepath.Join(dir, "bits."+id), bitmapBits/8),
		curFile: mmapFile(filepath.Join(dir, "cur."+id), 1<<16), outcomes: map[uint64]bool{}}
	w.known = loadKnown()
	in := bufio.NewReaderSize(os.NewFile(3, "jobs"), 1<<20)
	out := os.NewFile(4, "results")
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var job Job
		if err := json.Unmarshal(line, &job); err != nil {
			os.Exit(4)
		}
		var res Result
		if job.Single {
			x := w.run(scenarios[job.Scen], job.Tier, job.Tok.Node, true)
			res.Execs = 1
			res.Diverged = x.Diverged
			if len(x.Fails) > 0 {
				res.Fail = &Failure{Node: job.Tok.Node, Choices: x.Choices, Msgs: x.Fails, Dump: x.FailDump, Trace: x.Trace, Obs: x.ObsLog()}
			}
		} else {
			res = w.explore(&job)
		}
		b, _ := json.Marshal(res)
		if _, err := out.Write(append(b, '\n')); err != nil {
			os.Exit(0)
		}
	}
}

// ---- parent -----------------------------------------------------------------

type proc struct {
	id    string
	cmd   *exec.Cmd
	jobs  *os.File
	res   *bufio.Reader
	busy  bool
	job   Job
	errB  *strings.Builder
	since time.Time
}

type answer struct {
	p   *proc
	res Result
	err error
}

type parent struct {
	dir     string
	procs   []*proc
	answers chan answer
	nextID  int
}

type limitedWriter struct{ b *strings.Builder }

func (l limitedWriter) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (p *parent) start() *proc {
	p.nextID++
	id := fmt.Sprint(p.nextID)
	jr, jw, _ := os.Pipe()
	rr, rw, _ := os.Pipe()
	cmd := exec.Command(os.Args[0], "worker", p.dir, id)
	cmd.ExtraFiles = []*os.File{jr, rw}
	cmd.Dir = p.dir
	var eb strings.Builder
	cmd.Stderr = limitedWriter{&eb}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	jr.Close()
	rw.Close()
	return &proc{id: id, cmd: cmd, jobs: jw, res: bufio.NewReaderSize(rr, 1<<20), errB: &eb}
}

func (p *parent) send(w *proc, j Job) {
	w.busy = true
	w.job = j
	w.since = time.Now()
	b, _ := json.Marshal(j)
	answers := p.answers
	go func() {
		_, err := w.jobs.Write(append(b, '\n'))
		var res Result
		if err == nil {
			var line []byte
			line, err = w.res.ReadBytes('\n')
			if err == nil {
				err = json.Unmarshal(line, &res)
			}
		}
		answers <- answer{w, res, err}
	}()
}

func (w *proc) kill() {
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.jobs.Close()
}

// current reads the node a (dead) worker was executing.
func (p *parent) current(w *proc) (n []Dev) {
	b, err := os.ReadFile(filepath.Join(p.dir, "cur."+w.id))
	if err != nil || len(b) < 8 {
		return nil
	}
	l := int(b[0]) | int(b[1])<<8 | int(b[2])<<16
	json.Unmarshal(b[8:8+l], &n)
	return
}

// single executes one node in a fresh process; a dead or stuck process is
// reported as err.
func (p *parent) single(scen, tier int, node []Dev, timeout time.Duration) (res Result, err error) {
	w := p.start()
	defer w.kill()
	saved := p.answers
	p.answers = make(chan answer, 1)
	ch := p.answers
	p.send(w, Job{Scen: scen, Tier: tier, Tok: Token{Node: node, Self: true}, Single: true})
	p.answers = saved
	select {
	case a := <-ch:
		if a.err != nil {
			w.cmd.Wait()
			return res, fmt.Errorf("process died: %s", firstLines(w.errB.String(), 12))
		}
		return a.res, nil
	case <-time.After(timeout):
		return res, errStuck
	}
}

var errStuck = fmt.Errorf("no answer")

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type scenStat struct {
	Name       string   `json:"name"`
	Desc       string   `json:"what"`
	Execs      int64    `json:"executions"`
	New        int64    `json:"distinct_schedules"`
	Steps      int64    `json:"steps"`
	SyncOps    int64    `json:"sync_operations"`
	Points     int64    `json:"choice_points"`
	MaxPts     int      `json:"max_choice_points_per_execution"`
	Completed  int      `json:"bound_completed"`
	Max        int      `json:"bound_wanted"`
	Partial    string   `json:"partial,omitempty"`
	Outcomes   int      `json:"distinct_outcomes"`
	Replayed   int64    `json:"replayed_identically"`
	Samples    []string `json:"-"`
	outcomeSet map[uint64]bool
	scen       int
	left       []Token
	started    bool
}

type item struct {
	st    *scenStat
	bound int
}

// Replay is the content of a replay file.
type Replay struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Tier     int      `json:"tier"`
	Node     []Dev    `json:"deviations"`
	Choices  []int    `json:"choices"`
	Msgs     []string `json:"violation"`
	Dump     string   `json:"state"`
	Trace    []string `json:"trace"`
}

func runProperty(prop string, tier int, limit time.Duration, out, replayDir, dir string, seed int, workers int, only string) int {
	start := time.Now()
	end := start.Add(limit)
	p := &parent{dir: dir, answers: make(chan answer, 64)}
	defer func() {
		for _, w := range p.procs {
			w.kill()
		}
	}()
	var stats []*scenStat
	maxBound := 0
	for i, s := range scenarios {
		if s.Prop != prop || s.ThoroughOnly && tier == 0 || only != "" && s.Name != only {
			continue
		}
		if s.Weight == 0 {
			s.Weight = 1
		}
		st := &scenStat{Name: s.Name, Desc: s.Desc, Completed: -1, Max: s.Max[tier], scen: i, outcomeSet: map[uint64]bool{}}
		stats = append(stats, st)
		if st.Max > maxBound {
			maxBound = st.Max
		}
	}
	if len(stats) == 0 {
		fmt.Printf("no scenarios for %s\n", prop)
		return 2
	}
	for i := 0; i < workers; i++ {
		p.procs = append(p.procs, p.start())
	}
	var fail *Failure
	var failStat *scenStat
	var failTier int
	notes := []string{}
	known := map[string]int{}
	diverged := 0
	divergeMsg := ""
	crashes := 0
	var items []item
	for b := 0; b <= maxBound; b++ {
		for _, st := range stats {
			if b <= st.Max {
				items = append(items, item{st, b})
			}
		}
	}
	handle := func(it item, a answer, queue *[]Token) (stop bool) {
		st := it.st
		if a.err != nil {
			// the worker died: find out what it was executing
			a.p.cmd.Wait()
			node := p.current(a.p)
			msg := firstLines(a.p.errB.String(), 12)
			for i, w := range p.procs {
				if w == a.p {
					p.procs[i] = p.start()
				}
			}
			crashes++
			died := 0
			var last error
			for i := 0; i < 3; i++ {
				if _, err := p.single(st.scen, tier, node, 60*time.Second); err != nil && err != errStuck {
					died++
					last = err
				} else {
					break
				}
			}
			if died == 3 && !strings.Contains(msg, "signal: killed") {
				fail = &Failure{Node: node, Msgs: []string{"the program died: " + last.Error()}}
				failStat = st
				return true
			}
			notes = append(notes, "a worker died without reproducing: "+msg)
			if crashes > 5 {
				return true
			}
			*queue = append(*queue, a.p.job.Tok)
			return false
		}
		r := a.res
		st.Execs += r.Execs
		st.New += r.New
		st.Steps += r.Steps
		st.SyncOps += r.SyncOps
		st.Points += r.Points
		st.Replayed += r.Replayed
		if r.MaxPts > st.MaxPts {
			st.MaxPts = r.MaxPts
		}
		for _, o := range r.Outcomes {
			st.outcomeSet[o] = true
		}
		if len(st.Samples) < 3 {
			st.Samples = append(st.Samples, r.Samples...)
		}
		for k, n := range r.Known {
			known[k] += n
		}
		if r.Diverged != "" {
			diverged++
			divergeMsg = r.Diverged
		}
		*queue = append(*queue, r.Tokens...)
		if r.Fail != nil {
			// confirm in fresh processes
			same := 0
			var last *Failure
			for i := 0; i < 5; i++ {
				rr, err := p.single(st.scen, tier, r.Fail.Node, 120*time.Second)
				if err == nil && rr.Fail != nil {
					same++
					last = rr.Fail
				}
			}
			if same == 5 {
				fail = last
				failStat = st
				return true
			}
			notes = append(notes, fmt.Sprintf("a failure was reproduced only %d times of 5 and is not reported: %s %v %v", same, st.Name, r.Fail.Node, r.Fail.Msgs))
			if f := os.Getenv("VERIF_UNREPRODUCED"); f != "" {
				b, _ := json.MarshalIndent(r.Fail, "", " ")
				os.WriteFile(f, b, 0644)
			}
			diverged++
		}
		return false
	}
	totalW := func(from int) (t float64) {
		for _, it := range items[from:] {
			if it.bound > 1 && items[from].bound <= 1 {
				break // the lower bounds come first
			}
			t += scenarios[it.st.scen].Weight * math.Pow(4, float64(it.bound))
		}
		return
	}
	drain := func() {
		for _, w := range p.procs {
			if w.busy {
				a := <-p.answers
				a.p.busy = false
			}
		}
	}
	runItem := func(it item, itEnd time.Time) bool {
		st := it.st
		queue := st.left
		if !st.started {
			queue = []Token{{Self: true, Mod: 1, Start: 0}}
			if it.bound > 0 {
				queue = nil
				for i := 0; i < 2*workers; i++ {
					queue = append(queue, Token{Self: i == 0, Mod: 2 * workers, Rem: i})
				}
			}
			st.started = true
		}
		st.left = nil
		busy := 0
		stuck := false
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			over := time.Now().After(itEnd)
			for !over && len(queue) > 0 && !stuck {
				var idle *proc
				for _, w := range p.procs {
					if !w.busy {
						idle = w
						break
					}
				}
				if idle == nil {
					break
				}
				t := queue[0]
				queue = queue[1:]
				if len(queue) < workers && !t.Self && t.Mod < 1<<20 {
					// split
					queue = append(queue, Token{Node: t.Node, Start: t.Start, Mod: t.Mod * 2, Rem: t.Rem + t.Mod})
					t.Mod *= 2
				}
				slice := 400
				if d := int(time.Until(itEnd).Milliseconds()); d < slice {
					slice = d
				}
				if slice < 20 {
					slice = 20
				}
				p.send(idle, Job{Scen: st.scen, Tier: tier, Bound: it.bound, Tok: t, SliceMs: slice})
				busy++
			}
			if busy == 0 {
				st.left = queue
				return len(queue) == 0
			}
			select {
			case a := <-p.answers:
				a.p.busy = false
				busy--
				if handle(it, a, &queue) {
					return false
				}
			case <-tick.C:
				for i, w := range p.procs {
					if w.busy && time.Since(w.since) > 90*time.Second {
						// stuck in code without scheduling points
						notes = append(notes, fmt.Sprintf("execution %v of %s gave no answer within 90 s and was given up", p.current(w), st.Name))
						w.cmd.Process.Kill()
						<-p.answers
						w.cmd.Wait()
						busy--
						p.procs[i] = p.start()
						stuck = true
					}
				}
			}
		}
	}
	type left struct {
		it item
	}
	incomplete := map[*scenStat]bool{}
	var pending []item
	for i, it := range items {
		if fail != nil {
			break
		}
		if incomplete[it.st] {
			continue
		}
		remaining := time.Until(end)
		if remaining <= 0 {
			it.st.Partial = fmt.Sprintf("bound %d not started (deadline)", it.bound)
			incomplete[it.st] = true
			continue
		}
		share := scenarios[it.st.scen].Weight * math.Pow(4, float64(it.bound)) / totalW(i)
		// the lower bounds should be completed; what they do not need goes on
		if it.bound == 0 && share < 0.3 {
			share = 0.3
		} else if it.bound == 1 && share < 0.15 {
			share = 0.15
		}
		itEnd := time.Now().Add(time.Duration(float64(remaining) * share))
		it.st.started = false
		if runItem(it, itEnd) {
			it.st.Completed = it.bound
		} else if fail == nil {
			incomplete[it.st] = true
			it.st.Partial = fmt.Sprintf("bound %d explored in part (deadline)", it.bound)
			pending = append(pending, it)
		}
	}
	// spend what is left on unfinished bounds
	for len(pending) > 0 && fail == nil && time.Until(end) > 300*time.Millisecond && crashes <= 5 {
		it := pending[0]
		pending = pending[1:]
		if len(it.st.left) == 0 {
			continue
		}
		itEnd := time.Now().Add(time.Until(end) / time.Duration(len(pending)+1))
		if runItem(it, itEnd) {
			it.st.Completed = it.bound
			it.st.Partial = ""
			if it.bound < it.st.Max {
				it.st.Partial = fmt.Sprintf("bound %d not started (deadline)", it.bound+1)
				// go on with the next bound
				it.bound++
				it.st.started = false
				it.st.left = []Token{{Self: true, Mod: 1}}
				it.st.started = true
				pending = append(pending, it)
			}
		}
	}
	drain()
	for _, w := range p.procs {
		w.jobs.Close()
		w.cmd.Process.Kill()
		w.cmd.Wait()
	}
	_ = failTier

	// evidence
	var bm []byte
	files, _ := filepath.Glob(filepath.Join(dir, "bits.*"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if bm == nil {
			bm = b
			continue
		}
		for i := range bm {
			if i < len(b) {
				bm[i] |= b[i]
			}
		}
	}
	set := 0
	for _, b := range bm {
		set += bits.OnesCount8(b)
	}
	// linear counting estimate of the number of distinct states
	m := float64(bitmapBits)
	distinct := int64(set)
	if set > 0 && float64(set) < m {
		distinct = int64(-m * math.Log(1-float64(set)/m))
	}
	if distinct < int64(set) {
		distinct = int64(set)
	}
	var execs, news, steps, points, replayed, ops int64
	var samples []string
	exhaustive := fail == nil && diverged == 0 && crashes == 0
	outc := 0
	for _, st := range stats {
		st.Outcomes = len(st.outcomeSet)
		execs += st.Execs
		news += st.New
		steps += st.Steps
		ops += st.SyncOps
		points += st.Points
		replayed += st.Replayed
		outc += st.Outcomes
		for i, s := range st.Samples {
			if i < 2 {
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				samples = append(samples, st.Name+": "+s)
			}
		}
		if st.Completed < st.Max {
			exhaustive = false
		}
	}
	cov := map[string]interface{}{
		"states":                        distinct,
		"transitions":                   steps,
		"traces_validated_against_impl": execs,
		"samples":                       samples,
		"evaluations":                   execs,
		"distinct_nontrivial":           news,
		"rule":                          "one execution of the real code per sequence of choices (schedule, datagram fates, environment answers, harness parameters) within the deviation bound; distinct by its choice sequence",
		"distinct_outcomes":             outc,
		"choice_points":                 points,
		"sync_operations":               ops,
		"replayed_identically":          replayed,
		"exhaustive":                    exhaustive,
		"scenarios":                     stats,
		"explanation":                   "The instrumented real code runs under a controlled scheduler, network and clock; states are distinct happens-before fingerprints plus virtual time (linear-counting estimate), transitions are scheduler steps, and every trace is an execution of the implementation. exhaustive is true when every scenario completed its wanted deviation bound.",
	}
	if diverged > 0 {
		cov["diverged"] = diverged
		cov["divergence"] = divergeMsg
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	viol := 0
	if fail != nil {
		viol = 1
	}
	ev := map[string]interface{}{
		"property": prop, "tier": []string{"quick", "thorough"}[tier], "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": viol,
		"assumptions": []string{
			"sequentially consistent interleavings at instrumented points; the virtual UDP network and clock stand for the real ones",
			"bounds as listed per scenario",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if out != "" {
		os.MkdirAll(filepath.Dir(out), 0o755)
		os.WriteFile(out, append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: %d executions (%d distinct), ~%d states, %d transitions, %d outcomes, exhaustive=%v, %.1fs\n", prop, []string{"quick", "thorough"}[tier], execs, news, distinct, steps, outc, exhaustive, time.Since(start).Seconds())
	for _, st := range stats {
		fmt.Printf("  %-28s bound %d/%d  %8d execs %8d new  maxpts %5d  outcomes %5d  %s\n", st.Name, st.Completed, st.Max, st.Execs, st.New, st.MaxPts, st.Outcomes, st.Partial)
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if diverged > 0 {
		fmt.Println("note: diverged", diverged, divergeMsg)
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	if fail != nil {
		os.MkdirAll(replayDir, 0o755)
		rp := filepath.Join(replayDir, fmt.Sprintf("%s-%s.json", prop, failStat.Name))
		r := Replay{prop, failStat.Name, tier, fail.Node, fail.Choices, fail.Msgs, fail.Dump, fail.Trace}
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		for _, m := range fail.Msgs {
			fmt.Println("  " + m)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		return 1
	}
	return 0
}

// ---- known findings ------------------------------------------------------------

type knownFinding struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Pattern  string `json:"pattern"`
	What     string `json:"what"`
	re       *regexp.Regexp
}

func loadKnown() (k []*knownFinding) {
	b, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return nil
	}
	var f struct {
		Known []*knownFinding `json:"known"`
	}
	if json.Unmarshal(b, &f) != nil {
		return nil
	}
	for _, e := range f.Known {
		e.re = regexp.MustCompile(e.Pattern)
	}
	return f.Known
}

func (w *worker) isKnown(s *Scenario, fails []string, res *Result) bool {
	for _, f := range fails {
		ok := false
		for _, k := range w.known {
			if k.Property == s.Prop && (k.Scenario == "" || k.Scenario == s.Name) && k.re.MatchString(f) {
				if res.Known == nil {
					res.Known = map[string]int{}
				}
				res.Known[k.What]++
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
