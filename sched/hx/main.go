package hx

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vrt"
)

type task struct {
	Scen     int    `json:"scen"`
	Name     string `json:"name"`
	Bound    int    `json:"bound"`
	Shard    int    `json:"shard"`
	Shards   int    `json:"shards"`
	Deadline int64  `json:"deadline"`
	Journal  string `json:"journal,omitempty"`
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Scenario string   `json:"scenario"`
	Bound    int      `json:"bound"`
	Sig      string   `json:"sig"`
	Case     int      `json:"case"`
	Desc     string   `json:"desc,omitempty"`
	Schedule []int    `json:"schedule,omitempty"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
	Repro    int      `json:"reproduced"`
}

// Main is the entry point of a harness.
func Main(prop string, build func(*Suite)) {
	tier := flag.String("tier", "quick", "")
	worker := flag.Bool("worker", false, "")
	replay := flag.String("replay", "", "")
	only := flag.String("only", "", "run only scenarios whose name contains this")
	budget := flag.Int("budget", 0, "seconds")
	list := flag.Bool("list", false, "")
	flag.Parse()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	s := &Suite{Prop: prop, Tier: *tier, Seed: seed}
	if *worker {
		setLimits()
	}
	build(s)
	switch {
	case *worker:
		s.worker()
	case *replay != "":
		s.replay(*replay)
	case *list:
		for _, sc := range s.scen {
			fmt.Println(sc.name)
		}
	default:
		if *budget == 0 {
			*budget = 240
			if *tier == "thorough" {
				*budget = 3600
			}
			if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil && v > 0 {
				*budget = v
			}
		}
		s.parent(*only, time.Duration(*budget)*time.Second)
	}
}

// ---------------------------------------------------------------------------------------------------

type knownFindings struct {
	sigs map[string]string // sig -> description
}

func loadKnown(prop string) knownFindings {
	k := knownFindings{map[string]string{}}
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="+prop+" "), " ", 2)
		if len(f) == 2 && strings.HasPrefix(f[0], "sig=") {
			k.sigs[strings.TrimPrefix(f[0], "sig=")] = f[1]
		}
	}
	return k
}

func (s *Suite) worker() {
	known := loadKnown(s.Prop)
	isKnown := func(sig string) bool { _, ok := known.sigs[sig]; return ok }
	out := os.NewFile(3, "results")
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	go watchdog()
	for in.Scan() {
		var t task
		if err := json.Unmarshal(in.Bytes(), &t); err != nil {
			panic(err)
		}
		r := s.runTask(t, isKnown)
		b, err := json.Marshal(r)
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
	}
}

var taskRunning bool

func (s *Suite) runTask(t task, isKnown func(string) bool) *report {
	sc := s.scen[t.Scen]
	taskRunning = true
	defer func() { taskRunning = false }()
	rep := &report{Outcomes: map[string]int{}, Known: map[string]int{}, Exhausted: true}
	var j *os.File
	if t.Journal != "" {
		j, _ = os.OpenFile(t.Journal, os.O_CREATE|os.O_RDWR, 0o644)
	}
	dl := time.Unix(0, t.Deadline)
	if sc.enum != nil {
		e := &E{Suite: s, shard: t.Shard, shards: t.Shards, only: -1, deadline: dl, rep: rep, journal: j, known: isKnown, states: map[uint64]struct{}{}, lastCheck: t.Shard}
		sc.enum(e)
		rep.StatesN = len(e.states)
		if len(e.states) < 1<<20 {
			for h := range e.states {
				rep.States = append(rep.States, h)
			}
		}
		return rep
	}
	cfg := sc.cfg
	cfg.Bound = t.Bound
	opt := vrt.Options{Shard: t.Shard, Shards: t.Shards, Deadline: dl, OnKnown: func(f *vrt.Failure) bool {
		if isKnown(f.Sig) {
			rep.Known[f.Sig]++
			return true
		}
		return false
	}}
	if j != nil {
		opt.BeforeRun = func(p []int) {
			b, _ := json.Marshal(p)
			j.WriteAt(append([]byte("schedule "), append(b, []byte("                                                                                \n")...)...), 0)
		}
	}
	st := vrt.Explore(cfg, opt, sc.body)
	rep.Runs, rep.Steps, rep.Nodes = st.Runs, st.Steps, st.Nodes
	rep.Outcomes, rep.Exhausted, rep.Diverged = st.Outcomes, st.Exhausted, st.Diverged
	rep.MaxDecs = st.MaxDecs
	if len(st.SampleSched) > 0 && t.Shard == 0 {
		rep.Samples = append(rep.Samples, fmt.Sprintf("schedule %v", st.SampleSched))
	}
	if st.Failure != nil {
		rep.Fail = &failure{Sig: st.Failure.Sig, Msg: st.Failure.Msg, Case: -1, Schedule: st.FailPrefix, Trace: compact(st.ReplayTrace), Repro: st.Reproduced}
		if rep.Fail.Schedule == nil {
			rep.Fail.Schedule = []int{}
		}
	}
	return rep
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process when a run makes no progress: code under test loops without end, or blocks
// on something outside the scheduler's control.
func watchdog() {
	last := int64(-1)
	var cpu time.Duration
	var wall time.Time
	for {
		time.Sleep(500 * time.Millisecond)
		p := vrt.Progress.Load()
		if p != last || !taskRunning {
			last, cpu, wall = p, cpuTime(), time.Now()
			continue
		}
		if cpuTime()-cpu > 20*time.Second {
			fmt.Fprintln(os.Stderr, "fatal error: no progress: the code under test does not terminate (20 s of CPU time in one step)")
			os.Exit(66)
		}
		if time.Since(wall) > 150*time.Second {
			fmt.Fprintln(os.Stderr, "fatal error: no progress: the code under test is blocked for good")
			os.Exit(67)
		}
	}
}

// ---------------------------------------------------------------------------------------------------

type workerProc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *bytes.Buffer
	mu     sync.Mutex
}

type capBuf struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (c *capBuf) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.b.Len() < 1<<16 {
		c.b.Write(p)
	}
	return len(p), nil
}

func (s *Suite) startWorker() *workerProc {
	exe, _ := os.Executable()
	w := &workerProc{stderr: &bytes.Buffer{}}
	w.cmd = exec.Command(exe, "-worker", "-tier", s.Tier)
	r, wr, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	w.cmd.ExtraFiles = []*os.File{wr}
	w.in, _ = w.cmd.StdinPipe()
	cb := &capBuf{b: w.stderr}
	w.cmd.Stdout = cb
	w.cmd.Stderr = cb
	if err := w.cmd.Start(); err != nil {
		panic(err)
	}
	wr.Close()
	w.out = bufio.NewReaderSize(r, 1<<20)
	return w
}

func (w *workerProc) do(t task) (*report, error) {
	b, _ := json.Marshal(t)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	line, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	r := &report{}
	return r, json.Unmarshal(line, r)
}

func (w *workerProc) kill() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

type scenTotal struct {
	Name      string         `json:"name"`
	Kind      string         `json:"kind"`
	Bound     int            `json:"deviation_bound_completed"`
	Runs      int            `json:"executions"`
	Steps     int            `json:"transitions"`
	Nodes     int            `json:"states"`
	Cases     int            `json:"cases,omitempty"`
	Outcomes  int            `json:"distinct_outcomes"`
	Exhausted bool           `json:"exhaustive"`
	Diverged  int            `json:"diverged,omitempty"`
	MaxDecs   int            `json:"max_choice_points,omitempty"`
	WallS     float64        `json:"worker_s"`
	outc      map[string]int `json:"-"`
	states    map[uint64]struct{}
	statesN   int
}

func (s *Suite) parent(only string, budget time.Duration) {
	start := time.Now()
	deadline := start.Add(budget)
	known := loadKnown(s.Prop)
	var tasks []task
	maxB := 0
	for _, sc := range s.scen {
		if sc.cfg.Bound > maxB {
			maxB = sc.cfg.Bound
		}
	}
	sel := func(sc *scenario) bool { return only == "" || strings.Contains(sc.name, only) }
	for b := 0; b <= maxB; b++ {
		for i, sc := range s.scen {
			if !sel(sc) {
				continue
			}
			if sc.enum != nil {
				if b == 0 {
					for k := 0; k < sc.shards; k++ {
						tasks = append(tasks, task{Scen: i, Name: sc.name, Shard: k, Shards: sc.shards})
					}
				}
				continue
			}
			if b < sc.lo || b > sc.cfg.Bound {
				continue
			}
			sh := sc.shards
			if b < 2 && !sc.cfg.Delay {
				sh = 1
			}
			for k := 0; k < sh; k++ {
				tasks = append(tasks, task{Scen: i, Name: sc.name, Bound: b, Shard: k, Shards: sh})
			}
		}
	}
	type key struct{ scen, bound int }
	tot := map[key]*scenTotal{}
	knownSeen := map[string]int{}
	var samples []string
	var mu sync.Mutex
	var viol *failure
	var violTask task
	var notes []string
	nw := 8
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		nw = v
	}
	var procs []*workerProc
	// pass runs the tasks.  With fair, the time until end is shared among the scenarios, what one of them does
	// not use being passed on to the later ones; without, a scenario may use all of it.
	pass := func(tasks []task, end time.Time, fair bool) {
		next := 0
		var wg sync.WaitGroup
		left := map[key]bool{}
		for _, t := range tasks {
			left[key{t.Scen, t.Bound}] = true
		}
		ends := map[key]time.Time{}
		for wi := 0; wi < nw && wi < len(tasks); wi++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var w *workerProc
				defer func() {
					if w != nil {
						w.kill()
					}
				}()
				for {
					mu.Lock()
					if next >= len(tasks) || viol != nil {
						mu.Unlock()
						return
					}
					t := tasks[next]
					next++
					k := key{t.Scen, t.Bound}
					until, started := ends[k]
					if !started {
						until = end
						if now := time.Now(); fair && now.Before(end) {
							until = now.Add(end.Sub(now) / time.Duration(len(left)))
						}
						ends[k] = until
						delete(left, k)
					}
					if time.Now().After(until) {
						tt := tot[key{t.Scen, t.Bound}]
						if tt == nil {
							tt = &scenTotal{Name: t.Name, Bound: t.Bound, outc: map[string]int{}, states: map[uint64]struct{}{}}
							tot[key{t.Scen, t.Bound}] = tt
						}
						tt.Exhausted = false
						mu.Unlock()
						continue
					}
					mu.Unlock()
					t.Deadline = until.UnixNano()
					if w == nil {
						w = s.startWorker()
						mu.Lock()
						procs = append(procs, w)
						mu.Unlock()
					}
					t0 := time.Now()
					r, err := w.do(t)
					mu.Lock()
					stopped := viol != nil
					mu.Unlock()
					if err != nil && !stopped {
						w.kill()
						w = nil
						r, err = s.attribute(t, known)
					}
					mu.Lock()
					if viol != nil {
						mu.Unlock()
						return
					}
					if err != nil {
						notes = append(notes, fmt.Sprintf("%s shard %d: %v", t.Name, t.Shard, err))
					}
					if r == nil {
						r = &report{}
					}
					tt := tot[k]
					if tt == nil {
						kind := "schedules"
						if s.scen[t.Scen].enum != nil {
							kind = "enumeration"
						}
						tt = &scenTotal{Name: t.Name, Kind: kind, Bound: t.Bound, Exhausted: true, outc: map[string]int{}, states: map[uint64]struct{}{}}
						tot[k] = tt
					}
					tt.Runs += r.Runs
					tt.Steps += r.Steps
					tt.Nodes += r.Nodes
					tt.Cases += r.Cases
					tt.Diverged += r.Diverged
					tt.WallS += time.Since(t0).Seconds()
					if r.MaxDecs > tt.MaxDecs {
						tt.MaxDecs = r.MaxDecs
					}
					tt.Exhausted = tt.Exhausted && r.Exhausted
					for o, n := range r.Outcomes {
						tt.outc[o] += n
					}
					for _, h := range r.States {
						tt.states[h] = struct{}{}
					}
					if len(r.States) == 0 {
						tt.statesN += r.StatesN
					}
					for sg, n := range r.Known {
						knownSeen[sg] += n
					}
					if len(samples) < 60 {
						for _, x := range r.Samples {
							samples = append(samples, t.Name+": "+x)
						}
					}
					if r.Fail != nil {
						viol, violTask = r.Fail, t
						for _, p := range procs {
							if p != w {
								p.cmd.Process.Kill()
							}
						}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	if s.Tier != "thorough" || only != "" {
		pass(tasks, deadline, false)
	} else {
		// first everything within its share of a part of the time, then what was cut within that of the rest
		pass(tasks, start.Add(budget/3), true)
		cut := map[key]bool{}
		for k, tt := range tot {
			if !tt.Exhausted {
				cut[k] = true
			}
		}
		var again []task
		for _, t := range tasks {
			if cut[key{t.Scen, t.Bound}] {
				again = append(again, t)
			}
		}
		if viol == nil && len(again) > 0 {
			for k := range cut {
				delete(tot, k)
			}
			pass(again, deadline, true)
		}
	}

	// per scenario: the deepest bound that was completed, else the one that was reached
	var list []*scenTotal
	states, trans, traces := 0, 0, 0
	exh := true
	for i, sc := range s.scen {
		if !sel(sc) {
			continue
		}
		var best *scenTotal
		complete := -1
		for b := 0; b <= maxB; b++ {
			if tt := tot[key{i, b}]; tt != nil && (tt.Runs > 0 || best == nil) {
				best = tt
				if tt.Exhausted {
					complete = b
				}
			}
		}
		if best == nil {
			exh = false
			continue
		}
		want := sc.cfg.Bound
		if complete < want || !best.Exhausted {
			exh = false
		}
		best.Outcomes = len(best.outc)
		best.Bound = complete
		best.Exhausted = complete >= want
		best.Nodes += len(best.states) + best.statesN
		list = append(list, best)
		states += best.Nodes
		trans += best.Steps
		traces += best.Runs
	}
	if viol != nil {
		exh = false
	}
	if len(samples) > 24 {
		samples = samples[:24]
	}
	if samples == nil {
		samples = []string{}
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	var ks []string
	for sg := range knownSeen {
		ks = append(ks, sg)
	}
	sort.Strings(ks)
	ev := map[string]any{
		"property": s.Prop, "tier": s.Tier, "seed": s.Seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces,
			"samples": samples, "exhaustive": exh, "scenarios": list, "notes": notes,
			"known_findings_seen": ks,
		},
		"assumptions": append([]string{"sequentially consistent memory at statement granularity; scheduling points at every synchronisation operation and access to shared memory of the instrumented packages", "bounds as listed per scenario"}, s.Assumptions...),
		"wall_s":      time.Since(start).Seconds(), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if only == "" {
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
		if err := os.WriteFile(evidencePath(s.Prop), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	for _, l := range list {
		fmt.Printf("%-44s bound=%d execs=%d states=%d steps=%d outcomes=%d exhaustive=%v %.1fs\n", l.Name, l.Bound, l.Runs, l.Nodes, l.Steps, l.Outcomes, l.Exhausted, l.WallS)
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	for _, sg := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (sig %s)\n", s.Prop, known.sigs[sg], sg)
	}
	if viol != nil {
		sc := s.scen[violTask.Scen]
		rf := replayFile{s.Prop, s.Tier, sc.name, violTask.Bound, viol.Sig, viol.Case, viol.Desc, viol.Schedule, viol.Msg, viol.Trace, viol.Repro}
		rb, _ := json.MarshalIndent(rf, "", " ")
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, s.Prop+".json")
		os.WriteFile(path, append(rb, '\n'), 0o644)
		fmt.Printf("scenario %s: %s\n%s\n%s\n", sc.name, viol.Sig, viol.Desc, viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.Prop, path)
		os.Exit(1)
	}
	fmt.Printf("OK property=%s tier=%s states=%d transitions=%d executions=%d exhaustive=%v wall=%.1fs\n", s.Prop, s.Tier, states, trans, traces, exh, time.Since(start).Seconds())
}

// attribute re-runs a task whose worker died, keeping a journal, to learn which case kills it.
func (s *Suite) attribute(t task, known knownFindings) (*report, error) {
	dir, err := os.MkdirTemp("", "vjournal")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	last := ""
	for k := 0; k < 2; k++ {
		t.Journal = filepath.Join(dir, "j"+strconv.Itoa(k))
		w := s.startWorker()
		r, err := w.do(t)
		w.kill()
		if err == nil {
			return r, nil
		}
		jb, _ := os.ReadFile(t.Journal)
		line, _, _ := strings.Cut(string(jb), "\n")
		line = strings.TrimSpace(line)
		if line == "" {
			line = "(before the first case)"
		}
		if k == 1 && line == last {
			msg := w.stderr.String()
			if len(msg) > 3000 {
				msg = msg[:3000]
			}
			f := &failure{Sig: "crash:" + crashSite(msg), Msg: "the process running the code under test died: " + msg, Desc: line, Repro: 3, Case: -1}
			if strings.HasPrefix(line, "case ") {
				n, _, _ := strings.Cut(strings.TrimPrefix(line, "case "), ":")
				f.Case, _ = strconv.Atoi(n)
			}
			if strings.HasPrefix(line, "schedule ") {
				json.Unmarshal([]byte(strings.TrimPrefix(line, "schedule ")), &f.Schedule)
			}
			return &report{Fail: f}, nil
		}
		last = line
	}
	return nil, fmt.Errorf("worker died, not reproducibly (last: %s)", last)
}

func crashSite(msg string) string {
	kind := "fatal"
	switch {
	case strings.Contains(msg, "stack overflow") || strings.Contains(msg, "stack exceeds"):
		kind = "stack-overflow"
	case strings.Contains(msg, "out of memory"):
		kind = "out-of-memory"
	case strings.Contains(msg, "no progress"):
		kind = "hang"
	}
	for _, l := range strings.Split(msg, "\n") {
		if strings.HasPrefix(l, "github.com/nanobus/iota/go/") && !strings.Contains(l, "/zzverif/") {
			l = strings.TrimPrefix(l, "github.com/nanobus/iota/go/")
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return kind + ":" + strings.ReplaceAll(l, " ", "")
		}
	}
	return kind
}

func (s *Suite) replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, sc := range s.scen {
		if sc.name != rf.Scenario {
			continue
		}
		if sc.enum != nil {
			rep := &report{Outcomes: map[string]int{}, Known: map[string]int{}}
			e := &E{Suite: s, shard: 0, shards: 1, only: rf.Case, rep: rep, states: map[uint64]struct{}{}, schedOnly: rf.Schedule, verbose: true}
			sc.enum(e)
			if rep.Fail != nil {
				fmt.Printf("reproduced: %s\n%s\n%s\n", rep.Fail.Sig, rep.Fail.Desc, rep.Fail.Msg)
				os.Exit(1)
			}
			fmt.Println("not reproduced")
			return
		}
		cfg := sc.cfg
		cfg.Bound = rf.Bound
		f, tr := vrt.Replay(cfg, rf.Schedule, sc.body)
		for _, t := range tr {
			fmt.Println("  ", t)
		}
		if f != nil {
			fmt.Printf("reproduced: %s\n%s\n", f.Sig, f.Msg)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		return
	}
	fmt.Println("no such scenario", rf.Scenario)
	os.Exit(2)
}
