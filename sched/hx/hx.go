// Package hx runs a property's scenarios: it shards them over worker processes, collects counts, matches
// failures against the list of known findings, and writes the evidence and replay files.
package hx

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"syscall"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vrt"
)

// Suite is the set of scenarios that decide one property.
type Suite struct {
	Prop string
	Tier string
	Seed int64
	scen []*scenario
	// Assumptions go to the evidence file.
	Assumptions []string
}

type scenario struct {
	name   string
	shards int
	cfg    vrt.Config
	body   func()
	enum   func(*E)
	lo     int
}

func (s *Suite) Thorough() bool { return s.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick[T any](s *Suite, q, t T) T {
	if s.Thorough() {
		return t
	}
	return q
}

func (s *Suite) add(sc *scenario) {
	for _, o := range s.scen {
		if o.name == sc.name {
			panic("duplicate scenario " + sc.name)
		}
	}
	s.scen = append(s.scen, sc)
}

// Explore enumerates the schedules of body with every deviation bound up to cfg.Bound.
func (s *Suite) Explore(name string, cfg vrt.Config, body func()) {
	s.add(&scenario{name: name, shards: 8, cfg: cfg, body: body})
}

// Explore1 is Explore for a scenario too small to be worth sharding.
func (s *Suite) Explore1(name string, cfg vrt.Config, body func()) {
	s.add(&scenario{name: name, shards: 1, cfg: cfg, body: body, lo: cfg.Bound})
}

// Enum runs an exhaustive enumeration written by hand, in the given number of shards.
func (s *Suite) Enum(name string, shards int, f func(*E)) {
	s.add(&scenario{name: name, shards: shards, enum: f})
}

// E is the context of one shard of an enumeration.
type E struct {
	Suite         *Suite
	shard, shards int
	idx           int // number of the current case
	only          int // replay: the case to run, or -1
	deadline      time.Time
	rep           *report
	journal       *os.File
	known         func(sig string) bool
	stop          bool
	last          int64
	states        map[uint64]struct{}
	schedOnly     []int
	inCase        bool
	desc          func() string
	lastCheck     int
	verbose       bool
}

type report struct {
	Runs      int            `json:"runs"`
	Steps     int            `json:"steps"`
	Nodes     int            `json:"nodes"`
	States    []uint64       `json:"states,omitempty"`
	StatesN   int            `json:"statesn"`
	Cases     int            `json:"cases"`
	Outcomes  map[string]int `json:"outcomes,omitempty"`
	Samples   []string       `json:"samples,omitempty"`
	Exhausted bool           `json:"exhausted"`
	Diverged  int            `json:"diverged"`
	Known     map[string]int `json:"known,omitempty"`
	Fail      *failure       `json:"fail,omitempty"`
	MaxDecs   int            `json:"maxdecs"`
}

type failure struct {
	Sig      string   `json:"sig"`
	Msg      string   `json:"msg"`
	Case     int      `json:"case"`
	Desc     string   `json:"desc,omitempty"`
	Schedule []int    `json:"schedule,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Repro    int      `json:"repro"`
}

type caseFail struct{ sig, msg string }

type stopEnum struct{}

// Case runs one case of the enumeration (if it belongs to this shard).  A panic is a failure "panic"; use
// Fail for others.
func (e *E) Case(desc func() string, f func()) {
	if e.stop {
		return
	}
	i := e.idx
	e.idx++
	if e.only >= 0 {
		if i != e.only {
			return
		}
	} else if e.shards > 1 && i%e.shards != e.shard {
		return
	}
	if i&63 == e.lastCheck&63 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
		e.stop = true
		e.rep.Exhausted = false
		return
	}
	if e.journal != nil {
		e.journal.WriteAt([]byte(fmt.Sprintf("case %d: %-200s\n", i, oneLine(desc()))), 0)
	}
	vrt.Progress.Add(1)
	e.desc = desc
	if e.only < 0 {
		e.schedOnly = nil
	}
	e.rep.Cases++
	e.rep.Runs++
	fl := e.try(f)
	if fl == nil {
		if len(e.rep.Samples) < 2 && (e.rep.Cases == 1 || e.rep.Cases == 50) {
			e.rep.Samples = append(e.rep.Samples, trunc(desc(), 300))
		}
		return
	}
	if e.known != nil && e.known(fl.sig) {
		e.rep.Known[fl.sig]++
		return
	}
	// re-run to make sure
	rep := 1
	for k := 0; k < 4; k++ {
		if f2 := e.try(f); f2 != nil && f2.sig == fl.sig {
			rep++
		}
	}
	if rep < 2 {
		return
	}
	e.rep.Fail = &failure{Sig: fl.sig, Msg: fl.msg, Case: i, Desc: trunc(desc(), 4000), Repro: rep, Schedule: e.schedOnly}
	e.stop = true
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func oneLine(s string) string { return strings.ReplaceAll(trunc(s, 400), "\n", " ") }

func (e *E) try(f func()) (fl *caseFail) {
	defer func() {
		if r := recover(); r != nil {
			if c, ok := r.(caseFail); ok {
				fl = &c
				return
			}
			st := string(debug.Stack())
			fl = &caseFail{"panic:" + vrt.PanicSite(st), fmt.Sprintf("panic: %v\n%s", r, trimStack(st))}
		}
	}()
	f()
	return nil
}

func trimStack(s string) string {
	if i := strings.Index(s, "\npanic("); i >= 0 {
		s = s[i+1:]
	}
	lines := strings.Split(s, "\n")
	if len(lines) > 16 {
		lines = lines[:16]
	}
	return strings.Join(lines, "\n")
}

// Fail reports a violation in the current case.
func (e *E) Fail(sig, format string, a ...any) {
	panic(caseFail{strings.ReplaceAll(sig, " ", "_"), fmt.Sprintf(format, a...)})
}

// Check fails the case unless ok.
func (e *E) Check(ok bool, sig, format string, a ...any) {
	if !ok {
		e.Fail(sig, format, a...)
	}
}

// Stop tells whether the enumeration should end (a failure was found, or time is up).
func (e *E) Stop() bool { return e.stop }

// Step counts n transitions (operations executed on the real code).
func (e *E) Step(n int) { e.rep.Steps += n; vrt.Progress.Add(1) }

// Outcome counts a distinct observed outcome.
func (e *E) Outcome(o string) {
	if len(e.rep.Outcomes) < 3000 || e.rep.Outcomes[o] > 0 {
		e.rep.Outcomes[o]++
	}
}

// State records a state (given in canonical form); true if it is new in this shard.
func (e *E) State(key string) bool {
	h := fnv.New64a()
	h.Write([]byte(key))
	k := h.Sum64()
	if _, ok := e.states[k]; ok {
		return false
	}
	e.states[k] = struct{}{}
	return true
}

// Sched explores the schedules of body within one case; a failing schedule fails the case.
func (e *E) Sched(cfg vrt.Config, body func()) {
	if e.schedOnly != nil && e.only >= 0 {
		f, tr := vrt.Replay(cfg, e.schedOnly, body)
		if e.verbose {
			for _, t := range tr {
				fmt.Println("   ", t)
			}
		}
		if f != nil {
			panic(caseFail{f.Sig, f.Msg})
		}
		return
	}
	st := vrt.Explore(cfg, vrt.Options{Deadline: e.deadline, OnKnown: func(f *vrt.Failure) bool {
		if e.known != nil && e.known(f.Sig) {
			e.rep.Known[f.Sig]++
			return true
		}
		return false
	}}, body)
	e.rep.Runs += st.Runs - 1
	if st.Runs == 0 {
		e.rep.Runs++
	}
	e.rep.Steps += st.Steps
	e.rep.Nodes += st.Nodes
	e.rep.Diverged += st.Diverged
	if st.MaxDecs > e.rep.MaxDecs {
		e.rep.MaxDecs = st.MaxDecs
	}
	for o := range st.Outcomes {
		e.Outcome(o)
	}
	if !st.Exhausted && st.Failure == nil {
		e.rep.Exhausted = false
	}
	if st.Failure != nil {
		e.schedOnly = st.FailPrefix
		if e.schedOnly == nil {
			e.schedOnly = []int{}
		}
		msg := st.Failure.Msg + "\nschedule:\n  " + strings.Join(compact(st.ReplayTrace), "\n  ")
		panic(caseFail{st.Failure.Sig, msg})
	}
}

func compact(tr []string) []string {
	if len(tr) > 400 {
		tr = append(append([]string{}, tr[:60]...), tr[len(tr)-340:]...)
	}
	return tr
}

// ----------------------------------------------------------------------------------------------------

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// Allocated is the number of heap bytes allocated so far (large objects exactly, small ones roughly).
func Allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// Alloc runs f and returns the heap bytes it allocated.
func Alloc(f func()) uint64 {
	a := Allocated()
	f()
	return Allocated() - a
}

func setLimits() {
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_AS, &lim) == nil {
		lim.Cur = 4 << 30
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	runtime.GOMAXPROCS(2)
	debug.SetMaxStack(64 << 20)
	debug.SetTraceback("single")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func evidencePath(prop string) string { return filepath.Join(verifDir(), "evidence", prop+".json") }
