package vrt

import (
	"fmt"
	"time"
)

// Stats of an exploration.
type Stats struct {
	Runs        int
	Steps       int
	Nodes       int // distinct scheduling decisions visited (prefix-distinct)
	Outcomes    map[string]int
	Diverged    int
	Exhausted   bool
	MaxDecs     int
	Failure     *Failure
	FailPrefix  []int
	Reproduced  int
	ReplayTrace []string
	SampleSched []int
}

type Options struct {
	Shard, Shards int
	Deadline      time.Time
	MaxRuns       int
	BeforeRun     func(prefix []int)
	OnKnown       func(f *Failure) bool // returns true if the failure is a known finding: note it and go on
	Rerun         int
}

func costOf(cfg Config, d decision, alt int) int {
	if alt == 0 {
		return 0
	}
	if d.env {
		return 0
	}
	if cfg.Delay {
		return alt
	}
	if d.cur {
		return 1
	}
	return 0
}

func hash2(i, a, j, b int) int {
	h := uint32(2166136261)
	for _, x := range []int{i, a, j, b} {
		h ^= uint32(x)
		h *= 16777619
		h ^= h >> 13
	}
	return int(h & 0x7fffffff)
}

// Explore enumerates every schedule of body within the bounds.
func Explore(cfg Config, opt Options, body func()) *Stats {
	st := &Stats{Outcomes: map[string]int{}}
	if opt.Shards == 0 {
		opt.Shards = 1
	}
	if opt.Rerun == 0 {
		opt.Rerun = 4
	}
	var prefix, prefixN []int
	newFrom := 0
	for {
		if opt.MaxRuns > 0 && st.Runs >= opt.MaxRuns {
			return st
		}
		if !opt.Deadline.IsZero() && time.Now().After(opt.Deadline) {
			return st
		}
		if opt.BeforeRun != nil {
			opt.BeforeRun(prefix)
		}
		r := runOnce(cfg, prefix, prefixN, body, false)
		decs := r.Decs
		// which deviations does this run have?
		i1, a1, i2, a2 := -1, 0, -1, 0
		for i, d := range decs {
			if d.chosen != 0 {
				if i1 < 0 {
					i1, a1 = i, d.chosen
				} else {
					i2, a2 = i, d.chosen
					break
				}
			}
		}
		mine := true
		if i2 < 0 {
			mine = hash2(i1, a1, 0, 0)%opt.Shards == opt.Shard
		}
		_ = a2
		if mine {
			st.Runs++
			st.Steps += r.Steps
			if len(decs) > newFrom {
				st.Nodes += len(decs) - newFrom
			} else {
				st.Nodes++
			}
			if len(decs) > st.MaxDecs {
				st.MaxDecs = len(decs)
			}
			if len(st.Outcomes) < 2000 || st.Outcomes[r.Outcome] > 0 {
				st.Outcomes[r.Outcome]++
			}
			if r.Diverged {
				st.Diverged++
			}
			if len(st.SampleSched) == 0 && i1 >= 0 {
				for _, d := range decs {
					st.SampleSched = append(st.SampleSched, d.chosen)
				}
			}
		}
		if r.Failure != nil && !r.Diverged {
			// confirm by replaying the very same schedule
			var choices, ns []int
			for _, d := range decs {
				choices = append(choices, d.chosen)
				ns = append(ns, d.n)
			}
			rep := 0
			var tr []string
			for k := 0; k < opt.Rerun; k++ {
				rr := runOnce(cfg, choices, ns, body, k == 0)
				if rr.Failure != nil && rr.Failure.Sig == r.Failure.Sig {
					rep++
				}
				if k == 0 {
					tr = rr.Trace
				}
			}
			if rep > 0 {
				if opt.OnKnown == nil || !opt.OnKnown(r.Failure) {
					st.Failure = r.Failure
					st.FailPrefix = choices
					st.Reproduced = rep
					st.ReplayTrace = tr
					return st
				}
			}
		}
		// backtrack: next alternative within bounds, depth first
		used := make([]int, len(decs)+1)
		free := make([]int, len(decs)+1)
		for i, d := range decs {
			used[i+1] = used[i] + costOf(cfg, d, d.chosen)
			free[i+1] = free[i]
			if d.chosen != 0 && !d.env && costOf(cfg, d, d.chosen) == 0 {
				free[i+1]++
			}
		}
		found := false
		for i := len(decs) - 1; i >= 0 && !found; i-- {
			d := decs[i]
			// number and position of deviations before i
			for alt := d.chosen + 1; alt < d.n; alt++ {
				if used[i]+costOf(cfg, d, alt) > cfg.Bound {
					if cfg.Delay && !d.env {
						break
					}
					continue
				}
				if cfg.FreeLimit > 0 && !d.env && costOf(cfg, d, alt) == 0 && free[i] >= cfg.FreeLimit {
					continue
				}
				// sharding on the pair of the first two deviations
				nd, di, da := 0, -1, 0
				for j := 0; j < i; j++ {
					if decs[j].chosen != 0 {
						nd++
						if nd == 1 {
							di, da = j, decs[j].chosen
						}
					}
				}
				if nd == 1 && hash2(di, da, i, alt)%opt.Shards != opt.Shard {
					continue
				}
				prefix = prefix[:0:0]
				prefixN = prefixN[:0:0]
				for j := 0; j < i; j++ {
					prefix = append(prefix, decs[j].chosen)
					prefixN = append(prefixN, decs[j].n)
				}
				prefix = append(prefix, alt)
				prefixN = append(prefixN, d.n)
				newFrom = i + 1
				found = true
				break
			}
		}
		if !found {
			st.Exhausted = st.Diverged == 0
			return st
		}
	}
}

// Replay runs one schedule and returns its failure and trace.
func Replay(cfg Config, choices []int, body func()) (*Failure, []string) {
	r := runOnce(cfg, choices, nil, body, true)
	if r.Diverged {
		return &Failure{"diverged", "the schedule does not fit the code any more"}, r.Trace
	}
	return r.Failure, r.Trace
}

func (s *Stats) String() string {
	return fmt.Sprintf("runs=%d nodes=%d steps=%d outcomes=%d exhausted=%v", s.Runs, s.Nodes, s.Steps, len(s.Outcomes), s.Exhausted)
}

// RunSolo runs body under the scheduler with the default schedule only and returns its failure, if any.
func RunSolo(body func()) *Failure {
	return runOnce(Config{Horizon: 500000}, nil, nil, body, false).Failure
}
