package hx

import "github.com/nanobus/iota/go/internal/zzverif/vrt"

// Op is one call in a recorded history.
type Op struct {
	Name       string
	Arg        int
	Res        string
	Start, End int
	Thread     int
}

// History records calls with logical times.
type History struct {
	Ops   []Op
	clock int
}

// Do records f as one call.
func (h *History) Do(name string, arg int, f func() string) string {
	i := len(h.Ops)
	h.clock++
	h.Ops = append(h.Ops, Op{Name: name, Arg: arg, Start: h.clock, End: 1 << 30, Thread: vrt.ThreadID()})
	r := f()
	h.clock++
	h.Ops[i].Res, h.Ops[i].End = r, h.clock
	return r
}

// Linearizable looks for an order of the calls, compatible with real time, in which each call's result is
// what the sequential model gives.  apply returns the expected result and the next state.
func Linearizable[S any](h *History, init S, apply func(S, Op) (string, S)) bool {
	n := len(h.Ops)
	used := make([]bool, n)
	var rec func(s S, k int) bool
	rec = func(s S, k int) bool {
		if k == n {
			return true
		}
		minEnd := 1 << 30
		for i, o := range h.Ops {
			if !used[i] && o.End < minEnd {
				minEnd = o.End
			}
		}
		for i, o := range h.Ops {
			if used[i] || o.Start > minEnd {
				continue
			}
			r, ns := apply(s, o)
			if r != o.Res {
				continue
			}
			used[i] = true
			if rec(ns, k+1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(init, 0)
}
