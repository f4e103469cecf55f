// C14: a flow runs its steps once each, in order, waiting for what each awaits.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

var (
	cur     string
	errStep = errors.New("step failed")
	errWait = errors.New("awaited failed")
)

func now() string { return cur }

// What a step awaits, one letter each:
//
//	j just, e error mono, E error flux       ended from the start
//	d processor that completed before, and is subscribed
//	u processor that completed before, not subscribed
//	l created mono, completing when it is subscribed (lazily)
//	s slice flux
//	m mapped processor
//	p processor (mono) completed later by a thread; P fails later
//	q flux processor completed later by a thread; Q fails, X is cancelled later
const kinds = "jeEdulsmpPqQX"

// How a step ends: 0 proceeds, E fails, x ends the flow, S delivers the result
type step struct {
	awaits string
	how    byte
}

func (s step) String() string { return fmt.Sprintf("[%s]%c", s.awaits, s.how) }

type state struct {
	what   string
	log    []int
	busy   bool
	waited [][]func() bool // per step: has each awaited one ended
	later  []func()        // what completes the awaited ones
	steps  []step
}

func (st *state) bad(sig, f string, a ...any) {
	vrt.Fail(sig, "%s: %s; steps run %v", st.what, fmt.Sprintf(f, a...), st.log)
}

func (st *state) awaitable(k byte) (await.Awaitable, func() bool) {
	yes := func() bool { return true }
	switch k {
	case 'j':
		return mono.Just(1), yes
	case 'e':
		return mono.Error[int](errWait), yes
	case 'E':
		return flux.Error[int](errWait), yes
	case 'd':
		p := mono.NewProcessor[int]()
		p.Subscribe(mono.Subscribe[int]{})
		p.Success(1)
		return p, yes
	case 'u':
		p := mono.NewProcessor[int]()
		p.Success(1)
		return p, yes
	case 'l':
		ended := false
		return mono.Create(func(s mono.Sink[int]) {
			if ended {
				st.bad("lazy-twice", "an awaited mono was subscribed twice")
			}
			ended = true
			s.Success(1)
		}), func() bool { return ended }
	case 's':
		n := 0
		f := flux.FromSlice([]int{1, 2})
		ended := false
		f.Notify(func(rx.SignalType) { ended = true })
		_ = n
		return f, func() bool { return ended }
	case 'm', 'p', 'P':
		p := mono.NewProcessor[int]()
		ended := false
		st.later = append(st.later, func() {
			ended = true
			if k == 'P' {
				p.Error(errWait)
			} else {
				p.Success(1)
			}
		})
		if k == 'm' {
			return mono.Map[int, int](p, func(v int) (int, error) { return v, nil }), func() bool { return ended }
		}
		return p, func() bool { return ended }
	case 'q', 'Q', 'X':
		p := flux.NewProcessor[int]()
		ended := false
		if k == 'X' {
			p.Subscribe(flux.Subscribe[int]{})
		}
		st.later = append(st.later, func() {
			p.Next(1)
			ended = true
			switch k {
			case 'q':
				p.Complete()
			case 'Q':
				p.Error(errWait)
			case 'X':
				p.Subscription().Cancel()
			}
		})
		return p, func() bool { return ended }
	}
	panic(k)
}

// build makes the flow; the awaited ones that complete later exist from the start
func build(what string, steps []step, isFlux bool) (*state, *flow.Flow[int]) {
	st := &state{what: what, steps: steps}
	f := flow.New[int]()
	type aw struct {
		a     await.Awaitable
		ended func() bool
	}
	all := make([][]aw, len(steps))
	for i, s := range steps {
		for _, k := range []byte(s.awaits) {
			a, ended := st.awaitable(k)
			all[i] = append(all[i], aw{a, ended})
		}
	}
	for i, s := range steps {
		i, s := i, s
		f.Steps(func() (await.Group, error) {
			if st.busy {
				st.bad("overlap", "step %d starts while another is running", i)
			}
			st.busy = true
			defer func() { st.busy = false }()
			if i != len(st.log) {
				st.bad("order", "step %d runs in place of step %d", i, len(st.log))
			}
			for j := 0; j < i; j++ {
				for k, a := range all[j] {
					if !a.ended() {
						st.bad("early", "step %d runs before the %d. awaited result of step %d has ended", i, k+1, j)
					}
				}
			}
			st.log = append(st.log, i)
			vrt.P("step")
			var g []await.Awaitable
			for _, a := range all[i] {
				g = append(g, a.a)
			}
			switch s.how {
			case 'E':
				return nil, errStep
			case 'e':
				return f.Error(errStep)
			case 'x':
				return f.End()
			case 'S':
				if isFlux {
					f.Next(i)
					return f.Complete()
				}
				return f.Success(i)
			case 'n':
				f.Next(i)
			}
			return await.All(g...)
		})
	}
	return st, f
}

// expect is the number of steps that run and the end
func expect(steps []step) (n int, end string) {
	for i, s := range steps {
		switch s.how {
		case 'E', 'e':
			return i + 1, "error step failed"
		case 'x':
			return i + 1, ""
		case 'S':
			return i + 1, fmt.Sprint("success ", i)
		}
	}
	return len(steps), ""
}

func (st *state) judge(ends []string) {
	n, end := expect(st.steps)
	if len(st.log) != n {
		st.bad("stalled", "%d steps ran instead of %d", len(st.log), n)
	}
	if got := strings.Join(ends, ","); got != end {
		st.bad("result", "the flow's result is %q instead of %q", got, end)
	}
}

// startFlow subscribes to the flow
func start(f *flow.Flow[int], isFlux bool, steps []step) *[]string {
	ends := &[]string{}
	if isFlux {
		items := ""
		f.Flux().Subscribe(flux.Subscribe[int]{
			OnNext:     func(v int) { items = fmt.Sprint(v) },
			OnComplete: func() { *ends = append(*ends, "success "+items) },
			OnError:    func(err error) { *ends = append(*ends, "error "+err.Error()) },
		})
	} else {
		f.Mono().Subscribe(mono.Subscribe[int]{
			OnSuccess: func(v int) { *ends = append(*ends, fmt.Sprint("success ", v)) },
			OnError:   func(err error) { *ends = append(*ends, "error "+err.Error()) },
		})
	}
	return ends
}

func groups(n int) (r []string) {
	r = []string{""}
	for i := 0; i < len(r); i++ {
		if len(r[i]) < n {
			for _, k := range kinds {
				r = append(r, r[i]+string(k))
			}
		}
	}
	return r
}

func perms(n int) (r [][]int) {
	if n == 0 {
		return [][]int{nil}
	}
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

func laters(steps []step) (n int) {
	for _, s := range steps {
		for _, k := range s.awaits {
			if strings.ContainsRune("mpPqQX", k) {
				n++
			}
		}
	}
	return n
}

// sequential: the results arrive one after the other in the given order, the first `before` of them before
// the flow starts
func sequential(e *hx.E, steps []step, isFlux bool) {
	n := laters(steps)
	for _, order := range perms(n) {
		for before := 0; before <= n; before++ {
			what := fmt.Sprintf("flow %v (flux: %v), results in order %v, %d before the flow starts", steps, isFlux, order, before)
			cur = what
			e.Sched(vrt.Config{Bound: 0, Horizon: 5000}, func() {
				st, f := build(what, steps, isFlux)
				for i, k := range order {
					if i == before {
						break
					}
					st.later[k]()
				}
				vrt.Quiesce()
				ends := start(f, isFlux, steps)
				vrt.Quiesce()
				for _, k := range order[before:] {
					st.later[k]()
					vrt.Quiesce()
				}
				st.judge(*ends)
				vrt.Outcome("%v", *ends)
			})
		}
	}
}

// concurrent: each result arrives from a thread of its own
func concurrent(steps []step, isFlux bool) {
	what := fmt.Sprintf("flow %v (flux: %v), results from threads", steps, isFlux)
	st, f := build(what, steps, isFlux)
	var ts []*vrt.Thread
	for i, l := range st.later {
		ts = append(ts, vrt.GoNamed(fmt.Sprint("completer", i), l))
	}
	ends := start(f, isFlux, steps)
	vrt.Join(ts...)
	vrt.Quiesce()
	st.judge(*ends)
	vrt.Outcome("%v %v", st.log, *ends)
}

func main() {
	hx.Main("C14", func(s *hx.Suite) {
		g1, g2 := groups(1), groups(2)
		hows := "0ExSe"
		s.Enum("flows of up to two steps with up to two awaited results", 8, func(e *hx.E) {
			for _, a := range g2 {
				for _, h := range []byte(hows) {
					for _, fx := range []bool{false, true} {
						a, h, fx := a, h, fx
						e.Case(now, func() {
							sequential(e, []step{{a, h}}, fx)
							for _, b := range g1 {
								sequential(e, []step{{a, h}, {b, 'S'}}, fx)
								sequential(e, []step{{a, '0'}, {b, h}}, fx)
								if len(b) > 0 || s.Thorough() {
									sequential(e, []step{{b, h}, {a, 'S'}}, fx)
								}
							}
							if s.Thorough() {
								for _, b := range g2 {
									if len(b) == 2 {
										sequential(e, []step{{a, '0'}, {b, '0'}, {"", 'S'}}, fx)
									}
								}
							}
						})
					}
				}
			}
		})
		s.Enum("flows of three steps", 8, func(e *hx.E) {
			for _, a := range g1 {
				for _, b := range g1 {
					for _, c := range g1 {
						a, b, c := a, b, c
						e.Case(now, func() {
							for at := 0; at < 3; at++ {
								for _, h := range []byte(hows) {
									st := []step{{a, '0'}, {b, '0'}, {c, '0'}}
									if h == '0' && at > 0 {
										continue
									}
									st[at].how = h
									sequential(e, st, false)
									if s.Thorough() || at == 1 {
										sequential(e, st, true)
									}
								}
							}
						})
					}
				}
			}
		})
		s.Enum("three awaited results", 8, func(e *hx.E) {
			for _, a := range groups(3) {
				if len(a) == 3 {
					a := a
					e.Case(now, func() { sequential(e, []step{{a, '0'}, {"j", 'S'}}, false) })
				}
			}
		})
		s.Enum("lists of steps", 8, func(e *hx.E) { lists(e, hx.Pick(s, 3, 4)) })
		s.Enum("long flows and many awaited results", 8, func(e *hx.E) { long(e, hx.Pick(s, 140, 600)) })
		s.Enum("items of a flux flow", 1, func(e *hx.E) {
			e.Case(now, func() {
				cur = "items in order"
				e.Sched(vrt.Config{Bound: 1}, items)
			})
		})
		s.Enum("results delivered from a callback", 2, callbacks)
		b := hx.Pick(s, 2, 4)
		for _, p := range [][]step{
			{{"p", '0'}, {"", 'S'}},
			{{"pp", '0'}, {"", 'S'}},
			{{"pP", '0'}, {"j", '0'}, {"", 'S'}},
			{{"pq", '0'}, {"", 'S'}},
			{{"qX", '0'}, {"s", 'S'}},
			{{"pj", '0'}, {"", 'S'}},
			{{"pl", '0'}, {"p", '0'}, {"", 'S'}},
			{{"p", '0'}, {"p", '0'}, {"", 'S'}},
			{{"p", '0'}, {"P", 'E'}, {"", 'S'}},
			{{"mp", '0'}, {"d", '0'}, {"", 'S'}},
			{{"Qp", 'x'}, {"", 'S'}},
			{{"jd", '0'}, {"pp", '0'}, {"", 'S'}},
		} {
			p := p
			n := laters(p)
			for _, fx := range []bool{false, true} {
				fx := fx
				cfg := vrt.Config{Bound: b}
				if n == 1 {
					cfg.Bound += 2
				}
				s.Explore(fmt.Sprintf("threads, %v, flux %v", p, fx), cfg, func() { concurrent(p, fx) })
				if n > 1 {
					s.Explore(fmt.Sprintf("threads, delays, %v, flux %v", p, fx), vrt.Config{Delay: true, Bound: hx.Pick(s, 3, 5)}, func() { concurrent(p, fx) })
				}
			}
		}
	})
}

// long: flows of up to n steps, which await one kind of result each, or two in turn, and end at the last step, before it
// or not at all; and steps that await up to n results.  The results arrive in the order they are awaited, the other way
// round, or before the flow starts.
func long(e *hx.E, n int) {
	run := func(steps []step, isFlux bool) {
		for order := 0; order < 3; order++ {
			what := fmt.Sprintf("flow of %d steps %v... (flux: %v), order %d", len(steps), steps[0], isFlux, order)
			cur = what
			if f := vrt.RunSolo(func() {
				st, f := build(what, steps, isFlux)
				l := st.later
				if order == 1 {
					for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
						l[i], l[j] = l[j], l[i]
					}
				}
				if order == 2 {
					for _, f := range l {
						f()
					}
				}
				ends := start(f, isFlux, steps)
				vrt.Quiesce()
				if order < 2 {
					for _, f := range l {
						f()
						vrt.Quiesce()
					}
				}
				st.judge(*ends)
				vrt.Outcome("%v", *ends)
			}); f != nil {
				e.Fail(f.Sig, "%s", f.Msg)
			}
			e.Step(len(steps))
		}
		e.State(cur)
	}
	var turns []string
	for _, a := range "jdup" {
		for _, b := range " jlspPq" {
			turns = append(turns, strings.TrimSpace(string(a)+string(b)))
		}
	}
	for k := 4; k <= n; k++ {
		if k > 20 && k%16 > 1 && k < n-1 {
			continue
		}
		for ti, turn := range turns {
			k, ti, turn := k, ti, turn
			e.Case(now, func() {
				for hi, h := range []byte("SE0") {
					steps := make([]step, k)
					for i := range steps {
						steps[i] = step{string(turn[i%len(turn)]), '0'}
					}
					steps[k-1-hi] = step{"", h}
					run(steps, (ti+hi+k)%2 == 0)
				}
				group := strings.Repeat(turn, k)[:k]
				run([]step{{group, '0'}, {"", 'S'}}, false)
				run([]step{{"p", '0'}, {group, '0'}, {"", '0'}, {"j", 'S'}}, true)
			})
		}
	}
}

func items() {
	f := flow.New[int]()
	p := mono.NewProcessor[int]()
	f.Steps(func() (await.Group, error) { f.Next(1); f.Next(2); return await.All(p) },
		func() (await.Group, error) { f.Next(3); return f.Complete() },
		func() (await.Group, error) { f.Next(4); return f.Complete() })
	got := ""
	t := vrt.GoNamed("completer", func() { p.Success(1) })
	f.Flux().Subscribe(flux.Subscribe[int]{OnNext: func(v int) { got += fmt.Sprint(v) }, OnComplete: func() { got += "C" }})
	vrt.Join(t)
	vrt.Quiesce()
	if got != "123C" {
		vrt.Fail("items", "the subscriber saw %q", got)
	}
}

// lists builds two flows from step lists that are cut into any number of calls of Steps, from slices with and
// without room at their end, which both flows may share.
func lists(e *hx.E, max int) {
	for n := 0; n <= max; n++ {
		for cut := 0; cut < 1<<uint(n); cut++ { // where a call of Steps ends
			for m := 0; m <= max; m++ {
				for room := 0; room <= 2; room++ {
					for common := 0; common <= 2; common++ {
						for order := 0; order < 1<<4; order++ {
							n, cut, m, room, common, order := n, cut, m, room, common, order
							e.Case(now, func() { twoFlows(e, n, cut, m, room, common, order) })
						}
					}
				}
			}
		}
	}
}

func twoFlows(e *hx.E, n, cut, m, room, common, order int) {
	cur = fmt.Sprintf("flows of %d and %d steps after %d common ones in a slice with room for %d more, cut %b, order %b", n, m, common, room, cut, order)
	var log []string
	var who string
	step := func(name string) flow.StepFn {
		return func() (await.Group, error) {
			log = append(log, name)
			return nil, nil
		}
	}
	base := make([]flow.StepFn, 0, common+room)
	var want [2][]string
	for i := 0; i < common; i++ {
		name := fmt.Sprint("common", i)
		base = append(base, step(name))
		want[0] = append(want[0], name)
		want[1] = append(want[1], name)
	}
	var fl [2]*flow.Flow[int]
	var todo [2][]func()
	for k, size := range []int{n, m} {
		k := k
		fl[k] = flow.New[int]()
		todo[k] = append(todo[k], func() { fl[k].Steps(base...) })
		list := make([]flow.StepFn, 0, room)
		for i := 0; i < size; i++ {
			name := fmt.Sprint("flow", k, " step", i)
			list = append(list, step(name))
			want[k] = append(want[k], name)
			if k == 0 && cut>>uint(i)&1 == 1 || i == size-1 {
				l := list
				todo[k] = append(todo[k], func() { fl[k].Steps(l...) })
				list = make([]flow.StepFn, 0, room)
			}
		}
	}
	for i := 0; len(todo[0])+len(todo[1]) > 0; i++ {
		k := order >> uint(i%4) & 1
		if len(todo[k]) == 0 {
			k = 1 - k
		}
		todo[k][0]()
		todo[k] = todo[k][1:]
	}
	for k := range fl {
		log, who = nil, fmt.Sprint(k)
		if k == 0 {
			fl[k].Mono().Subscribe(mono.Subscribe[int]{})
		} else {
			fl[k].Flux().Subscribe(flux.Subscribe[int]{})
		}
		e.Check(fmt.Sprint(log) == fmt.Sprint(want[k]), "list", "flow %s runs %v instead of %v", who, log, want[k])
	}
	e.State(cur)
}

// callbacks: the last step leaves it to a callback to deliver the flow's result
func callbacks(e *hx.E) {
	for _, isFlux := range []bool{false, true} {
		for _, fails := range []bool{false, true} {
			for _, steps := range []int{0, 1, 2} {
				for _, when := range []string{"before", "in the step", "after"} {
					isFlux, fails, steps, when := isFlux, fails, steps, when
					what := fmt.Sprintf("flow (flux: %v) of %d steps and one whose callback (fails: %v) is called %s", isFlux, steps, fails, when)
					e.Case(func() string { return what }, func() {
						cur = what
						e.Sched(vrt.Config{Bound: 2, Delay: true}, func() {
							f := flow.New[int]()
							st := &state{what: what}
							p := mono.NewProcessor[int]()
							for i := 0; i < steps; i++ {
								i := i
								f.Steps(func() (await.Group, error) {
									st.log = append(st.log, i)
									return await.All(mono.Just(1))
								})
							}
							f.Steps(func() (await.Group, error) {
								st.log = append(st.log, steps)
								p.Subscribe(mono.Subscribe[int]{OnSuccess: func(v int) {
									switch {
									case fails:
										_, _ = f.Error(errStep)
									case isFlux:
										f.Next(v)
										_, _ = f.Complete()
									default:
										_, _ = f.Success(v)
									}
								}})
								if when == "in the step" {
									p.Success(5)
								}
								return nil, nil
							})
							if when == "before" {
								p.Success(5)
							}
							var t *vrt.Thread
							if when == "after" {
								t = vrt.GoNamed("later", func() {
									vrt.Block("the last step", func() bool { return len(st.log) > steps })
									p.Success(5)
								})
							}
							ends := start(f, isFlux, nil)
							if t != nil {
								vrt.Join(t)
							}
							vrt.Quiesce()
							want := "success 5"
							if fails {
								want = "error step failed"
							}
							if len(st.log) != steps+1 {
								st.bad("stalled", "%d steps ran", len(st.log))
							}
							if got := strings.Join(*ends, ","); got != want {
								st.bad("result", "the flow's result is %q instead of %q", got, want)
							}
							vrt.Outcome("%v", *ends)
						})
					})
				}
			}
		}
	}
}
