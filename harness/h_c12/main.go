// C12: demand is honoured: never more items than requested, and all that were.
package main

import (
	"fmt"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

var cur string

func now() string { return cur }

// kinds of demand-driven sources of the items 1..n
var kinds = []string{"slice", "slice response", "mapped slice", "twice mapped slice", "processor", "announced later", "processor announced later"}

func makeFlux(kind string, n int) flux.Flux[int] {
	v := make([]int, n)
	for i := range v {
		v[i] = i + 1
	}
	same := func(x int) (int, error) { return x, nil }
	switch kind {
	case "slice":
		return flux.FromSlice(v)
	case "mapped slice":
		return flux.Map(flux.FromSlice(v), same)
	case "twice mapped slice":
		return flux.Map(flux.Map(flux.FromSlice(v), func(x int) (string, error) { return fmt.Sprint(x), nil }),
			func(s string) (x int, err error) { _, err = fmt.Sscan(s, &x); return })
	case "slice response":
		return flux.Create(func(s flux.Sink[int]) {
			s.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(s, v)})
		})
	case "processor":
		p := flux.NewProcessor[int]()
		p.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse[int](p, v)})
		return p
	}
	announced := func(s flux.Sink[int]) func() {
		return func() {
			gone := cancelledSub
			ask := flux.SliceResponse(s, v)
			s.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
				if gone {
					vrt.Fail("after-cancel", "a source that announced itself after cancelling was asked for %d items", n)
				}
				ask(n)
			}})
		}
	}
	switch kind {
	case "announced later":
		return flux.Create(func(s flux.Sink[int]) { vrt.GoNamed("announcer", announced(s)) })
	case "processor announced later":
		p := flux.NewProcessor[int]()
		vrt.GoNamed("announcer", announced(p))
		return p
	}
	panic(kind)
}

var cancelledSub bool // a subscription was cancelled

// run is one subscriber's view
type run struct {
	kind      string
	n         int
	requested int // counted before each request
	granted   int // counted after each request has been made
	got       int
	ended     bool
	failed    bool
	inside    bool
	canceled  bool
	refills   int
	usedUp    int
	fin       int
}

func (r *run) bad(sig, f string, a ...any) {
	vrt.Fail(sig, "%s of %d items: %s (requested %d, delivered %d)", r.kind, r.n, fmt.Sprintf(f, a...), r.requested, r.got)
}

func (r *run) item(v int) {
	if r.inside {
		r.bad("concurrent", "two deliveries at the same time")
	}
	r.inside = true
	if r.ended {
		r.bad("after-end", "item %d after the end", v)
	}
	r.got++
	if v != r.got {
		r.bad("order", "item %d in place of %d", v, r.got)
	}
	if r.got > r.requested {
		r.bad("overdrawn", "more items than requested")
	}
	vrt.P("subscriber")
	r.inside = false
}

func (r *run) subscribe(onNext func(), onRequest rx.FnOnSubscribe, noRequest bool) flux.Flux[int] {
	cancelledSub = false
	f := makeFlux(r.kind, r.n)
	f.Subscribe(flux.Subscribe[int]{
		OnNext: func(v int) {
			r.item(v)
			if onNext != nil {
				onNext()
			}
		},
		OnComplete: func() {
			if r.ended || r.inside {
				r.bad("completion", "completed twice or inside a delivery")
			}
			if r.got != r.n {
				r.bad("completion", "completed before the source was exhausted")
			}
			r.ended = true
		},
		OnError:   func(err error) { r.bad("error", "error %v", err) },
		OnRequest: onRequest,
		Finally:   func(rx.SignalType) { r.fin++ },
		NoRequest: noRequest,
	})
	return f
}

func (r *run) request(s rx.Subscription, k int) {
	r.requested += k
	s.Request(k)
	r.granted += k
}

// settle checks the final state
func (r *run) settle() {
	vrt.Quiesce()
	want := r.requested
	if want > r.n {
		want = r.n
	}
	if r.canceled {
		want = r.got
	}
	if r.got != want {
		r.bad("lost-demand", "%d items were delivered instead of %d", r.got, want)
	}
	if !r.canceled && r.requested > 0 && r.ended != (r.requested >= r.n) {
		r.bad("completion", "completed: %v", r.ended)
	}
	if r.ended && r.fin != 1 {
		r.bad("completion", "finally ran %d times", r.fin)
	}
	vrt.Outcome("%d of %d", r.got, r.requested)
}

// splits of a total into a sequence of requests
func splits(total int) (r [][]int) {
	if total == 0 {
		return [][]int{nil}
	}
	for k := 1; k <= total; k++ {
		for _, s := range splits(total - k) {
			r = append(r, append([]int{k}, s...))
		}
	}
	return r
}

func main() {
	hx.Main("C12", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions, "judged are the demand-driven sources: slices, slice responses and what is built of them; a source that pushes without being asked is not")
		maxN := hx.Pick(s, 3, 5)
		b1 := hx.Pick(s, 2, 3)
		s.Enum("refilling subscribers", 8, func(e *hx.E) {
			for _, kind := range kinds {
				for n := 0; n <= maxN+2; n++ {
					for k := 1; k <= n+2; k++ {
						kind, n, k := kind, n, k
						e.Case(now, func() {
							cur = fmt.Sprintf("%s of %d, %d at a time", kind, n, k)
							e.Sched(vrt.Config{Bound: b1}, func() { refill(kind, n, k) })
						})
					}
				}
			}
		})
		s.Enum("subscribers without demand of their own", 8, func(e *hx.E) {
			for _, kind := range kinds {
				for n := 0; n <= maxN+2; n++ {
					kind, n := kind, n
					e.Case(now, func() {
						cur = fmt.Sprintf("%s of %d, everything", kind, n)
						e.Sched(vrt.Config{Bound: b1}, func() {
							r := &run{kind: kind, n: n, requested: rx.RequestMax}
							r.subscribe(nil, nil, false)
							r.settle()
						})
					})
				}
			}
		})
		s.Enum("requests by one thread, before, during and after deliveries", 8, func(e *hx.E) {
			for _, kind := range kinds {
				for n := 0; n <= maxN; n++ {
					for total := 1; total <= maxN+1; total++ {
						for _, sp := range splits(total) {
							for _, quiet := range []bool{true, false} {
								for _, nr := range []bool{true, false} {
									kind, n, sp, quiet, nr := kind, n, sp, quiet, nr
									e.Case(now, func() {
										cur = fmt.Sprintf("%s of %d, requests %v, waiting in between %v, no request %v", kind, n, sp, quiet, nr)
										cfg := vrt.Config{Bound: b1}
										if !quiet && len(sp) > 2 {
											cfg.Delay = true
										}
										e.Sched(cfg, func() { manual(kind, n, sp, quiet, nr) })
									})
								}
							}
						}
					}
				}
			}
		})
		s.Enum("requests inside deliveries", 8, func(e *hx.E) {
			for _, kind := range kinds {
				for n := 0; n <= maxN; n++ {
					for first := 1; first <= 2; first++ {
						for more := 1; more <= 3; more++ {
							for every := 1; every <= 2; every++ {
								kind, n, first, more, every := kind, n, first, more, every
								e.Case(now, func() {
									cur = fmt.Sprintf("%s of %d, first %d, then %d in every %d. delivery", kind, n, first, more, every)
									e.Sched(vrt.Config{Bound: b1}, func() { inside(kind, n, first, more, every) })
								})
							}
						}
					}
				}
			}
		})
		s.Enum("long sequences and large demands", 8, func(e *hx.E) {
			one := vrt.Config{Delay: true}
			for _, kind := range kinds {
				for _, n := range []int{0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} {
					for _, k := range []int{1, 2, 3, 7, 8, 10, 16, 32, 64, 100, 128, 256, 1000, rx.RequestMax - 1, rx.RequestMax} {
						kind, n, k := kind, n, k
						e.Case(now, func() {
							cur = fmt.Sprintf("%s of %d, %d at a time", kind, n, k)
							e.Sched(one, func() { refill(kind, n, k) })
						})
					}
					for _, sp := range [][]int{
						{rx.RequestMax, 1}, {1, rx.RequestMax}, {rx.RequestMax, rx.RequestMax}, {rx.RequestMax - 1, 1, 1}, {2, rx.RequestMax, rx.RequestMax, 3},
						{50, 50, 50, 50}, {1, 2, 4, 8, 16, 32, 64, 128}, {128, 64, 32, 16, 8, 4, 2, 1}, {n, 1}, {n + 1},
					} {
						for _, quiet := range []bool{true, false} {
							kind, n, sp, quiet := kind, n, sp, quiet
							if sp[0] == 0 {
								continue
							}
							e.Case(now, func() {
								cur = fmt.Sprintf("%s of %d, requests %v, waiting in between %v", kind, n, sp, quiet)
								e.Sched(one, func() { manual(kind, n, sp, quiet, true) })
							})
						}
					}
				}
			}
		})
		for _, kind := range kinds {
			kind := kind
			if kind == "twice mapped slice" && !s.Thorough() {
				continue
			}
			s.Explore("two requesting threads, "+kind, vrt.Config{Bound: hx.Pick(s, 2, 3)}, func() { threads(kind, 3, [][]int{{1}, {1}}) })
			s.Explore("two requesting threads, twice each, "+kind, vrt.Config{Delay: true, Bound: hx.Pick(s, 3, 5)}, func() { threads(kind, 5, [][]int{{1, 1}, {1, 1}}) })
			s.Explore("two requesting threads, more than there is, "+kind, vrt.Config{Delay: true, Bound: hx.Pick(s, 3, 5)}, func() { threads(kind, 2, [][]int{{1, 2}, {2}}) })
			s.Explore("three requesting threads, "+kind, vrt.Config{Delay: true, Bound: hx.Pick(s, 2, 4)}, func() { threads(kind, 4, [][]int{{1}, {2}, {1}}) })
			s.Explore("cancelled while requesting, "+kind, vrt.Config{Delay: true, Bound: hx.Pick(s, 3, 5)}, func() { cancelled(kind) })
			s.Explore("refilling, and another thread requests, "+kind, vrt.Config{Delay: true, Bound: hx.Pick(s, 3, 5)}, func() { refillAnd(kind) })
		}
	})
}

func refill(kind string, n, k int) {
	r := &run{kind: kind, n: n}
	used := 0
	r.subscribe(func() {
		if r.got == r.requested {
			used++
		}
	}, func(s rx.Subscription) { r.refills++; r.request(s, k) }, false)
	r.settle()
	// at subscription and each time the demand was used up
	if r.refills != 1+used {
		r.bad("on-request", "the request callback ran %d times instead of %d", r.refills, 1+used)
	}
}

func manual(kind string, n int, sp []int, quiet, noRequest bool) {
	r := &run{kind: kind, n: n}
	var on rx.FnOnSubscribe
	if !noRequest {
		on = func(rx.Subscription) {}
	}
	f := r.subscribe(nil, on, noRequest)
	vrt.Quiesce()
	if r.got != 0 {
		r.bad("overdrawn", "items without a request")
	}
	for _, k := range sp {
		r.request(f.Subscription(), k)
		if quiet {
			r.settle()
		}
	}
	r.settle()
}

func inside(kind string, n, first, more, every int) {
	r := &run{kind: kind, n: n}
	var sub rx.Subscription
	r.subscribe(func() {
		if r.got%every == 0 {
			r.request(sub, more)
		}
	}, func(s rx.Subscription) {
		if sub == nil {
			sub = s
			r.request(s, first)
		}
	}, false)
	r.settle()
}

func threads(kind string, n int, th [][]int) {
	r := &run{kind: kind, n: n}
	f := r.subscribe(nil, nil, true)
	sub := f.Subscription()
	var ts []*vrt.Thread
	for i, l := range th {
		l := l
		ts = append(ts, vrt.GoNamed(fmt.Sprint("requester", i), func() {
			for _, k := range l {
				r.request(sub, k)
			}
		}))
	}
	vrt.Join(ts...)
	r.settle()
}

func cancelled(kind string) {
	r := &run{kind: kind, n: 4}
	f := r.subscribe(nil, nil, true)
	sub := f.Subscription()
	a := vrt.GoNamed("requester", func() { r.request(sub, 2); r.request(sub, 3) })
	b := vrt.GoNamed("canceller", func() {
		was := r.got
		sub.Cancel()
		r.canceled, cancelledSub = true, true
		_ = was
		vrt.Quiesce()
	})
	vrt.Join(a, b)
	got := r.got
	sub.Request(1)
	r.settle()
	if r.got != got {
		r.bad("after-cancel", "item after cancelling")
	}
	if r.fin != 1 {
		r.bad("after-cancel", "finally ran %d times", r.fin)
	}
}

func refillAnd(kind string) {
	r := &run{kind: kind, n: 5}
	var sub rx.Subscription
	r.subscribe(nil, func(s rx.Subscription) { sub = s; r.refills++; r.request(s, 1) }, false)
	a := vrt.GoNamed("requester", func() { r.request(sub, 1); r.request(sub, 1) })
	vrt.Join(a)
	r.settle()
	if !r.ended {
		r.bad("lost-demand", "a subscriber that refills its demand is starved")
	}
}
