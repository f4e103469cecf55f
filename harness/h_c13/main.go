// C13: waiting for a result neither hangs, nor loses it, nor sees it half-done.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
)

var (
	errBoom = errors.New("boom")
	errMap  = errors.New("mapping failed")
)

// ms is a mono and how its result is produced: act(i) is what the i-th completing thread does; act is nil
// for publishers that produce by themselves once they are subscribed
type ms struct {
	name string
	make func(vals []int) (mono.Mono[int], func(v int))
	self bool
}

// a value v stands for Success(v) if positive and for Error(boom v) otherwise
func complete(s mono.Sink[int], v int) {
	if v > 0 {
		s.Success(v)
	} else {
		s.Error(fmt.Errorf("boom %d", v))
	}
}

func result(v int, err error) string { return fmt.Sprint(v, " ", err) }

func expect(v int) string {
	if v > 0 {
		return result(v, nil)
	}
	return result(0, fmt.Errorf("boom %d", v))
}

// the remote kinds answer from another thread, as a connection does
func remoteMono(v int, sent *int) mono.Mono[int] {
	var st proxy.Stream
	return mono.Map(remote(v, sent, &st), func(p payload.Payload) (int, error) { return int(p.Data()[0]), nil })
}

func remote(v int, sent *int, st *proxy.Stream) mono.Mono[payload.Payload] {
	return proxy.Mono(context.Background(), frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: 1}, func(frames.Frame) error {
		*sent++
		vrt.GoNamed("connection", func() {
			if v > 0 {
				(*st).OnNext(payload.New([]byte{byte(v)}))
			} else {
				(*st).OnError(fmt.Errorf("boom %d", v))
			}
			(*st).OnComplete()
		})
		return nil
	}, func(s proxy.Stream) { *st = s })
}

func remoteFlux(v int, n int, sent *int, regs *int) flux.Flux[payload.Payload] {
	var st proxy.Stream
	return proxy.Flux(context.Background(), frames.RequestPayload{FrameType: frames.FrameTypeRequestStream, StreamID: 1}, nil, func(f frames.Frame) error {
		if _, ok := f.(*frames.RequestPayload); !ok {
			return nil
		}
		*sent++
		if st == nil {
			vrt.Fail("not-registered", "the request was sent before the stream was registered")
		}
		vrt.GoNamed("connection", func() {
			for i := 1; i <= n; i++ {
				st.OnNext(payload.New([]byte{byte(i)}))
			}
			if v > 0 {
				st.OnComplete()
			} else {
				st.OnError(fmt.Errorf("boom %d", v))
				st.OnComplete()
			}
		})
		return nil
	}, func(s proxy.Stream) { st = s; *regs++ })
}

func inc(v int) (int, error) { return v, nil }

func monos() []ms {
	return []ms{
		{name: "processor", make: func([]int) (mono.Mono[int], func(int)) {
			p := mono.NewProcessor[int]()
			return p, func(v int) { complete(p, v) }
		}},
		{name: "mapped processor", make: func([]int) (mono.Mono[int], func(int)) {
			p := mono.NewProcessor[int]()
			return mono.Map[int, int](p, inc), func(v int) { complete(p, v) }
		}},
		{name: "flux processor as mono", make: func([]int) (mono.Mono[int], func(int)) {
			p := flux.NewProcessor[int]()
			return transform.FluxToMono[int](p), func(v int) {
				if v > 0 {
					p.Next(v)
					p.Complete()
				} else {
					p.Error(fmt.Errorf("boom %d", v))
				}
			}
		}},
		{name: "created, asynchronous", self: true, make: func(vals []int) (mono.Mono[int], func(int)) {
			return mono.Create(func(s mono.Sink[int]) {
				for i, v := range vals {
					v := v
					vrt.GoNamed(fmt.Sprint("source", i), func() { complete(s, v) })
				}
			}), nil
		}},
		{name: "created, at once", self: true, make: func(vals []int) (mono.Mono[int], func(int)) {
			return mono.Create(func(s mono.Sink[int]) {
				for _, v := range vals {
					complete(s, v)
				}
			}), nil
		}},
		{name: "mapped, created, asynchronous", self: true, make: func(vals []int) (mono.Mono[int], func(int)) {
			return mono.Map(mono.Create(func(s mono.Sink[int]) {
				for i, v := range vals {
					v := v
					vrt.GoNamed(fmt.Sprint("source", i), func() { complete(s, v) })
				}
			}), inc), nil
		}},
	}
}

func in(s string, vals []int) bool {
	for _, v := range vals {
		if expect(v) == s {
			return true
		}
	}
	return false
}

func main() {
	hx.Main("C13", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions, "one thread at a time blocks on or subscribes to a publisher; any number of threads complete it and register notifications")
		results := [][]int{{7}, {-1}, {1, 2}, {1, -2}, {-1, -2}}
		for _, m := range monos() {
			for _, vals := range results {
				m, vals := m, vals
				two := len(vals) > 1
				b := hx.Pick(s, 4, 6)
				if two {
					b = hx.Pick(s, 2, 3)
				}
				n := fmt.Sprintf("%s %v", m.name, vals)
				s.Explore("block, "+n, vrt.Config{Bound: b}, func() { block(m, vals, 0) })
				s.Explore("notify, then block, "+n, vrt.Config{Bound: b - 1}, func() { block(m, vals, 1) })
				s.Explore("subscribe and notify, "+n, vrt.Config{Bound: b - 1}, func() { notify(m, vals, 1, false) })
				s.Explore("subscribe, two threads notify, "+n, vrt.Config{Delay: true, Bound: hx.Pick(s, 3, 5)}, func() { notify(m, vals, 2, false) })
				s.Explore("only await, "+n, vrt.Config{Bound: b - 1}, func() { monoAwait(m, vals) })
				s.Explore("await, then block, "+n, vrt.Config{Bound: b - 1}, func() { notify(m, vals, 1, true) })
			}
		}
		for _, v := range []int{7, -1} {
			v := v
			s.Explore(fmt.Sprint("remote mono, block twice ", v), vrt.Config{Bound: hx.Pick(s, 3, 5)}, func() { remoteBlock(v, false) })
			s.Explore(fmt.Sprint("remote mono, only await ", v), vrt.Config{Bound: hx.Pick(s, 3, 5)}, func() {
				sent := 0
				monoAwait(ms{make: func([]int) (mono.Mono[int], func(int)) { return remoteMono(v, &sent), nil }}, []int{v})
				if sent != 1 {
					vrt.Fail("sent-twice", "the request was sent %d times", sent)
				}
			})
			s.Explore(fmt.Sprint("remote mono, await, notify and block ", v), vrt.Config{Bound: hx.Pick(s, 3, 5)}, func() { remoteBlock(v, true) })
			s.Explore(fmt.Sprint("remote flux, block ", v), vrt.Config{Bound: hx.Pick(s, 2, 3)}, func() { remoteFluxBlock(v, false) })
			s.Explore(fmt.Sprint("remote flux, await and notify ", v), vrt.Config{Bound: hx.Pick(s, 2, 3)}, func() { remoteFluxBlock(v, true) })
		}
		for _, f := range fluxes() {
			for _, end := range []byte{'C', 'E', 'X'} {
				for n := 0; n <= 2; n++ {
					if end == 'X' && n > 1 || f.self && end == 'X' || f.slice && end == 'E' {
						continue
					}
					f, n, end := f, n, end
					name := fmt.Sprintf("%s, %d items, %c", f.name, n, end)
					b := hx.Pick(s, 2, 3)
					s.Explore("block, "+name, vrt.Config{Bound: b}, func() { fluxBlock(f, n, end) })
					s.Explore("block with few callbacks, twice, "+name, vrt.Config{Bound: b - 1}, func() { fluxBlockAgain(f, n, end) })
					s.Explore("await and notify, "+name, vrt.Config{Bound: b - 1}, func() { fluxAwait(f, n, end) })
					s.Explore("notify, "+name, vrt.Config{Bound: b}, func() { fluxNotify(f, n, end, 1) })
					s.Explore("two threads notify, "+name, vrt.Config{Delay: true, Bound: hx.Pick(s, 3, 4)}, func() { fluxNotify(f, n, end, 2) })
				}
			}
		}
		s.Enum("the first result counts", 1, func(e *hx.E) {
			for _, a := range []int{1, -1} {
				for _, b := range []int{2, -2} {
					for when := 0; when < 3; when++ {
						for _, mapped := range []bool{false, true} {
							a, b, when, mapped := a, b, when, mapped
							e.Case(func() string { return fmt.Sprint(a, b, " ", when, " mapped ", mapped) }, func() {
								e.Sched(vrt.Config{Bound: 1}, func() { first(a, b, when, mapped) })
							})
						}
					}
				}
			}
		})
		s.Explore("blocking on constants", vrt.Config{Bound: 2}, blockConstants)
		s.Explore("completion races with an error and with cancelling", vrt.Config{Bound: hx.Pick(s, 3, 4)}, endsRace)
		s.Explore("processor handed over between threads", vrt.Config{Bound: hx.Pick(s, 2, 4)}, handOver)
	})
}

// start makes the completing threads
func start(vals []int, act func(int)) []*vrt.Thread {
	var ts []*vrt.Thread
	if act != nil {
		for i, v := range vals {
			v := v
			ts = append(ts, vrt.GoNamed(fmt.Sprint("completer", i), func() { act(v) }))
		}
	}
	return ts
}

func check(got string, vals []int, what string) {
	if !in(got, vals) {
		vrt.Fail("wrong-result", "%s gives %q, produced were %v", what, got, vals)
	}
}

// block on a mono while it is being completed; with a notification registered before
func block(m ms, vals []int, notes int) {
	x, act := m.make(vals)
	ran := 0
	var signal rx.SignalType
	for i := 0; i < notes; i++ {
		x.Notify(func(s rx.SignalType) { ran++; signal = s })
	}
	ts := start(vals, act)
	got := result(x.Block())
	check(got, vals, "Block")
	if again := result(x.Block()); again != got {
		vrt.Fail("changed-result", "blocking again gives %q after %q", again, got)
	}
	if g := result(x.Get()); g != got {
		vrt.Fail("changed-result", "Get gives %q after %q", g, got)
	}
	vrt.Join(ts...)
	vrt.Quiesce()
	if g := result(x.Get()); g != got {
		vrt.Fail("changed-result", "Get gives %q after %q", g, got)
	}
	if ran != notes {
		vrt.Fail("notifications", "%d of %d notifications ran", ran, notes)
	}
	if notes > 0 {
		checkSignal(signal, got)
	}
	vrt.Outcome("%s", got)
}

func checkSignal(s rx.SignalType, got string) {
	want := rx.SignalComplete
	if got[len(got)-len("<nil>"):] != "<nil>" {
		want = rx.SignalError
	}
	if s != want {
		vrt.Fail("signal", "notified of %s, the result is %s", s, got)
	}
}

// notify registers notifications in n threads while others complete
func notify(m ms, vals []int, n int, await bool) {
	x, act := m.make(vals)
	fin, succ := 0, 0
	var got string
	ts := start(vals, act)
	var notified []string
	ran := make([]int, n)
	for i := 0; i < n; i++ {
		i := i
		ts = append(ts, vrt.GoNamed(fmt.Sprint("notifier", i), func() {
			x.Notify(func(s rx.SignalType) {
				ran[i]++
				r := result(x.Get())
				checkSignal(s, r)
				notified = append(notified, r)
			})
		}))
	}
	if await {
		x.Async()
		x.Async()
		got = result(x.Block())
	} else {
		x.Subscribe(mono.Subscribe[int]{
			OnSuccess: func(v int) { succ++; got = result(v, nil) },
			OnError:   func(err error) { succ++; got = result(0, err) },
			Finally:   func(s rx.SignalType) { fin++; checkSignal(s, got) },
		})
	}
	vrt.Join(ts...)
	vrt.Quiesce()
	if !await && (succ != 1 || fin != 1) {
		vrt.Fail("ends", "%d ends, finally ran %d times", succ, fin)
	}
	check(got, vals, "the subscriber")
	for i, k := range ran {
		if k != 1 {
			vrt.Fail("notifications", "notification %d ran %d times", i, k)
		}
	}
	for _, r := range notified {
		if r != got {
			vrt.Fail("half-done", "the notification saw %q, the subscriber %q", r, got)
		}
	}
	if r := result(x.Block()); r != got {
		vrt.Fail("changed-result", "blocking afterwards gives %q after %q", r, got)
	}
	vrt.Outcome("%s", got)
}

// monoAwait treats a mono as something to await: nobody subscribes to it, and notifications register further ones.
func monoAwait(m ms, vals []int) {
	x, act := m.make(vals)
	ts := start(vals, act)
	ran, inner, got := 0, 0, ""
	note := func() {
		x.Notify(func(s rx.SignalType) {
			ran++
			r := result(x.Get())
			checkSignal(s, r)
			if got != "" && r != got {
				vrt.Fail("changed-result", "a notification saw %q after %q", r, got)
			}
			got = r
			x.Notify(func(rx.SignalType) { inner++ })
		})
	}
	note()
	x.Async()
	x.Async()
	ts = append(ts, vrt.GoNamed("notifier", note))
	vrt.Join(ts...)
	vrt.Quiesce()
	if ran != 2 || inner != 2 {
		vrt.Fail("notifications", "2 notifications ran %d times, those they registered %d times", ran, inner)
	}
	check(got, vals, "a notification")
	x.Async()
	note()
	vrt.Quiesce()
	if ran != 3 || inner != 3 {
		vrt.Fail("notifications", "3 notifications ran %d times, those they registered %d times", ran, inner)
	}
	if b := vrt.Blocked(); len(b) > 0 {
		vrt.Fail("left-behind", "blocked: %v", b)
	}
	vrt.Outcome("%s", got)
}

// first: a processor is completed twice, and the second time has no effect
func first(a, b, when int, mapped bool) {
	p := mono.NewProcessor[int]()
	var x mono.Mono[int] = p
	if mapped {
		x = mono.Map[int, int](p, inc)
	}
	got, ends := "", 0
	subscribe := func() {
		x.Subscribe(mono.Subscribe[int]{
			OnSuccess: func(v int) { got += result(v, nil) },
			OnError:   func(err error) { got += result(0, err) },
			Finally:   func(rx.SignalType) { ends++ },
		})
	}
	if when == 0 {
		subscribe()
	}
	complete(p, a)
	if when == 1 {
		subscribe()
	}
	complete(p, b)
	if when == 2 {
		subscribe()
	}
	if got != expect(a) || ends != 1 {
		vrt.Fail("changed-result", "completed with %q and then with %q: the subscriber got %q with %d ends", expect(a), expect(b), got, ends)
	}
	if r := result(x.Get()); r != got {
		vrt.Fail("changed-result", "Get gives %q after %q", r, got)
	}
}

func remoteBlock(v int, await bool) {
	sent := 0
	x := remoteMono(v, &sent)
	ran := 0
	if await {
		x.Async()
		nt := vrt.GoNamed("notifier", func() { x.Notify(func(s rx.SignalType) { ran++; checkSignal(s, result(x.Get())) }) })
		check(result(x.Block()), []int{v}, "Block")
		vrt.Join(nt)
		vrt.Quiesce()
		if ran != 1 {
			vrt.Fail("notifications", "the notification ran %d times", ran)
		}
	} else {
		check(result(x.Block()), []int{v}, "Block")
	}
	check(result(x.Block()), []int{v}, "Block, again")
	x.Async()
	vrt.Quiesce()
	if sent != 1 {
		vrt.Fail("sent-twice", "the request was sent %d times", sent)
	}
}

func remoteFluxBlock(v int, await bool) {
	sent, regs := 0, 0
	x := remoteFlux(v, 2, &sent, &regs)
	items, ends, fin, ran := 0, 0, 0, 0
	if await {
		x.Notify(func(rx.SignalType) { ran++ })
		x.Async()
		nt := vrt.GoNamed("notifier", func() { x.Notify(func(rx.SignalType) { ran++ }) })
		vrt.Join(nt)
		vrt.Quiesce()
		x.Async()
		vrt.Quiesce()
		if ran != 2 {
			vrt.Fail("notifications", "%d of 2 notifications ran", ran)
		}
	} else {
		err := x.Block(flux.Subscribe[payload.Payload]{
			OnNext: func(p payload.Payload) {
				items++
				if int(p.Data()[0]) != items || ends > 0 {
					vrt.Fail("items", "item %d in place of %d", p.Data()[0], items)
				}
			},
			OnComplete: func() { ends++ },
			OnError:    func(error) { ends++ },
			Finally:    func(rx.SignalType) { fin++ },
		})
		if (err == nil) != (v > 0) || err != nil && err.Error() != fmt.Sprint("boom ", v) {
			vrt.Fail("wrong-result", "Block gives %v", err)
		}
		if items != 2 || ends != 1 || fin != 1 {
			vrt.Fail("half-done", "Block returned after %d items, %d ends, %d finally", items, ends, fin)
		}
		if again := x.Block(flux.Subscribe[payload.Payload]{}); fmt.Sprint(again) != fmt.Sprint(err) {
			vrt.Fail("changed-result", "blocking again gives %v after %v", again, err)
		}
	}
	vrt.Quiesce()
	if sent != 1 || regs != 1 {
		vrt.Fail("sent-twice", "the request was sent %d times, the stream registered %d times", sent, regs)
	}
}

type fs struct {
	name  string
	self  bool
	slice bool
	make  func(n int, end byte) (flux.Flux[int], func())
}

func run(s flux.Sink[int], n int, end byte, cancel func()) {
	for i := 1; i <= n; i++ {
		s.Next(i)
	}
	switch end {
	case 'C':
		s.Complete()
	case 'E':
		s.Error(errBoom)
	case 'X':
		cancel()
	}
}

func fluxes() []fs {
	return []fs{
		{name: "flux processor", make: func(n int, end byte) (flux.Flux[int], func()) {
			p := flux.NewProcessor[int]()
			return p, func() { run(p, n, end, func() { cancel(p) }) }
		}},
		{name: "mapped flux processor", make: func(n int, end byte) (flux.Flux[int], func()) {
			p := flux.NewProcessor[int]()
			m := flux.Map[int, int](p, inc)
			return m, func() { run(p, n, end, func() { cancel(p) }) }
		}},
		{name: "created flux, asynchronous", self: true, make: func(n int, end byte) (flux.Flux[int], func()) {
			return flux.Create(func(s flux.Sink[int]) {
				vrt.GoNamed("source", func() { run(s, n, end, nil) })
			}), nil
		}},
		{name: "mono processor as flux", make: func(n int, end byte) (flux.Flux[int], func()) {
			p := mono.NewProcessor[int]()
			f := transform.MonoToFlux[int](p)
			return f, func() {
				if n == 0 || end != 'C' {
					end = 'E'
				}
				complete(p, map[byte]int{'C': 1, 'E': -1}[end])
			}
		}},
		{name: "slice", self: true, slice: true, make: func(n int, end byte) (flux.Flux[int], func()) {
			return flux.FromSlice(make([]int, n)), nil
		}},
	}
}

// cancel waits for the subscription to be there
func cancel(f flux.Flux[int]) {
	vrt.Quiesce()
	f.Subscription().Cancel()
}

func fluxBlock(f fs, n int, end byte) {
	x, act := f.make(n, end)
	items, ends, fin := 0, 0, 0
	var ts []*vrt.Thread
	if act != nil {
		ts = append(ts, vrt.GoNamed("producer", act))
	}
	done := false
	err := x.Block(flux.Subscribe[int]{
		OnNext: func(int) {
			if items++; done || ends > 0 {
				vrt.Fail("half-done", "an item after the end")
			}
		},
		OnComplete: func() { ends++ },
		OnError:    func(error) { ends++ },
		Finally:    func(rx.SignalType) { fin++ },
	})
	done = true
	if fin != 1 {
		vrt.Fail("half-done", "Block returned, finally ran %d times", fin)
	}
	if f.name != "mono processor as flux" {
		if items != n || end != 'X' && ends != 1 {
			vrt.Fail("half-done", "Block returned after %d of %d items and %d ends", items, n, ends)
		}
		if (err != nil) != (end == 'E') {
			vrt.Fail("wrong-result", "Block gives %v", err)
		}
	}
	vrt.Join(ts...)
	vrt.Quiesce()
	if fin != 1 || ends > 1 {
		vrt.Fail("ends", "finally ran %d times, %d ends", fin, ends)
	}
	if !f.self || f.slice {
		if _, ok := x.Subscription().(interface{ Cancel() }); ok {
			x.Subscription().Cancel() // changes nothing
		}
	}
	vrt.Quiesce()
	if fin != 1 || ends > 1 {
		vrt.Fail("ends", "finally ran %d times, %d ends", fin, ends)
	}
	vrt.Outcome("%d %d %v", items, ends, err)
}

func fluxNotify(f fs, n int, end byte, notes int) {
	x, act := f.make(n, end)
	var ts []*vrt.Thread
	if act != nil {
		ts = append(ts, vrt.GoNamed("producer", act))
	}
	ran := make([]int, notes)
	var sigs []rx.SignalType
	for i := 0; i < notes; i++ {
		i := i
		ts = append(ts, vrt.GoNamed(fmt.Sprint("notifier", i), func() {
			x.Notify(func(s rx.SignalType) { ran[i]++; sigs = append(sigs, s) })
		}))
	}
	fin := 0
	x.Subscribe(flux.Subscribe[int]{Finally: func(s rx.SignalType) { fin++; sigs = append(sigs, s) }})
	vrt.Join(ts...)
	vrt.Quiesce()
	for i, k := range ran {
		if k != 1 {
			vrt.Fail("notifications", "notification %d ran %d times", i, k)
		}
	}
	if fin != 1 {
		vrt.Fail("ends", "finally ran %d times", fin)
	}
	for _, s := range sigs {
		if s != sigs[0] {
			vrt.Fail("signal", "different signals %v for one end", sigs)
		}
	}
	if want := map[byte]rx.SignalType{'C': rx.SignalComplete, 'E': rx.SignalError, 'X': rx.SignalCancel}[end]; f.name != "mono processor as flux" && sigs[0] != want {
		vrt.Fail("signal", "signal %s instead of %s", sigs[0], want)
	}
	vrt.Outcome("%v", sigs)
}

// fluxBlockAgain blocks with some callbacks, and again
func fluxBlockAgain(f fs, n int, end byte) {
	which := vrt.Choose(4)
	x, act := f.make(n, end)
	var ts []*vrt.Thread
	if act != nil {
		ts = append(ts, vrt.GoNamed("producer", act))
	}
	items, ends, fin := 0, 0, 0
	var sub flux.Subscribe[int]
	switch which {
	case 1:
		sub.OnNext = func(int) { items++ }
	case 2:
		sub.OnError = func(error) { ends++ }
	case 3:
		sub.Finally = func(rx.SignalType) { fin++ }
	}
	err := x.Block(sub)
	if which == 3 && fin != 1 {
		vrt.Fail("half-done", "Block returned, finally ran %d times", fin)
	}
	if f.name != "mono processor as flux" {
		if which == 1 && items != n {
			vrt.Fail("half-done", "Block returned after %d of %d items", items, n)
		}
		if (err != nil) != (end == 'E') || which == 2 && (ends == 1) != (end == 'E') {
			vrt.Fail("wrong-result", "Block gives %v, %d errors", err, ends)
		}
	}
	vrt.Join(ts...)
	vrt.Quiesce()
	if !strings.HasPrefix(f.name, "mapped") && f.name != "mono processor as flux" { // what blocks on others subscribes again
		for i := 0; i < 2; i++ {
			if again := x.Block(sub); fmt.Sprint(again) != fmt.Sprint(err) {
				vrt.Fail("changed-result", "blocking again gives %v after %v", again, err)
			}
		}
		ran := 0
		x.Notify(func(rx.SignalType) { ran++ })
		if ran != 1 {
			vrt.Fail("notifications", "a late notification ran %d times", ran)
		}
	}
	if fin > 1 || ends > 1 {
		vrt.Fail("ends", "%d ends, finally ran %d times", ends, fin)
	}
	vrt.Outcome("%v", err)
}

// fluxAwait treats a flux as something to await; notifications register further ones
func fluxAwait(f fs, n int, end byte) {
	x, act := f.make(n, end)
	var ts []*vrt.Thread
	if act != nil {
		ts = append(ts, vrt.GoNamed("producer", act))
	}
	ran, inner := 0, 0
	note := func() {
		x.Notify(func(rx.SignalType) {
			ran++
			x.Notify(func(rx.SignalType) { inner++ })
		})
	}
	note()
	x.Async()
	x.Async()
	ts = append(ts, vrt.GoNamed("notifier", note))
	vrt.Join(ts...)
	vrt.Quiesce()
	if ran != 2 || inner != 2 {
		vrt.Fail("notifications", "2 notifications ran %d times, those they registered %d times", ran, inner)
	}
	x.Async()
	note()
	vrt.Quiesce()
	if ran != 3 || inner != 3 {
		vrt.Fail("notifications", "3 notifications ran %d times, those they registered %d times", ran, inner)
	}
	if b := vrt.Blocked(); len(b) > 0 {
		vrt.Fail("left-behind", "blocked: %v", b)
	}
	vrt.Outcome("%d", ran)
}

// endsRace: of several ends exactly one counts
func endsRace() {
	p := flux.NewProcessor[int]()
	log := ""
	p.Notify(func(s rx.SignalType) { log += "n" + s.String()[:1] })
	p.Subscribe(flux.Subscribe[int]{
		OnComplete: func() { log += "C" },
		OnError:    func(error) { log += "E" },
		Finally:    func(s rx.SignalType) { log += "f" + s.String()[:1] },
	})
	vrt.Quiesce()
	a := vrt.GoNamed("completer", p.Complete)
	b := vrt.GoNamed("failer", func() { p.Error(errBoom) })
	c := vrt.GoNamed("canceller", func() { p.Subscription().Cancel() })
	vrt.Join(a, b, c)
	vrt.Quiesce()
	if log != "CfCnC" && log != "EfEnE" && log != "fCnC" {
		vrt.Fail("ends", "callbacks %s", log)
	}
	vrt.Outcome("%s", log)
}

// handOver: signals before, while and after subscribing arrive in order and completely
func handOver() {
	p := flux.NewProcessor[int]()
	got := ""
	t := vrt.GoNamed("producer", func() { p.Next(1); p.Next(2); p.Complete() })
	p.Subscribe(flux.Subscribe[int]{OnNext: func(v int) { got += fmt.Sprint(v) }, OnComplete: func() { got += "C" }})
	vrt.Join(t)
	vrt.Quiesce()
	if got != "12C" {
		vrt.Fail("hand-over", "the subscriber saw %q", got)
	}
}

// blockConstants blocks on what has ended from the start
func blockConstants() {
	log := ""
	sub := flux.Subscribe[int]{
		OnNext:     func(int) { log += "N" },
		OnComplete: func() { log += "C" },
		OnError:    func(err error) { log += "E" + err.Error() },
		Finally:    func(s rx.SignalType) { log += "f" + s.String()[:1] },
	}
	for i := 1; i <= 2; i++ {
		log = ""
		if err := flux.Error[int](errBoom).Block(sub); err != errBoom || log != "Eboomf"+rx.SignalError.String()[:1] {
			vrt.Fail("wrong-result", "Block on an error gives %v, callbacks %s", err, log)
		}
		log = ""
		if err := flux.Map(flux.Error[int](errBoom), inc).Block(sub); err != errBoom || log != "Eboomf"+rx.SignalError.String()[:1] {
			vrt.Fail("wrong-result", "Block on a mapped error gives %v, callbacks %s", err, log)
		}
		if err := flux.Error[int](errBoom).Block(flux.Subscribe[int]{}); err != errBoom {
			vrt.Fail("wrong-result", "Block on an error without callbacks gives %v", err)
		}
		if v, err := mono.Just(i).Block(); v != i || err != nil {
			vrt.Fail("wrong-result", "Block on a value gives %v, %v", v, err)
		}
		if v, err := mono.Map(mono.Just(i), inc).Block(); v != i || err != nil {
			vrt.Fail("wrong-result", "Block on a mapped value gives %v, %v", v, err)
		}
		if v, err := mono.Error[int](errBoom).Block(); v != 0 || err != errBoom {
			vrt.Fail("wrong-result", "Block on an error gives %v, %v", v, err)
		}
		failing := mono.Map(mono.Just(i), func(int) (int, error) { return 0, errMap })
		if _, err := failing.Block(); err != errMap {
			vrt.Fail("wrong-result", "Block on a failing mapping gives %v", err)
		}
		f := mono.Map(mono.Just(i), inc)
		f.Async()
		if v, err := f.Get(); v != i || err != nil {
			vrt.Fail("wrong-result", "Get on a mapped value gives %v, %v", v, err)
		}
	}
	vrt.Quiesce()
	if b := vrt.Blocked(); len(b) > 0 {
		vrt.Fail("left-behind", "blocked: %v", b)
	}
}
