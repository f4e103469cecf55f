// C11: a subscriber sees items, then at most one end, then nothing.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
)

var (
	errSource = errors.New("source failed")
	errMap    = errors.New("mapping failed")
)

// sig is one signal of a source: 'N', 'C' or 'E'.
type want struct {
	items []int
	end   byte // 0 none, 'C', 'E', 'X'
	err   error
	noErr bool // any error will do
	must  int  // number of signals of the source that were needed to reach the end
}

// pub is a publisher of either kind.
type pub struct {
	f flux.Flux[int]
	m mono.Mono[int]
}

func (p pub) notify(fn rx.FnFinally) {
	if p.f != nil {
		p.f.Notify(fn)
	} else {
		p.m.Notify(fn)
	}
}

// stages of a composition
type stage struct {
	name   string
	flux   bool // input
	toFlux bool // output
	apply  func(p pub) pub
	model  func(w want) want
}

func cp(x []int) []int { return append([]int{}, x...) }

func failAt(j int) (func(int) (int, error), *int) {
	n := 0
	return func(v int) (int, error) {
		n++
		if n == j {
			return 0, errMap
		}
		return v + 100, nil
	}, &n
}

func stages() []stage {
	var st []stage
	for _, j := range []int{0, 1, 2} {
		j := j
		name := "map"
		if j > 0 {
			name = fmt.Sprintf("map failing at %d", j)
		}
		st = append(st, stage{name, true, true, func(p pub) pub { tx, _ := failAt(j); return pub{f: flux.Map(p.f, tx)} }, func(w want) want {
			out := want{end: w.end, err: w.err, noErr: w.noErr}
			for i, v := range w.items {
				if i+1 == j {
					return want{items: out.items, end: 'E', err: errMap}
				}
				out.items = append(out.items, v+100)
			}
			return out
		}})
		if j == 2 {
			continue
		}
		st = append(st, stage{"mono " + name, false, false, func(p pub) pub {
			return pub{m: mono.Map(p.m, func(v int) (int, error) {
				if j == 1 {
					return 0, errMap
				}
				return v + 100, nil
			})}
		}, func(w want) want {
			if w.end != 'C' {
				return w
			}
			if j == 1 {
				return want{end: 'E', err: errMap}
			}
			return want{items: []int{w.items[0] + 100}, end: 'C'}
		}})
	}
	st = append(st,
		stage{"to mono", true, false, func(p pub) pub { return pub{m: transform.FluxToMono(p.f)} }, func(w want) want {
			if len(w.items) > 0 {
				return want{items: cp(w.items[:1]), end: 'C'}
			}
			if w.end == 'C' {
				return want{end: 'E', noErr: true}
			}
			return w
		}},
		stage{"to void", true, false, func(p pub) pub {
			return pub{m: mono.Map(transform.FluxToVoid(p.f), func(struct{}) (int, error) { return -1, nil })}
		}, func(w want) want {
			if w.end == 'C' {
				return want{items: []int{-1}, end: 'C'}
			}
			return want{end: w.end, err: w.err, noErr: w.noErr}
		}},
		stage{"to flux", false, true, func(p pub) pub { return pub{f: transform.MonoToFlux(p.m)} }, func(w want) want { return w }},
	)
	return st
}

// source kinds; emit sends a signal by hand ('N' with the value)
type source struct {
	name string
	flux bool
	// make returns the publisher and how to emit; early is what is emitted before the subscription
	make  func(c *control) pub
	hand  bool // signals are emitted by hand (after, or before the subscription)
	early bool // signals may precede the subscription
	fixed bool // ended from the start
}

type control struct {
	script  string
	emit    func(sig byte, v int)
	cancels int
	next    int
}

func (c *control) one(k byte, sinkN func(int), sinkC func(), sinkE func(error)) {
	switch k {
	case 'N':
		c.next++
		sinkN(c.next)
	case 'C':
		if sinkC != nil {
			sinkC()
		}
	case 'E':
		sinkE(errSource)
	}
}

func sources() []source {
	return []source{
		{name: "created flux, at once", flux: true, make: func(c *control) pub {
			return pub{f: flux.Create(func(s flux.Sink[int]) {
				s.OnSubscribe(flux.OnSubscribe{Cancel: func() { c.cancels++ }})
				for i := 0; i < len(c.script); i++ {
					c.one(c.script[i], s.Next, s.Complete, s.Error)
				}
			})}
		}},
		{name: "created flux, by hand", flux: true, hand: true, make: func(c *control) pub {
			return pub{f: flux.Create(func(s flux.Sink[int]) {
				s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { c.cancels++ }})
				c.emit = func(k byte, v int) { c.one(k, s.Next, s.Complete, s.Error) }
			})}
		}},
		{name: "created flux without subscription, by hand", flux: true, hand: true, make: func(c *control) pub {
			c.cancels = -1
			return pub{f: flux.Create(func(s flux.Sink[int]) {
				c.emit = func(k byte, v int) { c.one(k, s.Next, s.Complete, s.Error) }
			})}
		}},
		{name: "flux processor", flux: true, hand: true, early: true, make: func(c *control) pub {
			p := flux.NewProcessor[int]()
			p.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { c.cancels++ }})
			c.emit = func(k byte, v int) { c.one(k, p.Next, p.Complete, p.Error) }
			return pub{f: p}
		}},
		{name: "created mono, at once", make: func(c *control) pub {
			return pub{m: mono.Create(func(s mono.Sink[int]) {
				for i := 0; i < len(c.script); i++ {
					c.one(c.script[i], s.Success, nil, s.Error)
				}
			})}
		}},
		{name: "created mono, by hand", hand: true, make: func(c *control) pub {
			return pub{m: mono.Create(func(s mono.Sink[int]) {
				c.emit = func(k byte, v int) { c.one(k, s.Success, nil, s.Error) }
			})}
		}},
		{name: "mono processor", hand: true, early: true, make: func(c *control) pub {
			p := mono.NewProcessor[int]()
			c.emit = func(k byte, v int) { c.one(k, p.Success, nil, p.Error) }
			return pub{m: p}
		}},
		{name: "slice", flux: true, fixed: true, make: func(c *control) pub {
			var v []int
			for i := 0; i < strings.Count(c.script, "N"); i++ {
				v = append(v, i+1)
			}
			return pub{f: flux.FromSlice(v)}
		}},
		{name: "error flux", flux: true, fixed: true, make: func(c *control) pub { return pub{f: flux.Error[int](errSource)} }},
		{name: "error mono", fixed: true, make: func(c *control) pub { return pub{m: mono.Error[int](errSource)} }},
		{name: "just", fixed: true, make: func(c *control) pub { return pub{m: mono.Just(1)} }},
	}
}

// base is what a subscriber of the bare source must see of the first n signals of the script
func base(flx bool, script string) want {
	var w want
	v := 0
	for i := 0; i < len(script); i++ {
		switch script[i] {
		case 'N':
			v++
			w.items = append(w.items, v)
			if !flx {
				w.end = 'C'
				return w
			}
		case 'C':
			if flx {
				w.end = 'C'
				return w
			}
		case 'E':
			return want{items: w.items, end: 'E', err: errSource}
		}
	}
	return w
}

// observer records what a subscriber sees
type observer struct {
	e        *hx.E
	what     func() string
	log      []string
	items    []int
	end      byte
	err      error
	finally  []rx.SignalType
	notes    int // registered
	noted    []rx.SignalType
	cancel   bool
	inItem   bool // the item is the end of a mono
	early    bool // the publisher has ended from the start
	react    func(where string, k int)
	quietEnd bool // callbacks for the end are not installed
}

func (o *observer) bad(sig, f string, a ...any) {
	vrt.Fail(sig, "%s: %s (saw %s)", o.what(), fmt.Sprintf(f, a...), strings.Join(o.log, " "))
}

func (o *observer) next(v int) {
	o.log = append(o.log, fmt.Sprint("item ", v))
	if o.end != 0 {
		o.bad("after-end", "item %d after the end", v)
	}
	if o.cancel {
		o.bad("after-cancel", "item %d after cancelling", v)
	}
	if len(o.finally) > 0 {
		o.bad("after-finally", "item %d after finally", v)
	}
	o.items = append(o.items, v)
	o.react("item", len(o.items))
}

func (o *observer) ended(k byte, err error) {
	o.log = append(o.log, fmt.Sprintf("end %c %v", k, err))
	if o.end != 0 {
		o.bad("two-ends", "a second end")
	}
	if o.cancel {
		o.bad("after-cancel", "end after cancelling")
	}
	if len(o.finally) > 0 {
		o.bad("after-finally", "end after finally")
	}
	o.end, o.err = k, err
	o.react("end", 0)
}

func (o *observer) fin(s rx.SignalType) {
	o.log = append(o.log, "finally "+s.String())
	o.finally = append(o.finally, s)
	if o.end == 0 && !o.cancel && !o.quietEnd {
		o.bad("finally-early", "finally before the end")
	}
	o.react("finally", 0)
}

func (o *observer) note(p pub) {
	o.notes++
	id := o.notes
	done := false
	o.log = append(o.log, fmt.Sprintf("notify%d", id))
	p.notify(func(s rx.SignalType) {
		o.log = append(o.log, fmt.Sprintf("notified%d %s", id, s))
		if done {
			o.bad("notified-twice", "notification %d ran twice", id)
		}
		done = true
		if o.end == 0 && !o.cancel && !o.quietEnd && !o.early && !o.inItem {
			o.bad("notified-early", "notification %d ran before the end", id)
		}
		o.noted = append(o.noted, s)
	})
}

func (o *observer) subscribe(p pub, which string) {
	if p.f != nil {
		s := flux.Subscribe[int]{}
		if strings.Contains(which, "n") {
			s.OnNext = o.next
		}
		if strings.Contains(which, "c") {
			s.OnComplete = func() { o.ended('C', nil) }
		}
		if strings.Contains(which, "e") {
			s.OnError = func(err error) { o.ended('E', err) }
		}
		if strings.Contains(which, "f") {
			s.Finally = o.fin
		}
		p.f.Subscribe(s)
		return
	}
	s := mono.Subscribe[int]{}
	if strings.Contains(which, "n") {
		s.OnSuccess = func(v int) { o.inItem = true; o.next(v); o.ended('C', nil) }
	}
	if strings.Contains(which, "e") {
		s.OnError = func(err error) { o.ended('E', err) }
	}
	if strings.Contains(which, "f") {
		s.Finally = o.fin
	}
	p.m.Subscribe(s)
}

// check compares with what was to be seen so far
func (o *observer) check(w want, which string, noteFrom int) {
	if strings.Contains(which, "n") && fmt.Sprint(o.items) != fmt.Sprint(w.items) {
		o.bad("items", "items %v instead of %v", o.items, w.items)
	}
	ends := which == "ncef"
	if ends && w.end != 'X' && o.end != w.end {
		o.bad("end", "end %q instead of %q", string(rune(o.end)), string(rune(w.end)))
	}
	if ends && w.end == 'E' && (o.err == nil || !w.noErr && o.err != w.err) {
		o.bad("error", "error %v instead of %v", o.err, w.err)
	}
	sg := map[byte]rx.SignalType{'C': rx.SignalComplete, 'E': rx.SignalError, 'X': rx.SignalCancel}[w.end]
	n := 0
	if w.end != 0 {
		n = 1
	}
	if strings.Contains(which, "f") {
		if len(o.finally) != n {
			o.bad("finally", "finally ran %d times instead of %d", len(o.finally), n)
		}
		if n == 1 && o.finally[0] != sg {
			o.bad("finally-signal", "finally with %s instead of %s", o.finally[0], sg)
		}
	}
	if len(o.noted) != n*o.notes {
		o.bad("notifications", "%d of %d notifications ran, ended: %v", len(o.noted), o.notes, n == 1)
	}
	for _, s := range o.noted {
		if s != sg {
			o.bad("notification-signal", "notified of %s instead of %s", s, sg)
		}
	}
}

var cur string

func now() string { return cur }

func scripts(alphabet string, depth int) []string {
	r := []string{""}
	for i := 0; i < len(r); i++ {
		if len(r[i]) < depth {
			for _, c := range alphabet {
				r = append(r, r[i]+string(c))
			}
		}
	}
	return r
}

func stacks(st []stage, flx bool, depth int) [][]stage {
	r := [][]stage{nil}
	if depth == 0 {
		return r
	}
	for _, s := range st {
		if s.flux == flx {
			for _, t := range stacks(st, s.toFlux, depth-1) {
				r = append(r, append([]stage{s}, t...))
			}
		}
	}
	return r
}

func main() {
	hx.Main("C11", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions, "each publisher is subscribed once (constant ones repeatedly)", "histories run under one fixed schedule here; C12 and C13 explore the schedules")
		depth := hx.Pick(s, 4, 6)
		s.Enum("sources, compositions, scripts and points of cancelling and notifying", 8, func(e *hx.E) { all(e, depth, hx.Pick(s, 2, 3)) })
		s.Enum("reactions inside callbacks", 8, func(e *hx.E) { reactions(e, hx.Pick(s, 3, 4)) })
		s.Enum("subscribers without some callbacks", 8, func(e *hx.E) { partial(e) })
		s.Enum("constants and results, repeatedly", 1, constants)
		s.Enum("mappings that act and fail", 1, mappings)
		s.Enum("many items, notifications and stages", 8, scale)
	})
}

func comp(src source, st []stage) string {
	n := src.name
	for _, s := range st {
		n += ", " + s.name
	}
	return n
}

func model(src source, st []stage, script string) want {
	var w want
	switch src.name {
	case "slice":
		w = base(true, strings.Repeat("N", strings.Count(script, "N"))+"C")
	case "error flux", "error mono":
		w = want{end: 'E', err: errSource}
	case "just":
		w = want{items: []int{1}, end: 'C'}
	default:
		w = base(src.flux, script)
	}
	for _, t := range st {
		w = t.model(w)
	}
	return w
}

func build(src source, st []stage, c *control) pub {
	p := src.make(c)
	for _, t := range st {
		p = t.apply(p)
	}
	return p
}

// cancellable tells whether cancelling the outer flux reaches the source
func cancellable(src source, st []stage) bool {
	for _, t := range st {
		if !t.flux || !t.toFlux {
			return false
		}
	}
	return src.flux
}

func fixedEarly(src source, st []stage) bool {
	return src.name == "error flux" || src.name == "error mono" || src.name == "just"
}

func all(e *hx.E, depth, sdepth int) {
	st := stages()
	for _, src := range sources() {
		src := src
		alphabet := "NCE"
		if !src.flux {
			alphabet = "NE"
		}
		scr := scripts(alphabet, depth)
		if src.fixed {
			scr = []string{"", "N", "NN", "NNN"}
			if src.name != "slice" {
				scr = scr[:1]
			}
		}
		for _, stk := range stacks(st, src.flux, sdepth) {
			for _, script := range scr {
				stk, script := stk, script
				e.Case(now, func() {
					subs := []int{0}
					if src.early {
						subs = nil
						for k := 0; k <= len(script); k++ {
							subs = append(subs, k)
						}
					}
					points := 1
					if src.hand {
						points = len(script) + 1
					}
					for _, sub := range subs {
						for nat := -1; nat <= points; nat++ {
							for cat := 0; cat <= points; cat++ {
								one(e, src, stk, script, sub, nat, cat)
							}
						}
					}
				})
			}
		}
	}
}

// one history: the subscription happens before signal number sub, a notification is registered at point nat
// (-1: before the subscription), cancelling happens at point cat (0: before the first signal after
// subscribing), points beyond the script mean never
func one(e *hx.E, src source, stk []stage, script string, sub, nat, cat int) {
	what := fmt.Sprintf("%s; script %q, subscribed at %d, notification at %d, cancelled at %d", comp(src, stk), script, sub, nat, cat)
	cur = what
	points := 1
	if src.hand {
		points = len(script) + 1
	}
	e.Step(len(script) + 3)
	e.Sched(vrt.Config{Bound: 0, FreeLimit: 0, Horizon: 5000}, func() {
		c := &control{script: script}
		p := build(src, stk, c)
		o := &observer{e: e, what: func() string { return what }, react: func(string, int) {}}
		o.early = fixedEarly(src, stk)
		if nat == -1 {
			o.note(p)
		}
		vrt.Quiesce()
		seen := sub // signals emitted so far
		for k := 0; k < sub && src.hand; k++ {
			c.emit(script[k], 0)
		}
		o.subscribe(p, "ncef")
		vrt.Quiesce()
		done := script
		if src.hand {
			done = script[:seen]
		}
		w := model(src, stk, done)
		o.check(w, "ncef", 0)
		for k := sub; ; k++ {
			vrt.Quiesce()
			if nat == k || nat == sub && k == sub || !src.hand && nat == 0 && k == sub {
				if nat >= 0 && o.notes == 0 {
					o.note(p)
					vrt.Quiesce()
				}
			}
			if cat == k && p.f != nil && k < points {
				before := w
				o.cancel = before.end == 0
				p.f.Subscription().Cancel()
				if before.end == 0 {
					vrt.Quiesce()
					w = want{items: w.items, end: 'X'}
					o.check(w, "ncef", 0)
					if cancellable(src, stk) && c.cancels >= 0 && src.name != "slice" && c.cancels != 1 {
						o.bad("source-cancel", "the source was told to cancel %d times", c.cancels)
					}
					p.f.Subscription().Cancel()
					vrt.Quiesce()
					o.check(w, "ncef", 0)
				} else {
					vrt.Quiesce()
					o.check(w, "ncef", 0)
				}
			}
			if !src.hand || k >= len(script) {
				break
			}
			c.emit(script[k], 0)
			vrt.Quiesce()
			if w.end != 'X' {
				w = model(src, stk, script[:k+1])
			}
			o.check(w, "ncef", 0)
		}
		o.note(p) // a late one
		vrt.Quiesce()
		o.check(w, "ncef", 0)
		if p.m != nil && w.end != 0 {
			v, err := p.m.Get()
			if w.end == 'C' && (err != nil || v != w.items[0]) || w.end == 'E' && (err == nil || !w.noErr && err != w.err) {
				o.bad("get", "Get gives %v, %v", v, err)
			}
		}
		if w.end == 'E' && w.err == errMap && cancellable(src, stk) && src.name != "slice" && c.cancels >= 0 && c.cancels != 1 {
			o.bad("source-cancel", "a mapping failed and the source was told to cancel %d times", c.cancels)
		}
	})
}

// scale: long scripts, long chains of stages, many notifications
func scale(e *hx.E) {
	st := stages()
	byName := map[string]stage{}
	for _, t := range st {
		byName[t.name] = t
	}
	rep := func(n int, names ...string) []stage {
		var r []stage
		for i := 0; i < n; i++ {
			for _, x := range names {
				r = append(r, byName[x])
			}
		}
		return r
	}
	for _, src := range sources() {
		src := src
		var stks [][]stage
		if src.flux {
			stks = [][]stage{nil, rep(1, "map"), rep(1, "map failing at 2"), rep(1, "to mono"), rep(1, "to void"), rep(1, "to mono", "to flux"),
				rep(8, "map"), rep(33, "map"), rep(9, "to mono", "to flux"), append(rep(20, "map"), byName["to void"]), append(rep(20, "map"), rep(1, "map failing at 2", "map")...)}
		} else {
			stks = [][]stage{nil, rep(1, "mono map"), rep(1, "to flux"), rep(8, "mono map"), rep(33, "mono map"), rep(9, "to flux", "to mono"), append(rep(20, "mono map"), rep(3, "to flux", "map", "to mono", "mono map")...)}
		}
		var scr []string
		for _, n := range []int{0, 1, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 300} {
			if !src.flux && n > 1 || src.fixed && src.name != "slice" && n > 0 {
				break
			}
			for _, end := range []string{"", "C", "E"} {
				if !src.flux && end == "C" || src.fixed && end != "" {
					continue
				}
				scr = append(scr, strings.Repeat("N", n)+end)
			}
		}
		for _, stk := range stks {
			for _, script := range scr {
				for _, notes := range []int{0, 3, 9, 17, 33, 65, 130} {
					if notes > 3 && len(script) > 33 {
						continue
					}
					stk, script, notes := stk, script, notes
					e.Case(now, func() {
						subs, cats := []int{0}, []int{-1}
						if src.early {
							subs = append(subs, len(script)/2, len(script))
						}
						if src.hand && src.flux && len(script) > 0 {
							cats = append(cats, len(script)/2, len(script)-1)
						}
						for _, sub := range subs {
							for _, cat := range cats {
								if cat < sub && cat >= 0 {
									continue
								}
								sub, cat := sub, cat
								cur = fmt.Sprintf("%s with %d stages; a script of %d signals ending in %q, subscribed at %d, cancelled at %d, %d notifications", src.name, len(stk), len(script), last(script), sub, cat, notes)
								what := cur
								e.Step(len(script) + notes + 3)
								e.Sched(vrt.Config{Delay: true, Horizon: 2000000}, func() { long(e, src, stk, script, sub, cat, notes, what) })
							}
						}
					})
				}
			}
		}
	}
}

func last(s string) string {
	if s == "" {
		return s
	}
	return s[len(s)-1:]
}

// long registers a third of the notifications before subscribing, one in the middle and one at the end
func long(e *hx.E, src source, stk []stage, script string, sub, cat, notes int, what string) {
	c := &control{script: script}
	p := build(src, stk, c)
	o := &observer{e: e, what: func() string { return what }, react: func(string, int) {}}
	o.early = fixedEarly(src, stk)
	note := func() {
		for i := 0; i < (notes+2)/3; i++ {
			o.note(p)
		}
	}
	note()
	vrt.Quiesce()
	for k := 0; k < sub && src.hand; k++ {
		c.emit(script[k], 0)
	}
	o.subscribe(p, "ncef")
	vrt.Quiesce()
	done := script
	if src.hand {
		done = script[:sub]
	}
	w := model(src, stk, done)
	o.check(w, "ncef", 0)
	for k := sub; k < len(script) && src.hand; k++ {
		if k == (sub+len(script))/2 {
			note()
		}
		if k == cat && p.f != nil && w.end == 0 {
			vrt.Quiesce()
			w = model(src, stk, script[:k])
			o.check(w, "ncef", 0)
			if w.end == 0 {
				o.cancel = true
				p.f.Subscription().Cancel()
				vrt.Quiesce()
				w.end = 'X'
				o.check(w, "ncef", 0)
			}
		}
		c.emit(script[k], 0)
	}
	vrt.Quiesce()
	if w.end != 'X' {
		w = model(src, stk, script)
	}
	o.check(w, "ncef", 0)
	note()
	vrt.Quiesce()
	o.check(w, "ncef", 0)
}

// reactions: a callback acts on the publisher it is called by
func reactions(e *hx.E, depth int) {
	st := stages()
	for _, src := range sources() {
		src := src
		if src.fixed && src.name != "slice" {
			continue
		}
		alphabet := "NCE"
		if !src.flux {
			alphabet = "NE"
		}
		scr := scripts(alphabet, depth)
		if src.fixed {
			scr = []string{"", "N", "NN", "NNN"}
		}
		for _, stk := range stacks(st, src.flux, 2) {
			for _, script := range scr {
				stk, script := stk, script
				e.Case(now, func() {
					for _, act := range []string{"cancel", "notify", "complete", "error"} {
						for _, where := range []string{"item1", "item2", "end0", "finally0"} {
							cur = fmt.Sprintf("%s; script %q, %s in %s", comp(src, stk), script, act, where)
							what := cur
							e.Step(len(script) + 3)
							e.Sched(vrt.Config{Bound: 0, Horizon: 5000}, func() { react(src, stk, script, act, where, what) })
						}
					}
				})
			}
		}
	}
}

func react(src source, stk []stage, script, act, where, what string) {
	c := &control{script: script}
	p := build(src, stk, c)
	if p.f == nil && act == "cancel" || !src.hand && (act == "complete" || act == "error") || !src.flux && act == "complete" {
		return
	}
	o := &observer{what: func() string { return what }}
	acted := false
	emitted := 0
	o.react = func(wh string, k int) {
		if acted || fmt.Sprint(wh, k) != where {
			return
		}
		acted = true
		switch act {
		case "cancel":
			if o.end == 0 && len(o.finally) == 0 {
				o.cancel = true
			}
			p.f.Subscription().Cancel()
		case "notify":
			o.note(p)
		case "complete":
			c.emit('C', 0)
		case "error":
			c.emit('E', 0)
		}
	}
	o.note(p)
	o.subscribe(p, "ncef")
	vrt.Quiesce()
	for k := 0; k < len(script) && src.hand; k++ {
		emitted = k + 1
		c.emit(script[k], 0)
		vrt.Quiesce()
		if acted && act != "notify" {
			break
		}
	}
	_ = emitted
	// what was to be seen: the script up to where the reaction struck
	w := model(src, stk, script)
	if acted {
		n := 0
		if where == "item1" {
			n = 1
		} else if where == "item2" {
			n = 2
		}
		switch {
		case n == 0 || act == "notify":
		case act == "cancel" && p.f != nil:
			w = want{items: cp(w.items[:n]), end: 'X'}
		default:
			// the source ends while it delivers item n: what the composition makes of it
			s := script[:emitted]
			if act == "complete" {
				s += "C"
			} else {
				s += "E"
			}
			w = model(src, stk, s)
		}
	}
	// the end may overtake the rest of the item that is being delivered
	o.check(w, "ncef", 0)
	if act == "cancel" && o.cancel && cancellable(src, stk) && src.name != "slice" && c.cancels >= 0 && c.cancels != 1 {
		o.bad("source-cancel", "the source was told to cancel %d times", c.cancels)
	}
	// everything after is ignored
	if src.hand {
		for _, k := range "NCE" {
			if w.end != 0 && (k != 'C' || src.flux) {
				c.emit(byte(k), 0)
			}
		}
		vrt.Quiesce()
		o.check(w, "ncef", 0)
	}
}

func partial(e *hx.E) {
	st := stages()
	for _, src := range sources() {
		src := src
		scr := []string{"", "N", "NC", "NE", "C", "E", "NNC", "NNE"}
		if !src.flux {
			scr = []string{"", "N", "E", "NE"}
		}
		if src.fixed {
			scr = []string{"", "NN"}
		}
		for _, stk := range stacks(st, src.flux, 2) {
			for _, script := range scr {
				for _, which := range []string{"", "n", "c", "e", "f", "nc", "nf", "ef", "cef"} {
					stk, script, which := stk, script, which
					e.Case(now, func() {
						cur = fmt.Sprintf("%s; script %q, callbacks %q", comp(src, stk), script, which)
						what := cur
						e.Step(len(script) + 3)
						e.Sched(vrt.Config{Bound: 0, Horizon: 5000}, func() {
							c := &control{script: script}
							p := build(src, stk, c)
							o := &observer{what: func() string { return what }, react: func(string, int) {}, quietEnd: true}
							if !fixedEarly(src, stk) {
								o.note(p)
							}
							o.subscribe(p, which)
							vrt.Quiesce()
							for k := 0; k < len(script) && src.hand; k++ {
								c.emit(script[k], 0)
								vrt.Quiesce()
							}
							o.note(p)
							vrt.Quiesce()
							o.check(model(src, stk, script), which, 0)
						})
					})
				}
			}
		}
	}
}

func constants(e *hx.E) {
	for _, src := range sources() {
		src := src
		if !src.fixed || src.name == "slice" {
			continue
		}
		for _, stk := range stacks(stages(), src.flux, 1) {
			stk := stk
			e.Case(now, func() {
				cur = comp(src, stk) + " subscribed three times"
				what := cur
				for _, t := range stk {
					if strings.Contains(t.name, "failing") || strings.HasPrefix(t.name, "to ") {
						return
					}
				}
				e.Sched(vrt.Config{Bound: 0, Horizon: 5000}, func() {
					c := &control{}
					p := build(src, stk, c)
					for i := 0; i < 3; i++ {
						o := &observer{what: func() string { return what }, react: func(string, int) {}, early: true}
						o.note(p)
						o.subscribe(p, "ncef")
						vrt.Quiesce()
						o.note(p)
						vrt.Quiesce()
						o.check(model(src, stk, ""), "ncef", 0)
						if p.f != nil {
							p.f.Subscription().Request(1)
							p.f.Subscription().Cancel()
							vrt.Quiesce()
							o.check(model(src, stk, ""), "ncef", 0)
						}
					}
				})
			})
		}
	}
}

// mappings: a mapping ends the sequence in some way, and then fails or succeeds
func mappings(e *hx.E) {
	for _, src := range sources() {
		src := src
		if !src.flux || src.fixed && src.name != "slice" {
			continue
		}
		for at := 1; at <= 3; at++ {
			for _, act := range []string{"cancel", "complete", "error"} {
				for _, fails := range []bool{true, false} {
					for _, outer := range []bool{false, true} {
						at, act, fails, outer := at, act, fails, outer
						if act != "cancel" && !src.hand {
							continue
						}
						e.Case(now, func() {
							cur = fmt.Sprintf("%s, a mapping that at item %d does %s, fails: %v, mapped again: %v", src.name, at, act, fails, outer)
							what := cur
							e.Step(4)
							e.Sched(vrt.Config{Bound: 0, Horizon: 5000}, func() {
								c := &control{script: "NNN"}
								p := src.make(c)
								o := &observer{what: func() string { return what }, react: func(string, int) {}}
								k := 0
								f := flux.Map(p.f, func(v int) (int, error) {
									if k++; k == at {
										switch act {
										case "cancel":
											o.cancel = true
											p.f.Subscription().Cancel()
										case "complete":
											c.emit('C', 0)
										case "error":
											c.emit('E', 0)
										}
										if fails {
											return 0, errMap
										}
									}
									return v, nil
								})
								if outer {
									f = flux.Map(f, func(v int) (int, error) { return v, nil })
								}
								o.note(pub{f: f})
								items := 0
								f.Subscribe(flux.Subscribe[int]{
									OnNext: func(int) {
										// the item during which the end came may still be delivered
										if items++; items > at || fails && items == at {
											o.bad("after-end", "item %d", items)
										}
									},
									OnComplete: func() { o.ended('C', nil) },
									OnError:    func(err error) { o.ended('E', err) },
									Finally:    o.fin,
								})
								vrt.Quiesce()
								for i := 0; i < 3 && src.hand; i++ {
									c.emit('N', 0)
									vrt.Quiesce()
								}
								o.note(pub{f: f})
								vrt.Quiesce()
								w := want{end: 'X'}
								switch act {
								case "complete":
									w = want{end: 'C'}
								case "error":
									w = want{end: 'E', err: errSource}
								}
								if o.end == 'E' && o.err == errMap {
									o.bad("two-ends", "the mapping's error after the sequence has ended")
								}
								o.check(w, "cef", 0)
								if act == "cancel" && c.cancels > 1 {
									o.bad("source-cancel", "the source was told to cancel %d times", c.cancels)
								}
							})
						})
					}
				}
			}
		}
	}
}
