// C15: every request gets its own answer, whatever the delivery order.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/peers"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
)

type call struct {
	kind string // what the operation does
	rev  bool   // from B to A
	wait int    // how the caller waits: 0 Block, 1 Subscribe, 2 Async and Notify, 3 Subscribe and Block
}

func (c call) String() string {
	d := "A>B"
	if c.rev {
		d = "B>A"
	}
	return fmt.Sprintf("%s %s/%d", d, c.kind, c.wait)
}

// the kinds of requests; "fnf" ones are not answered
var kinds = []string{"ok", "fail", "later", "laterfail", "back", "unknown", "badmeta", "fnf", "fnfunknown", "fnfbadmeta"}

// requests and answers without data, without metadata or without both
var bare = []string{"bare", "baremeta", "baredata", "barefnf"}

type state struct {
	call
	op       int
	ran      int
	answered int
	got      string
}

func show(p payload.Payload, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if p == nil {
		return "nothing"
	}
	return fmt.Sprintf("%q %q", p.Data(), p.Metadata())
}

// boom is the message of an error
func boom(name string) string {
	if message != nil {
		return *message
	}
	return "boom " + name
}

var message *string

var messages = []string{"", " ", "x", "not_found", "Invalid metadata", "EOF", "boom", "a\x00b", "\xff\xfe\x80", "\u00fc\u20ac\U0001f600", "%d %s %", "two\nlines",
	strings.Repeat("0123456789", 26)[:255], strings.Repeat("0123456789", 26)[:256], strings.Repeat("long ", 20000)}

func run(calls []call) { play(calls, "") }

// play makes the calls; the connection may end at any time ("lost" and "arrives" tell what happens to the frames
// that are on their way then).
func play(calls []call, cut string) {
	a, b := peers.New()
	side := func(rev bool) *peers.Peer {
		if rev {
			return b
		}
		return a
	}
	st := make([]*state, len(calls))
	var ths []*vrt.Thread
	for i, c := range calls {
		i, c, s := i, c, &state{call: c, op: i}
		st[i] = s
		name := fmt.Sprint("call", i)
		meta := peers.Meta(s.op, "m"+name)
		data := name
		if strings.HasPrefix(c.kind, "bare") {
			data = ""
		}
		if c.kind == "baredata" || c.kind == "barefnf" {
			meta = peers.Meta(s.op, "")
		}
		answer := func() payload.Payload {
			switch c.kind {
			case "bare":
				return payload.New(nil)
			case "baremeta":
				return payload.New(nil, []byte("am"+name))
			case "baredata":
				return payload.New([]byte("answer to " + name))
			}
			return payload.New([]byte("answer to "+name), []byte("am"+name))
		}
		enter := func(me *peers.Peer, p payload.Payload) {
			s.ran++
			if me != side(!s.rev) {
				vrt.Fail("wrong-side", "%v was handled by the wrong side", s.call)
			}
			extra := "m" + name
			if c.kind == "baredata" || c.kind == "barefnf" {
				extra = ""
			}
			if string(p.Data()) != data || !peers.MetaOK(p.Metadata(), s.op, extra) {
				vrt.Fail("wrong-request", "%v was handled with %q %q", s.call, p.Data(), p.Metadata())
			}
		}
		expect := show(answer(), nil)
		switch c.kind {
		case "ok", "bare", "baremeta", "baredata":
			peers.W.RR[i] = func(me *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
				enter(me, p)
				return mono.Just(answer())
			}
		case "fail":
			expect = "error " + boom(name)
			peers.W.RR[i] = func(me *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
				enter(me, p)
				return mono.Error[payload.Payload](errors.New(boom(name)))
			}
		case "later", "laterfail":
			if c.kind == "laterfail" {
				expect = "error " + boom(name)
			}
			peers.W.RR[i] = func(me *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
				enter(me, p)
				m := mono.NewProcessor[payload.Payload]()
				vrt.GoNamed("answer "+name, func() {
					if c.kind == "later" {
						m.Success(answer())
					} else {
						m.Error(errors.New(boom(name)))
					}
				})
				return m
			}
		case "back":
			expect = fmt.Sprintf("%q %q", "back "+name+"!", "bm")
			peers.W.RR[i] = func(me *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
				enter(me, p)
				return mono.Map[payload.Payload, payload.Payload](
					me.H.RequestResponse(context.Background(), payload.New([]byte("back "+name), peers.Meta(7, ""))),
					func(p payload.Payload) (payload.Payload, error) {
						return payload.New([]byte(string(p.Data())+"!"), p.Metadata()), nil
					})
			}
			peers.W.RR[7] = func(me *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
				return mono.Just[payload.Payload](payload.New(p.Data(), []byte("bm")))
			}
		case "unknown":
			expect = "error"
			meta = peers.Meta(9, "m"+name)
		case "badmeta":
			expect = "error"
			meta = meta[:7]
		case "fnf", "barefnf":
			expect = ""
			peers.W.FNF[i] = enter
		case "fnfunknown":
			expect = ""
			meta = peers.Meta(9, "m"+name)
		case "fnfbadmeta":
			expect = ""
			meta = nil
		}
		done := func(p payload.Payload, err error) {
			s.answered++
			s.got = show(p, err)
			if s.answered > 1 {
				vrt.Fail("answered-twice", "%v was answered twice", s.call)
			}
			if cut != "" && err != nil && err.Error() != "" {
				return
			}
			if expect == "error" {
				if err == nil {
					vrt.Fail("no-error", "%v got %s instead of an error", s.call, s.got)
				}
			} else if s.got != expect {
				vrt.Fail("wrong-answer", "%v got %s instead of %s", s.call, s.got, expect)
			}
		}
		ths = append(ths, vrt.GoNamed(name, func() {
			h := side(c.rev).H
			p := payload.New([]byte(data), meta)
			if strings.Contains(c.kind, "fnf") {
				h.FireAndForget(context.Background(), p)
				return
			}
			m := h.RequestResponse(context.Background(), p)
			sub := mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { done(p, nil) },
				OnError:   func(err error) { done(nil, err) },
			}
			switch c.wait {
			case 0:
				done(m.Block())
			case 1:
				m.Subscribe(sub)
			case 2:
				m.Async()
				m.Notify(func(rx.SignalType) { done(m.Get()) })
			case 3:
				m.Subscribe(sub)
				if r := show(m.Block()); r != s.got {
					// the callback may come after Block
					s.got = r
				}
			}
		}))
	}
	if cut != "" {
		ths = append(ths, vrt.GoNamed("cut", func() { peers.Cut(a, b, cut == "arrives") }))
	}
	vrt.Quiesce()
	for _, s := range st {
		answers, runs := 1, 1
		switch s.kind {
		case "unknown", "badmeta":
			runs = 0
		case "fnf", "barefnf":
			answers = 0
		case "fnfunknown", "fnfbadmeta":
			answers, runs = 0, 0
		}
		if s.ran != runs && (cut == "" || s.ran > runs) {
			vrt.Fail("runs", "the handler of %v ran %d times instead of %d", s.call, s.ran, runs)
		}
		if s.answered != answers {
			vrt.Fail("answers", "%v got %d answers instead of %d; frames: %q %q", s.call, s.answered, answers, a.Sent, b.Sent)
		}
	}
	for _, p := range []*peers.Peer{a, b} {
		if n := p.Open(); n != 0 {
			vrt.Fail("left", "%d streams are still open at %s", n, p.Name)
		}
		if len(p.Errs) > 0 {
			vrt.Fail("handle-error", "%s could not handle a frame, which takes the connection down: %v", p.Name, p.Errs[0])
		}
	}
	vrt.Join(ths...)
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", bl)
	}
	vrt.Outcome("%q %q", a.Sent, b.Sent)
}

// unsendable: one or all frames of a side, from the k-th on, cannot be sent
func unsendable(kind string, rev, callee, all bool, k, wait int) {
	a, b := peers.New()
	from, to := a, b
	if rev {
		from, to = b, a
	}
	bad := from
	if callee {
		bad = to
	}
	n, dropped := 0, 0
	bad.Drop = func(frames.Frame) error {
		n++
		if n-1 == k || all && n-1 > k {
			dropped++
			return errors.New("unsendable")
		}
		return nil
	}
	want := "\"answer\" \"am\""
	op := 1
	peers.W.RR[1] = func(me *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
		answer := payload.New([]byte("answer"), []byte("am"))
		switch kind {
		case "fail":
			return mono.Error[payload.Payload](errors.New("boom"))
		case "later":
			m := mono.NewProcessor[payload.Payload]()
			vrt.GoNamed("answer", func() { m.Success(answer) })
			return m
		case "back":
			return me.H.RequestResponse(context.Background(), payload.New([]byte("answer"), peers.Meta(7, "")))
		}
		return mono.Just[payload.Payload](answer)
	}
	peers.W.RR[7] = func(me *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just[payload.Payload](payload.New(p.Data(), []byte("am")))
	}
	switch kind {
	case "fail":
		want = "error boom"
	case "unknown":
		op = 9
		want = "error not_found"
	}
	answers := 0
	got := ""
	done := func(p payload.Payload, err error) {
		answers++
		got = show(p, err)
		if answers > 1 {
			vrt.Fail("answered-twice", "answered twice")
		}
		if dropped == 0 && got != want {
			vrt.Fail("wrong-answer", "got %s instead of %s", got, want)
		}
		if dropped > 0 && got != want && err == nil {
			vrt.Fail("no-error", "got %s instead of %s or an error", got, want)
		}
	}
	vrt.GoNamed("caller", func() {
		m := from.H.RequestResponse(context.Background(), payload.New([]byte("x"), peers.Meta(op, "m")))
		switch wait {
		case 0:
			done(m.Block())
		case 1:
			m.Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { done(p, nil) },
				OnError:   func(err error) { done(nil, err) },
			})
		case 2:
			m.Async()
			m.Notify(func(rx.SignalType) { done(m.Get()) })
		}
	})
	vrt.Quiesce()
	if callee && all && dropped > 0 && kind != "back" {
		return // there is no way to tell the caller
	}
	if answers != 1 && !(all && kind == "back") && !(callee && kind == "unknown") {
		vrt.Fail("answers", "%d answers, %d frames could not be sent; frames: %q %q", answers, dropped, a.Sent, b.Sent)
	}
	if answers == 1 {
		for _, p := range []*peers.Peer{a, b} {
			if n := p.Open(); n != 0 {
				vrt.Fail("left", "%d streams are still open at %s", n, p.Name)
			}
		}
		if bl := vrt.Blocked(); len(bl) > 0 {
			vrt.Fail("left-threads", "threads stay behind: %q", bl)
		}
	}
	vrt.Outcome("%s %d %q %q", got, dropped, a.Sent, b.Sent)
}

// crowd makes many calls before any is answered, and answers them in some order. Every third is left to a handler that
// answers at once, every seventh fails.
func crowd(n int, both bool, order string, blocking bool) {
	a, b := peers.New()
	type one struct {
		ran, answered int
		rev           bool
		m             mono.Processor[payload.Payload]
	}
	cs := make([]one, n)
	var waiting []int
	num := func(p payload.Payload) int {
		i := -1
		fmt.Sscan(string(p.Data()), &i)
		if i < 0 || i >= n || string(p.Data()) != fmt.Sprint(i) || !peers.MetaOK(p.Metadata(), i%2, fmt.Sprint("m", i)) {
			vrt.Fail("wrong-request", "a handler got %q %q", p.Data(), p.Metadata())
		}
		return i
	}
	answer := func(i int) payload.Payload {
		return payload.New([]byte(fmt.Sprint("answer", i)), []byte(fmt.Sprint("am", i)))
	}
	h := func(op int) func(me *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
		return func(me *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
			i := num(p)
			if i%2 != op || (me == a) != cs[i].rev {
				vrt.Fail("wrong-side", "call %d was handled by the wrong handler", i)
			}
			cs[i].ran++
			if i%3 == 0 {
				if i%7 == 0 {
					return mono.Error[payload.Payload](fmt.Errorf("boom %d", i))
				}
				return mono.Just(answer(i))
			}
			cs[i].m = mono.NewProcessor[payload.Payload]()
			waiting = append(waiting, i)
			return cs[i].m
		}
	}
	peers.W.RR[0], peers.W.RR[1] = h(0), h(1)
	for i := 0; i < n; i++ {
		i := i
		from := a
		if both && i%5 > 2 {
			from = b
			cs[i].rev = true
		}
		done := func(p payload.Payload, err error) {
			cs[i].answered++
			want := show(answer(i), nil)
			if i%7 == 0 {
				want = fmt.Sprint("error boom ", i)
			}
			if got := show(p, err); got != want {
				vrt.Fail("wrong-answer", "call %d of %d got %s instead of %s", i, n, got, want)
			}
		}
		call := func() {
			m := from.H.RequestResponse(context.Background(), payload.New([]byte(fmt.Sprint(i)), peers.Meta(i%2, fmt.Sprint("m", i))))
			if blocking {
				done(m.Block())
				return
			}
			m.Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { done(p, nil) },
				OnError:   func(err error) { done(nil, err) },
			})
		}
		if blocking {
			vrt.GoNamed(fmt.Sprint("call", i), call)
		} else {
			call()
		}
	}
	vrt.Quiesce()
	for i := range cs {
		if cs[i].ran != 1 {
			vrt.Fail("runs", "the handler of call %d of %d ran %d times", i, n, cs[i].ran)
		}
	}
	if len(waiting) > 0 {
		if a.Open()+b.Open() == 0 {
			vrt.Fail("left", "no stream is open")
		}
	}
	for k := range waiting {
		i := waiting[k]
		switch order {
		case "last first":
			i = waiting[len(waiting)-1-k]
		case "inside out":
			i = waiting[inside(k, len(waiting))]
		}
		if i%7 == 0 {
			cs[i].m.Error(fmt.Errorf("boom %d", i))
		} else {
			cs[i].m.Success(answer(i))
		}
		if order == "one by one" {
			vrt.Quiesce()
			if cs[i].answered != 1 {
				vrt.Fail("answers", "call %d of %d got %d answers when it was answered", i, n, cs[i].answered)
			}
		}
	}
	vrt.Quiesce()
	for i := range cs {
		if cs[i].answered != 1 {
			vrt.Fail("answers", "call %d of %d got %d answers", i, n, cs[i].answered)
		}
	}
	for _, p := range []*peers.Peer{a, b} {
		if n := p.Open(); n != 0 {
			vrt.Fail("left", "%d streams are still open at %s", n, p.Name)
		}
		if len(p.Errs) > 0 {
			vrt.Fail("handle-error", "%s could not handle a frame, which takes the connection down: %v", p.Name, p.Errs[0])
		}
	}
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", bl)
	}
}

// inside is the k-th of 0..n-1 from the middle outwards
func inside(k, n int) int {
	if k%2 == 0 {
		return (n-1)/2 - k/2
	}
	return (n-1)/2 + (k+1)/2
}

func main() {
	hx.Main("C15", func(s *hx.Suite) {
		s.Assumptions = []string{"connections deliver frames in order and whole", "sequentially consistent memory"}
		s.Enum("single calls", 8, func(e *hx.E) {
			for _, k := range append(append([]string{}, kinds...), bare...) {
				for _, rev := range []bool{false, true} {
					for w := 0; w < 4; w++ {
						if w > 0 && strings.Contains(k, "fnf") {
							continue
						}
						cs := []call{{k, rev, w}}
						e.Case(func() string { return fmt.Sprint(cs) }, func() {
							e.Sched(vrt.Config{Bound: hx.Pick(s, 2, 3)}, func() { run(cs) })
						})
					}
				}
			}
		})
		s.Enum("frames that cannot be sent", 8, func(e *hx.E) {
			for _, k := range []string{"ok", "fail", "later", "back", "unknown"} {
				for at := 0; at < 3; at++ {
					for w := 0; w < 3; w++ {
						for m := 0; m < 8; m++ {
							k, at, w, m := k, at, w, m
							e.Case(func() string {
								return fmt.Sprintf("%s, rev %v, callee's frames %v, all %v, from %d, wait %d", k, m&1 != 0, m&2 != 0, m&4 != 0, at, w)
							}, func() {
								e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 3)}, func() { unsendable(k, m&1 != 0, m&2 != 0, m&4 != 0, at, w) })
							})
						}
					}
				}
			}
		})
		s.Enum("the connection ends", 8, func(e *hx.E) {
			for _, cut := range []string{"lost", "arrives"} {
				try := func(bound int, cs ...call) {
					cut := cut
					e.Case(func() string { return fmt.Sprint(cs, " ", cut) }, func() {
						e.Sched(vrt.Config{Delay: true, Bound: bound}, func() { play(cs, cut) })
					})
				}
				for _, k := range kinds {
					for w := 0; w < 4; w++ {
						for _, rev := range []bool{false, true} {
							try(hx.Pick(s, 2, 4), call{k, rev, w})
						}
					}
					for _, l := range kinds {
						for _, rev := range []bool{false, true} {
							try(hx.Pick(s, 1, 2), call{k, false, 1}, call{l, rev, 0})
						}
					}
				}
			}
		})
		s.Enum("many calls at once", 8, func(e *hx.E) {
			for _, n := range []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 32, 33, 64, 65, 100, 129, 200, 257} {
				for _, both := range []bool{false, true} {
					for _, order := range []string{"first first", "last first", "inside out", "one by one"} {
						for _, blocking := range []bool{false, true} {
							n, both, order, blocking := n, both, order, blocking
							if blocking && n > 100 {
								continue
							}
							e.Case(func() string {
								return fmt.Sprintf("%d calls, in both directions %v, answered %s, blocking %v", n, both, order, blocking)
							}, func() {
								e.Sched(vrt.Config{Delay: true, Horizon: 1000000}, func() { crowd(n, both, order, blocking) })
							})
						}
					}
				}
			}
		})
		s.Enum("messages of errors", 8, func(e *hx.E) {
			for _, m := range messages {
				for _, k := range []string{"fail", "laterfail"} {
					for _, rev := range []bool{false, true} {
						for w := 0; w < 4; w++ {
							m, cs := m, []call{{k, rev, w}, {"ok", false, 1}}
							e.Case(func() string { return fmt.Sprintf("%.40q %v", m, cs) }, func() {
								e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 0, 1)}, func() {
									message = &m
									defer func() { message = nil }()
									run(cs)
								})
							})
						}
					}
				}
			}
		})
		s.Enum("pairs of calls", 8, func(e *hx.E) {
			for i, k := range kinds {
				for _, l := range kinds[i:] {
					for _, rev := range []bool{false, true} {
						for _, w := range hx.Pick(s, [][2]int{{0, 1}}, [][2]int{{0, 0}, {0, 1}, {1, 0}, {2, 1}, {3, 2}}) {
							cs := []call{{k, false, w[0]}, {l, rev, w[1]}}
							e.Case(func() string { return fmt.Sprint(cs) }, func() {
								e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 2, 3)}, func() { run(cs) })
							})
						}
					}
				}
			}
		})
		s.Enum("nothing in it", 8, func(e *hx.E) {
			for _, k := range bare {
				for _, l := range append(append([]string{}, kinds...), bare...) {
					for _, rev := range []bool{false, true} {
						cs := []call{{k, false, 0}, {l, rev, 1}}
						e.Case(func() string { return fmt.Sprint(cs) }, func() {
							e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 3)}, func() { run(cs) })
						})
					}
				}
			}
		})
		s.Enum("triples of calls", 8, func(e *hx.E) {
			for i, k := range kinds {
				for j, l := range kinds[i:] {
					for _, m := range kinds[i+j:] {
						for d := 0; d < 4; d++ {
							cs := []call{{k, false, 0}, {l, d&1 != 0, 1}, {m, d&2 != 0, 2}}
							e.Case(func() string { return fmt.Sprint(cs) }, func() {
								e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 2)}, func() { run(cs) })
							})
						}
					}
				}
			}
		})
	})
}
