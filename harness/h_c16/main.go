// C16: streams and channels deliver in order within demand and always end.
package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/peers"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

func clean(a, b *peers.Peer, why string) {
	for _, p := range []*peers.Peer{a, b} {
		if n := p.Open(); n != 0 {
			vrt.Fail("left", "%s: %d streams are still open at %s; frames: %q %q", why, n, p.Name, a.Sent, b.Sent)
		}
		if len(p.Errs) > 0 {
			vrt.Fail("handle-error", "%s could not handle a frame, which takes the connection down: %v", p.Name, p.Errs[0])
		}
	}
}

// stream: B asks A, or A asks B, for a stream; optionally with a call alongside
func stream(src source, rc receiver, rev, call bool) {
	a, b := peers.New()
	from, to := a, b
	if rev {
		from, to = b, a
	}
	s, r := &src, &rc
	s.name, r.name = "s", "s"
	s.allowed = &r.requested
	runs := 0
	peers.W.RS[1] = func(me *peers.Peer, p payload.Payload) flux.Flux[payload.Payload] {
		runs++
		if me != nil && me != to {
			vrt.Fail("wrong-side", "the request was handled by the wrong side")
		}
		if string(p.Data()) != "req" || !peers.MetaOK(p.Metadata(), 1, "m") {
			vrt.Fail("wrong-request", "the handler got %q %q", p.Data(), p.Metadata())
		}
		return s.flux()
	}
	peers.W.RR[2] = func(me *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just[payload.Payload](payload.New(append([]byte("re "), p.Data()...)))
	}
	f := from.H.RequestStream(context.Background(), payload.New([]byte("req"), peers.Meta(1, "m")))
	r.subscribe(f)
	answers := 0
	if call {
		to.H.RequestResponse(context.Background(), payload.New([]byte("x"), peers.Meta(2, ""))).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) {
				if string(p.Data()) != "re x" {
					vrt.Fail("call-answer", "the other call got %q", p.Data())
				}
				answers++
			},
		})
	}
	vrt.Quiesce()
	if call && answers != 1 {
		vrt.Fail("call-lost", "the call alongside got %d answers", answers)
	}
	if runs > 1 || runs == 0 && !r.canceled && r.requested > 0 {
		vrt.Fail("runs", "the handler ran %d times", runs)
	}
	if s.slice {
		s.ended = r.got == s.n
	}
	r.judge(s, nil)
	vrt.Outcome("%s %d %s", r.end, r.got, fmt.Sprint(a.Sent, b.Sent))
	if r.ends == 0 {
		r.cancel()
		vrt.Quiesce()
		if r.ends != 1 || s.subs > 0 && s.canceled == 0 && !s.ended {
			vrt.Fail("late-cancel", "cancelling when idle: %d ends, source cancelled %d times", r.ends, s.canceled)
		}
	}
	clean(a, b, "stream ended")
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", bl)
	}
}

// the handlers of a channel
//
//	echo    answers with what it gets, mapped
//	own     consumes what it gets as inner says, and answers with a source of its own
//	ignore  does not consume what it gets
//	count   answers with one item after all it gets has ended
var handlers = []string{"echo", "own", "ignore", "count"}

func channel(how string, in source, inner receiver, out source, rc receiver, rev bool) {
	a, b := peers.New()
	from, to := a, b
	if rev {
		from, to = b, a
	}
	i, c, o, r := &in, &inner, &out, &rc
	i.name, c.name, o.name, r.name = "i", "i", "o", "o"
	i.allowed, o.allowed = &c.requested, &r.requested
	if how == "echo" {
		r.name, r.suffix = "i", "!"
		i.allowed = &r.requested
	}
	runs := 0
	peers.W.RC[1] = func(me *peers.Peer, p payload.Payload, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		runs++
		if me != nil && me != to {
			vrt.Fail("wrong-side", "the request was handled by the wrong side")
		}
		if string(p.Data()) != "req" || !peers.MetaOK(p.Metadata(), 1, "m") {
			vrt.Fail("wrong-request", "the handler got %q %q", p.Data(), p.Metadata())
		}
		switch how {
		case "echo":
			return flux.Map(f, func(p payload.Payload) (payload.Payload, error) {
				return payload.New([]byte(string(p.Data())+"!"), p.Metadata()), nil
			})
		case "own":
			c.subscribe(f)
			return o.flux()
		case "ignore":
			return o.flux()
		case "count":
			p := flux.NewProcessor[payload.Payload]()
			c.onEnd = func() {
				if c.end == "complete" {
					p.Next(data("o", 1))
					p.Complete()
				} else {
					p.Error(errors.New("because of " + c.end))
				}
			}
			c.subscribe(f)
			return p
		}
		panic(how)
	}
	f := from.H.RequestChannel(context.Background(), payload.New([]byte("req"), peers.Meta(1, "m")), i.flux())
	r.subscribe(f)
	vrt.Quiesce()
	if runs > 1 || runs == 0 && !r.canceled && r.requested > 0 {
		vrt.Fail("runs", "the handler ran %d times", runs)
	}
	if i.slice {
		i.ended = c.got == i.n || r.name == "i" && r.got == i.n
	}
	switch how {
	case "echo":
		r.judge(i, nil)
	case "own":
		r.judge(o, nil)
		if !r.canceled && runs > 0 {
			c.judge(i, nil)
		}
	case "ignore":
		r.judge(o, nil)
		if i.requested > 0 || i.emitted > 0 {
			vrt.Fail("demand-invented", "items of the requester were requested although the handler ignores them")
		}
	case "count":
		if !r.canceled && runs > 0 {
			c.judge(i, nil)
			if c.ends > 0 && r.requested > 0 {
				want := "complete"
				if c.end != "complete" {
					want = "error because of " + c.end
				}
				if r.end != want || want == "complete" && r.got != 1 {
					vrt.Fail("lost", "the requester got %d items and end %q instead of %q", r.got, r.end, want)
				}
			}
		}
	}
	vrt.Outcome("%s %d %s %d %s", r.end, r.got, c.end, c.got, fmt.Sprint(a.Sent, b.Sent))
	over := r.ends > 0 && (i.ended || i.canceled > 0 && !i.slice || r.canceled)
	if over {
		clean(a, b, "channel ended")
	}
	r.cancel()
	if how == "own" && c.f != nil {
		c.cancel()
	}
	vrt.Quiesce()
	if r.canceled && i.subs > 0 && !i.ended && i.canceled == 0 && how != "ignore" {
		vrt.Fail("in-not-canceled", "what the requester sends was not cancelled with the channel; frames %q %q", a.Sent, b.Sent)
	}
	if how == "ignore" && !over && !r.canceledInTime() {
		return // nobody has ended the other direction
	}
	clean(a, b, "channel cancelled")
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", bl)
	}
}

// unsendable: an item, or the request, cannot be sent; the stream or channel fails, at both ends
func unsendable(what string, channel bool, src source, bad int, r receiver, rev bool) {
	a, b := peers.New()
	from := a
	if rev {
		from = b
	}
	in, out := source{n: 2, async: true, name: "i"}, src
	out.name = "s"
	if what == "in" {
		in, out = src, source{n: 2, async: true}
		in.name, out.name = "i", "s"
	}
	r.name = "s"
	dropped := 0
	drop := func(f frames.Frame) error {
		switch v := f.(type) {
		case *frames.RequestPayload:
			if what == "request" {
				dropped++
				return errors.New("unsendable")
			}
		case *frames.Payload:
			if what == "in" && string(v.Data) == fmt.Sprint("i", bad) || what == "out" && string(v.Data) == fmt.Sprint("s", bad) {
				dropped++
				return errors.New("unsendable")
			}
		case *frames.Error:
			if what == "error" {
				dropped++
				what = ""
				return errors.New("unsendable")
			}
		}
		return nil
	}
	a.Drop, b.Drop = drop, drop
	c := never(rx.RequestMax)
	c.name = "i"
	peers.W.RS[1] = func(me *peers.Peer, p payload.Payload) flux.Flux[payload.Payload] { return out.flux() }
	peers.W.RC[1] = func(me *peers.Peer, p payload.Payload, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		c.subscribe(f)
		return out.flux()
	}
	p := payload.New([]byte("req"), peers.Meta(1, "m"))
	if channel {
		r.subscribe(from.H.RequestChannel(context.Background(), p, in.flux()))
	} else {
		r.subscribe(from.H.RequestStream(context.Background(), p))
	}
	vrt.Quiesce()
	if dropped > 0 {
		if r.ends != 1 || r.end == "complete" && !(what == "in" && out.ended) {
			vrt.Fail("unsendable-end", "the receiver's end is %q (%d ends) although a frame could not be sent; frames %q %q", r.end, r.ends, a.Sent, b.Sent)
		}
		for _, s := range []*source{&in, &out} {
			if s.subs > 0 && s.canceled == 0 && !s.ended && !s.slice {
				vrt.Fail("source-not-canceled", "source %s goes on although a frame could not be sent; frames %q %q", s.name, a.Sent, b.Sent)
			}
		}
		clean(a, b, "a frame could not be sent")
		if bl := vrt.Blocked(); len(bl) > 0 {
			vrt.Fail("left-threads", "threads stay behind: %q", bl)
		}
	}
	vrt.Outcome("%d %s %d %s", dropped, r.end, r.got, fmt.Sprint(a.Sent, b.Sent))
}

// cut: the connection ends at some time; the stream or channel ends at both sides
func cut(how string, in source, inner receiver, out source, r receiver, rev, arrives bool) {
	a, b := peers.New()
	from := a
	if rev {
		from = b
	}
	i, c, o := &in, &inner, &out
	i.name, c.name, o.name, r.name = "i", "i", "s", "s"
	consumed := false
	peers.W.RS[1] = func(me *peers.Peer, p payload.Payload) flux.Flux[payload.Payload] { return o.flux() }
	peers.W.RC[1] = func(me *peers.Peer, p payload.Payload, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		switch how {
		case "echo":
			return flux.Map(f, func(p payload.Payload) (payload.Payload, error) {
				return payload.New([]byte(string(p.Data())+"!"), p.Metadata()), nil
			})
		case "own":
			consumed = true
			c.subscribe(f)
		}
		return o.flux()
	}
	p := payload.New([]byte("req"), peers.Meta(1, "m"))
	if how == "echo" {
		r.name, r.suffix = "i", "!"
		o = i
	}
	if how == "stream" {
		r.subscribe(from.H.RequestStream(context.Background(), p))
	} else {
		r.subscribe(from.H.RequestChannel(context.Background(), p, i.flux()))
	}
	vrt.GoNamed("cut", func() { peers.Cut(a, b, arrives) })
	vrt.Quiesce()
	canceled := r.canceled // ends what the requester sends, too
	check := func(r *receiver, s *source) {
		if r.ends != 1 {
			vrt.Fail("cut-end", "%s has %d ends after the connection has ended; frames %q %q", r.name, r.ends, a.Sent, b.Sent)
		}
		if !canceled && (r.end == "complete" || r.end == "error "+boom(s.name)) && r.got != s.n {
			vrt.Fail("cut-short", "%s got the end %q after %d items of %d", r.name, r.end, r.got, s.n)
		}
		if !canceled && r.end == "complete" && s.fail {
			vrt.Fail("cut-complete", "%s completed although its source failed", r.name)
		}
	}
	check(&r, o)
	if consumed {
		check(c, i)
	}
	for _, s := range []*source{i, o} {
		if s.subs > 0 && s.canceled == 0 && !s.ended && !s.slice {
			vrt.Fail("source-not-canceled", "source %s goes on although the connection has ended; frames %q %q", s.name, a.Sent, b.Sent)
		}
	}
	clean(a, b, "the connection has ended")
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", bl)
	}
	vrt.Outcome("%s %d %s %d", r.end, r.got, c.end, c.got)
}

// refused: the operation of a stream or channel does not exist, or the metadata is malformed
func refused(channel bool, op int, short bool, in source, r receiver, rev bool) {
	a, b := peers.New()
	from := a
	if rev {
		from = b
	}
	in.name, r.name = "i", "s"
	md := peers.Meta(op, "m")
	want := "error not_found"
	if short {
		md = md[:7]
		want = "error Invalid metadata"
	}
	p := payload.New([]byte("req"), md)
	if channel {
		r.subscribe(from.H.RequestChannel(context.Background(), p, in.flux()))
	} else {
		r.subscribe(from.H.RequestStream(context.Background(), p))
	}
	vrt.Quiesce()
	if r.ends != 1 || r.end != want && !r.canceled || r.got > 0 {
		vrt.Fail("refused", "the receiver got %d items and the end %q (%d ends) instead of %q", r.got, r.end, r.ends, want)
	}
	if in.subs > 0 && in.canceled == 0 && !in.ended && !in.slice {
		vrt.Fail("source-not-canceled", "what the requester sends goes on although the channel was refused; frames %q %q", a.Sent, b.Sent)
	}
	if in.emitted > 0 {
		vrt.Fail("demand-invented", "%d items were sent although none was requested", in.emitted)
	}
	clean(a, b, "refused")
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", bl)
	}
	vrt.Outcome("%s %s", r.end, fmt.Sprint(a.Sent, b.Sent))
}

// crowd: n streams and channels that overlap
func crowd(n int, both bool, demands []int) {
	a, b := peers.New()
	type one struct {
		s    source
		r    receiver
		runs int
	}
	cs := make([]*one, n)
	num := func(me *peers.Peer, p payload.Payload, op int) *one {
		i := -1
		fmt.Sscan(string(p.Data()), &i)
		if i < 0 || i >= n || i%3%2 != op || string(p.Data()) != fmt.Sprint(i) || !peers.MetaOK(p.Metadata(), 1, fmt.Sprint("m", i)) {
			vrt.Fail("wrong-request", "a handler got %q %q", p.Data(), p.Metadata())
		}
		if cs[i].runs++; cs[i].runs > 1 {
			vrt.Fail("runs", "the handler of request %d ran %d times", i, cs[i].runs)
		}
		return cs[i]
	}
	peers.W.RS[1] = func(me *peers.Peer, p payload.Payload) flux.Flux[payload.Payload] { return num(me, p, 0).s.flux() }
	peers.W.RC[1] = func(me *peers.Peer, p payload.Payload, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		num(me, p, 1)
		return flux.Map(f, func(p payload.Payload) (payload.Payload, error) {
			return payload.New([]byte(string(p.Data())+"!"), p.Metadata()), nil
		})
	}
	for i := range cs {
		c := &one{s: source{name: fmt.Sprint("s", i, "."), n: i % 5, fail: i%7 == 3, async: i%2 == 0}, r: never(demands...)}
		cs[i] = c
		c.r.name = c.s.name
		c.s.allowed = &c.r.requested
		if i%11 == 5 {
			c.r.cancelAt = 1
		}
		from := a
		if both && i%4 > 1 {
			from = b
		}
		p := payload.New([]byte(fmt.Sprint(i)), peers.Meta(1, fmt.Sprint("m", i)))
		if i%3%2 == 0 {
			c.r.subscribe(from.H.RequestStream(context.Background(), p))
		} else {
			c.r.suffix = "!"
			c.r.subscribe(from.H.RequestChannel(context.Background(), p, c.s.flux()))
		}
	}
	vrt.Quiesce()
	for i, c := range cs {
		if c.runs != 1 {
			vrt.Fail("runs", "the handler of request %d ran %d times", i, c.runs)
		}
		c.r.judge(&c.s, nil)
	}
	for _, c := range cs {
		c.r.cancel()
	}
	vrt.Quiesce()
	for i, c := range cs {
		if c.r.ends != 1 || c.s.subs > 0 && !c.s.ended && c.s.canceled == 0 {
			vrt.Fail("late-cancel", "request %d has %d ends after cancelling, its source was cancelled %d times", i, c.r.ends, c.s.canceled)
		}
	}
	clean(a, b, "streams ended")
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", bl)
	}
}

// long streams and channels, in one schedule, and many at once
func long(e *hx.E, thorough bool) {
	one := vrt.Config{Delay: true, Horizon: 2000000}
	rep := func(k, n int) []int {
		var r []int
		for i := 0; i < n; i++ {
			r = append(r, k)
		}
		return r
	}
	m := rx.RequestMax
	ns := []int{8, 9, 17, 33, 64, 65, 100, 129, 257}
	if thorough {
		ns = append(ns, 7, 16, 32, 128, 256, 300, 513, 1025)
	}
	for _, n := range ns {
		var recs []receiver
		for _, d := range [][]int{{m}, {n}, {n - 1}, {n + 1}, {n - 1, 1}, {1, n}, rep(1, n), rep(1, n-1), rep(2, n/2+1), rep(7, n/7+1), {m, m}, {1, m, m}, {m - 1, 1, 1}, {16, 16, 16, 16, m}} {
			recs = append(recs, never(d...), receiver{demands: d, cancelAt: n / 2})
			if len(d) > 1 {
				recs = append(recs, receiver{demands: d, cancelAt: -1, early: true})
			}
		}
		for _, src := range []source{{n: n}, {n: n, async: true}, {n: n, fail: true}, {n: n, slice: true}} {
			for ri, r := range recs {
				n, src, r := n, src, r
				e.Case(func() string { return fmt.Sprint("source ", src, ", receiver ", ri, " ", r) }, func() {
					e.Sched(one, func() { stream(src, r, n%2 == 0, false) })
				})
				for _, how := range []string{"echo", "own"} {
					how := how
					if how == "own" && n > 129 {
						continue
					}
					e.Case(func() string { return fmt.Sprint(how, ": in ", src, ", receiver ", ri, " ", r) }, func() {
						e.Sched(one, func() { channel(how, src, r, source{n: n + 1, async: true}, r, n%2 == 0) })
					})
				}
			}
		}
	}
	for _, n := range []int{1, 2, 5, 8, 9, 16, 17, 33, 64, 65, 100, 130, 257} {
		for _, both := range []bool{false, true} {
			for _, d := range [][]int{{1}, {2}, {1, 1, 1, 1, 1}, {3, m}, {m}} {
				n, both, d := n, both, d
				e.Case(func() string {
					return fmt.Sprintf("%d streams and channels, in both directions %v, demands %v", n, both, d)
				}, func() {
					e.Sched(one, func() { crowd(n, both, d) })
				})
			}
		}
	}
}

// canceledInTime: cancelling after the end has no effect
func (r *receiver) canceledInTime() bool { return r.end == "cancel" }

func main() {
	hx.Main("C16", func(s *hx.Suite) {
		s.Assumptions = []string{"connections deliver frames in order and whole", "sequentially consistent memory"}
		var recs []receiver
		for _, d := range [][]int{{1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {1, 1, 1}, {rx.RequestMax}} {
			for _, early := range []bool{false, true} {
				if early && len(d) == 1 {
					continue
				}
				for cancel := -1; cancel < 3; cancel++ {
					if cancel == 0 && len(d) > 1 {
						continue
					}
					recs = append(recs, receiver{demands: d, early: early, cancelAt: cancel})
				}
				recs = append(recs, receiver{demands: d, early: early, cancelAt: -1, canceler: true})
			}
		}
		var srcs []source
		for n := 0; n <= 3; n++ {
			for _, fail := range []bool{false, true} {
				for _, async := range []bool{false, true} {
					srcs = append(srcs, source{n: n, fail: fail, async: async})
				}
			}
			srcs = append(srcs, source{n: n, slice: true})
		}
		s.Enum("streams", 8, func(e *hx.E) {
			for _, src := range srcs {
				for _, r := range recs {
					for _, rev := range []bool{false, true} {
						src, r, rev := src, r, rev
						e.Case(func() string { return fmt.Sprint("source ", src, ", receiver ", r, ", rev ", rev) }, func() {
							e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 2)}, func() { stream(src, r, rev, false) })
						})
					}
				}
			}
		})
		deep := func(b int) func(e *hx.E) {
			return func(e *hx.E) {
				for _, src := range []source{{n: 1}, {n: 2, async: true}, {n: 2, fail: true}} {
					for _, r := range []receiver{never(3), never(1, 1), {demands: []int{1, 1}, cancelAt: -1, early: true}, {demands: []int{2}, cancelAt: 1},
						{demands: []int{2}, cancelAt: -1, canceler: true}, {demands: []int{1}, cancelAt: 0}} {
						for _, call := range []bool{false, true} {
							src, r, call := src, r, call
							b := b
							if call {
								b--
							}
							e.Case(func() string { return fmt.Sprint("source ", src, ", receiver ", r, ", with call ", call) }, func() {
								e.Sched(vrt.Config{Delay: true, Bound: b}, func() { stream(src, r, false, call) })
							})
						}
					}
				}
			}
		}
		s.Enum("frames that cannot be sent", 8, func(e *hx.E) {
			for _, what := range []string{"request", "in", "out", "error"} {
				for _, ch := range []bool{false, true} {
					for _, src := range srcs {
						for bad := 1; bad <= src.n || bad == 1; bad++ {
							for _, r := range []receiver{never(1), never(rx.RequestMax), never(1, 1, 1), {demands: []int{2}, cancelAt: 1}} {
								what, ch, src, bad, r := what, ch, src, bad, r
								if what == "in" && !ch || (what == "request" || what == "error") && bad > 1 {
									continue
								}
								e.Case(func() string { return fmt.Sprint(what, " ", bad, ", channel ", ch, ", source ", src, ", receiver ", r) }, func() {
									e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 2)}, func() { unsendable(what, ch, src, bad, r, bad%2 == 0) })
								})
							}
						}
					}
				}
			}
		})
		s.Enum("the connection ends", 8, func(e *hx.E) {
			ins := []source{{n: 0}, {n: 2}, {n: 2, async: true, fail: true}, {n: 3, async: true}, {n: 2, slice: true}}
			for _, how := range []string{"stream", "echo", "own", "ignore"} {
				for _, in := range ins {
					for _, c := range []receiver{never(rx.RequestMax), never(1), {demands: []int{1, 1}, cancelAt: -1, early: true}, {demands: []int{2}, cancelAt: 1}} {
						for _, r := range []receiver{never(rx.RequestMax), never(1), never(1, 1), {demands: []int{2}, cancelAt: 1}, {demands: []int{1}, cancelAt: -1, canceler: true}} {
							for m := 0; m < 4; m++ {
								how, in, c, r, m := how, in, c, r, m
								x, y := in, source{n: 2, async: true}
								if how == "stream" {
									x, y = y, x
								}
								if how != "own" && len(c.demands)+c.cancelAt+c.demands[0] != rx.RequestMax {
									continue
								}
								e.Case(func() string {
									return fmt.Sprint(how, ": in ", x, ", consumed ", c, ", out ", y, ", receiver ", r, ", rev ", m&1, ", arrives ", m&2)
								}, func() {
									e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 2)}, func() { cut(how, x, c, y, r, m&1 != 0, m&2 != 0) })
								})
							}
						}
					}
				}
			}
		})
		s.Enum("refused", 8, func(e *hx.E) {
			for _, ch := range []bool{false, true} {
				for _, op := range []int{peers.Ops, peers.Ops + 1, 1 << 20} {
					for _, short := range []bool{false, true} {
						for si, src := range srcs {
							for _, r := range []receiver{never(1), never(rx.RequestMax), {demands: []int{2}, cancelAt: -1, canceler: true}} {
								for _, rev := range []bool{false, true} {
									ch, op, short, src, r, rev := ch, op, short, src, r, rev
									if !ch && si > 0 || short && op > peers.Ops {
										continue
									}
									e.Case(func() string {
										return fmt.Sprint("channel ", ch, ", operation ", op, ", short metadata ", short, ", source ", src, ", receiver ", r, ", rev ", rev)
									}, func() {
										e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 2)}, func() { refused(ch, op, short, src, r, rev) })
									})
								}
							}
						}
					}
				}
			}
		})
		s.Enum("bare items", 8, func(e *hx.E) {
			cfg := vrt.Config{Delay: true, Bound: hx.Pick(s, 0, 1)}
			for _, src := range srcs {
				for _, r := range recs {
					for _, rev := range []bool{false, true} {
						src, r, rev := src, r, rev
						e.Case(func() string { return fmt.Sprint("source ", src, ", receiver ", r, ", rev ", rev) }, func() {
							e.Sched(cfg, func() { bared(func() { stream(src, r, rev, false) }) })
						})
					}
				}
			}
			for _, how := range []string{"echo", "own"} {
				for _, in := range srcs {
					for _, r := range recs {
						how, in, r := how, in, r
						e.Case(func() string { return fmt.Sprint(how, ": in ", in, ", receiver ", r) }, func() {
							e.Sched(cfg, func() {
								bared(func() { channel(how, in, never(rx.RequestMax), source{n: 3, async: true}, r, false) })
							})
						})
					}
				}
			}
		})
		s.Enum("messages of errors", 8, func(e *hx.E) {
			cfg := vrt.Config{Delay: true, Bound: hx.Pick(s, 0, 1)}
			for _, m := range messages {
				for _, rev := range []bool{false, true} {
					for _, src := range []source{{n: 0, fail: true, async: true}, {n: 1, fail: true}, {n: 2, fail: true, async: true}} {
						m, rev, src := m, rev, src
						e.Case(func() string { return fmt.Sprintf("%.40q, source %v, rev %v", m, src, rev) }, func() {
							e.Sched(cfg, func() { saying(m, func() { stream(src, never(3), rev, true) }) })
						})
						for _, how := range []string{"echo", "own"} {
							how := how
							e.Case(func() string { return fmt.Sprintf("%.40q, source %v, %s, rev %v", m, src, how, rev) }, func() {
								e.Sched(cfg, func() {
									saying(m, func() { channel(how, src, never(3), source{n: 2, fail: true, async: true}, never(3), rev) })
								})
							})
						}
					}
				}
			}
		})
		s.Enum("streams, more delays", 8, deep(hx.Pick(s, 2, 3)))
		s.Enum("long streams and many", 16, func(e *hx.E) { long(e, s.Thorough()) })
		s.Enum("streams, preemptions", 8, func(e *hx.E) {
			for _, r := range []receiver{never(2), {demands: []int{1, 1}, cancelAt: -1, early: true}, {demands: []int{2}, cancelAt: -1, canceler: true}} {
				r := r
				src := source{n: 2, async: true}
				e.Case(func() string { return fmt.Sprint("source ", src, ", receiver ", r) }, func() {
					e.Sched(vrt.Config{Bound: hx.Pick(s, 0, 1)}, func() { stream(src, r, true, false) })
				})
			}
		})
		s.Enum("requests in threads", 8, func(e *hx.E) {
			cfg := vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 3)}
			var rs []receiver
			for _, d := range [][]int{{1, 1}, {1, 2}, {2, 1}, {1, 1, 1}, {1, rx.RequestMax}} {
				rs = append(rs, receiver{demands: d, cancelAt: -1, threads: true}, receiver{demands: d, cancelAt: 1, threads: true},
					receiver{demands: d, cancelAt: -1, threads: true, canceler: true})
			}
			for _, src := range []source{{n: 1}, {n: 2, async: true}, {n: 2, fail: true}, {n: 3}, {n: 3, async: true}, {n: 2, slice: true}} {
				for _, r := range rs {
					src, r := src, r
					e.Case(func() string { return fmt.Sprint("source ", src, ", receiver ", r) }, func() {
						e.Sched(cfg, func() { stream(src, r, false, false) })
					})
				}
			}
			if cfg.Bound--; !s.Thorough() {
				cfg.Bound = 1
			}
			in, out := source{n: 2, async: true}, source{n: 2}
			for _, how := range handlers {
				for _, r := range rs {
					for ci, c := range append([]receiver{never(rx.RequestMax)}, rs...) {
						how, r, c := how, r, c
						if how != "own" && how != "count" && c.threads || !s.Thorough() && how == "own" && ci > 3 {
							continue
						}
						e.Case(func() string {
							return fmt.Sprint(how, ": in ", in, ", consumed ", c, ", out ", out, ", receiver ", r)
						}, func() {
							e.Sched(cfg, func() { channel(how, in, c, out, r, false) })
						})
					}
				}
			}
		})
		s.Enum("channels, one schedule", 8, func(e *hx.E) {
			channels(e, s, 3, vrt.Config{Delay: true, Bound: 0})
		})
		s.Enum("channels, schedules", 8, func(e *hx.E) {
			channels(e, s, 2, vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 2)})
		})
	})
}

func channels(e *hx.E, s *hx.Suite, max int, cfg vrt.Config) {
	ins := []source{{n: 0}, {n: 1, async: true}, {n: 2}, {n: 2, fail: true}, {n: 3, async: true}, {n: 3, fail: true, async: true}, {n: 2, slice: true}}
	inner := []receiver{never(rx.RequestMax), never(1), never(1, 1, 1), {demands: []int{2}, cancelAt: 1}, {demands: []int{1}, cancelAt: 0}, {demands: []int{1, 2}, cancelAt: -1, early: true}, {demands: []int{3}, cancelAt: -1, canceler: true}}
	outs := []source{{n: 0}, {n: 1, async: true}, {n: 2}, {n: 2, fail: true, async: true}}
	recs := []receiver{never(rx.RequestMax), never(1), never(1, 1, 1), {demands: []int{2}, cancelAt: 1}, {demands: []int{1}, cancelAt: 0}, {demands: []int{1, 2}, cancelAt: -1, early: true}, {demands: []int{3}, cancelAt: -1, canceler: true}}
	for _, how := range handlers {
		for _, in := range ins {
			if in.n > max {
				continue
			}
			for ci, c := range inner {
				if how != "own" && how != "count" && ci > 0 {
					continue
				}
				for oi, out := range outs {
					if how != "own" && how != "ignore" && oi > 0 {
						continue
					}
					for _, r := range recs {
						for _, rev := range []bool{false, true} {
							how, in, c, out, r, rev := how, in, c, out, r, rev
							e.Case(func() string {
								return fmt.Sprint(how, ": in ", in, ", consumed ", c, ", out ", out, ", receiver ", r, ", rev ", rev)
							}, func() {
								e.Sched(cfg, func() { channel(how, in, c, out, r, rev) })
							})
						}
					}
				}
			}
		}
	}
}
