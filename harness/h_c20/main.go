// C20: the WebAssembly host bridges calls both ways and closes cleanly.
package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

type scene struct {
	host, guest []call
	group       bool
	close       bool
	kicker      bool
	bare        bool // no data, no metadata
}

func (s scene) String() string {
	return fmt.Sprint("host calls ", s.host, ", guest calls ", s.guest, ", grouped ", s.group, ", closed ", s.close, ", kicked ", s.kicker, ", bare ", s.bare)
}

type world struct {
	pairing
	inst *host.Instance
	g    *guest
	shut bool // Close has returned
}

func newWorld(inst *host.Instance, g *guest) *world {
	return &world{pairing: pairing{real: inst, link: inst, peer: g.raw, contexts: true}, inst: inst, g: g}
}

func (w *world) kick() {
	w.inst.FireAndForget(ctx0, payload.New(nil, meta(opKick, 0, "")))
}

func run(s scene) {
	bare = s.bare
	defer func() { bare = false }()
	inst, g, err := boot(standard())
	if err != nil {
		vrt.Fail("boot", "cannot start the guest: %v", err)
	}
	g.group = s.group
	w := newWorld(inst, g)
	var hs, gs []*call
	names := func(c *call, n string) {
		c.data = n
		if s.bare && len(hs)+len(gs) == 1 {
			c.data = ""
		}
		c.in.name, c.inner.name, c.out.name, c.r.name = "i"+n, "i"+n, "o"+n, "o"+n
		c.in.allowed, c.out.allowed = &c.inner.requested, &c.r.requested
		if c.how == "echo" {
			c.r.name, c.r.suffix = "i"+n, "!"
			c.in.allowed = &c.r.requested
		}
	}
	for i := range s.host {
		c := s.host[i]
		hs = append(hs, &c)
		names(&c, fmt.Sprint("h", i))
		if (c.kind == rs || c.kind == rc) && c.op == 0 {
			c.op = 10 + i
			c := &c
			g.spec[c.op] = func(id uint32) *rawStream {
				st := &rawStream{how: "stream", src: &c.out}
				if c.kind == rc {
					st.how = c.how
					if c.how == "own" {
						st.c = &c.inner
					}
					if c.how == "echo" {
						st.src = &source{name: "echo", allowed: &c.r.requested}
					}
				}
				c.stream = st
				return st
			}
		}
	}
	for i := range s.guest {
		c := s.guest[i]
		gs = append(gs, &c)
		names(&c, fmt.Sprint("g", i))
		if (c.kind == rs || c.kind == rc) && c.op == 0 {
			c.op = 10 + i
		}
		c.own = &ownCall{kind: c.kind, op: c.op, data: c.data}
		if c.kind == rs || c.kind == rc {
			if len(c.r.demands) == 0 {
				c.r = never(1)
			}
			c.own.recv = &c.r
			if c.kind == rc {
				c.own.in = &c.in
			}
		}
	}
	w.handlers(gs)
	if len(gs) > 0 {
		if s.guest[0].par {
			// the calls belong to a call of the host
			g.spec[9] = func(id uint32) *rawStream {
				for _, c := range gs {
					if c.par {
						c.own.parent = id
					}
					g.call(c.own)
				}
				return &rawStream{how: "stream", src: &source{name: "parent", n: 1, async: true}}
			}
			vrt.GoNamed("parent", func() {
				f := inst.RequestStream(context.WithValue(ctx0, ctxKey{}, "parent"), payload.New([]byte("p"), meta(9, 0, "mp")))
				f.Subscribe(flux.Subscribe[payload.Payload]{})
			})
		} else {
			g.kicked = func() {
				for _, c := range gs {
					g.call(c.own)
				}
			}
			vrt.GoNamed("kick", w.kick)
		}
	}
	for _, c := range hs {
		c := c
		vrt.GoNamed("call "+c.data, func() { w.call(c) })
	}
	if s.kicker {
		vrt.GoNamed("kicker", w.kick)
	}
	if s.close {
		vrt.GoNamed("close", func() {
			w.closed = true
			if err := inst.Close(); err != nil {
				vrt.Fail("close-error", "Close returned %v", err)
			}
			w.shut = true
		})
	}
	vrt.Quiesce()
	if s.close {
		w.judgeClosed(hs, gs)
		return
	}
	for len(g.held) > 0 {
		w.kick()
		vrt.Quiesce()
	}
	var out []string
	for _, c := range hs {
		w.judgeReal(c)
		out = append(out, fmt.Sprint(c.answer, c.r.end, c.r.got, c.inner.end, c.inner.got))
	}
	for _, c := range gs {
		w.judgePeer(c)
		out = append(out, fmt.Sprint(c.own.answer, c.r.end, c.r.got, c.inner.end, c.inner.got))
	}
	vrt.Outcome("%v %d", out, len(g.in))
	// end what goes on
	for _, c := range hs {
		if c.r.f != nil {
			c.r.cancel()
		}
		if c.stream != nil && c.kind == rc && c.how != "echo" && !c.in.ended {
			st := c.stream
			g.held = append(g.held, func() { g.send(&frames.Cancel{StreamID: st.id}) })
		}
	}
	for _, c := range gs {
		c := c
		if c.inner.f != nil {
			c.inner.cancel()
		}
		if c.own.recv == nil {
			continue
		}
		g.held = append(g.held, func() {
			in := c.in
			g.cancel(c.own)
			if in.canceled == 0 && !in.ended && c.kind == rc {
				c.in.canceled++
				c.in.ended = true
				g.send(&frames.Payload{StreamID: c.own.id, Complete: true})
			}
		})
	}
	w.kick()
	vrt.Quiesce()
	if n := open(inst); n != 0 {
		vrt.Fail("left", "%d streams are left open; the guest has got %q", n, g.in)
	}
	w.finish()
}

func (w *world) finish() {
	for i := 0; i < 2; i++ {
		if err := w.inst.Close(); err != nil {
			vrt.Fail("close-error", "Close returned %v", err)
		}
	}
	w.afterClose()
}

func (w *world) afterClose() {
	ends, end := 0, ""
	w.inst.RequestResponse(ctx0, payload.New([]byte("x"), meta(opEcho, 0, "mx"))).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { end = "success" },
		OnError:   func(err error) { end = "error" },
		Finally:   func(rx.SignalType) { ends++ },
	})
	sends, send := 0, ""
	w.inst.RequestStream(ctx0, payload.New([]byte("x"), meta(opEcho, 0, "mx"))).Subscribe(flux.Subscribe[payload.Payload]{
		OnComplete: func() { send = "complete" },
		OnError:    func(err error) { send = "error" },
		Finally:    func(rx.SignalType) { sends++ },
	})
	w.inst.FireAndForget(ctx0, payload.New([]byte("x"), meta(opEcho, 0, "mx")))
	err := w.inst.SendFrame(&frames.Cancel{StreamID: 2})
	vrt.Quiesce()
	if ends != 1 || end != "error" || sends != 1 || send != "error" {
		vrt.Fail("after-close", "a call after Close ends with %q (%d ends), a stream with %q (%d ends)", end, ends, send, sends)
	}
	if err == nil {
		vrt.Fail("after-close", "a frame can be sent after Close, although nothing takes it")
	}
	if b := vrt.Blocked(); len(b) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", b)
	}
}

// judgeClosed judges what is left when the instance was closed any time.
func (w *world) judgeClosed(hs, gs []*call) {
	if !w.shut {
		vrt.Fail("close-hangs", "Close does not return: %q; the guest has got %q", vrt.Blocked(), w.g.in)
	}
	var out []string
	for _, c := range hs {
		n := w.g.served[fmt.Sprint(c.kind, c.op, c.data)]
		if n > 1 {
			vrt.Fail("runs", "the guest got the host's call %q %d times", c.data, n)
		}
		switch c.kind {
		case rr:
			if c.ends != 1 {
				vrt.Fail("close-no-answer", "the host's call %q has no answer after Close (%d ends)", c.data, c.ends)
			}
			if strings.HasPrefix(c.answer, "ok") && n == 0 {
				vrt.Fail("answer", "the host's call %q got the answer %q without the guest", c.data, c.answer)
			}
			out = append(out, c.answer)
		case rs, rc:
			if c.r.ends != 1 && !(c.r.requested == 0 && !c.r.canceled) {
				vrt.Fail("close-no-answer", "the host's stream %q has not ended after Close (%d ends)", c.data, c.r.ends)
			}
			out = append(out, c.r.end)
		}
	}
	for _, c := range gs {
		if c.runs > 1 {
			vrt.Fail("runs", "the handler of the guest's call %q ran %d times", c.data, c.runs)
		}
		switch c.kind {
		case rr:
			if c.begun && c.own.ends != 1 {
				vrt.Fail("close-cuts-off", "the guest's call %q was in flight when the instance was closed but got no answer", c.data)
			}
			out = append(out, c.own.answer)
		case rs, rc:
			if c.begun && c.r.ends != 1 {
				vrt.Fail("close-cuts-off", "the guest's stream %q was in flight when the instance was closed but has not ended: got %d", c.data, c.r.got)
			}
			if c.begun && !c.r.canceled && c.r.end == "complete" && c.how != "echo" && c.r.got != c.out.n {
				vrt.Fail("lost", "the guest's stream %q got %d of %d items", c.data, c.r.got, c.out.n)
			}
			out = append(out, c.r.end)
		}
	}
	vrt.Outcome("%q", out)
	if err := w.inst.Close(); err != nil {
		vrt.Fail("close-error", "Close returned %v", err)
	}
	w.afterClose()
}

func main() {
	hx.Main("C20", func(s *hx.Suite) {
		s.Assumptions = []string{"the guest is single-threaded: it acts only while the host is in __wasmrs_send", "sequentially consistent memory", "the wazero runtime is trusted"}
		h := func(kind frames.FrameType, op int) call { return call{kind: kind, op: op} }
		streams := func(srcs []source, recs []receiver) (cs []call) {
			for _, src := range srcs {
				for _, r := range recs {
					cs = append(cs, call{kind: rs, out: src, r: r})
				}
			}
			return
		}
		all := rx.RequestMax
		srcs := []source{{n: 0}, {n: 1}, {n: 2, async: true}, {n: 2, fail: true}, {n: 3}}
		recs := []receiver{never(all), never(1), never(2), never(1, 1), never(1, 2), {demands: []int{2}, cancelAt: 1}, {demands: []int{1}, cancelAt: 0}}
		guestRecs := append(append([]receiver{}, recs...), receiver{demands: []int{3}, cancelAt: -1, canceler: true})
		hostRecs := append(append([]receiver{}, recs...), receiver{demands: []int{1, 1}, cancelAt: -1, early: true}, receiver{demands: []int{3}, cancelAt: -1, canceler: true})
		channels := func(recs []receiver) (cs []call) {
			ins := []source{{n: 0}, {n: 2}, {n: 2, async: true, fail: true}}
			outs := []source{{n: 1}, {n: 2, async: true}, {n: 2, fail: true}}
			for _, in := range ins {
				for _, r := range recs {
					cs = append(cs, call{kind: rc, how: "echo", in: in, r: r})
					for _, out := range outs {
						cs = append(cs, call{kind: rc, how: "ignore", in: in, out: out, r: r})
						for _, inner := range recs {
							cs = append(cs, call{kind: rc, how: "own", in: in, inner: inner, out: out, r: r})
						}
					}
				}
			}
			return
		}
		simple := []call{h(rr, opEcho), h(rr, opFail), h(rr, opLater), h(rr, opBack), h(fnf, opEcho)}
		gsimple := append(append([]call{}, simple...), h(rr, opNone), h(fnf, opNone), h(rs, opNone), h(rc, opNone),
			h(rr, invalidMeta), h(fnf, invalidMeta), h(rs, invalidMeta), h(rc, invalidMeta))
		each := func(e *hx.E, cfg vrt.Config, scs []scene) {
			for _, sc := range scs {
				sc := sc
				e.Case(sc.String, func() { e.Sched(cfg, func() { run(sc) }) })
			}
		}
		delays := func(q, t int) vrt.Config { return vrt.Config{Delay: true, Bound: hx.Pick(s, q, t)} }
		s.Enum("calls of the host", 8, func(e *hx.E) {
			var scs, pairs []scene
			for i, a := range simple {
				scs = append(scs, scene{host: []call{a}, kicker: true})
				for _, b := range simple[i:] {
					pairs = append(pairs, scene{host: []call{a, b}, kicker: true})
				}
			}
			scs = append(scs, scene{host: []call{h(rr, opEcho), h(rr, opLater)}}, scene{host: []call{h(rr, opEcho), h(rr, opFail)}})
			each(e, delays(2, 3), scs)
			each(e, delays(1, 2), pairs)
		})
		s.Enum("calls of the guest", 8, func(e *hx.E) {
			var scs []scene
			for _, a := range gsimple {
				for _, par := range []bool{false, true} {
					a.par = par
					scs = append(scs, scene{guest: []call{a}})
					for _, b := range gsimple {
						b.par = par
						scs = append(scs, scene{guest: []call{a, b}, group: true}, scene{guest: []call{a, b}})
					}
				}
			}
			each(e, delays(1, 2), scs)
		})
		s.Enum("calls of both", 8, func(e *hx.E) {
			var scs []scene
			for _, a := range simple {
				for _, b := range gsimple {
					scs = append(scs, scene{host: []call{a}, guest: []call{b}})
				}
			}
			each(e, delays(1, 2), scs)
		})
		s.Enum("streams of the guest", 8, func(e *hx.E) {
			var scs []scene
			for _, c := range streams(srcs, hostRecs) {
				for _, g := range []bool{false, true} {
					scs = append(scs, scene{host: []call{c}, group: g}, scene{host: []call{c, h(rr, opEcho)}, group: g})
				}
			}
			each(e, delays(1, 2), scs)
		})
		s.Enum("streams of the host", 8, func(e *hx.E) {
			var scs []scene
			for _, c := range streams(srcs, guestRecs) {
				for _, par := range []bool{false, true} {
					for _, g := range []bool{false, true} {
						c.par = par
						scs = append(scs, scene{guest: []call{c}, group: g})
						if g {
							scs = append(scs, scene{guest: []call{c, h(rr, opEcho)}, host: []call{h(rr, opEcho)}, group: g})
						}
					}
				}
			}
			each(e, delays(1, 2), scs)
		})
		s.Enum("channels of the guest", 8, func(e *hx.E) {
			var scs []scene
			for _, c := range channels(hostRecs) {
				scs = append(scs, scene{host: []call{c}})
			}
			each(e, delays(1, 2), scs)
		})
		s.Enum("channels of the host", 8, func(e *hx.E) {
			var scs []scene
			for _, c := range channels(guestRecs) {
				scs = append(scs, scene{guest: []call{c}, group: true})
			}
			each(e, delays(1, 2), scs)
		})
		s.Enum("nothing in it", 8, func(e *hx.E) {
			var scs []scene
			add := func(sc scene) {
				sc.bare = true
				scs = append(scs, sc)
			}
			for _, a := range append(simple, h(rr, opPlain)) {
				add(scene{host: []call{a}, kicker: true})
				add(scene{host: []call{a, h(rr, opPlain)}, kicker: true})
				add(scene{guest: []call{h(rr, opPlain), a}})
			}
			for _, a := range append(gsimple, h(rr, opPlain)) {
				add(scene{guest: []call{a}})
			}
			three := []source{{n: 3}, {n: 3, async: true, fail: true}}
			for _, c := range streams(three, hostRecs) {
				add(scene{host: []call{c}})
				add(scene{host: []call{h(rr, opEcho), c}, group: true})
			}
			for _, c := range streams(three, guestRecs) {
				add(scene{guest: []call{c}})
				add(scene{guest: []call{h(rr, opEcho), c}, group: true})
			}
			for _, in := range three {
				for _, how := range []string{"echo", "own"} {
					c := call{kind: rc, how: how, in: in, inner: never(all), out: source{n: 3, async: true}, r: never(all)}
					add(scene{host: []call{c}})
					add(scene{guest: []call{c}, group: true})
				}
			}
			each(e, delays(1, 2), scs)
		})
		s.Enum("closing", 8, func(e *hx.E) {
			var scs, more []scene
			add := func(sc scene) {
				sc.close = true
				if len(sc.host)+len(sc.guest) > 1 {
					more = append(more, sc)
				} else {
					scs = append(scs, sc)
				}
			}
			hc := append(append([]call{}, simple...), streams([]source{{n: 1}, {n: 2, async: true}}, []receiver{never(all), never(1), {demands: []int{2}, cancelAt: 1}})...)
			hc = append(hc, call{kind: rc, how: "echo", in: source{n: 1}, r: never(all)})
			gc := append(append([]call{}, gsimple...), streams([]source{{n: 1}, {n: 2, async: true}, {n: 1, fail: true}}, []receiver{never(all), never(1, 1, 1), {demands: []int{2}, cancelAt: 1}})...)
			gc = append(gc, call{kind: rc, how: "echo", in: source{n: 1}, r: never(all)})
			gc = append(gc, call{kind: rc, how: "own", in: source{n: 1}, inner: never(all), out: source{n: 2, async: true}, r: never(all)})
			for _, c := range hc {
				add(scene{host: []call{c}})
			}
			for _, c := range gc {
				add(scene{guest: []call{c}})
				add(scene{guest: []call{c, c}})
				add(scene{guest: []call{c}, host: []call{h(rr, opEcho)}})
			}
			each(e, delays(2, 3), scs)
			each(e, delays(1, 2), more)
		})
		s.Enum("messages of errors", 8, func(e *hx.E) {
			for _, m := range messages {
				try := func(what string, sc scene) {
					m := m
					e.Case(func() string { return fmt.Sprintf("%.40q %s", m, what) }, func() {
						e.Sched(delays(0, 1), func() { saying(m, func() { run(sc) }) })
					})
				}
				try("call of the host", scene{host: []call{h(rr, opFail), h(rr, opEcho)}})
				try("call of the guest", scene{guest: []call{h(rr, opFail), h(rr, opEcho)}})
				for _, c := range append(streams([]source{{n: 1, fail: true}, {n: 2, fail: true, async: true}}, []receiver{never(all)}),
					call{kind: rc, how: "echo", in: source{n: 2, fail: true}, r: never(all)},
					call{kind: rc, how: "own", in: source{n: 2, fail: true}, inner: never(all), out: source{n: 2, async: true, fail: true}, r: never(all)}) {
					try(fmt.Sprint(c, " of the host"), scene{host: []call{c}})
					try(fmt.Sprint(c, " of the guest"), scene{guest: []call{c}, group: true})
				}
			}
		})
		s.Enum("many calls, long streams", 16, func(e *hx.E) {
			try := func(what string, sc scene) {
				e.Case(func() string { return what }, func() {
					e.Sched(vrt.Config{Delay: true, Horizon: 2000000}, func() { run(sc) })
				})
			}
			long := []source{{n: 40}, {n: 130, async: true}, {n: 65, fail: true}}
			recs := []receiver{never(all), never(40), never(20, 20, 100), never(7, 7, 7, 7, 7, 7), {demands: []int{all}, cancelAt: 33}, never(all, all)}
			for _, c := range append(streams(long, recs), channels(recs)...) {
				c := c
				try(fmt.Sprint("of the host: ", c), scene{host: []call{c}})
				try(fmt.Sprint("of the guest: ", c), scene{guest: []call{c}, group: true})
			}
			for _, n := range hx.Pick(s, []int{10, 40}, []int{7, 8, 9, 10, 17, 33, 40, 70, 130}) {
				for _, group := range []bool{false, true} {
					for mix := 1; mix <= len(gsimple); mix++ {
						var hs, gs []call
						for i := 0; i < n; i++ {
							hs = append(hs, simple[i%mix%len(simple)])
							gs = append(gs, gsimple[i%mix])
						}
						what := fmt.Sprintf("%d calls of %d kinds, grouped %v", n, mix, group)
						if mix <= len(simple) {
							try(what+", of the host", scene{host: hs, group: group, kicker: true})
						}
						try(what+", of the guest", scene{guest: gs, group: group})
						try(what+", of both", scene{host: hs, guest: gs, group: group, kicker: true})
					}
				}
			}
		})
		moreScenarios(s)
	})
}
