// C21: the WebAssembly guest answers every frame the host sends it.
package main

import (
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/rx"
)

type scene struct {
	host, guest []call // calls that each makes
	single      bool
	budget      int
	bare        bool // no data, no metadata
}

func (s scene) String() string {
	return fmt.Sprint("host calls ", s.host, ", guest calls ", s.guest, ", one by one ", s.single, ", ", s.budget, " deviations, bare ", s.bare)
}

func run(s scene) {
	bare = s.bare
	defer func() { bare = false }()
	w := boot(16*1024, 16*1024)
	w.single, w.budget = s.single, s.budget
	g := w.peer
	var hs, gs []*call // of the guest, of the host
	names := func(c *call, n string) {
		c.data = n
		if s.bare && len(hs)+len(gs) == 1 {
			c.data = ""
		}
		c.in.name, c.inner.name, c.out.name, c.r.name = "i"+n, "i"+n, "o"+n, "o"+n
		c.in.allowed, c.out.allowed = &c.inner.requested, &c.r.requested
		if c.how == "echo" {
			c.r.name, c.r.suffix = "i"+n, "!"
			c.in.allowed = &c.r.requested
		}
	}
	for i := range s.guest {
		c := s.guest[i]
		hs = append(hs, &c)
		names(&c, fmt.Sprint("g", i))
		if (c.kind == rs || c.kind == rc) && c.op == 0 {
			c.op = 10 + i
			c := &c
			g.spec[c.op] = func(id uint32) *rawStream {
				st := &rawStream{how: "stream", src: &c.out}
				if c.kind == rc {
					st.how = c.how
					if c.how == "own" {
						st.c = &c.inner
					}
					if c.how == "echo" {
						st.src = &source{name: "echo", allowed: &c.r.requested}
					}
				}
				c.stream = st
				return st
			}
		}
	}
	for i := range s.host {
		c := s.host[i]
		gs = append(gs, &c)
		names(&c, fmt.Sprint("h", i))
		if (c.kind == rs || c.kind == rc) && c.op == 0 {
			c.op = 10 + i
		}
		c.own = &ownCall{kind: c.kind, op: c.op, data: c.data}
		if c.kind == rs || c.kind == rc {
			if len(c.r.demands) == 0 {
				c.r = never(1)
			}
			c.own.recv = &c.r
			if c.kind == rc {
				c.own.in = &c.in
			}
		}
	}
	w.pairing.handlers(gs)
	if len(hs) > 0 {
		w.do(func() {
			for _, c := range hs {
				w.call(c)
			}
		})
	}
	for _, c := range gs {
		g.call(c.own)
	}
	w.settle()
	var out []string
	for _, c := range hs {
		w.judgeReal(c)
		out = append(out, fmt.Sprint(c.answer, c.r.end, c.r.got, c.inner.end, c.inner.got))
	}
	for _, c := range gs {
		w.judgePeer(c)
		out = append(out, fmt.Sprint(c.own.answer, c.r.end, c.r.got, c.inner.end, c.inner.got))
	}
	vrt.Outcome("%v %d", out, len(g.in))
	// end what goes on
	w.do(func() {
		for _, c := range hs {
			if c.r.f != nil {
				c.r.cancel()
			}
		}
		for _, c := range gs {
			if c.inner.f != nil {
				c.inner.cancel()
			}
		}
	})
	for _, c := range hs {
		if c.stream != nil && c.kind == rc && c.how != "echo" && (!c.in.ended || c.in.slice) {
			st := c.stream
			g.held = append(g.held, func() { g.send(&frames.Cancel{StreamID: st.id}) })
		}
	}
	for _, c := range gs {
		c := c
		if c.own.recv == nil {
			continue
		}
		g.held = append(g.held, func() {
			in := c.in
			g.cancel(c.own)
			if in.canceled == 0 && !in.ended && c.kind == rc {
				c.in.canceled++
				c.in.ended = true
				g.send(&frames.Payload{StreamID: c.own.id, Complete: true})
			}
		})
	}
	w.settle()
	if n := open(); n != 0 {
		vrt.Fail("left", "%d streams are left open; the host has got %q", n, g.in)
	}
}

func main() {
	hx.Main("C21", func(s *hx.Suite) {
		s.Assumptions = []string{"the guest has one thread, and runs only while the host calls it", "the guest package is built natively with the build tag of WebAssembly guests; the host's imports are replaced by a scripted host"}
		h := func(kind frames.FrameType, op int) call { return call{kind: kind, op: op} }
		streams := func(srcs []source, recs []receiver) (cs []call) {
			for _, src := range srcs {
				for _, r := range recs {
					cs = append(cs, call{kind: rs, out: src, r: r})
				}
			}
			return
		}
		all := rx.RequestMax
		srcs := []source{{n: 0}, {n: 0, async: true}, {n: 1}, {n: 1, async: true, fail: true}, {n: 2, async: true}, {n: 2, fail: true}, {n: 3}, {n: 2, slice: true}}
		recs := []receiver{never(all), never(1), never(2), never(1, 1), never(1, 2), {demands: []int{2}, cancelAt: 1}, {demands: []int{1}, cancelAt: 0}, {demands: []int{1, 3}, cancelAt: 2}, {demands: []int{3}, cancelAt: -1, canceler: true}}
		guestRecs := append(append([]receiver{}, recs...), receiver{demands: []int{1, 1}, cancelAt: -1, early: true})
		channels := func(ins, outs []source, recs []receiver) (cs []call) {
			for _, in := range ins {
				for _, r := range recs {
					cs = append(cs, call{kind: rc, how: "echo", in: in, r: r})
					for _, out := range outs {
						cs = append(cs, call{kind: rc, how: "ignore", in: in, out: out, r: r})
						for _, inner := range recs {
							cs = append(cs, call{kind: rc, how: "own", in: in, inner: inner, out: out, r: r})
						}
					}
				}
			}
			return
		}
		ins := []source{{n: 0}, {n: 2}, {n: 2, async: true, fail: true}, {n: 3, async: true}}
		outs := []source{{n: 1}, {n: 2, async: true}, {n: 2, fail: true}}
		simple := []call{h(rr, opEcho), h(rr, opFail), h(rr, opLater), h(rr, opBack), h(fnf, opEcho)}
		hsimple := append(append([]call{}, simple...), h(rr, opNone), h(fnf, opNone), h(rs, opNone), h(rc, opNone),
			h(rr, invalidMeta), h(fnf, invalidMeta), h(rs, invalidMeta), h(rc, invalidMeta))
		each := func(e *hx.E, budget int, scs []scene) {
			for _, sc := range scs {
				for _, sc.single = range []bool{false, true} {
					sc.budget = budget
					sc := sc
					e.Case(sc.String, func() { e.Sched(vrt.Config{Delay: true, Bound: 0}, func() { run(sc) }) })
				}
			}
		}
		s.Enum("calls", 8, func(e *hx.E) {
			var scs, more []scene
			for i, a := range hsimple {
				scs = append(scs, scene{host: []call{a}})
				for j, b := range hsimple {
					scs = append(scs, scene{host: []call{a, b}})
					for k, c := range hsimple {
						if i < 5 || j < 5 || k < 5 {
							more = append(more, scene{host: []call{a, b, c}})
						}
					}
				}
				for _, b := range simple {
					scs = append(scs, scene{host: []call{a}, guest: []call{b}})
					for _, c := range simple {
						more = append(more, scene{host: []call{a}, guest: []call{b, c}}, scene{host: []call{a, c}, guest: []call{b}})
					}
				}
			}
			for _, a := range simple {
				scs = append(scs, scene{guest: []call{a}})
				for _, b := range simple {
					scs = append(scs, scene{guest: []call{a, b}})
					for _, c := range simple {
						more = append(more, scene{guest: []call{a, b, c}})
					}
				}
			}
			each(e, hx.Pick(s, 5, 8), scs)
			each(e, hx.Pick(s, 2, 3), more)
		})
		s.Enum("nothing in it", 8, func(e *hx.E) {
			var scs []scene
			add := func(sc scene) {
				sc.bare = true
				scs = append(scs, sc)
			}
			for _, a := range append(hsimple, h(rr, opPlain)) {
				add(scene{host: []call{a}})
				add(scene{host: []call{h(rr, opPlain), a}})
				add(scene{host: []call{h(rr, opPlain)}, guest: []call{h(rr, opPlain)}})
			}
			for _, a := range append(simple, h(rr, opPlain)) {
				add(scene{guest: []call{a}})
				add(scene{guest: []call{a, h(rr, opPlain)}})
			}
			three := []source{{n: 3}, {n: 3, async: true, fail: true}}
			for _, c := range streams(three, recs) {
				add(scene{host: []call{c}})
				add(scene{guest: []call{c}})
				add(scene{host: []call{h(rr, opEcho), c}})
				add(scene{guest: []call{h(rr, opEcho), c}})
			}
			for _, in := range three {
				for _, how := range []string{"echo", "own"} {
					c := call{kind: rc, how: how, in: in, inner: never(all), out: source{n: 3, async: true}, r: never(all)}
					add(scene{host: []call{c}})
					add(scene{guest: []call{c}})
				}
			}
			each(e, hx.Pick(s, 4, 6), scs)
		})
		s.Enum("long streams", 8, func(e *hx.E) {
			var scs []scene
			long := []source{{n: 40}, {n: 130, async: true}, {n: 65, fail: true}}
			lr := []receiver{never(all), never(40), never(20, 20, 100), never(7, 7, 7, 7, 7, 7), {demands: []int{all}, cancelAt: 33}, never(all, all)}
			for _, c := range streams(append(long, source{n: 100, slice: true}), lr) {
				scs = append(scs, scene{host: []call{c}}, scene{host: []call{c, c}})
			}
			for _, c := range streams(long, lr) {
				scs = append(scs, scene{guest: []call{c}}, scene{guest: []call{c, c}}, scene{host: []call{c}, guest: []call{c}})
			}
			for _, r := range lr {
				for _, how := range []string{"echo", "own"} {
					c := call{kind: rc, how: how, in: source{n: 70}, inner: r, out: source{n: 40, async: true}, r: r}
					scs = append(scs, scene{host: []call{c}}, scene{guest: []call{c}})
				}
			}
			each(e, hx.Pick(s, 0, 1), scs)
		})
		s.Enum("messages of errors", 8, func(e *hx.E) {
			for _, m := range messages {
				try := func(what string, sc scene) {
					for _, sc.single = range []bool{false, true} {
						sc.budget = hx.Pick(s, 3, 6)
						m, sc := m, sc
						e.Case(func() string { return fmt.Sprintf("%.40q %s, one by one %v", m, what, sc.single) }, func() {
							e.Sched(vrt.Config{Delay: true, Bound: 0}, func() { saying(m, func() { run(sc) }) })
						})
					}
				}
				try("call of the host", scene{host: []call{h(rr, opFail), h(rr, opEcho)}})
				try("call of the guest", scene{guest: []call{h(rr, opFail), h(rr, opEcho)}})
				for _, c := range append(streams([]source{{n: 1, fail: true}, {n: 2, fail: true, async: true}}, []receiver{never(all)}),
					call{kind: rc, how: "echo", in: source{n: 2, fail: true}, r: never(all)},
					call{kind: rc, how: "own", in: source{n: 2, fail: true}, inner: never(all), out: source{n: 2, async: true, fail: true}, r: never(all)}) {
					try(fmt.Sprint(c, " of the host"), scene{host: []call{c}})
					try(fmt.Sprint(c, " of the guest"), scene{guest: []call{c}})
				}
			}
		})
		s.Enum("streams of the guest", 8, func(e *hx.E) {
			var scs, more []scene
			for _, c := range streams(srcs, recs) {
				scs = append(scs, scene{host: []call{c}})
				for _, d := range hsimple {
					more = append(more, scene{host: []call{c, d}}, scene{host: []call{d, c}})
				}
				for _, d := range streams(srcs, recs[:6]) {
					more = append(more, scene{host: []call{c, d}})
				}
			}
			each(e, hx.Pick(s, 5, 8), scs)
			each(e, hx.Pick(s, 2, 4), more)
		})
		s.Enum("streams of the host", 8, func(e *hx.E) {
			var scs, more []scene
			for _, c := range streams(srcs[:7], guestRecs) {
				scs = append(scs, scene{guest: []call{c}})
				for _, d := range hsimple {
					more = append(more, scene{guest: []call{c}, host: []call{d}})
				}
				for _, d := range streams(srcs, recs[:6]) {
					if !d.out.slice {
						more = append(more, scene{guest: []call{c, d}})
					}
					more = append(more, scene{guest: []call{c}, host: []call{d}})
				}
			}
			each(e, hx.Pick(s, 5, 8), scs)
			each(e, hx.Pick(s, 2, 4), more)
		})
		s.Enum("channels of the guest", 8, func(e *hx.E) {
			var scs, more []scene
			for _, c := range channels(ins, outs, recs) {
				scs = append(scs, scene{host: []call{c}})
				more = append(more, scene{host: []call{c, h(rr, opEcho)}}, scene{host: []call{c}, guest: []call{h(rr, opEcho)}})
			}
			each(e, hx.Pick(s, 4, 6), scs)
			each(e, hx.Pick(s, 2, 3), more)
		})
		s.Enum("channels of the host", 8, func(e *hx.E) {
			var scs, more []scene
			for _, c := range channels(append(ins, source{n: 2, slice: true}), outs, guestRecs) {
				scs = append(scs, scene{guest: []call{c}})
				more = append(more, scene{guest: []call{c, h(rr, opEcho)}}, scene{guest: []call{c}, host: []call{h(rr, opEcho)}})
			}
			each(e, hx.Pick(s, 4, 6), scs)
			each(e, hx.Pick(s, 2, 3), more)
		})
		moreScenarios(s)
	})
}
