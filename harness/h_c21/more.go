package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
)

// echo is a request of the host that the guest answers.
func (w *world) echo(data string) *ownCall {
	c := &ownCall{kind: rr, op: opEcho, data: data}
	w.peer.call(c)
	return c
}

func (w *world) take() (b []byte) {
	for _, f := range w.peer.out {
		b = append(b, frame(f)...)
	}
	w.peer.out = nil
	return
}

func answered(c *ownCall, what string) {
	if want := answerOf(c.op, c.data); c.ends != 1 || c.answer != want {
		vrt.Fail("answer", "%s: the call %q has %d answers, last %q", what, c.data, c.ends, c.answer)
	}
}

// works sees whether calls still work.
func (w *world) works() {
	w.onSend = nil
	w.budget = 0
	var cs []*call
	for i, k := range []int{opEcho, opBack, opLater} {
		c := &call{kind: rr, op: k, data: fmt.Sprint("works", i)}
		c.own = &ownCall{kind: rr, op: k, data: c.data}
		cs = append(cs, c)
	}
	w.pairing.handlers(cs)
	for _, c := range cs {
		w.peer.call(c.own)
	}
	w.settle()
	for _, c := range cs {
		w.judgePeer(c)
	}
	if n := open(); n != 0 {
		vrt.Fail("left", "%d streams are left open", n)
	}
}

func simpleWorld(names ...string) *world {
	w := boot(4096, 4096)
	var cs []*call
	for _, n := range names {
		cs = append(cs, &call{kind: rr, op: opEcho, data: n, own: &ownCall{}})
	}
	w.pairing.handlers(cs)
	return w
}

// refused is the stream of a request that is whole or cut short, but names no operation.
func refused(b []byte) uint32 {
	if len(b) < 6 {
		return 0
	}
	id := binary.BigEndian.Uint32(b)
	typ, follows := frames.FrameType(b[4]>>2), b[5]&0x80 != 0
	if typ != rr && typ != rs && typ != rc || follows || id&1 == 1 || id == 0 || id > 1<<16 {
		return 0
	}
	return id
}

// garbage: bytes that are no frames, or frames for nothing, come among calls
func garbage(b []byte, how int) {
	w := simpleWorld("x", "y", "z")
	w.peer.lax = true
	w.peer.next = 100
	var cs []*ownCall
	switch how {
	case 0: // alone
		w.enter(sized(b))
	case 1: // before a call
		cs = append(cs, w.echo("x"))
		w.enter(append(sized(b), w.take()...))
	case 2: // after a call
		cs = append(cs, w.echo("x"))
		w.enter(append(w.take(), sized(b)...))
	case 3: // twice among calls
		g := sized(b)
		cs = append(cs, w.echo("x"))
		all := append(w.take(), g...)
		cs = append(cs, w.echo("y"))
		all = append(append(all, w.take()...), g...)
		cs = append(cs, w.echo("z"))
		w.enter(append(all, w.take()...))
	}
	n := 1
	if how == 3 {
		n = 2
	}
	for _, c := range cs {
		answered(c, fmt.Sprintf("%x", b))
	}
	if id := refused(b); id != 0 && w.peer.errors[id] != n {
		vrt.Fail("request-no-error", "a request that cannot be answered is ended by %d errors", w.peer.errors[id])
	}
	w.settle()
	w.works()
}

// stray: a frame for an open stream that makes no sense, or for a stream that has ended, and for unknown ones
func stray(f frames.Frame, open bool, mine bool, group bool) {
	strayBytes(frame(f), open, mine, group, false)
}

// strayBytes: cut tells that the bytes are no frame, the stream may then fail.
func strayBytes(fb []byte, open bool, mine bool, group bool, cut bool) {
	w := simpleWorld("x")
	w.peer.lax = cut
	src := &source{name: "oS", n: 2, async: true}
	w.rs[10] = func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return src.flux() }
	rec := never(rx.RequestMax)
	rec.name = "oS"
	var own *ownCall
	var mono0 string
	ends := 0
	if mine {
		// a call of the guest
		w.do(func() {
			guest.HostInvoker.RequestResponse(ctx0, payload.New([]byte("S"), meta(opLater, 0, "mS"))).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { mono0 = string(p.Data()) },
				Finally:   func(rx.SignalType) { ends++ },
			})
		})
	} else {
		own = &ownCall{kind: rs, op: 10, data: "S", recv: &rec}
		w.peer.call(own)
		rec.canceled = cut // whatever comes
	}
	w.deliver(len(w.peer.out))
	if !open {
		w.settle()
	}
	c := w.echo("x")
	b := append(append([]byte(nil), fb...), w.take()...)
	if group {
		w.enter(b)
	} else {
		n := 3 + int(b[0])<<16 + int(b[1])<<8 + int(b[2])
		w.enter(b[:n])
		w.enter(b[n:])
	}
	answered(c, "after a stray frame")
	w.settle()
	if cut {
		if mine && ends != 1 {
			vrt.Fail("answer", "the guest's call has %d ends with %q", ends, mono0)
		}
	} else if mine {
		if ends != 1 || mono0 != "S late" {
			vrt.Fail("answer", "the guest's call has %d ends with %q", ends, mono0)
		}
	} else if rec.got != 2 || rec.end != "complete" {
		vrt.Fail("answer", "the stream got %d items and ended with %q", rec.got, rec.end)
	}
	w.works()
}

// group: many calls come at once
func group(n int, kinds int) {
	w := boot(16*1024, 16*1024)
	var ran []string
	var want []string
	w.fnf[opEcho] = func(_ context.Context, p payload.Payload) {
		ran = append(ran, string(p.Data()))
	}
	w.rr[opEcho] = func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		ran = append(ran, string(p.Data()))
		return mono.Just[payload.Payload](payload.New([]byte(string(p.Data())+"!"), p.Metadata()))
	}
	var cs []*ownCall
	for i := 0; i < n; i++ {
		k := fnf
		if kinds>>(i%4)&1 == 1 {
			k = rr
		}
		c := &ownCall{kind: k, op: opEcho, data: fmt.Sprint("c", i)}
		w.peer.call(c)
		want = append(want, c.data)
		cs = append(cs, c)
	}
	w.enter(w.take())
	if !reflect.DeepEqual(ran, want) {
		vrt.Fail("order", "the guest ran %q instead of %q", ran, want)
	}
	for _, c := range cs {
		if c.kind == rr {
			answered(c, "in a group")
		} else if c.ends > 0 {
			vrt.Fail("answer", "a fire-and-forget got an answer: %q", c.answer)
		}
	}
	w.works()
}

// full: a call that fills the guest's buffer exactly, or nearly
func full(kind frames.FrameType, size, less int, split bool) {
	w := boot(size, 4096)
	head := 6 + 3 + 3
	if kind == rs || kind == rc {
		head += 4
	}
	md := meta(opEcho, 0, "")
	data := strings.Repeat("x", size-head-len(md)-less)
	if split {
		md = meta(opEcho, 0, data[:len(data)/2])
		data = data[len(data)/2:]
	}
	runs := 0
	got := func(p payload.Payload) {
		runs++
		m := string(p.Metadata())
		if string(p.Data()) != data || m != string(md) && m != string(md[8:]) {
			vrt.Fail("not-whole", "a call of %d bytes has not come whole", size-less)
		}
	}
	w.rr[opEcho] = func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		got(p)
		return mono.Just[payload.Payload](payload.New([]byte("ok"), nil))
	}
	w.fnf[opEcho] = func(_ context.Context, p payload.Payload) { got(p) }
	w.rs[opEcho] = func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		got(p)
		return flux.FromSlice[payload.Payload](nil)
	}
	w.rc[opEcho] = func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		got(p)
		in.Subscribe(flux.Subscribe[payload.Payload]{})
		return flux.FromSlice[payload.Payload](nil)
	}
	w.peer.lax = true
	w.peer.next = 4
	w.enter(frame(&frames.RequestPayload{FrameType: kind, StreamID: 2, Data: []byte(data), Metadata: md, InitialN: 1, Complete: true}))
	if kind == rc {
		w.enter(frame(&frames.Payload{StreamID: 2, Complete: true}))
	}
	if runs != 1 {
		vrt.Fail("runs", "a call of %d bytes with a buffer of %d ran %d times", size-less, size, runs)
	}
	w.works()
}

// bigAnswer: the answer of the guest is about the size of the host's buffer
func bigAnswer(kind frames.FrameType, how string, size, over, room int) {
	w := boot(4096, size+room)
	n := size - 3 - 6 - 3 - 1 + over // one byte of metadata
	if how == "error" {
		n = size - 3 - 6 - 4 + over
	}
	text := strings.Repeat("x", n)
	item := payload.New([]byte(text), []byte("m"))
	canceled := 0
	w.rr[opEcho] = func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
		if how == "error" {
			return mono.Error[payload.Payload](errors.New(text))
		}
		return mono.Just[payload.Payload](item)
	}
	items := func() flux.Flux[payload.Payload] {
		if how == "error" {
			return flux.Error[payload.Payload](errors.New(text))
		}
		return flux.Create(func(sink flux.Sink[payload.Payload]) {
			sink.OnSubscribe(flux.OnSubscribe{
				Request: func(int) {
					if how == "second" {
						sink.Next(payload.New([]byte("1"), nil))
					}
					sink.Next(item)
					if canceled == 0 {
						sink.Next(payload.New([]byte("3"), nil))
						sink.Complete()
					}
				},
				Cancel: func() { canceled++ },
			})
		})
	}
	w.rs[opEcho] = func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return items() }
	w.rc[opEcho] = func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		in.Subscribe(flux.Subscribe[payload.Payload]{})
		return items()
	}
	var got []frames.Frame
	w.onSend = func(f frames.Frame) bool {
		switch f.(type) {
		case *frames.RequestN, *frames.Cancel:
		default:
			got = append(got, f)
		}
		return true
	}
	w.enter(frame(&frames.RequestPayload{FrameType: kind, StreamID: 2, Metadata: meta(opEcho, 0, ""), InitialN: 5, Complete: true}))
	if kind == rc {
		w.enter(frame(&frames.Payload{StreamID: 2, Complete: true}))
	}
	ends, whole := 0, 0
	end := ""
	for _, f := range got {
		if f.GetStreamID() != 2 {
			vrt.Fail("unknown-stream", "the guest sends %s", frref.Show(f))
		}
		switch f := f.(type) {
		case *frames.Payload:
			if f.Complete {
				ends++
				end = "complete"
			}
			if string(f.Data) == text && string(f.Metadata) == "m" {
				whole++
			} else if len(f.Data) > 1 {
				vrt.Fail("not-whole", "the guest sends %d bytes of %d", len(f.Data), len(text))
			}
		case *frames.Error:
			ends++
			end = "error"
			if f.Data == text {
				whole++
			}
		}
	}
	if ends != 1 {
		vrt.Fail("answer", "the host's call has ended %d times", ends)
	}
	if over <= 0 && whole != 1 {
		vrt.Fail("not-whole", "the answer fits but the host has not got it")
	}
	if over > 0 && (whole > 0 || end != "error") {
		vrt.Fail("no-error", "the answer does not fit but the host got the end %q", end)
	}
	w.peer.next = 4
	w.onSend = nil
	w.works()
}

// bigCall: the guest makes a call of about the size of the host's buffer
func bigCall(kind frames.FrameType, split bool, size, over int) {
	w := boot(4096, size)
	head := 6 + 3 + 3
	if kind == rs || kind == rc {
		head += 4
	}
	md := meta(opEcho, 0, "")
	n := size - head - len(md) + over
	data := strings.Repeat("x", n)
	if split {
		md = meta(opEcho, 0, data[:n/2])
		data = data[n/2:]
	}
	var got frames.Frame
	w.onSend = func(f frames.Frame) bool {
		if got == nil {
			got = f
		} else if _, ok := f.(*frames.Payload); !ok {
			vrt.Fail("unexpected", "the guest sends %s", frref.Show(f))
		}
		return true
	}
	p := payload.New([]byte(data), md)
	ends, end := 0, ""
	w.do(func() {
		switch kind {
		case rr:
			guest.HostInvoker.RequestResponse(ctx0, p).Subscribe(mono.Subscribe[payload.Payload]{
				OnError: func(err error) { end = err.Error() },
				Finally: func(rx.SignalType) { ends++ },
			})
		case fnf:
			guest.HostInvoker.FireAndForget(ctx0, p)
		default:
			f := guest.HostInvoker.RequestStream(ctx0, p)
			if kind == rc {
				f = guest.HostInvoker.RequestChannel(ctx0, p, flux.FromSlice[payload.Payload](nil))
			}
			f.Subscribe(flux.Subscribe[payload.Payload]{
				OnError: func(err error) { end = err.Error() },
				Finally: func(rx.SignalType) { ends++ },
			})
		}
	})
	w.settle()
	if got != nil {
		w.peer.send(&frames.Error{StreamID: got.GetStreamID(), Data: "done"})
		if kind == rc {
			w.peer.send(&frames.Cancel{StreamID: got.GetStreamID()})
		}
		w.settle()
	}
	if over <= 0 {
		q, ok := got.(*frames.RequestPayload)
		if !ok || q.FrameType != kind || string(q.Data) != data || string(q.Metadata) != string(md) {
			vrt.Fail("not-whole", "a call that fits (%d bytes short) is not sent whole", -over)
		}
		if kind != fnf && (ends != 1 || end != "done") {
			vrt.Fail("answer", "the call ends with %q (%d ends)", end, ends)
		}
	} else {
		if got != nil {
			vrt.Fail("out-of-buffer", "a call that does not fit is sent")
		}
		if kind != fnf && (ends != 1 || end == "done" || end == "") {
			vrt.Fail("no-error", "the call that does not fit ends with %q (%d ends)", end, ends)
		}
	}
	w.works()
}

// bigItem: the guest sends an item or error of about the size of the host's buffer in a channel of its own
func bigItem(how string, size, over int) {
	w := boot(4096, size)
	n := size - 3 - 6 - 3 - 1 + over
	if how == "error" {
		n = size - 3 - 6 - 4 + over
	}
	text := strings.Repeat("x", n)
	canceled, ends, whole := 0, 0, 0
	end := ""
	var got []frames.Frame
	w.onSend = func(f frames.Frame) bool {
		got = append(got, f)
		switch f := f.(type) {
		case *frames.Payload:
			if string(f.Data) == text && string(f.Metadata) == "m" {
				whole++
			} else if len(f.Data) > 1 {
				vrt.Fail("not-whole", "the guest sends %d bytes of %d", len(f.Data), len(text))
			}
		case *frames.Error:
			if f.Data == text {
				whole++
			}
		}
		return true
	}
	w.do(func() {
		in := flux.Create(func(sink flux.Sink[payload.Payload]) {
			sink.OnSubscribe(flux.OnSubscribe{
				Request: func(int) {
					if how == "error" {
						sink.Error(errors.New(text))
						return
					}
					if how == "second" {
						sink.Next(payload.New([]byte("1"), nil))
					}
					sink.Next(payload.New([]byte(text), []byte("m")))
					if canceled == 0 {
						sink.Next(payload.New([]byte("3"), nil))
						sink.Complete()
					}
				},
				Cancel: func() { canceled++ },
			})
		})
		guest.HostInvoker.RequestChannel(ctx0, payload.New(nil, meta(opEcho, 0, "")), in).Subscribe(flux.Subscribe[payload.Payload]{
			OnComplete: func() { end = "complete" },
			OnError:    func(err error) { end = "error" },
			Finally:    func(rx.SignalType) { ends++ },
		})
	})
	w.settle()
	w.peer.send(&frames.RequestN{StreamID: 1, N: 5})
	w.settle()
	if over <= 0 {
		if whole != 1 {
			vrt.Fail("not-whole", "an item that fits is not sent whole")
		}
		if ends != 0 {
			vrt.Fail("answer", "the call has ended with %q", end)
		}
		w.peer.send(&frames.Payload{StreamID: 1, Complete: true})
		w.settle()
		if ends != 1 || end != "complete" {
			vrt.Fail("answer", "the call ends with %q (%d ends)", end, ends)
		}
	} else {
		// the host is told, one way or another
		told := ""
		for _, f := range got {
			switch f.(type) {
			case *frames.Cancel:
				told += "cancel "
			case *frames.Error:
				told += "error "
			}
		}
		if whole > 0 || told == "" {
			vrt.Fail("no-error", "an item that does not fit: the host has got %d of it and is told %q", whole, told)
		}
		if ends == 0 { // the error is told to the host, which may answer
			w.peer.send(&frames.Payload{StreamID: 1, Complete: true})
			w.settle()
		}
		if ends != 1 {
			vrt.Fail("answer", "the call has %d ends", ends)
		}
	}
	w.works()
}

func moreScenarios(s *hx.Suite) {
	one := vrt.Config{Delay: true, Bound: 0}
	sched := func(e *hx.E, desc string, f func()) {
		e.Case(func() string { return desc }, func() { e.Sched(one, f) })
	}
	s.Enum("bytes that are no frames", 8, func(e *hx.E) {
		try := func(b []byte) {
			for how := 0; how < 4; how++ {
				b, how := b, how
				sched(e, fmt.Sprintf("the host sends %x, way %d", b, how), func() { garbage(b, how) })
			}
		}
		for n := 0; n <= 6; n++ {
			for _, c := range []byte{0, 1, 2, 0x10, 0xff} {
				try(append(make([]byte, n), c)[:n])
				try(append(make([]byte, n), c))
			}
		}
		for typ := 0; typ < 64; typ++ {
			for _, id := range []uint32{0, 1, 2, 3, 4, 1 << 30, 1<<32 - 1, 1<<32 - 2} {
				for _, flags := range []int{0, 0x100, 0x80, 0x20, 0x60, 0x3ff} {
					b := []byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id), byte(typ<<2 | flags>>8), byte(flags)}
					try(b)
					if typ >= 4 && typ <= 11 {
						for _, k := range []int{1, 3, 4, 7, 8} {
							try(append(append([]byte{}, b...), make([]byte, k)...))
						}
						try(append(append([]byte{}, b...), 0, 0, 0, 200, 0, 0, 200, 1))
						try(append(append([]byte{}, b...), 0, 0, 3, 1, 2, 3, 4, 5))
					}
				}
			}
		}
	})
	s.Enum("stray frames", 8, func(e *hx.E) {
		for _, id := range []uint32{0, 1, 2, 3, 4, 6, 98, 1 << 30, 1<<31 - 1} {
			fs := []frames.Frame{
				&frames.RequestN{StreamID: id, N: 1}, &frames.RequestN{StreamID: id, N: 0},
				&frames.Cancel{StreamID: id},
				&frames.Payload{StreamID: id, Data: []byte("stray"), Next: true}, &frames.Payload{StreamID: id, Complete: true},
				&frames.Payload{StreamID: id, Data: []byte("stray"), Next: true, Complete: true}, &frames.Payload{StreamID: id},
				&frames.Error{StreamID: id, Data: "stray"},
			}
			for i, f := range fs {
				for _, opened := range []bool{false, true} {
					for _, mine := range []bool{false, true} {
						for _, g := range []bool{false, true} {
							f, opened, mine, g := f, opened, mine, g
							if opened && mine && id == 1 && i > 1 && i != 2 && i != 6 {
								continue // an answer
							}
							if opened && !mine && id == 2 && i == 2 {
								continue // cancels
							}
							sched(e, fmt.Sprint(frref.Show(f), " open ", opened, " guest's ", mine, " grouped ", g), func() { stray(f, opened, mine, g) })
						}
					}
				}
			}
		}
	})
	s.Enum("frames cut short for open streams", 8, func(e *hx.E) {
		for _, id := range []uint32{1, 2} {
			for typ := 8; typ <= 11; typ++ {
				for _, flags := range []int{0, 0x100, 0x20, 0x40, 0x60, 0x160, 0x3ff, 0x1e0} {
					for _, body := range [][]byte{nil, {0}, {0, 0}, {0, 0, 9}, {255, 255, 255}, {0, 0, 9, 1, 2}, {0, 1, 0, 7}, {0, 0, 0}, {0, 0, 1}} {
						h := []byte{0, 0, 0, byte(id), byte(typ<<2 | flags>>8), byte(flags)}
						short := typ == 8 && len(body) < 4 || typ == 11 && len(body) < 4 ||
							typ == 10 && flags&0x100 != 0 && (len(body) < 3 || int(body[0])<<16|int(body[1])<<8|int(body[2]) > len(body)-3)
						if !short {
							continue
						}
						for _, opened := range []bool{false, true} {
							for _, g := range []bool{false, true} {
								b, id, opened, g := append(h, body...), id, opened, g
								sched(e, fmt.Sprintf("%x open %v grouped %v", b, opened, g), func() { strayBytes(sized(b), opened, id == 1, g, true) })
							}
						}
					}
				}
			}
		}
	})
	s.Enum("many calls", 1, func(e *hx.E) {
		for _, n := range []int{0, 1, 2, 3, 17, 64, 255, 256, 400} {
			for kinds := 0; kinds < 16; kinds++ {
				n, kinds := n, kinds
				sched(e, fmt.Sprint(n, " calls ", kinds), func() { group(n, kinds) })
			}
		}
	})
	s.Enum("sizes", 8, func(e *hx.E) {
		sizes := []int{256, 1024, 65535 + 3, 65536, 65537}
		for _, size := range sizes {
			for _, k := range []frames.FrameType{rr, fnf, rs, rc} {
				for _, split := range []bool{false, true} {
					for less := 0; less < 4; less++ {
						size, k, split, less := size, k, split, less
						sched(e, fmt.Sprint("call of the host ", k, " ", size-less, " of ", size, " ", split), func() { full(k, size, less, split) })
					}
					for over := -4; over <= 4; over++ {
						size, k, split, over := size, k, split, over
						sched(e, fmt.Sprint("call of the guest ", k, " ", over, " more than ", size, " ", split), func() { bigCall(k, split, size, over) })
					}
				}
				for _, how := range []string{"first", "second", "error"} {
					for over := -4; over <= 4; over++ {
						size, k, how, over := size, k, how, over
						if k == fnf || k == rr && how == "second" {
							continue
						}
						sched(e, fmt.Sprint("answer ", k, " ", how, " ", over, " more than ", size), func() { bigAnswer(k, how, size, over, 0) })
					}
				}
			}
			for _, how := range []string{"first", "second", "error"} {
				for over := -4; over <= 4; over++ {
					size, how, over := size, how, over
					sched(e, fmt.Sprint("item of a channel ", how, " ", over, " more than ", size), func() { bigItem(how, size, over) })
				}
			}
		}
		// what the length of a frame cannot tell
		for over := -1; over <= 1; over++ {
			for _, how := range []string{"first", "error"} {
				over, how := over, how
				sched(e, fmt.Sprint("answer ", how, " ", over, " more than 24 bits tell"), func() { bigAnswer(rr, how, 1<<24+2, over, 100) })
			}
		}
	})
	s.Enum("list of operations", 1, func(e *hx.E) {
		e.Case(func() string { return "exports and imports" }, func() {
			listOperations(e)
		})
	})
}

func listOperations(e *hx.E) {
	var want []string
	seen := map[uint32]map[operations.RequestType]bool{}
	for i := uint32(0); i < numOps; i++ {
		for _, t := range []operations.RequestType{operations.RequestResponse, operations.FireAndForget, operations.RequestStream, operations.RequestChannel} {
			want = append(want, fmt.Sprint(operations.Operation{Index: i, Type: t, Direction: operations.Export, Namespace: "verif", Operation: fmt.Sprint("op", i)}))
		}
	}
	for i, name := range []string{"a", "b", "a", "c", "b", "é", ""} {
		ns := "imports"
		if i == 6 {
			ns = ""
		}
		add := func(t operations.RequestType, f func(ns, name string) uint32) {
			index := f(ns, name)
			if again := f(ns, name); again != index {
				e.Fail("import-index", "the import %q has the indices %d and %d", name, index, again)
			}
			if seen[index] == nil {
				seen[index] = map[operations.RequestType]bool{}
			}
			if seen[index][t] {
				return
			}
			seen[index][t] = true
			want = append(want, fmt.Sprint(operations.Operation{Index: index, Type: t, Direction: operations.Import, Namespace: ns, Operation: name}))
		}
		add(operations.RequestResponse, guest.HostInvoker.ImportRequestResponse)
		if i != 3 {
			add(operations.FireAndForget, guest.HostInvoker.ImportFireAndForget)
		}
		if i > 0 {
			add(operations.RequestStream, guest.HostInvoker.ImportRequestStream)
		}
		if i < 2 {
			add(operations.RequestChannel, guest.HostInvoker.ImportRequestChannel)
		}
	}
	var got []string
	lists := 0
	guest.ZZ_op_list = func(p uintptr, n uint32) {
		lists++
		t, err := operations.FromBytes(append([]byte{}, unsafe.Slice((*byte)(ptr(p)), n)...))
		if err != nil {
			e.Fail("list", "the list of operations cannot be read: %v", err)
		}
		for _, o := range t {
			got = append(got, fmt.Sprint(o))
		}
	}
	guest.OperationList()
	sort.Strings(got)
	sort.Strings(want)
	if lists != 1 || !reflect.DeepEqual(got, want) {
		e.Fail("list", "the list of operations (told %d times) is %q instead of %q", lists, got, want)
	}
	_ = invoke.GetOperations
}
