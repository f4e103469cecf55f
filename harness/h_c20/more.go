package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// reply makes a call of the host and tells its answer.
type reply struct {
	ends   int
	answer string
}

func (w *world) ask(op int, data string) *reply {
	r := &reply{}
	w.inst.RequestResponse(context.WithValue(ctx0, ctxKey{}, data), payload.New([]byte(data), meta(op, 0, "m"+data))).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { r.answer = "ok " + string(p.Data()) + " " + string(p.Metadata()) },
		OnError:   func(err error) { r.answer = "error " + err.Error() },
		Finally:   func(rx.SignalType) { r.ends++ },
	})
	return r
}

func (r *reply) is(what, answer string) {
	if r.ends != 1 || r.answer != answer {
		vrt.Fail("answer", "%s: the call has %d answers, last %q, instead of %q", what, r.ends, r.answer, answer)
	}
}

func (r *reply) failed(what string) {
	if r.ends != 1 || !strings.HasPrefix(r.answer, "error ") {
		vrt.Fail("no-error", "%s: the call has %d answers, last %q, instead of an error", what, r.ends, r.answer)
	}
}

func start(l layout) *world {
	inst, g, err := boot(l)
	if err != nil {
		vrt.Fail("boot", "cannot start the guest: %v", err)
	}
	return newWorld(inst, g)
}

// works sees whether calls still work.
func (w *world) works() {
	w.handlers(nil)
	w.g.custom = nil
	r := w.ask(opEcho, "works")
	r2 := w.ask(opBack, "w")
	vrt.Quiesce()
	r.is("afterwards", "ok works! mworks")
	r2.is("afterwards", "ok ok wb! mwb mw")
	if n := open(w.inst); n != 0 {
		vrt.Fail("left", "%d streams are left open", n)
	}
	w.finish()
}

// garbage: the guest sends bytes that are no frames in answer to a call
func garbage(b []byte, answered bool) {
	w := start(standard())
	w.g.lax = true
	n := 0
	w.g.custom = func(g *guest, ctx context.Context, f []byte) bool {
		n++
		if n > 1 {
			return false
		}
		g.write(ctx, b)
		if answered {
			g.on(parse(f))
			g.flush(ctx)
		}
		return true
	}
	r := w.ask(opEcho, "x")
	vrt.Quiesce()
	if r.ends > 1 {
		vrt.Fail("answered-twice", "the call has %d answers", r.ends)
	}
	if answered {
		if r.ends != 1 {
			vrt.Fail("lost", "the answer after %x is lost", b)
		}
		if !strings.HasPrefix(r.answer, "error ") && r.answer != "ok x! mx" {
			vrt.Fail("answer", "the call has the answer %q", r.answer)
		}
	}
	vrt.Outcome("%s", r.answer)
	if id := refused(b); id != 0 && w.g.errors[id] != 1 {
		vrt.Fail("request-no-error", "a request that cannot be answered is ended by %d errors", w.g.errors[id])
	}
	w.g.custom = nil
	if !answered && r.ends == 0 {
		// answer it late
		w.g.held = append(w.g.held, func() { w.g.answer(2, "late", nil) })
		w.kick()
		vrt.Quiesce()
		r.is("late", "ok late ")
	}
	w.works()
}

// refused is the stream of a request that is whole or cut short, but names no operation.
func refused(b []byte) uint32 {
	if len(b) < 9 || len(b) != 3+int(b[2]) || b[0] > 0 || b[1] > 0 {
		return 0
	}
	id := binary.BigEndian.Uint32(b[3:])
	typ, follows := frames.FrameType(b[7]>>2), b[8]&0x80 != 0
	if typ != rr && typ != rs && typ != rc || follows || id&1 == 0 || id > 1<<16 {
		return 0
	}
	return id
}

func frame(b []byte) []byte {
	return cat([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b)
}

// bigCall: frames of every kind of about the size of the buffer
func bigCall(kind frames.FrameType, split bool, over int) {
	w := start(standard())
	head := 6 + 3 + 3 // length, header, metadata length
	if kind == rs || kind == rc {
		head += 4
	}
	md := meta(opEcho, 0, "")
	n := bufSize - head - len(md) + over
	data := strings.Repeat("x", n)
	if split {
		md = meta(opEcho, 0, data[:n/2])
		data = data[n/2:]
	}
	var got frames.Frame
	w.g.custom = func(g *guest, ctx context.Context, f []byte) bool {
		if got != nil {
			return false
		}
		got = parse(f)
		if kind != fnf {
			g.fail(got.GetStreamID(), "done")
			if kind == rc {
				g.send(&frames.Cancel{StreamID: got.GetStreamID()})
			}
			g.flush(ctx)
		}
		return true
	}
	p := payload.New([]byte(data), md)
	ends, end := 0, ""
	switch kind {
	case rr:
		w.inst.RequestResponse(ctx0, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnError: func(err error) { end = err.Error() },
			Finally: func(rx.SignalType) { ends++ },
		})
	case fnf:
		w.inst.FireAndForget(ctx0, p)
	default:
		f := w.inst.RequestStream(ctx0, p)
		if kind == rc {
			f = w.inst.RequestChannel(ctx0, p, flux.FromSlice[payload.Payload](nil))
		}
		f.Subscribe(flux.Subscribe[payload.Payload]{
			OnError: func(err error) { end = err.Error() },
			Finally: func(rx.SignalType) { ends++ },
		})
	}
	vrt.Quiesce()
	if over <= 0 {
		q, ok := got.(*frames.RequestPayload)
		if !ok || string(q.Data) != data || string(q.Metadata) != string(md) {
			vrt.Fail("not-whole", "a frame that fits (%d bytes short) did not arrive whole", -over)
		}
		if kind != fnf && (ends != 1 || end != "done") {
			vrt.Fail("answer", "the call ends with %q (%d ends)", end, ends)
		}
	} else {
		if got != nil {
			vrt.Fail("out-of-buffer", "a frame that does not fit has arrived")
		}
		if kind != fnf && (ends != 1 || end == "done" || end == "") {
			vrt.Fail("no-error", "the call that does not fit ends with %q (%d ends)", end, ends)
		}
	}
	w.works()
}

// bigAnswer: the host's answer to the guest is about the size of the buffer
func bigAnswer(kind frames.FrameType, how string, over int) {
	w := start(standard())
	n := bufSize - 3 - 6 - 3 - 1 + over // one byte of metadata
	if how == "error" {
		n = bufSize - 3 - 6 - 4 + over
	}
	text := strings.Repeat("x", n)
	item := payload.New([]byte(text), []byte("m"))
	canceled := 0
	w.inst.SetRequestResponseHandler(1, func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
		if how == "error" {
			return mono.Error[payload.Payload](fmt.Errorf("%s", text))
		}
		return mono.Just[payload.Payload](item)
	})
	items := func() flux.Flux[payload.Payload] {
		if how == "error" {
			return flux.Error[payload.Payload](fmt.Errorf("%s", text))
		}
		return flux.Create(func(sink flux.Sink[payload.Payload]) {
			sink.OnSubscribe(flux.OnSubscribe{
				Request: func(int) {
					if how == "second" {
						sink.Next(payload.New([]byte("1"), nil))
					}
					sink.Next(item)
					if canceled == 0 {
						sink.Next(payload.New([]byte("3"), nil))
						sink.Complete()
					}
				},
				Cancel: func() { canceled++ },
			})
		})
	}
	w.inst.SetRequestStreamHandler(1, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return items() })
	w.inst.SetRequestChannelHandler(1, func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		in.Subscribe(flux.Subscribe[payload.Payload]{})
		return items()
	})
	var got []frames.Frame
	w.g.custom = func(g *guest, ctx context.Context, f []byte) bool {
		p := parse(f)
		if p.GetStreamID() != 1 {
			g.send(&frames.RequestPayload{FrameType: kind, StreamID: 1, Metadata: meta(1, 0, ""), InitialN: 5, Complete: kind != rc})
			if kind == rc {
				g.send(&frames.Payload{StreamID: 1, Complete: true})
			}
			g.flush(ctx)
			return true
		}
		switch p.(type) {
		case *frames.RequestN, *frames.Cancel:
		default:
			got = append(got, p)
		}
		return true
	}
	w.kick()
	vrt.Quiesce()
	ends, whole := 0, 0
	end := ""
	for _, f := range got {
		switch f := f.(type) {
		case *frames.Payload:
			if f.Complete {
				ends++
				end = "complete"
			}
			if string(f.Data) == text && string(f.Metadata) == "m" {
				whole++
			} else if len(f.Data) > 1 {
				vrt.Fail("not-whole", "the guest got %s", frref.Show(f))
			}
		case *frames.Error:
			ends++
			end = "error"
			if f.Data == text {
				whole++
			}
		}
	}
	if ends != 1 {
		vrt.Fail("answer", "the guest's call has ended %d times: %s", ends, show(got))
	}
	if over <= 0 && whole != 1 {
		vrt.Fail("not-whole", "the answer fits but the guest got %s", show(got))
	}
	if over > 0 && (whole > 0 || end != "error") {
		vrt.Fail("no-error", "the answer does not fit but the guest got %s", show(got))
	}
	w.g.next = 3
	w.works()
}

func show(fs []frames.Frame) string {
	var s []string
	for _, f := range fs {
		s = append(s, frref.Show(f))
	}
	return strings.Join(s, " ")
}

// many: the guest sends n frames while it handles one
func many(n int, group bool, how string) {
	w := start(standard())
	w.g.group = group
	got, ends := 0, 0
	runs := 0
	w.inst.SetFireAndForgetHandler(1, func(_ context.Context, p payload.Payload) { runs++ })
	w.g.custom = func(g *guest, ctx context.Context, f []byte) bool {
		q := parse(f)
		if r, ok := q.(*frames.RequestPayload); !ok || r.FrameType != rs {
			return true
		}
		for i := 0; i < n; i++ {
			switch how {
			case "items":
				g.send(&frames.Payload{StreamID: q.GetStreamID(), Data: []byte(fmt.Sprint(i)), Next: true})
			case "unknown":
				g.send(&frames.Payload{StreamID: 4000, Data: []byte(fmt.Sprint(i)), Next: true})
			case "requests":
				g.send(&frames.RequestPayload{FrameType: fnf, StreamID: uint32(1 + 2*i), Data: []byte(fmt.Sprint(i)), Metadata: meta(1, 0, ""), Complete: true})
			case "answered":
				g.send(&frames.RequestPayload{FrameType: rr, StreamID: uint32(1 + 2*i), Data: []byte(fmt.Sprint(i)), Metadata: meta(1, 0, ""), Complete: true})
			}
		}
		g.send(&frames.Payload{StreamID: q.GetStreamID(), Complete: true})
		g.flush(ctx)
		return true
	}
	w.inst.RequestStream(ctx0, payload.New(nil, meta(1, 0, ""))).Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			if string(p.Data()) != fmt.Sprint(got) {
				vrt.Fail("order", "item %d is %q", got, p.Data())
			}
			got++
		},
		OnComplete: func() { ends++ },
	})
	vrt.Quiesce()
	if ends != 1 {
		vrt.Fail("lost", "the stream has %d ends; %q", ends, vrt.Blocked())
	}
	if how == "items" && got != n || how == "requests" && runs != n {
		vrt.Fail("lost", "of %d frames the host has handled %d", n, got+runs)
	}
	if how == "answered" && w.g.entries != n+1 {
		vrt.Fail("lost", "of %d calls %d are answered", n, w.g.entries-1)
	}
	w.g.next = uint32(2*n + 1)
	w.works()
}

// inOrder: frames that threads send arrive whole and each thread's in order
func inOrder(per int, threads int) {
	w := start(standard())
	var got []string
	w.g.custom = func(g *guest, ctx context.Context, f []byte) bool {
		got = append(got, frref.Show(parse(f)))
		return true
	}
	var sent [][]string
	for t := 0; t < threads; t++ {
		t := t
		var mine []frames.Frame
		var shown []string
		for i := 0; i < per; i++ {
			f := &frames.Payload{StreamID: uint32(2 + 2*t), Data: []byte(strings.Repeat(string(rune('a'+t)), 10*(per-i))), Metadata: []byte(fmt.Sprint(i)), Next: true}
			mine = append(mine, f)
			shown = append(shown, frref.Show(f))
		}
		sent = append(sent, shown)
		vrt.GoNamed("sender", func() {
			for _, f := range mine {
				if err := w.inst.SendFrame(f); err != nil {
					vrt.Fail("send-error", "SendFrame: %v", err)
				}
			}
		})
	}
	vrt.Quiesce()
	if len(got) != per*threads {
		vrt.Fail("lost", "the guest has got %d of %d frames", len(got), per*threads)
	}
	for t := range sent {
		i := 0
		for _, f := range got {
			if i < per && f == sent[t][i] {
				i++
			}
		}
		if i != per {
			vrt.Fail("order", "the frames of a thread have not arrived in order: sent %q, got %q", sent[t], got)
		}
	}
	vrt.Outcome("%q", got)
	w.works()
}

// traps: the guest fails on some frames
func traps(kind frames.FrameType, before bool, also []call) {
	w := start(standard())
	w.handlers(nil)
	// a stream that is open, and asked for more of the guest traps
	ends, end := 0, ""
	got := 0
	w.g.custom = func(g *guest, ctx context.Context, f []byte) bool {
		p := parse(f)
		q, ok := p.(*frames.RequestPayload)
		if !ok || len(q.Metadata) < 8 || q.Metadata[3] != opTrap {
			return false
		}
		if before {
			if kind == rr {
				g.answer(p.GetStreamID(), "1", nil)
			} else {
				g.send(&frames.Payload{StreamID: p.GetStreamID(), Data: []byte("1"), Next: true})
			}
			g.flush(ctx)
		}
		g.trap()
		return true
	}
	others := make([]*reply, len(also))
	for i, c := range also {
		i, c := i, c
		vrt.GoNamed("other", func() { others[i] = w.ask(c.op, fmt.Sprint("o", i)) })
	}
	p := payload.New([]byte("t"), meta(opTrap, 0, ""))
	switch kind {
	case rr:
		w.inst.RequestResponse(ctx0, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(payload.Payload) { end = "ok" },
			OnError:   func(err error) { end = "error" },
			Finally:   func(rx.SignalType) { ends++ },
		})
	case fnf:
		w.inst.FireAndForget(ctx0, p)
	default:
		f := w.inst.RequestStream(ctx0, p)
		if kind == rc {
			f = w.inst.RequestChannel(ctx0, p, flux.FromSlice[payload.Payload](nil))
		}
		f.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:     func(payload.Payload) { got++ },
			OnComplete: func() { end = "ok" },
			OnError:    func(err error) { end = "error" },
			Finally:    func(rx.SignalType) { ends++ },
		})
	}
	vrt.Quiesce()
	for i, r := range others {
		r.is("alongside", fmt.Sprintf("ok o%d! mo%d", i, i))
	}
	if kind != fnf {
		want := "error"
		if kind == rr && before {
			want = "ok"
		}
		if ends != 1 || end != want {
			vrt.Fail("no-error", "the guest failed on a frame, whose call ends with %q (%d ends)", end, ends)
		}
		if before && kind != rr && got != 1 {
			vrt.Fail("lost", "what the guest sent before it failed is lost")
		}
	}
	w.works()
}

// placed: the buffers are elsewhere
func placed(send, recv uint32, ok bool) {
	l := standard()
	l.send, l.recv = send, recv
	w := start(l)
	if ok {
		w.works()
		return
	}
	r := w.ask(opEcho, "x")
	ends, end := 0, ""
	w.inst.RequestStream(ctx0, payload.New(nil, meta(1, 0, ""))).Subscribe(flux.Subscribe[payload.Payload]{
		OnError: func(err error) { end = "error" },
		Finally: func(rx.SignalType) { ends++ },
	})
	vrt.Quiesce()
	r.failed("the guest has no room")
	if ends != 1 || end != "error" {
		vrt.Fail("no-error", "the guest has no room, and a stream ends with %q (%d ends)", end, ends)
	}
	if w.g.entries > 0 {
		vrt.Fail("out-of-buffer", "the guest was called")
	}
	w.finish()
}

func moreScenarios(s *hx.Suite) {
	one := vrt.Config{Delay: true, Bound: 0}
	sched := func(e *hx.E, cfg vrt.Config, desc string, f func()) {
		e.Case(func() string { return desc }, func() { e.Sched(cfg, f) })
	}
	s.Enum("bytes that are no frames", 8, func(e *hx.E) {
		try := func(b []byte) {
			for _, answered := range []bool{false, true} {
				b, answered := b, answered
				sched(e, one, fmt.Sprintf("the guest sends %x, answered %v", b, answered), func() { garbage(b, answered) })
			}
		}
		// any short bytes
		for n := 0; n <= 2; n++ {
			for _, c := range []byte{0, 1, 2, 6, 0xff} {
				try(append(make([]byte, n), c))
			}
		}
		// any lengths
		for _, n := range []uint32{0, 1, 2, 5, 6, 7, 9, 10, 11, 255, 256, 1 << 16, 1<<24 - 1} {
			for _, have := range []int{0, 1, 5, 6, 10, 12} {
				try(cat([]byte{byte(n >> 16), byte(n >> 8), byte(n)}, make([]byte, have)))
			}
		}
		// all types with all cuts
		ids := []uint32{0, 1, 2, 3, 4, 1 << 30, 1<<32 - 1}
		for typ := 0; typ < 64; typ++ {
			for _, id := range ids {
				for _, flags := range []int{0, 0x100, 0x80, 0x20, 0x60, 0x3ff} {
					b := []byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id), byte(typ<<2 | flags>>8), byte(flags)}
					try2 := func(body []byte) {
						short := typ == 11 && len(body) < 4 ||
							typ == 10 && flags&0x100 != 0 && (len(body) < 3 || int(body[0])<<16|int(body[1])<<8|int(body[2]) > len(body)-3)
						if id == 2 && !short && (typ >= 10 || typ == 0 || typ >= 4 && typ <= 7) {
							return // answers the call, or takes its id
						}
						try(frame(cat(b, body)))
					}
					try2(nil)
					if typ >= 4 && typ <= 11 {
						for _, k := range []int{1, 3, 4, 7, 8} {
							try2(make([]byte, k))
						}
						try2([]byte{0, 0, 0, 200, 0, 0, 200, 1})
						try2([]byte{0, 0, 3, 1, 2, 3, 4, 5})
					}
				}
			}
		}
	})
	s.Enum("sizes", 8, func(e *hx.E) {
		for over := -3; over <= 4; over++ {
			for _, k := range []frames.FrameType{rr, fnf, rs, rc} {
				for _, split := range []bool{false, true} {
					over, k, split := over, k, split
					sched(e, vrt.Config{Delay: true, Bound: 1}, fmt.Sprint("call of the host, ", k, " ", split, " ", over, " more than fits"), func() { bigCall(k, split, over) })
				}
				for _, how := range []string{"first", "second", "error"} {
					over, k, how := over, k, how
					if k == fnf || k == rr && how == "second" {
						continue
					}
					sched(e, vrt.Config{Delay: true, Bound: 1}, fmt.Sprint("answer of the host, ", k, " ", how, " ", over, " more than fits"), func() { bigAnswer(k, how, over) })
				}
			}
		}
	})
	s.Enum("many frames", 4, func(e *hx.E) {
		for _, n := range []int{0, 1, 99, 100, 101, 102, 250} {
			for _, g := range []bool{false, true} {
				for _, how := range []string{"items", "unknown", "requests", "answered"} {
					n, g, how := n, g, how
					sched(e, one, fmt.Sprint(n, " frames, ", how, ", grouped ", g), func() { many(n, g, how) })
				}
			}
		}
	})
	s.Enum("order", 8, func(e *hx.E) {
		for _, c := range [][2]int{{1, 2}, {2, 2}, {3, 2}, {1, 3}, {2, 3}} {
			c := c
			sched(e, vrt.Config{Delay: true, Bound: hx.Pick(s, 2, 3)}, fmt.Sprint(c[1], " threads with ", c[0], " frames"), func() { inOrder(c[0], c[1]) })
		}
	})
	s.Enum("the guest fails", 8, func(e *hx.E) {
		for _, k := range []frames.FrameType{rr, fnf, rs, rc} {
			for _, before := range []bool{false, true} {
				for n := 0; n < 3; n++ {
					k, before := k, before
					if k == fnf && before {
						continue
					}
					also := make([]call, n)
					for i := range also {
						also[i] = call{op: opEcho}
					}
					sched(e, vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 2)}, fmt.Sprint(k, ", sends before ", before, ", with ", n, " others"), func() { traps(k, before, also) })
				}
			}
		}
	})
	s.Enum("places", 1, func(e *hx.E) {
		for _, p := range []struct {
			send, recv uint32
			ok         bool
		}{{1024, 32768, true}, {2*65536 - bufSize, 32768, true}, {1024, 2*65536 - bufSize, true}, {32768, 65536 - bufSize/2, true}, {2048, 2048 + bufSize + guard, true},
			{2*65536 - bufSize + 1, 32768, false}, {2 * 65536, 32768, false}, {1<<32 - bufSize, 32768, false}, {1<<32 - 1, 32768, false}} {
			p := p
			sched(e, vrt.Config{Delay: true, Bound: 1}, fmt.Sprint(p), func() { placed(p.send, p.recv, p.ok) })
		}
	})
	s.Enum("starting", 1, func(e *hx.E) {
		tables := []operations.Table{nil, {}, table}
		for _, t := range []operations.RequestType{1, 2, 3, 4} {
			for _, d := range []operations.Direction{1, 2} {
				tables = append(tables, operations.Table{{Index: 7, Type: t, Direction: d, Namespace: "", Operation: "x"}, {Index: 1 << 30, Type: t, Direction: 3 - d, Namespace: strings.Repeat("n", 300), Operation: "π"}})
			}
		}
		for _, t := range tables {
			for _, without := range []string{"", "__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send"} {
				for _, trapIn := range []string{"", "__wasmrs_init", "__wasmrs_op_list_request"} {
					t, without, trapIn := t, without, trapIn
					sched(e, one, fmt.Sprintf("table of %d, without %q, trap in %q", len(t), without, trapIn), func() {
						l := standard()
						if t != nil {
							l.table = t.ToBytes()
						} else {
							l.table = nil
						}
						l.without, l.trapIn = without, trapIn
						theHost, modules = nil, map[string]*host.Module{}
						inst, g, err := boot(l)
						if without != "" || trapIn != "" {
							if err == nil {
								vrt.Fail("no-error", "the instance is made although the guest is not complete")
							}
							if b := vrt.Blocked(); len(b) > 0 {
								vrt.Fail("left-threads", "threads stay behind: %q", b)
							}
							return
						}
						if err != nil {
							vrt.Fail("boot", "cannot start the guest: %v", err)
						}
						got := inst.Operations()
						if len(got) != len(t) || len(t) > 0 && !reflect.DeepEqual(got, t) {
							vrt.Fail("operations", "the operations are %v instead of %v", got, t)
						}
						if len(g.initial) != 3 || g.initial[0] != bufSize || g.initial[1] != bufSize {
							vrt.Fail("init", "the guest was told the sizes %v", g.initial)
						}
						w := newWorld(inst, g)
						w.works()
					})
				}
			}
		}
	})
}
