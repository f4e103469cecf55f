// Calls between the code under test and a scripted peer, and their judgement.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

const (
	rr  = frames.FrameTypeRequestResponse
	fnf = frames.FrameTypeRequestFNF
	rs  = frames.FrameTypeRequestStream
	rc  = frames.FrameTypeRequestChannel
)

type ctxKey struct{}

// call is a call of one side by the other.
type call struct {
	kind  frames.FrameType
	op    int
	how   string // a channel's handler
	in    source
	inner receiver
	out   source
	r     receiver
	par   bool // a peer's call belongs to the call that made it

	data    string
	runs    int
	begun   bool // the handler, before the instance was closed
	answer  string
	ends    int
	own     *ownCall
	stream  *rawStream
	handled bool
}

func (c call) String() string {
	switch c.kind {
	case rs:
		if c.op == opNone || c.op == invalidMeta {
			return fmt.Sprint("stream of op ", c.op)
		}
		return fmt.Sprint("stream of ", c.out, " to ", c.r)
	case rc:
		if c.op == opNone || c.op == invalidMeta {
			return fmt.Sprint("channel of op ", c.op)
		}
		return fmt.Sprint("channel ", c.how, " in ", c.in, " consumed ", c.inner, " out ", c.out, " to ", c.r)
	}
	p := ""
	if c.par {
		p = " of a call"
	}
	return fmt.Sprint(c.kind, " of op ", c.op, p)
}

// end is what is under test, which calls the peer and is called by it.
type end interface {
	RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload]
	FireAndForget(ctx context.Context, p payload.Payload)
	RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload]
	RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload]
}

type linker interface {
	SetRequestResponseHandler(uint32, invoke.RequestResponseHandler)
	SetFireAndForgetHandler(uint32, invoke.FireAndForgetHandler)
	SetRequestStreamHandler(uint32, invoke.RequestStreamHandler)
	SetRequestChannelHandler(uint32, invoke.RequestChannelHandler)
}

// pairing is the end under test with its peer.
type pairing struct {
	real     end
	link     linker
	peer     *raw
	contexts bool // handlers get the context of the call that theirs belongs to
	closed   bool // Close has been called
}

// handlers of the end under test
func (w *pairing) handlers(cs []*call) {
	byData := map[string]*call{}
	for _, c := range cs {
		byData[c.data] = c
	}
	check := func(ctx context.Context, op int, p payload.Payload) *call {
		d := string(p.Data())
		c := byData[d]
		var parent uint32
		if c == nil && strings.HasSuffix(d, "b") { // opBack of the peer
			c = &call{kind: rr, op: op, data: d, par: true}
			if v, _ := ctx.Value(ctxKey{}).(string); v != strings.TrimSuffix(d, "b") && w.contexts && !w.closed {
				vrt.Fail("context", "the handler of %q does not get the context of the call it belongs to", d)
			}
		} else if c == nil {
			vrt.Fail("wrong-data", "a handler got the data %q", d)
		} else {
			parent = c.own.parent
			if parent != 0 {
				if v, _ := ctx.Value(ctxKey{}).(string); v != "parent" && w.contexts && !w.closed {
					vrt.Fail("context", "the handler of %q does not get the context of the call it belongs to", d)
				}
			} else if v := ctx.Value(ctxKey{}); v != nil {
				vrt.Fail("context", "the handler of %q gets the context of the call %v", d, v)
			}
		}
		if m, x := string(p.Metadata()), extra(d); !strings.HasSuffix(m, x) || len(m) != len(x) && len(m) != 8+len(x) {
			vrt.Fail("wrong-metadata", "the handler of %q got the metadata %q", d, m)
		}
		if c.op != op {
			vrt.Fail("wrong-operation", "%q was handled by operation %d instead of %d", d, op, c.op)
		}
		c.runs++
		c.begun = !w.closed
		if c.runs > 1 {
			vrt.Fail("ran-twice", "the handler of %q ran twice", d)
		}
		return c
	}
	ans := func(p payload.Payload, s string) payload.Payload {
		return payload.New([]byte(s), []byte(extra(string(p.Data()))))
	}
	w.link.SetRequestResponseHandler(opEcho, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		c := check(ctx, opEcho, p)
		return mono.Just(ans(p, c.data+"!"))
	})
	w.link.SetRequestResponseHandler(opFail, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		c := check(ctx, opFail, p)
		return mono.Error[payload.Payload](errors.New(no(c.data)))
	})
	w.link.SetRequestResponseHandler(opLater, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		c := check(ctx, opLater, p)
		return mono.Create(func(sink mono.Sink[payload.Payload]) {
			later("later "+c.data, func() bool {
				vrt.P("later")
				c.handled = true
				sink.Success(ans(p, c.data+" late"))
				return true
			})
		})
	})
	w.link.SetRequestResponseHandler(opBack, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		c := check(ctx, opBack, p)
		return mono.Create(func(sink mono.Sink[payload.Payload]) {
			d := c.data + "b"
			w.real.RequestResponse(ctx, payload.New([]byte(d), meta(opEcho, 0, extra(d)))).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(q payload.Payload) {
					sink.Success(ans(p, string(q.Data())+" "+string(q.Metadata())))
				},
				OnError: sink.Error,
			})
		})
	})
	w.link.SetRequestResponseHandler(opPlain, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		check(ctx, opPlain, p)
		return mono.Just[payload.Payload](payload.New(nil))
	})
	w.link.SetFireAndForgetHandler(opEcho, func(ctx context.Context, p payload.Payload) { check(ctx, opEcho, p) })
	for _, c := range cs {
		c := c
		if c.op < 10 || c.op == opNone {
			continue
		}
		switch c.kind {
		case rs:
			w.link.SetRequestStreamHandler(uint32(c.op), func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
				check(ctx, c.op, p)
				return c.out.flux()
			})
		case rc:
			w.link.SetRequestChannelHandler(uint32(c.op), func(ctx context.Context, p payload.Payload, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				check(ctx, c.op, p)
				switch c.how {
				case "echo":
					return flux.Map(f, func(p payload.Payload) (payload.Payload, error) {
						return payload.New([]byte(string(p.Data())+"!"), p.Metadata()), nil
					})
				case "own":
					c.inner.subscribe(f)
				}
				return c.out.flux()
			})
		}
	}
}

// call makes a call to the peer.
func (w *pairing) call(c *call) {
	ctx := context.WithValue(ctx0, ctxKey{}, c.data)
	p := payload.New([]byte(c.data), meta(c.op, 0, extra(c.data)))
	switch c.kind {
	case rr:
		w.real.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { c.answer = "ok " + string(p.Data()) + " " + string(p.Metadata()) },
			OnError:   func(err error) { c.answer = "error " + err.Error() },
			Finally: func(rx.SignalType) {
				c.ends++
				if c.ends > 1 {
					vrt.Fail("answered-twice", "the call %q was answered twice, last with %q", c.data, c.answer)
				}
			},
		})
	case fnf:
		w.real.FireAndForget(ctx, p)
	case rs:
		c.r.subscribe(w.real.RequestStream(ctx, p))
	case rc:
		c.r.subscribe(w.real.RequestChannel(ctx, p, c.in.flux()))
	}
}

// answerOf is the answer of a request.
func answerOf(op int, d string) string {
	switch op {
	case opEcho:
		return "ok " + d + "! " + extra(d)
	case opFail:
		return "error " + no(d)
	case opLater:
		return "ok " + d + " late " + extra(d)
	case opPlain:
		return "ok  "
	case opNone:
		return "error not_found"
	case invalidMeta:
		return "error Invalid metadata"
	}
	panic(op)
}

func (w *pairing) judgeReal(c *call) {
	n := w.peer.served[fmt.Sprint(c.kind, c.op, c.data)]
	switch c.kind {
	case rr:
		want := ""
		if c.op == opBack {
			want = "ok ok " + c.data + "b! m" + c.data + "b " + extra(c.data)
		} else {
			want = answerOf(c.op, c.data)
		}
		if n != 1 || c.ends != 1 || c.answer != want {
			vrt.Fail("answer", "the call %q of %d: the peer got it %d times, and the answer is %q instead of %q (%d ends)", c.data, c.op, n, c.answer, want, c.ends)
		}
	case fnf:
		if n != 1 {
			vrt.Fail("answer", "the peer got the call %q %d times", c.data, n)
		}
	default:
		if n > 1 || n == 0 && !c.r.canceled && c.r.requested > 0 {
			vrt.Fail("runs", "the peer got the call %q %d times", c.data, n)
		}
		w.judgeStream(c, n)
	}
}

// judgeStream judges a stream or channel of either side.
func (w *pairing) judgeStream(c *call, runs int) {
	if c.op == opNone || c.op == invalidMeta {
		if !c.r.canceled && (c.r.end != answerOf(c.op, "") || c.r.got > 0) {
			vrt.Fail("answer", "%q of operation %d ended with %q", c.data, c.op, c.r.end)
		}
		if c.kind == rc && c.in.canceled == 0 {
			vrt.Fail("source-not-canceled", "what the requester sends goes on although the channel %q was refused", c.data)
		}
		return
	}
	for _, s := range []*source{&c.in, &c.out} {
		if s.slice {
			s.ended = true
		}
	}
	if c.how == "echo" {
		c.r.judge(&c.in, nil)
		return
	}
	c.r.judge(&c.out, nil)
	if c.how == "own" && !c.r.canceled && runs > 0 {
		c.inner.judge(&c.in, nil)
	}
	if c.how == "ignore" && c.in.requested > 0 {
		vrt.Fail("demand-invented", "items of the requester were requested although the handler ignores them")
	}
}

func (w *pairing) judgePeer(c *call) {
	linked := c.op != opNone && c.op != invalidMeta
	runs := 0
	if linked {
		runs = 1
	}
	if c.runs != runs && !(c.r.canceled && c.runs == 0) {
		vrt.Fail("runs", "the handler of the peer's call %q of %d ran %d times", c.data, c.op, c.runs)
	}
	switch c.kind {
	case rr:
		x := ""
		if c.op == opBack {
			x = "ok " + c.data + "b! m" + c.data + "b " + extra(c.data)
		} else {
			x = answerOf(c.op, c.data)
		}
		if c.own.ends != 1 || c.own.answer != x {
			vrt.Fail("answer", "the peer's call %q of %d got the answer %q instead of %q (%d ends)", c.data, c.op, c.own.answer, x, c.own.ends)
		}
	case fnf:
		if linked && c.own.ends > 0 {
			vrt.Fail("answer", "a fire-and-forget of the peer got an answer: %q", c.own.answer)
		}
	default:
		w.judgeStream(c, c.runs)
	}
}
