// A peer that speaks in frames: it handles each frame when it arrives and puts the frames it sends in a queue.
package main

import (
	"encoding/binary"
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/payload"
)

// operations that a raw peer serves
const (
	opKick = iota // FNF: go on with what is held back
	opEcho
	opFail
	opLater // answers when kicked
	opBack  // calls opEcho of the other side and answers with its answer
	opTrap
	opPlain // answers with nothing
)

const opNone = 1000 // not linked

const invalidMeta = -1

// rawStream is a stream or channel that a raw peer serves.
type rawStream struct {
	id     uint32
	how    string // stream, echo, own, ignore
	src    *source
	c      *receiver
	inDone bool // what the requester sends has ended
	next   int  // demand
	done   bool
}

// ownCall is a call that a raw peer makes.
type ownCall struct {
	id     uint32
	kind   frames.FrameType
	op     int
	data   string
	parent uint32
	in     *source
	recv   *receiver
	next   int // demand
	answer string
	ends   int
	then   func(*ownCall)
	sent   bool
}

type raw struct {
	name    string
	next    uint32
	out     []frames.Frame
	in      []string
	streams map[uint32]*rawStream
	calls   map[uint32]*ownCall
	order   []*ownCall
	held    []func()
	served  map[string]int // requests that have arrived
	spec    map[int]func(id uint32) *rawStream
	trap    func()
	kicked  func()
	lax     bool // frames for unknown streams may arrive
	errors  map[uint32]int
}

func newRaw(name string, next uint32) *raw {
	return &raw{name: name, next: next, streams: map[uint32]*rawStream{}, calls: map[uint32]*ownCall{},
		errors: map[uint32]int{}, served: map[string]int{}, spec: map[int]func(uint32) *rawStream{}}
}

// extra is the metadata of a call beside the operation.
func extra(data string) string {
	if data == "" {
		return ""
	}
	return "m" + data
}

func meta(op int, parent uint32, extra string) []byte {
	m := make([]byte, 8, 8+len(extra))
	binary.BigEndian.PutUint32(m, uint32(op))
	binary.BigEndian.PutUint32(m[4:], parent)
	return append(m, extra...)
}

func (r *raw) send(f frames.Frame) { r.out = append(r.out, f) }

func (r *raw) fail(id uint32, msg string) {
	r.send(&frames.Error{StreamID: id, Code: frames.ErrCodeApplicationError, Data: msg})
}

func (r *raw) answer(id uint32, data string, md []byte) {
	r.send(&frames.Payload{StreamID: id, Data: []byte(data), Metadata: md, Next: true, Complete: true})
}

// call sends a request.
func (r *raw) call(c *ownCall) {
	c.id = r.next
	r.next += 2
	r.calls[c.id] = c
	r.order = append(r.order, c)
	md := meta(c.op, c.parent, extra(c.data))
	if c.op == invalidMeta {
		md = md[:7]
	}
	f := &frames.RequestPayload{FrameType: c.kind, StreamID: c.id, Data: []byte(c.data), Metadata: md, InitialN: 1, Complete: true}
	if c.recv != nil {
		f.Complete = false
		if c.recv.cancelAt == 0 {
			f.InitialN = 1
		} else {
			f.InitialN = uint32(c.recv.demands[0])
			c.next = 1
		}
		c.recv.requested = int(f.InitialN)
	}
	r.send(f)
	if c.recv != nil && c.recv.cancelAt == 0 {
		r.cancel(c)
	}
	if c.recv != nil && c.recv.canceler {
		r.held = append(r.held, func() { r.cancel(c) })
	}
	if c.in != nil {
		c.in.subs = 1
	}
}

// cancel cancels a stream or channel that it has opened.
func (r *raw) cancel(c *ownCall) {
	if c.recv.ends > 0 {
		return
	}
	c.recv.canceled = true
	c.recv.end = "cancel"
	c.recv.ends = 1
	r.send(&frames.Cancel{StreamID: c.id})
	if c.in != nil {
		c.in.canceled++
	}
}

func (r *raw) request(src *source, n int) {
	if src.allowed != nil && src.requested+n > *src.allowed {
		vrt.Fail("demand-invented", "%s: %s was asked for %d more after %d, although only %d were requested", r.name, src.name, n, src.requested, *src.allowed)
	}
	src.requested += n
}

func (r *raw) pump(id uint32, src *source) {
	emit := func() {
		for src.emitted < src.n && src.emitted < src.requested && src.canceled == 0 {
			src.emitted++
			p := data(src.name, src.emitted)
			r.send(&frames.Payload{StreamID: id, Data: p.Data(), Metadata: p.Metadata(), Next: true})
		}
		if src.emitted == src.n && !src.ended && src.canceled == 0 {
			src.ended = true
			if src.fail {
				r.fail(id, boom(src.name))
			} else {
				r.send(&frames.Payload{StreamID: id, Complete: true})
			}
		}
	}
	if src.async {
		r.held = append(r.held, emit)
	} else {
		emit()
	}
}

func (r *raw) kick() {
	if r.kicked != nil {
		k := r.kicked
		r.kicked = nil
		k()
		return
	}
	h := r.held
	r.held = nil
	for _, f := range h {
		f()
	}
}

// demand asks for more of what a requester sends.
func (r *raw) demand(s *rawStream) {
	if s.c.cancelAt == s.c.got {
		if s.c.ends == 0 {
			s.c.canceled = true
			s.c.end = "cancel"
			s.c.ends = 1
			r.send(&frames.Cancel{StreamID: s.id})
		}
		return
	}
	if s.c.got == s.c.requested && s.next < len(s.c.demands) {
		n := s.c.demands[s.next]
		s.next++
		s.c.requested += n
		r.send(&frames.RequestN{StreamID: s.id, N: uint32(n)})
	}
}

// on handles a frame.
func (r *raw) on(f frames.Frame) {
	r.in = append(r.in, frref.Show(f))
	id := f.GetStreamID()
	if _, ok := f.(*frames.Error); ok {
		r.errors[id]++
	}
	if c, ok := r.calls[id]; ok {
		r.onOwn(c, f)
		return
	}
	if q, ok := f.(*frames.RequestPayload); ok {
		if (id^r.next)&1 == 0 {
			vrt.Fail("stream-id", "%s got a request with id %d, which is not the other side's", r.name, id)
		}
		r.onRequest(q)
		return
	}
	s, ok := r.streams[id]
	if !ok {
		if _, ok := f.(*frames.Cancel); !ok && !r.lax {
			vrt.Fail("unknown-stream", "%s got %s, for an unknown stream", r.name, frref.Show(f))
		}
		return
	}
	switch f := f.(type) {
	case *frames.RequestN:
		r.request(s.src, int(f.N))
		if s.how == "echo" {
			r.send(&frames.RequestN{StreamID: id, N: f.N})
			return
		}
		r.pump(id, s.src)
	case *frames.Cancel:
		s.src.canceled++
		if s.c != nil && s.c.ends == 0 {
			s.c.ends = 1
			s.c.end = "complete"
		}
		if s.how == "echo" {
			r.send(&frames.Cancel{StreamID: id})
		}
	case *frames.Payload:
		if s.how == "stream" {
			vrt.Fail("unexpected", "%s got %s for a stream", r.name, frref.Show(f))
		}
		if s.inDone {
			vrt.Fail("after-end", "%s got %s after the end", r.name, frref.Show(f))
		}
		if f.Next {
			switch s.how {
			case "echo":
				s.src.emitted++
				if s.src.emitted > s.src.requested {
					vrt.Fail("overdrawn", "%s got %d items but requested %d", r.name, s.src.emitted, s.src.requested)
				}
				if s.src.canceled == 0 {
					r.send(&frames.Payload{StreamID: id, Data: []byte(string(f.Data) + "!"), Metadata: f.Metadata, Next: true})
				}
			case "own":
				if !s.c.canceled {
					s.c.item(payload.New(f.Data, f.Metadata))
					r.demand(s)
				}
			default:
				vrt.Fail("overdrawn", "%s got an item it has not requested", r.name)
			}
		}
		if f.Complete {
			r.inEnd(s, "complete", func() { r.send(&frames.Payload{StreamID: id, Complete: true}) })
		}
	case *frames.Error:
		r.inEnd(s, "error "+f.Data, func() { r.fail(id, f.Data) })
	default:
		vrt.Fail("unexpected", "%s got %s", r.name, frref.Show(f))
	}
}

func (r *raw) inEnd(s *rawStream, end string, echo func()) {
	if s.inDone {
		vrt.Fail("ended-twice", "%s: the input of the channel ended twice", r.name)
	}
	s.inDone = true
	switch s.how {
	case "echo":
		s.src.ended = true
		if s.src.canceled == 0 {
			echo()
		}
	case "own":
		if !s.c.canceled && s.c.ends == 0 {
			s.c.end = end
			s.c.ends++
		}
	}
}

func (r *raw) onRequest(q *frames.RequestPayload) {
	id := q.StreamID
	if _, ok := r.streams[id]; ok {
		vrt.Fail("stream-id-reused", "%s got two requests with id %d", r.name, id)
	}
	if len(q.Metadata) < 8 {
		vrt.Fail("metadata", "%s got metadata %q", r.name, q.Metadata)
	}
	op := int(binary.BigEndian.Uint32(q.Metadata))
	md := q.Metadata[8:]
	if op != opKick && op != opTrap && string(md) != extra(string(q.Data)) {
		vrt.Fail("metadata", "%s got data %q with metadata %q", r.name, q.Data, md)
	}
	r.served[fmt.Sprint(q.FrameType, op, string(q.Data))]++
	if op == opTrap {
		r.trap()
		return
	}
	switch q.FrameType {
	case frames.FrameTypeRequestFNF:
		if op == opKick {
			r.kick()
		}
	case frames.FrameTypeRequestResponse:
		d := string(q.Data)
		r.streams[id] = &rawStream{id: id, how: "call", src: &source{}}
		switch op {
		case opEcho:
			r.answer(id, d+"!", md)
		case opPlain:
			r.answer(id, "", nil)
		case opFail:
			r.fail(id, no(d))
		case opLater:
			r.held = append(r.held, func() { r.answer(id, d+" late", md) })
		case opBack:
			r.call(&ownCall{kind: frames.FrameTypeRequestResponse, op: opEcho, data: d + "b", parent: id, then: func(c *ownCall) {
				r.answer(id, c.answer, md)
			}})
		default:
			r.fail(id, "not_found")
		}
	default:
		mk := r.spec[op]
		if mk == nil {
			r.fail(id, "not_found")
			return
		}
		s := mk(id)
		s.id = id
		r.streams[id] = s
		s.src.subs++
		n := int(q.InitialN)
		r.request(s.src, n)
		switch s.how {
		case "echo":
			r.send(&frames.RequestN{StreamID: id, N: uint32(n)})
			return
		case "own":
			r.demand(s)
		}
		r.pump(id, s.src)
	}
}

// onOwn handles a frame for a call it has made.
func (r *raw) onOwn(c *ownCall, f frames.Frame) {
	end := func(a string) {
		c.ends++
		c.answer = a
		if c.ends > 1 {
			vrt.Fail("answered-twice", "%s: its call %q was answered twice, last with %q", r.name, c.data, a)
		}
		if c.then != nil {
			c.then(c)
		}
	}
	switch f := f.(type) {
	case *frames.Payload:
		if c.kind == frames.FrameTypeRequestFNF {
			vrt.Fail("unexpected", "%s got %s for a fire-and-forget", r.name, frref.Show(f))
		}
		if c.kind == frames.FrameTypeRequestResponse {
			if !f.Next {
				vrt.Fail("no-value", "%s got %s as the answer", r.name, frref.Show(f))
			}
			end("ok " + string(f.Data) + " " + string(f.Metadata))
			return
		}
		if c.recv.canceled {
			return
		}
		if f.Next {
			c.recv.item(payload.New(f.Data, f.Metadata))
			if c.recv.got == c.recv.cancelAt {
				r.cancel(c)
				return
			}
			if c.recv.got == c.recv.requested && c.next < len(c.recv.demands) && !f.Complete {
				n := c.recv.demands[c.next]
				c.next++
				c.recv.requested += n
				r.send(&frames.RequestN{StreamID: c.id, N: uint32(n)})
			}
		}
		if f.Complete {
			c.recv.end = "complete"
			c.recv.ends++
			end("complete")
		}
	case *frames.Error:
		if c.recv != nil {
			if c.recv.canceled {
				return
			}
			c.recv.end = "error " + f.Data
			c.recv.ends++
		}
		end("error " + f.Data)
	case *frames.RequestN:
		if c.in == nil {
			vrt.Fail("unexpected", "%s got %s", r.name, frref.Show(f))
		}
		if c.in.canceled == 0 {
			r.request(c.in, int(f.N))
			r.pump(c.id, c.in)
		}
	case *frames.Cancel:
		if c.in == nil {
			vrt.Fail("unexpected", "%s got %s", r.name, frref.Show(f))
		}
		c.in.canceled++
	default:
		vrt.Fail("unexpected", "%s got %s", r.name, frref.Show(f))
	}
}

// no is the message of an answer that is an error.
func no(d string) string {
	if message != nil {
		return *message
	}
	return "no " + d
}
