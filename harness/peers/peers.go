// Package peers connects two real handlers through in-memory connections that deliver frames in order,
// each after a trip through its wire encoding.
package peers

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

const Ops = 8

// W is the behaviour of the operations in the current run; Me tells which peer runs it.
var W struct {
	RR  [Ops]func(me *Peer, p payload.Payload) mono.Mono[payload.Payload]
	FNF [Ops]func(me *Peer, p payload.Payload)
	RS  [Ops]func(me *Peer, p payload.Payload) flux.Flux[payload.Payload]
	RC  [Ops]func(me *Peer, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload]
}

type peerKey struct{}

func me(ctx context.Context) *Peer {
	if ctx == nil {
		return nil
	}
	p, _ := ctx.Value(peerKey{}).(*Peer)
	return p
}

func init() {
	for i := 0; i < Ops; i++ {
		i := i
		name := fmt.Sprint("op", i)
		invoke.ExportRequestResponse("t", name, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			return W.RR[i](me(ctx), p)
		})
		invoke.ExportFireAndForget("t", name, func(ctx context.Context, p payload.Payload) { W.FNF[i](me(ctx), p) })
		invoke.ExportRequestStream("t", name, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			return W.RS[i](me(ctx), p)
		})
		invoke.ExportRequestChannel("t", name, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			return W.RC[i](me(ctx), p, in)
		})
	}
}

// Peer is one side.
type Peer struct {
	Name  string
	H     *handler.Handler
	Other *Peer
	queue []frames.Frame // what it has still to handle
	Sent  []string
	Errs  []error                    // of HandleFrame
	Drop  func(f frames.Frame) error // if it returns an error the frame cannot be sent
	cut   bool
}

// Cut ends the connection: nothing can be sent anymore, and what is on its way arrives or is lost.
func Cut(a, b *Peer, arrives bool) {
	for _, p := range []*Peer{a, b} {
		if !arrives {
			p.queue = nil
		}
		p.cut = true
	}
}

// New connects a client A and a server B.
func New() (a, b *Peer) {
	W.RR = [Ops]func(*Peer, payload.Payload) mono.Mono[payload.Payload]{}
	W.FNF = [Ops]func(*Peer, payload.Payload){}
	W.RS = [Ops]func(*Peer, payload.Payload) flux.Flux[payload.Payload]{}
	W.RC = [Ops]func(*Peer, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload]{}
	a, b = One("A", handler.ClientMode), One("B", handler.ServerMode)
	a.Other, b.Other = b, a
	for _, p := range []*Peer{a, b} {
		p := p
		p.H.SetFrameSender(func(f frames.Frame) error {
			if p.cut {
				return errors.New("cut")
			}
			if p.Drop != nil {
				if err := p.Drop(f); err != nil {
					return err
				}
			}
			p.Sent = append(p.Sent, Show(f))
			p.Other.queue = append(p.Other.queue, Recode(f))
			return nil
		})
		vrt.GoNamed("to "+p.Name, p.pump)
	}
	return
}

// One is a single handler, not connected.
func One(name string, mode handler.Mode) *Peer {
	p := &Peer{Name: name}
	p.H = handler.New(context.WithValue(context.Background(), peerKey{}, p), mode)
	return p
}

func (p *Peer) pump() {
	vrt.Daemon()
	for {
		vrt.Block("receive", func() bool { return len(p.queue) > 0 || p.cut })
		if len(p.queue) == 0 {
			if err := p.H.Close(); err != nil {
				p.Errs = append(p.Errs, err)
			}
			return
		}
		f := p.queue[0]
		p.queue = p.queue[1:]
		vrt.P("handle " + Show(f))
		if err := p.H.HandleFrame(f); err != nil {
			p.Errs = append(p.Errs, err)
		}
	}
}

// Recode encodes and decodes a frame.
func Recode(f frames.Frame) frames.Frame {
	buf := make([]byte, f.Size())
	f.Encode(buf)
	h := frames.ParseFrameHeader(buf)
	var g frames.Frame
	switch h.Type() {
	case frames.FrameTypeSetup:
		g = &frames.Setup{}
	case frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel:
		g = &frames.RequestPayload{}
	case frames.FrameTypeRequestN:
		g = &frames.RequestN{}
	case frames.FrameTypeCancel:
		g = &frames.Cancel{}
	case frames.FrameTypePayload:
		g = &frames.Payload{}
	case frames.FrameTypeError:
		g = &frames.Error{}
	default:
		panic(fmt.Sprint("frame of unknown type ", h.Type()))
	}
	if err := g.Decode(&h, buf[frames.FrameHeaderLen:]); err != nil {
		vrt.Fail("undecodable", "a frame was sent that cannot be decoded: %v: %v", Show(f), err)
	}
	return g
}

func Show(f frames.Frame) string {
	switch v := f.(type) {
	case *frames.RequestPayload:
		return fmt.Sprintf("request(%d) %d %q n=%d", v.FrameType, v.StreamID, v.Data, v.InitialN)
	case *frames.RequestN:
		return fmt.Sprintf("request-n %d %d", v.StreamID, v.N)
	case *frames.Cancel:
		return fmt.Sprintf("cancel %d", v.StreamID)
	case *frames.Payload:
		return fmt.Sprintf("payload %d %q next=%v complete=%v", v.StreamID, v.Data, v.Next, v.Complete)
	case *frames.Error:
		return fmt.Sprintf("error %d %q", v.StreamID, v.Data)
	}
	return fmt.Sprintf("%T", f)
}

// Meta is the metadata of a call of an operation.
func Meta(op int, extra string) []byte {
	m := make([]byte, 8, 8+len(extra))
	binary.BigEndian.PutUint32(m, uint32(op))
	return append(m, extra...)
}

// MetaOK tells whether a handler got the metadata, with or without the prefix that addresses it.
func MetaOK(got []byte, op int, extra string) bool {
	return string(got) == extra || string(got) == string(Meta(op, extra))
}

// Open is the number of streams that a peer has open.
func (p *Peer) Open() int { return OpenIn(p.H) }

// OpenIn adds up the sizes of all tables in a structure.
func OpenIn(x any) int {
	n := 0
	v := reflect.ValueOf(x).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Struct {
			if s, ok := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Interface().(interface{ Size() int }); ok {
				n += s.Size()
			}
		}
	}
	return n
}
