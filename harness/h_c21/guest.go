// The guest, driven by a scripted host: frames come in groups through the buffer.
package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
)

const (
	opDo   = 2 // FNF: does what is to be done
	numOps = 40
)

// handlers are the handlers of a run.
type handlers struct {
	rr  map[uint32]invoke.RequestResponseHandler
	fnf map[uint32]invoke.FireAndForgetHandler
	rs  map[uint32]invoke.RequestStreamHandler
	rc  map[uint32]invoke.RequestChannelHandler
}

func (h *handlers) SetRequestResponseHandler(i uint32, f invoke.RequestResponseHandler) { h.rr[i] = f }
func (h *handlers) SetFireAndForgetHandler(i uint32, f invoke.FireAndForgetHandler)     { h.fnf[i] = f }
func (h *handlers) SetRequestStreamHandler(i uint32, f invoke.RequestStreamHandler)     { h.rs[i] = f }
func (h *handlers) SetRequestChannelHandler(i uint32, f invoke.RequestChannelHandler)   { h.rc[i] = f }

// worker does something later: wait fails when it has to be waited for.
type worker struct {
	name  string
	f     func() bool
	ready func() bool
}

type world struct {
	pairing
	handlers
	guestBuf, hostBuf []byte
	workers           []*worker
	working           *worker
	todo              []func()
	inside            bool
	budget            int  // of deviations from the usual grouping
	single            bool // frames usually come one by one
	sends             int
	onSend            func(f frames.Frame) bool
}

var (
	cur  *world
	ctx0 = context.Background()
)

func init() {
	guest.ZZ_init_buffers = func(g, h uintptr) {
		cur.guestBuf = unsafe.Slice((*byte)(ptr(g)), len(cur.guestBuf))
		cur.hostBuf = unsafe.Slice((*byte)(ptr(h)), len(cur.hostBuf))
	}
	guest.ZZ_send = func(n uint32) { cur.sent(n) }
	for i := uint32(0); i < numOps; i++ {
		i := i
		name := fmt.Sprint("op", i)
		invoke.ExportRequestResponse("verif", name, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			return cur.rr[i](ctx, p)
		})
		invoke.ExportFireAndForget("verif", name, func(ctx context.Context, p payload.Payload) { cur.fnf[i](ctx, p) })
		invoke.ExportRequestStream("verif", name, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			return cur.rs[i](ctx, p)
		})
		invoke.ExportRequestChannel("verif", name, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			return cur.rc[i](ctx, p, in)
		})
	}
	later = func(name string, f func() bool) {
		cur.workers = append(cur.workers, &worker{name: name, f: f, ready: func() bool { return true }})
	}
	wait = func(what string, ready func() bool) bool {
		if ready() {
			return true
		}
		cur.working.ready = ready
		return false
	}
}

func ptr(p uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&p)) }

// boot starts a guest.
func boot(guestSize, hostSize int) *world {
	w := &world{handlers: handlers{map[uint32]invoke.RequestResponseHandler{}, map[uint32]invoke.FireAndForgetHandler{}, map[uint32]invoke.RequestStreamHandler{}, map[uint32]invoke.RequestChannelHandler{}}}
	*guest.HostInvoker = guest.Caller{}
	for _, t := range tables() {
		reflect.ValueOf(t).Elem().SetZero()
	}
	w.pairing = pairing{real: guest.HostInvoker, link: w, peer: newRaw("the host", 2)}
	w.guestBuf = make([]byte, guestSize)
	w.hostBuf = make([]byte, hostSize)
	cur = w
	if !guest.Init(uint32(guestSize), uint32(hostSize), 0) {
		vrt.Fail("boot", "the guest does not start")
	}
	w.fnf[opKick] = func(context.Context, payload.Payload) { w.work() }
	w.fnf[opDo] = func(context.Context, payload.Payload) {
		t := w.todo
		w.todo = nil
		for _, f := range t {
			f()
		}
	}
	return w
}

// work lets the guest do what it does later.
func (w *world) work() {
	ws := w.workers
	w.workers = nil
	for _, x := range ws {
		w.working = x
		if !x.ready() || !x.f() {
			w.workers = append(w.workers, x)
		}
	}
}

func (w *world) ready() bool {
	for _, x := range w.workers {
		if x.ready() {
			return true
		}
	}
	return false
}

// sent is called when the guest sends what is in its buffer.
func (w *world) sent(n uint32) {
	w.sends++
	if !w.inside {
		vrt.Fail("outside", "the guest sends without being called")
	}
	if n < 3 || int(n) > len(w.hostBuf) {
		vrt.Fail("out-of-buffer", "the guest sends %d bytes with a buffer of %d", n, len(w.hostBuf))
	}
	b := append([]byte{}, w.hostBuf[:n]...)
	for i := range w.hostBuf[:n] {
		w.hostBuf[i] = 0xee
	}
	for len(b) > 0 {
		if len(b) < 3 {
			vrt.Fail("not-whole", "the guest sends %d bytes more", len(b))
		}
		l := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if l < 6 || l > len(b)-3 {
			vrt.Fail("not-whole", "the guest sends a frame of %d bytes with %d bytes", l, len(b))
		}
		f := parse(b[3 : 3+l])
		b = b[3+l:]
		if w.onSend == nil || !w.onSend(f) {
			w.peer.on(f)
		}
	}
}

func parse(b []byte) frames.Frame {
	id := binary.BigEndian.Uint32(b)
	tf := binary.BigEndian.Uint16(b[4:])
	f, ok := frref.Decode(int(tf>>10), int(tf&0x3ff), id, b[6:])
	if !ok {
		vrt.Fail("not-whole", "the guest has sent a frame that is cut short: %x", b)
	}
	return f
}

func frame(f frames.Frame) []byte { return sized(frref.Encode(f)) }

func sized(b []byte) []byte {
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

// enter calls the guest with what is in the buffer.
func (w *world) enter(b []byte) {
	if len(b) > len(w.guestBuf) {
		panic("too large")
	}
	for i := range w.guestBuf {
		if i > len(b)+200 {
			break
		}
		w.guestBuf[i] = 0xee
	}
	copy(w.guestBuf, b)
	w.inside = true
	guest.GuestSend(uint32(len(b)))
	w.inside = false
	vrt.Quiesce()
	if b := vrt.Blocked(); len(b) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", b)
	}
}

// deliver hands over the first frames.
func (w *world) deliver(k int) {
	var b []byte
	for _, f := range w.peer.out[:k] {
		b = append(b, frame(f)...)
	}
	w.peer.out = append([]frames.Frame{}, w.peer.out[k:]...)
	w.enter(b)
}

// fnf calls an operation of the guest.
func (w *world) tell(op int) frames.Frame {
	f := &frames.RequestPayload{FrameType: fnf, StreamID: w.peer.next, Metadata: meta(op, 0, ""), Complete: true}
	w.peer.next += 2
	return f
}

func (w *world) do(f func()) {
	w.todo = append(w.todo, f)
	w.peer.send(w.tell(opDo))
}

// settle delivers frames until there are none, and makes both sides go on with what is held back, at any time.
func (w *world) settle() {
	for steps := 0; ; steps++ {
		if steps > 500 {
			vrt.Fail("livelock", "host and guest go on for ever: %q", w.peer.in[len(w.peer.in)-6:])
		}
		n := len(w.peer.out)
		held, busy := len(w.peer.held) > 0 || w.peer.kicked != nil, w.ready()
		if n == 0 {
			switch {
			case held && busy:
				if w.budget > 0 && vrt.Choose(2) == 1 {
					w.budget--
					w.peer.send(w.tell(opKick))
				} else {
					w.peer.kick()
				}
			case held:
				w.peer.kick()
			case busy:
				w.peer.send(w.tell(opKick))
			default:
				return
			}
			continue
		}
		usual := n
		if w.single {
			usual = 1
		}
		if w.budget > 0 {
			// other groupings, or one of the sides goes on first
			alts := n - 1
			if held {
				alts++
			}
			if busy {
				alts++
			}
			c := vrt.Choose(1 + alts)
			if c > 0 {
				w.budget--
				c--
				if c < n-1 {
					if !w.single {
						w.deliver(c + 1)
					} else {
						w.deliver(c + 2)
					}
					continue
				}
				c -= n - 1
				if held && c == 0 {
					w.peer.kick()
				} else {
					w.peer.send(w.tell(opKick))
				}
				continue
			}
		}
		w.deliver(usual)
	}
}

// open is the number of open streams of the guest.
func open() (n int) {
	for _, t := range tables() {
		n += t.Size()
	}
	return
}

// tables are the tables of open streams, wherever the guest keeps them.
func tables() (all []*proxy.Lookup) {
	type place struct {
		p unsafe.Pointer
		t reflect.Type
	}
	seen := map[place]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Type() == reflect.TypeOf(proxy.Lookup{}) {
			if p := (place{v.Addr().UnsafePointer(), v.Type()}); !seen[p] {
				seen[p] = true
				all = append(all, (*proxy.Lookup)(p.p))
			}
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Pointer:
			if v.IsNil() || v.Elem().Kind() != reflect.Struct {
				return
			}
			t := v.Elem().Type()
			if t == reflect.TypeOf(proxy.Lookup{}) {
				walk(v.Elem())
			} else if p := (place{v.UnsafePointer(), t}); !seen[p] && t.PkgPath() == reflect.TypeOf(guest.Caller{}).PkgPath() {
				seen[p] = true
				walk(v.Elem())
			}
		}
	}
	for _, v := range guest.ZZVars() {
		walk(reflect.ValueOf(v).Elem())
	}
	return
}
