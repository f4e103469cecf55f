// C19: a connection dispatches frames in order after setup and always shuts down.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"strings"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/rsocket"
)

var (
	errRead   = errors.New("bad frame")
	errHandle = errors.New("cannot handle")
)

// conn is a connection that the harness feeds.
type conn struct {
	queue   []event
	closed  int
	reading bool
	given   []string // frames that have been returned by Read
	ended   bool
}

type event struct {
	f   frames.Frame
	err error
}

func (c *conn) Read() (frames.Frame, error) {
	if c.reading {
		vrt.Fail("two-readers", "two reads at the same time")
	}
	c.reading = true
	defer func() { c.reading = false }()
	vrt.Block("conn.Read", func() bool { return c.closed > 0 || len(c.queue) > 0 })
	if c.closed > 0 {
		return nil, io.EOF
	}
	ev := c.queue[0]
	if ev.err != nil {
		return nil, ev.err // and again
	}
	c.queue = c.queue[1:]
	c.given = append(c.given, frref.Show(ev.f))
	return ev.f, nil
}
func (c *conn) Write(frames.Frame) error    { return nil }
func (c *conn) Flush() error                { return nil }
func (c *conn) SetDeadline(time.Time) error { return nil }
func (c *conn) Close() error {
	vrt.P("conn.Close")
	c.closed++
	return nil
}

type handling struct {
	w      *world
	failAt int
	act    string
}

func (h *handling) SetFrameSender(rsocket.FrameHandler) {}
func (h *handling) HandleFrame(f frames.Frame) error {
	w := h.w
	if w.returned {
		vrt.Fail("late", "%s is dispatched after the run has ended", frref.Show(f))
	}
	if w.inside {
		vrt.Fail("concurrent", "two frames are dispatched at the same time")
	}
	w.inside = true
	vrt.P("HandleFrame")
	w.inside = false
	if w.told > 0 {
		vrt.Fail("late", "%s is dispatched after the handler has been told that the connection has ended", frref.Show(f))
	}
	n := len(w.got)
	w.got = append(w.got, frref.Show(f))
	if n == h.failAt {
		switch h.act {
		case "fails":
			w.failed = true
			return errHandle
		case "closes":
			_ = w.tp.Close()
		case "cancels":
			w.cancel()
		}
	}
	return nil
}

// Close tells the handler that the connection has ended.
func (h *handling) Close() error {
	vrt.P("handler.Close")
	h.w.told++
	return nil
}

type world struct {
	told     int
	conn     *conn
	tp       *rsocket.Transport
	cancel   func()
	got      []string
	inside   bool
	failed   bool
	returned bool
	err      error
	readies  int
}

func payload(i int) frames.Frame {
	switch i % 5 {
	case 1:
		return &frames.Cancel{StreamID: uint32(2*i + 1)}
	case 2:
		return &frames.RequestN{StreamID: uint32(2*i + 1), N: 1}
	case 3:
		return &frames.Error{StreamID: uint32(2*i + 1), Code: 1, Data: "e"}
	case 4:
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: uint32(2*i + 1), Data: []byte("d")}
	}
	return &frames.Payload{StreamID: uint32(2*i + 1), Data: []byte(fmt.Sprint(i)), Next: true}
}

func setup() frames.Frame {
	return &frames.Setup{MajorVersion: 0, MinorVersion: 2, Data: operations.Table{}.ToBytes()}
}

type scene struct {
	server  bool
	first   string // of a server: setup, other, error, eof, none
	n       int    // frames that follow
	end     string // eof, error, none
	act     string // what the handler does ...
	at      int    // ... with this frame
	outside string // what happens from outside
	waiters int
}

func (s scene) desc() string {
	t := "client"
	if s.server {
		t = "server, first: " + s.first
	}
	t += fmt.Sprintf(", %d frames, end: %s", s.n, s.end)
	if s.act != "" {
		t += fmt.Sprintf(", handler %s at %d", s.act, s.at)
	}
	return t + fmt.Sprintf(", outside: %s, %d waiters", s.outside, s.waiters)
}

// play runs one transport
func play(s scene) {
	c := &conn{}
	w := &world{conn: c}
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = func() { vrt.P("cancel"); cancel() }
	h := &handling{w: w, failAt: -1}
	if s.act != "" {
		h.failAt, h.act = s.at, s.act
	}
	w.tp = rsocket.NewTransport(c, h, s.server)
	if s.outside == "canceled before" {
		cancel()
	}
	if s.outside == "closed before" {
		_ = w.tp.Close()
	}
	var ths []*vrt.Thread
	run := vrt.GoNamed("run", func() {
		err := w.tp.Start(ctx)
		vrt.P("returned")
		w.err = err
		w.returned = true
		if w.inside {
			vrt.Fail("late", "the run has ended while a frame is being dispatched")
		}
		if c.closed != 1 {
			vrt.Fail("closed", "the connection has been closed %d times when the run has ended", c.closed)
		}
	})
	waited := 0
	for i := 0; i < s.waiters; i++ {
		ths = append(ths, vrt.GoNamed("waiter", func() {
			ready := s.server && s.first == "setup" && s.outside == "none" && (s.act == "" || s.at > 0)
			if t, ok := any(w.tp).(interface{ WaitUntilReady() bool }); ok {
				ready = t.WaitUntilReady() && s.server || ready
			} else {
				any(w.tp).(interface{ WaitUntilReady() }).WaitUntilReady()
			}
			if ready && len(w.got) == 0 {
				vrt.Fail("ready-early", "ready before the setup frame has been handled")
			}
			waited++
		}))
	}
	causes := s.end != "none" || s.first == "error" || s.first == "eof" || s.first == "other" || s.outside != "none"
	total := s.n
	if s.server {
		total++
	}
	if s.act != "" && s.at < total {
		causes = true
	}
	vrt.GoNamed("peer", func() {
		put := func(ev event) {
			vrt.P("peer")
			c.queue = append(c.queue, ev)
		}
		if s.server {
			switch s.first {
			case "setup":
				put(event{f: setup()})
			case "other":
				put(event{f: payload(0)})
			case "error":
				put(event{err: errRead})
				return
			case "eof":
				put(event{err: io.EOF})
				return
			case "none":
				return
			}
		}
		for i := 1; i <= s.n; i++ {
			put(event{f: payload(i)})
		}
		switch s.end {
		case "eof":
			put(event{err: io.EOF})
		case "error":
			put(event{err: errRead})
		}
	})
	switch s.outside {
	case "cancel":
		ths = append(ths, vrt.GoNamed("canceler", w.cancel))
	case "close":
		ths = append(ths, vrt.GoNamed("closer", func() { _ = w.tp.Close() }))
	case "close twice":
		ths = append(ths, vrt.GoNamed("closer", func() { _ = w.tp.Close() }))
		ths = append(ths, vrt.GoNamed("closer 2", func() { _ = w.tp.Close() }))
	case "close and cancel":
		ths = append(ths, vrt.GoNamed("closer", func() { _ = w.tp.Close() }))
		ths = append(ths, vrt.GoNamed("canceler", w.cancel))
	}
	vrt.Quiesce()
	if causes != run.Done() {
		if causes {
			vrt.Fail("hangs", "the run does not end: %v", vrt.Blocked())
		}
		vrt.Fail("ended", "the run has ended with %v without a cause", w.err)
	}
	want := append([]string{}, c.given...)
	bad := s.server && s.first != "setup"
	if bad {
		want = nil
	}
	if s.server && s.act == "fails" && s.at == 0 && len(want) > 1 {
		vrt.Fail("read-on", "frames are read after the setup frame could not be handled")
	}
	if fmt.Sprint(w.got) != fmt.Sprint(want) {
		vrt.Fail("dispatch", "dispatched %v, received %v", w.got, want)
	}
	if !causes || s.outside == "none" && s.act == "" && !bad {
		if len(w.got) != total && !bad {
			vrt.Fail("dispatch", "%d of the %d frames have been dispatched", len(w.got), total)
		}
	}
	if bad && run.Done() && w.err == nil && (s.outside == "none" || s.first == "other" && len(c.given) > 0) {
		vrt.Fail("no-error", "the run ends without an error")
	}
	if s.outside == "none" && run.Done() {
		if s.act == "fails" && s.end == "none" && w.err == nil {
			vrt.Fail("no-error", "the run ends without an error though a frame could not be handled")
		}
		if s.act == "" && s.end == "error" && w.err == nil {
			vrt.Fail("no-error", "the run ends without an error though a read has failed")
		}
		if s.act == "" && s.end == "eof" && !bad && w.err != nil {
			vrt.Fail("error", "the run ends with %v though the peer has just disconnected", w.err)
		}
	}
	bl := vrt.Blocked()
	if run.Done() {
		if len(bl) > 0 {
			vrt.Fail("left-behind", "blocked after the run: %v", bl)
		}
		if c.closed != 1 {
			vrt.Fail("closed", "the connection has been closed %d times", c.closed)
		}
		if w.told == 0 {
			vrt.Fail("untold", "the handler has not been told that the connection has ended")
		}
		vrt.Outcome("%d %v", len(w.got), w.err)
		return
	}
	if ready := !s.server || len(w.got) > 0; ready != (waited == s.waiters) && s.waiters > 0 {
		vrt.Fail("ready", "%d waiters have been woken, ready: %v", waited, ready)
	}
	// and now the end
	_ = w.tp.Close()
	vrt.Quiesce()
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-behind", "blocked after closing: %v", bl)
	}
}

func main() {
	hx.Main("C19", func(s *hx.Suite) {
		th := s.Thorough()
		s.Assumptions = append(s.Assumptions, "closing a connection makes its blocked read return", "handlers return")

		cfg := vrt.Config{Bound: hx.Pick(s, 2, 3), Delay: true}
		outs := []string{"none", "cancel", "close", "canceled before", "closed before", "close twice", "close and cancel"}
		ends := []string{"none", "eof", "error"}
		acts := []string{"", "fails", "closes", "cancels"}
		s.Enum("one connection", 64, func(e *hx.E) {
			do := func(sc scene) {
				e.Case(sc.desc, func() { e.Sched(cfg, func() { play(sc) }) })
			}
			for _, out := range outs {
				for _, end := range ends {
					for n := 0; n <= hx.Pick(s, 2, 3); n++ {
						for _, act := range acts {
							for at := 0; at <= n; at++ {
								if act == "" && at > 0 {
									continue
								}
								for _, server := range []bool{false, true} {
									if act != "" && !server && at == n {
										continue
									}
									do(scene{server: server, first: "setup", n: n, end: end, act: act, at: at, outside: out, waiters: 1})
								}
							}
						}
					}
				}
				for _, first := range []string{"other", "error", "eof", "none"} {
					for n := 0; n <= 1; n++ {
						for w := 1; w <= 2; w++ {
							do(scene{server: true, first: first, n: n, end: "none", outside: out, waiters: w})
						}
					}
				}
			}
		})
		s.Enum("many frames", 8, func(e *hx.E) {
			for _, end := range ends {
				for _, act := range acts {
					for n := 3; n <= hx.Pick(s, 5, 8); n++ {
						for at := 0; at <= n; at++ {
							if act == "" && at > 0 {
								continue
							}
							sc := scene{server: true, first: "setup", n: n, end: end, act: act, at: at, outside: "none"}
							e.Case(sc.desc, func() {
								e.Sched(vrt.Config{Bound: hx.Pick(s, 2, 3), Delay: true}, func() { play(sc) })
							})
						}
					}
				}
			}
		})

		s.Enum("servers", 48, func(e *hx.E) {
			clients := [][]string{{}, {"setup"}, {"other"}, {"eof"}, {"silent"}, {"setup eof"}, {"cut"}, {"bad setup"},
				{"setup", "setup"}, {"setup", "other"}, {"setup eof", "silent"}, {"other", "setup"}, {"silent", "setup"}}
			if th {
				clients = append(clients, []string{"setup", "setup eof", "other"}, []string{"silent", "cut", "setup"})
			}
			for _, cs := range clients {
				for _, out := range []string{"close", "cancel", "close twice", "close and cancel", "close before", "canceled before", "cut off"} {
					for _, fault := range []string{"", "accept", "listen"} {
						sc := serving{clients: cs, outside: out, fault: fault}
						if fault != "" && (len(cs) > 1 || out == "close twice") {
							continue
						}
						b := hx.Pick(s, 2, 3)
						if len(cs) > 1 {
							b = hx.Pick(s, 1, 2)
						}
						for _, settle := range []bool{true, false} {
							settle := settle
							e.Case(func() string { return fmt.Sprintf("%+v, settled: %v", sc, settle) }, func() {
								e.Sched(vrt.Config{Bound: b, Delay: true}, func() { serve(sc, settle) })
							})
						}
					}
				}
			}
		})
	})
}

// pipe is a net.Conn of the server
type pipe struct {
	name   string
	in     []byte
	eof    bool
	closed int
}

func (c *pipe) Read(p []byte) (int, error) {
	vrt.Block("pipe.Read "+c.name, func() bool { return c.closed > 0 || len(c.in) > 0 || c.eof })
	if c.closed > 0 {
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *pipe) Write(p []byte) (int, error) { return len(p), nil }
func (c *pipe) Close() error {
	vrt.P("pipe.Close")
	c.closed++
	return nil
}
func (c *pipe) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *pipe) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *pipe) SetDeadline(time.Time) error      { return nil }
func (c *pipe) SetReadDeadline(time.Time) error  { return nil }
func (c *pipe) SetWriteDeadline(time.Time) error { return nil }

type listener struct {
	queue  []*pipe
	fail   bool
	closed int
	taken  []*pipe
}

func (l *listener) Accept() (net.Conn, error) {
	vrt.Block("Accept", func() bool { return l.closed > 0 || len(l.queue) > 0 || l.fail })
	if l.closed > 0 {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	if l.fail {
		l.fail = false
		return nil, errors.New("too many open files")
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	l.taken = append(l.taken, c)
	return c, nil
}
func (l *listener) Close() error {
	vrt.P("listener.Close")
	l.closed++
	if l.closed > 1 {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	return nil
}
func (l *listener) Addr() net.Addr { return &net.TCPAddr{} }

type serving struct {
	clients []string
	outside string
	fault   string
}

func wire(f frames.Frame) []byte {
	b := frref.Encode(f)
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

// held counts what the server still keeps in its maps
func held(srv rsocket.ServerTransport) (n int) {
	v := reflect.ValueOf(srv)
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return 0
	}
	for i := 0; i < v.NumField(); i++ {
		if k := v.Field(i).Kind(); k == reflect.Map {
			n += v.Field(i).Len()
		}
	}
	return n
}

// serve runs a server; settled: what happens from outside happens when everything else has
func serve(s serving, settled bool) {
	l := &listener{fail: s.fault == "accept"}
	ctx, cancel := context.WithCancel(context.Background())
	srv := rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) {
		vrt.P("listen")
		if s.fault == "listen" {
			return nil, errors.New("address in use")
		}
		return l, nil
	}, nil)
	accepted := 0
	srv.Accept(func(_ context.Context, c invoke.Caller, onClose func(*rsocket.Transport)) {
		if c == nil || onClose == nil {
			vrt.Fail("acceptor", "nil arguments")
		}
		accepted++
	})
	if s.outside == "canceled before" {
		cancel()
	}
	if s.outside == "close before" {
		_ = srv.Close()
	}
	notes := make(chan bool, 2)
	var lerr error
	run := vrt.GoNamed("server", func() { lerr = srv.Listen(ctx, notes) })
	var pipes []*pipe
	for _, kind := range s.clients {
		pipes = append(pipes, &pipe{name: kind})
	}
	for i, kind := range s.clients {
		i, kind := i, kind
		vrt.GoNamed("client "+kind, func() {
			c := pipes[i]
			vrt.P("connect")
			l.queue = append(l.queue, c)
			send := func(b []byte) {
				vrt.P("client")
				c.in = append(c.in, b...)
			}
			switch kind {
			case "setup":
				send(wire(setup()))
			case "setup eof":
				send(wire(setup()))
				vrt.P("client")
				c.eof = true
			case "other":
				send(wire(&frames.Cancel{StreamID: 1}))
			case "bad setup":
				send(wire(&frames.Setup{Data: []byte("no table")}))
			case "eof":
				c.eof = true
			case "cut":
				send(wire(setup())[:9])
				vrt.P("client")
				c.eof = true
			}
		})
	}
	if settled {
		vrt.Quiesce()
		if s.fault == "" && s.outside != "close before" && s.outside != "canceled before" {
			open, want, dead := 0, 0, 0
			for i, c := range pipes {
				if strings.HasPrefix(s.clients[i], "setup") {
					want++
				}
				if k := s.clients[i]; k == "setup" || k == "silent" {
					open++
					if c.closed > 0 {
						vrt.Fail("closed", "the connection of client %q is closed", k)
					}
				} else {
					dead++
					if c.closed != 1 {
						vrt.Fail("closed", "the connection of client %q has been closed %d times", k, c.closed)
					}
				}
			}
			if accepted != want {
				vrt.Fail("acceptor", "%d connections have become ready, want %d", accepted, want)
			}
			if n := held(srv); n > open {
				vrt.Fail("held", "the server keeps %d connections, %d are open", n, open)
			}
		}
		if s.fault == "accept" && len(l.queue) > 0 && l.closed == 0 {
			vrt.Fail("accept", "no connection is accepted after a failed one")
		}
	}
	switch s.outside {
	case "close":
		vrt.GoNamed("closer", func() { _ = srv.Close() })
	case "cancel":
		vrt.GoNamed("canceler", func() { vrt.P("cancel"); cancel() })
	case "close twice":
		vrt.GoNamed("closer", func() { _ = srv.Close() })
		vrt.GoNamed("closer 2", func() { _ = srv.Close() })
	case "close and cancel":
		vrt.GoNamed("closer", func() { _ = srv.Close() })
		vrt.GoNamed("canceler", func() { vrt.P("cancel"); cancel() })
	case "cut off":
		vrt.GoNamed("network", func() { vrt.P("network"); _ = l.Close() })
	}
	vrt.Quiesce()
	if !run.Done() {
		vrt.Fail("hangs", "Listen does not return: %v", vrt.Blocked())
	}
	if s.fault == "listen" && lerr == nil {
		vrt.Fail("no-error", "no error though listening has failed")
	}
	if vrt.Len(notes) == 0 {
		vrt.Fail("notify", "no notification")
	}
	if ok := vrt.Recv(notes, "notes"); ok && s.fault == "listen" {
		vrt.Fail("notify", "told to be listening though listening has failed")
	}
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-behind", "blocked after the server has ended: %v", bl)
	}
	if s.fault != "listen" && l.closed == 0 && s.outside != "close before" {
		vrt.Fail("closed", "the listener is open")
	}
	for _, c := range l.taken {
		if c.closed != 1 {
			vrt.Fail("closed", "the connection of client %q has been closed %d times", c.name, c.closed)
		}
	}
	if n := held(srv); n > 0 {
		vrt.Fail("held", "the server keeps %d connections", n)
	}
	vrt.Outcome("%d %v", accepted, lerr)
}
