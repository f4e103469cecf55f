// C26: applications that are connected reach each other's operations, until the connection ends.
package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vnet"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

type whoKey struct{}

func who(ctx context.Context) string {
	if ctx == nil {
		return "nobody"
	}
	s, _ := ctx.Value(whoKey{}).(string)
	return s
}

func text(s string) payload.Payload { return payload.New([]byte(s), []byte("md "+s)) }

// the operations that every application here exports
type export struct {
	kind   operations.RequestType
	ns, op string
	index  uint32
}

var exports []export

func init() {
	count := map[operations.RequestType]uint32{} // operations are numbered per kind, in the order of the exports
	add := func(k operations.RequestType, ns, op string) {
		exports = append(exports, export{k, ns, op, count[k]})
		count[k]++
	}
	rr := func(ns, op string, h invoke.RequestResponseHandler) {
		add(operations.RequestResponse, ns, op)
		invoke.ExportRequestResponse(ns, op, h)
	}
	fnf := func(ns, op string, h invoke.FireAndForgetHandler) {
		add(operations.FireAndForget, ns, op)
		invoke.ExportFireAndForget(ns, op, h)
	}
	rs := func(ns, op string, h invoke.RequestStreamHandler) {
		add(operations.RequestStream, ns, op)
		invoke.ExportRequestStream(ns, op, h)
	}
	rc := func(ns, op string, h invoke.RequestChannelHandler) {
		add(operations.RequestChannel, ns, op)
		invoke.ExportRequestChannel(ns, op, h)
	}
	answer := func(ctx context.Context, op string, p payload.Payload) string {
		return who(ctx) + " " + op + " " + string(p.Data())
	}
	bad := func(op string) invoke.RequestResponseHandler {
		return func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			vrt.Fail("wrong-operation", "%s was called with %q", op, p.Data())
			return mono.Error[payload.Payload](errors.New("wrong"))
		}
	}
	rr("other", "echo", bad("other echo"))
	rr("svc", "echo", func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just[payload.Payload](payload.New([]byte(answer(ctx, "echo", p)), append([]byte("back "), p.Metadata()...)))
	})
	rr("svc", "fail", func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Error[payload.Payload](errors.New(answer(ctx, "fail", p)))
	})
	rr("svc", "hang", func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		cur.hung++
		return mono.NewProcessor[payload.Payload]()
	})
	rr("svc", "relay", func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		// calls back
		me := who(ctx)
		vrt.Block("the caller", func() bool { return cur.callers[me] != nil })
		c := cur.callers[me]
		back := c.RequestResponse(ctx, address("svc", "echo", operations.RequestResponse, string(p.Data())))
		return mono.Map(back, func(q payload.Payload) (payload.Payload, error) {
			return payload.New([]byte(who(ctx)+" relay "+string(q.Data())), q.Metadata()), nil
		})
	})
	fnf("svc", "hang", func(ctx context.Context, p payload.Payload) { vrt.Fail("wrong-operation", "hang was called") })
	fnf("svc", "echo", func(ctx context.Context, p payload.Payload) {
		cur.notes = append(cur.notes, answer(ctx, "note", p))
	})
	rs("svc", "hang", func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		cur.hung++
		return hanging(1, "hang")
	})
	rs("svc", "echo", func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		var v []payload.Payload
		for i := 0; i < 3; i++ {
			v = append(v, text(fmt.Sprint(answer(ctx, "item", p), " ", i)))
		}
		return flux.FromSlice(v)
	})
	rs("svc", "fail", func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		return flux.Error[payload.Payload](errors.New(answer(ctx, "fail", p)))
	})
	rc("other", "echo", func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		vrt.Fail("wrong-operation", "other echo was called")
		return in
	})
	rc("svc", "echo", func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		return flux.Map(in, func(q payload.Payload) (payload.Payload, error) {
			return text(answer(ctx, "echo", p) + " " + string(q.Data())), nil
		})
	})
	rc("svc", "hang", func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		cur.hung++
		ended := new(int)
		cur.ins = append(cur.ins, ended)
		in.Subscribe(flux.Subscribe[payload.Payload]{
			OnComplete: func() { *ended++ }, OnError: func(error) { *ended++ },
		})
		return hanging(1, "hang")
	})
	invoke.ImportRequestResponse("svc", "fail")
	invoke.ImportRequestStream("svc", "hang")
}

// hanging is a source of n items that does not end, which records its cancellation
func hanging(n int, name string) flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		canceled := new(int)
		cur.sources = append(cur.sources, canceled)
		sent := 0
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(int) {
				for sent < n {
					sent++
					sink.Next(text(name))
				}
			},
			Cancel: func() { *canceled++ },
		})
	})
}

func find(ns, op string, k operations.RequestType) uint32 {
	for _, e := range exports {
		if e.ns == ns && e.op == op && e.kind == k {
			return e.index
		}
	}
	panic("no such export")
}

func address(ns, op string, k operations.RequestType, data string) payload.Payload {
	md := make([]byte, 8, 20)
	binary.BigEndian.PutUint32(md, find(ns, op, k))
	return payload.New([]byte(data), append(md, "md "+data...))
}

// call is one call: which operation, and the data
type call struct {
	kind operations.RequestType
	op   string
	size int
}

func (c call) String() string { return fmt.Sprintf("%v %s", c.kind, c.op) }

// result is what a caller has got
type result struct {
	what  string
	items []string
	ends  []string
}

func (r *result) next(p payload.Payload) {
	if len(r.ends) > 0 {
		vrt.Fail("after-end", "%s: an item after the end %v", r.what, r.ends)
	}
	r.items = append(r.items, string(p.Data())+" | "+string(p.Metadata()))
}
func (r *result) end(s string) { r.ends = append(r.ends, s) }
func (r *result) fail(e error) {
	if e == nil {
		vrt.Fail("nil-error", "%s: failed with a nil error", r.what)
	}
	r.end("error " + e.Error())
}

// do makes a call
func do(ctx context.Context, caller invoke.Caller, from, to string, c call, tag string) (r *result, want result) {
	data := tag + strings.Repeat("x", c.size)
	r = &result{what: from + " calls " + c.String() + " of " + to}
	cur.results = append(cur.results, r)
	p := address("svc", c.op, c.kind, data)
	switch c.kind {
	case operations.RequestResponse:
		switch c.op {
		case "echo":
			want.items = []string{to + " echo " + data + " | back md " + data}
			want.ends = []string{"success"}
		case "relay":
			want.items = []string{to + " relay " + from + " echo " + data + " | back md " + data}
			want.ends = []string{"success"}
		case "fail":
			want.ends = []string{"error " + to + " fail " + data}
		}
		caller.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { r.next(p); r.end("success") },
			OnError:   r.fail,
		})
	case operations.FireAndForget:
		caller.FireAndForget(ctx, p)
		r.end("sent")
		want.ends = []string{"sent"}
	case operations.RequestStream, operations.RequestChannel:
		sub := flux.Subscribe[payload.Payload]{OnNext: r.next, OnComplete: func() { r.end("complete") }, OnError: r.fail}
		item := func(s string) string { return s + " | md " + s }
		switch c.op {
		case "echo":
			want.ends = []string{"complete"}
			for i := 0; i < 3; i++ {
				if c.kind == operations.RequestStream {
					want.items = append(want.items, item(fmt.Sprint(to+" item "+data+" ", i)))
				} else if i < 2 {
					want.items = append(want.items, item(fmt.Sprint(to+" echo "+data+" in ", i)))
				}
			}
		case "fail":
			want.ends = []string{"error " + to + " fail " + data}
		case "hang":
			want.items = []string{item("hang")}
		}
		if c.kind == operations.RequestStream {
			caller.RequestStream(ctx, p).Subscribe(sub)
			break
		}
		in := flux.FromSlice([]payload.Payload{text("in 0"), text("in 1")})
		if c.op == "hang" {
			in = hanging(1, "in")
		}
		caller.RequestChannel(ctx, p, in).Subscribe(sub)
	}
	return r, want
}

// scene is a run with some clients
type scene struct {
	clients  int
	connect  bool   // with Connect (and not NewClient)
	calls    []call // the server's application makes to each client
	back     []call // each client's application makes to the server, unless it uses Connect
	end      string // how it ends: "" (when all is done)
	blocking bool   // the server's application waits for each of its calls
	cap      int
	chunk    int
	addr     string
	at       int // the end comes with this operation of the network, or when all is quiet (0)
}

func (s scene) String() string {
	t := fmt.Sprintf("%d clients, server calls %v, clients call %v", s.clients, s.calls, s.back)
	if s.connect {
		t += ", Connect"
	}
	if s.blocking {
		t += ", blocking"
	}
	if s.cap > 0 || s.chunk > 0 {
		t += fmt.Sprintf(", cap %d, chunk %d", s.cap, s.chunk)
	}
	if s.addr != "" {
		t += ", " + s.addr
	}
	if s.end != "" {
		t += fmt.Sprintf(", end: %s at %d", s.end, s.at)
	}
	return t
}

type world struct {
	scene
	hung    int
	notes   []string
	callers map[string]invoke.Caller
	sources []*int
	ins     []*int
	results []*result
	pairs   []pair
	tps     []*rsocket.Transport
	names   map[string]bool
	byName  map[string]invoke.Caller // the server's callers
}

type pair struct {
	r    *result
	want result
	to   string
}

var cur *world

func hangs(cs []call) bool {
	for _, c := range cs {
		if c.op == "hang" {
			return true
		}
	}
	return false
}

// accepted is the server's application
func (w *world) accepted(ctx context.Context, caller invoke.Caller) {
	w.callers["server"] = caller
	for _, e := range exports {
		got := map[operations.RequestType]func(string, string) uint32{
			operations.RequestResponse: caller.ImportRequestResponse,
			operations.FireAndForget:   caller.ImportFireAndForget,
			operations.RequestStream:   caller.ImportRequestStream,
			operations.RequestChannel:  caller.ImportRequestChannel,
		}[e.kind](e.ns, e.op)
		if got != e.index {
			vrt.Fail("import", "%v %s %s is operation %d instead of %d", e.kind, e.ns, e.op, got, e.index)
		}
	}
	// whose connection is it?
	hello, err := caller.RequestResponse(ctx, address("svc", "echo", operations.RequestResponse, "hello")).Block()
	if err != nil {
		if w.end == "" {
			vrt.Fail("hello", "the first call failed: %v", err)
		}
		return
	}
	name := strings.TrimSuffix(string(hello.Data()), " echo hello")
	if w.names[name] || !strings.HasPrefix(name, "client ") {
		vrt.Fail("hello", "the application was handed the connection of %q, after those of %v", name, w.names)
	}
	w.names[name] = true
	w.byName[name] = caller
	for i, c := range w.calls {
		tag := fmt.Sprint("to ", name, " ", i, " ")
		r, want := do(ctx, caller, "server", name, c, tag)
		w.pairs = append(w.pairs, pair{r, want, name})
		if w.blocking && (c.op != "hang" || w.end != "") {
			vrt.Block("the result", func() bool { return len(r.ends) > 0 })
		}
	}
}

func setup() frames.Frame {
	t := invoke.GetOperationsTable()
	return &frames.Setup{MajorVersion: 0, MinorVersion: 2, Data: t.ToBytes()}
}

// nowhere dials where nothing listens
func nowhere(s scene) {
	h := rsocket.Handler(context.Background())
	if s.connect {
		if err := rsocket.Connect(h); err == nil {
			vrt.Fail("dial", "Connect succeeds without a server")
		}
	} else if t, err := rsocket.NewClient(context.Background(), h); err == nil || t != nil {
		vrt.Fail("dial", "NewClient gives %v and %v without a server", t, err)
	}
	vrt.Quiesce()
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-behind", "blocked without a connection: %v", bl)
	}
}

func play(s scene) {
	w := &world{scene: s, callers: map[string]invoke.Caller{}, names: map[string]bool{}, byName: map[string]invoke.Caller{}}
	cur = w
	net := vnet.Reset()
	if s.addr == "nowhere" {
		nowhere(s)
		return
	}
	if s.addr != "" {
		os.Setenv("RSOCKET_ADDRESS", s.addr)
		defer os.Unsetenv("RSOCKET_ADDRESS")
	}
	net.Cap, net.Chunk = s.cap, s.chunk
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), whoKey{}, "server"))
	defer cancel()
	srv := rsocket.NewServer(func(ctx context.Context, caller invoke.Caller, onClose func(*rsocket.Transport)) {
		w.accepted(ctx, caller)
	})
	notes := make(chan bool, 2)
	var lerr error
	listen := vrt.GoNamed("server", func() { lerr = srv.Listen(ctx, notes) })
	if !vrt.Recv(notes, "listening") {
		vrt.Fail("listen", "the server does not listen")
	}
	var runs []*vrt.Thread
	errs := make([]error, s.clients)
	cctx, ccancel := context.WithCancel(context.Background())
	defer ccancel()
	w.tps = make([]*rsocket.Transport, s.clients)
	for i := 0; i < s.clients; i++ {
		i := i
		name := fmt.Sprint("client ", i)
		c := context.WithValue(cctx, whoKey{}, name)
		h := rsocket.Handler(c)
		w.callers[name] = h
		runs = append(runs, vrt.GoNamed(name, func() {
			if s.connect {
				errs[i] = rsocket.Connect(h)
				return
			}
			t, err := rsocket.NewClient(c, h)
			if err != nil {
				if s.end == "" {
					vrt.Fail("dial", "%v", err)
				}
				errs[i] = err
				return
			}
			w.tps[i] = t
			if err := t.Send(setup(), true); err != nil && s.end == "" {
				vrt.Fail("setup", "%v", err)
			}
			run := vrt.GoNamed("run "+name, func() { errs[i] = t.Start(c) })
			for k, cl := range s.back {
				r, want := do(c, h, name, "server", cl, fmt.Sprint("from ", name, " ", k, " "))
				w.pairs = append(w.pairs, pair{r, want, name})
			}
			vrt.Join(run)
		}))
	}
	closing := func() {
		switch s.end {
		case "cut":
			net.Conns[0].Fail()
		case "client closes":
			_ = w.tps[0].Close()
		case "client cancels":
			ccancel()
		case "server closes":
			_ = srv.Close()
		case "cancel":
			cancel()
		}
	}
	ready := func() bool {
		if s.end == "server closes" || s.end == "cancel" || s.end == "client cancels" {
			return true
		}
		return len(net.Conns) > 0 && (s.end != "client closes" || w.tps[0] != nil)
	}
	started := false
	if s.end != "" {
		ending := vrt.GoNamed("ending", func() {
			vrt.Block("the time", func() bool { return started })
			closing()
		})
		net.At = s.at
		net.Do = func() {
			if !ready() {
				net.At++
				return
			}
			started = true
			vrt.SwitchTo(ending)
		}
		vrt.Quiesce()
		if !started && s.at > 0 {
			vrt.Outcome("%d", net.Ops)
			// like ending now (at 0)
			return
		}
		started = true
	}
	vrt.Quiesce()

	if alone := s.end == "cut" || s.end == "client closes"; alone {
		for i := 0; i < s.clients; i++ {
			name := fmt.Sprint("client ", i)
			if name == connOf(net, 0, w) {
				continue
			}
			if w.byName[name] == nil {
				vrt.Fail("accepted", "the application was not handed the connection of %s", name)
			}
			for _, k := range []operations.RequestType{operations.RequestResponse, operations.RequestChannel} {
				c := call{kind: k, op: "echo"}
				r, want := do(ctx, w.byName[name], "server", name, c, "afterwards")
				w.pairs = append(w.pairs, pair{r, want, name})
				r, want = do(context.Background(), w.callers[name], name, "server", c, "afterwards")
				w.pairs = append(w.pairs, pair{r, want, name})
			}
		}
		vrt.Quiesce()
	}

	// what has been called and answered
	alone := s.end == "cut" || s.end == "client closes" // the others go on
	for _, p := range w.pairs {
		r, want := p.r, p.want
		cutoff := s.end != "" && (!alone || p.to == connOf(net, 0, w))
		if len(r.ends) > 1 {
			vrt.Fail("ends", "%s: ends %v", r.what, r.ends)
		}
		full := fmt.Sprint(r.items) == fmt.Sprint(want.items) && fmt.Sprint(r.ends) == fmt.Sprint(want.ends)
		if cutoff {
			prefix := len(r.items) <= len(want.items) && fmt.Sprint(r.items) == fmt.Sprint(want.items[:len(r.items)])
			ended := len(r.ends) == 1 && strings.HasPrefix(r.ends[0], "error ")
			if !full && !(prefix && ended) {
				vrt.Fail("cut-off", "%s: got %v %v instead of %v %v, or an error", r.what, r.items, r.ends, want.items, want.ends)
			}
			if len(want.ends) == 0 && !ended {
				vrt.Fail("cut-off", "%s: has not ended after the connection: %v %v", r.what, r.items, r.ends)
			}
		} else if !full {
			vrt.Fail("result", "%s: got %v %v instead of %v %v; blocked %v", r.what, r.items, r.ends, want.items, want.ends, vrt.Blocked())
		}
	}
	if s.end == "" {
		if len(w.names) != s.clients {
			vrt.Fail("accepted", "the server's application got the connections of %v", w.names)
		}
		if n := s.clients * (len(s.calls)); len(w.pairs) != n+s.clients*len(s.back) {
			vrt.Fail("calls", "only %d calls were made", len(w.pairs))
		}
		var want []string
		for i := 0; i < s.clients; i++ {
			name := fmt.Sprint("client ", i)
			for k, c := range s.calls {
				if c.kind == operations.FireAndForget {
					want = append(want, fmt.Sprint(name, " note to ", name, " ", k, " ", strings.Repeat("x", c.size)))
				}
			}
			for k, c := range s.back {
				if c.kind == operations.FireAndForget {
					want = append(want, fmt.Sprint("server note from ", name, " ", k, " ", strings.Repeat("x", c.size)))
				}
			}
		}
		sort.Strings(want)
		sort.Strings(w.notes)
		if fmt.Sprint(want) != fmt.Sprint(w.notes) {
			vrt.Fail("notes", "the fire-and-forget calls were %v instead of %v", w.notes, want)
		}
		for i, r := range runs {
			if r.Done() {
				vrt.Fail("ended", "the run of client %d has ended without a cause: %v", i, errs[i])
			}
		}
	}
	addr := s.addr
	if addr == "" {
		addr = ":7878"
	}
	if len(net.Listened) != 1 || net.Listened[0] != "tcp "+addr {
		vrt.Fail("address", "listening at %v", net.Listened)
	}
	// the end of all
	_ = srv.Close()
	vrt.Quiesce()
	if !listen.Done() {
		vrt.Fail("hangs", "Listen does not return: %v", vrt.Blocked())
	}
	for i, r := range runs {
		if !r.Done() {
			vrt.Fail("hangs", "the run of client %d does not end: %v", i, vrt.Blocked())
		}
	}
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-behind", "blocked after the end: %v", bl)
	}
	for _, c := range net.Conns {
		if c.Closed != 1 || c.Other().Closed > 1 || c.Other().Closed == 0 && c.Other().Got > 0 {
			vrt.Fail("closed", "connections closed %d and %d times", c.Closed, c.Other().Closed)
		}
	}
	for _, r := range w.results {
		if len(r.ends) != 1 {
			vrt.Fail("ends", "%s: ends %v after the connection has ended", r.what, r.ends)
		}
	}
	for _, n := range w.sources {
		if *n > 1 || *n == 0 {
			vrt.Fail("source", "a source was cancelled %d times after the connection has ended", *n)
		}
	}
	for _, n := range w.ins {
		if *n != 1 {
			vrt.Fail("input", "the input of a channel has %d ends after the connection has ended", *n)
		}
	}
	vrt.Outcome("%d %d %v", len(w.names), w.hung, lerr != nil)
}

// connOf is the name of the client whose connection it is: the connections are made in any order
func connOf(n *vnet.N, i int, w *world) string {
	if w.end == "client closes" {
		return "client 0"
	}
	return n.Conns[i].By
}

// tables: applications written with something else list what they import and
// export in any order; what they export is found under its index.
func tables(e *hx.E) {
	imports := []func(*handler.Handler, string, string) uint32{
		(*handler.Handler).ImportRequestResponse, (*handler.Handler).ImportFireAndForget, (*handler.Handler).ImportRequestStream, (*handler.Handler).ImportRequestChannel,
	}
	var entries []operations.Operation
	for k := operations.RequestResponse; k <= operations.RequestChannel; k++ {
		for _, d := range []operations.Direction{operations.Import, operations.Export} {
			for _, n := range [][2]string{{"a", "x"}, {"a", "y"}, {"b", "x"}} {
				entries = append(entries, operations.Operation{Type: k, Direction: d, Namespace: n[0], Operation: n[1]})
			}
		}
	}
	check := func(t operations.Table) {
		e.Case(func() string { return fmt.Sprint(t) }, func() {
			h := handler.New(context.Background(), handler.ServerMode)
			h.SetFrameSender(func(frames.Frame) error { return nil })
			if err := h.HandleFrame(&frames.Setup{MinorVersion: 2, Data: t.ToBytes()}); err != nil {
				e.Fail("setup", "the setup is refused: %v", err)
			}
			for _, o := range t {
				if o.Direction != operations.Export {
					continue
				}
				e.Step(1)
				if got := imports[o.Type-operations.RequestResponse](h, o.Namespace, o.Operation); got != o.Index {
					e.Fail("table-index", "%v %s %s is found under index %d, exported as %d", o.Type, o.Namespace, o.Operation, got, o.Index)
				}
			}
		})
	}
	for i, a := range entries {
		a.Index = 7
		check(operations.Table{a})
		for j, b := range entries {
			if i == j {
				continue
			}
			b.Index = 5
			check(operations.Table{a, b})
			for k, c := range entries {
				if k == i || k == j {
					continue
				}
				c.Index = 300
				check(operations.Table{a, b, c})
			}
		}
	}
}

func main() {
	hx.Main("C26", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions, "the network is replaced by byte queues in memory: what is written arrives in order, in pieces of any size")
		os.Unsetenv("RSOCKET_ADDRESS")
		os.Unsetenv("RSOCKET_NETWORK")
		_ = handler.ClientMode
		var all, some []call
		for _, k := range []operations.RequestType{operations.RequestResponse, operations.FireAndForget, operations.RequestStream, operations.RequestChannel} {
			some = append(some, call{kind: k, op: "echo"})
			all = append(all, call{kind: k, op: "echo"})
			if k == operations.RequestResponse {
				all = append(all, call{kind: k, op: "relay"})
			}
			if k == operations.RequestResponse || k == operations.RequestStream {
				all = append(all, call{kind: k, op: "fail"})
			}
		}
		hanging := []call{{kind: operations.RequestResponse, op: "hang"}, {kind: operations.RequestStream, op: "hang"}, {kind: operations.RequestChannel, op: "hang"}}
		run := func(e *hx.E, bound int, sc scene) {
			e.Case(sc.String, func() {
				e.Sched(vrt.Config{Bound: bound, Delay: true}, func() { play(sc) })
			})
		}
		s.Enum("one call", 16, func(e *hx.E) {
			for _, c := range all {
				for _, connect := range []bool{true, false} {
					run(e, hx.Pick(s, 1, 2), scene{clients: 1, connect: connect, calls: []call{c}})
				}
				run(e, hx.Pick(s, 1, 2), scene{clients: 1, back: []call{c}})
			}
		})
		s.Enum("calls both ways", 16, func(e *hx.E) {
			for _, c := range all {
				for _, d := range some {
					run(e, hx.Pick(s, 1, 2), scene{clients: 1, calls: []call{c}, back: []call{d}})
				}
			}
		})
		s.Enum("the end at any time", 32, func(e *hx.E) {
			for _, end := range []string{"cut", "client closes", "client cancels", "server closes", "cancel"} {
				for _, c := range append(append([]call{}, some...), hanging...) {
					connect := end != "client closes" && end != "client cancels"
					for at := 0; at <= 40; at++ {
						bound := hx.Pick(s, at%4/3, 2)
						run(e, bound, scene{clients: 1, connect: connect, calls: []call{c}, end: end, at: at})
						run(e, bound, scene{clients: 1, back: []call{c}, end: end, at: at})
					}
				}
			}
		})
		s.Enum("several applications", 32, func(e *hx.E) {
			for _, c := range append(append([]call{}, some...), hanging...) {
				for _, connect := range []bool{true, false} {
					if c.op != "hang" {
						run(e, hx.Pick(s, 1, 2), scene{clients: 2, connect: connect, calls: []call{c}, blocking: true})
					}
					run(e, hx.Pick(s, 1, 2), scene{clients: 2, connect: connect, calls: []call{c}})
				}
				run(e, hx.Pick(s, 1, 2), scene{clients: 2, back: []call{c}, calls: some[:1]})
				run(e, hx.Pick(s, 0, 1), scene{clients: 3, back: []call{c}})
			}
		})
		s.Enum("one of several ends", 32, func(e *hx.E) {
			for _, end := range []string{"cut", "client closes"} {
				for _, c := range append(append([]call{}, some[2:]...), hanging...) {
					for at := 0; at <= 50; at++ {
						run(e, hx.Pick(s, 0, 1), scene{clients: 2, connect: end == "cut", calls: []call{c}, end: end, at: at})
						run(e, hx.Pick(s, 0, 1), scene{clients: 2, back: []call{c}, end: end, at: at})
					}
				}
			}
		})
		s.Enum("many calls", 32, func(e *hx.E) {
			for _, c := range some {
				for _, d := range some {
					for _, connect := range []bool{true, false} {
						run(e, hx.Pick(s, 1, 2), scene{clients: 1, connect: connect, calls: []call{c, d, c}, blocking: true})
						run(e, hx.Pick(s, 1, 2), scene{clients: 1, connect: connect, calls: []call{c, d, c}})
					}
					run(e, hx.Pick(s, 1, 2), scene{clients: 1, back: []call{c, d, c, d}})
				}
			}
		})
		s.Enum("the network's pieces", 32, func(e *hx.E) {
			for _, c := range some {
				for _, size := range []int{0, 1, 100, 1500, 5000} {
					c.size = size
					for _, p := range [][2]int{{0, 1}, {1, 0}, {7, 3}, {64, 0}, {0, 17}, {512, 300}, {0, 4096}} {
						if (p[0] == 1 || p[1] == 1 || p[0] == 7) && size > 100 {
							continue // only longer
						}
						run(e, hx.Pick(s, 0, 1), scene{clients: 1, calls: []call{c}, back: []call{c}, cap: p[0], chunk: p[1]})
						run(e, hx.Pick(s, 0, 1), scene{clients: 1, connect: true, calls: []call{c}, cap: p[0], chunk: p[1]})
					}
				}
			}
		})
		s.Enum("other applications' tables", 16, tables)
		s.Enum("the place", 1, func(e *hx.E) {
			for _, addr := range []string{"", ":1234", "localhost:7879", "nowhere"} {
				for _, connect := range []bool{true, false} {
					run(e, 1, scene{clients: 1, connect: connect, calls: some[:1], addr: addr})
				}
			}
		})
	})
}
