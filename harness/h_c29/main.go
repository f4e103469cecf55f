// C29: typed clients, handlers and components carry values faithfully.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	tcp "github.com/nanobus/iota/go/example/greeter"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/mpref"
	"github.com/nanobus/iota/go/internal/zzverif/peers"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/transport/wasmrs/example"
	cconcat "github.com/nanobus/iota/go/transport/wasmrs/example/concat"
	cgreeter "github.com/nanobus/iota/go/transport/wasmrs/example/greeter"
	"github.com/nanobus/iota/go/transport/wasmrs/example/wordfrequency"
	mconcat "github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/concat"
	mcustomer "github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/customer"
	mgreeting "github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/greeting"
)

// what the handlers do in the current run
var W struct {
	unary   func(svc string, args ...string) mono.Mono[string]
	counter func(to uint64) flux.Flux[string]
	upper   func(in flux.Flux[string]) flux.Flux[string]
}

type tcpGreeter struct{}

func (tcpGreeter) SayHello(ctx context.Context, a, b string) mono.Mono[string] {
	return W.unary("tcp", a, b)
}

func init() {
	example.RegisterSayHello(func(ctx context.Context, a, b string) mono.Mono[string] { return W.unary("example", a, b) })
	tcp.RegisterGreeter(tcpGreeter{}) // the same name, exported again
	mgreeting.RegisterSayHello(func(ctx context.Context, n string) mono.Mono[string] { return W.unary("greeting", n) })
	mconcat.RegisterConcat(func(ctx context.Context, a, b string) mono.Mono[string] { return W.unary("concat", a, b) })
	mcustomer.RegisterNewCustomer(func(ctx context.Context, c *mcustomer.Customer) mono.Mono[string] {
		return W.unary("customer", c.FirstName, c.LastName)
	})
	example.RegisterCounter(func(ctx context.Context, to uint64) flux.Flux[string] { return W.counter(to) })
	example.RegisterUppercase(func(ctx context.Context, in flux.Flux[string]) flux.Flux[string] { return W.upper(in) })
	cconcat.Register()
	cgreeter.Register()
	wordfrequency.Register()
}

// link finds operations in the table that the process advertises; skip passes over some of the same name
type link struct {
	invoke.Caller
	skip int
}

func (l link) find(t operations.RequestType, ns, op string) uint32 {
	n := l.skip
	for _, o := range invoke.GetOperationsTable() {
		if o.Type == t && o.Direction == operations.Export && o.Namespace == ns && o.Operation == op {
			if n == 0 {
				return o.Index
			}
			n--
		}
	}
	vrt.Fail("not-exported", "%s.%s is not exported", ns, op)
	return 0
}

func (l link) ImportRequestResponse(ns, op string) uint32 {
	return l.find(operations.RequestResponse, ns, op)
}
func (l link) ImportFireAndForget(ns, op string) uint32 {
	return l.find(operations.FireAndForget, ns, op)
}
func (l link) ImportRequestStream(ns, op string) uint32 {
	return l.find(operations.RequestStream, ns, op)
}
func (l link) ImportRequestChannel(ns, op string) uint32 {
	return l.find(operations.RequestChannel, ns, op)
}

type service struct {
	name   string
	ns, op string
	skip   int
	fields []string
	call   func(c invoke.Caller, a []string) mono.Mono[string]
}

func (s *service) meta() []byte {
	return peers.Meta(int(link{nil, s.skip}.ImportRequestResponse(s.ns, s.op)), "")
}

var ctx = context.Background()

var services []service

func init() {
	services = []service{
		{"example", "greeting", "sayHello", 0, []string{"firstName", "lastName"}, func(c invoke.Caller, a []string) mono.Mono[string] {
			return example.NewGreeting(c).SayHello(ctx, a[0], a[1])
		}},
		{"tcp", "greeting", "sayHello", 1, []string{"firstName", "lastName"}, func(c invoke.Caller, a []string) mono.Mono[string] {
			return tcp.NewGreeting(c).SayHello(ctx, a[0], a[1])
		}},
		{"greeting", "greeting.v1", "sayHello", 0, []string{"name"}, func(c invoke.Caller, a []string) mono.Mono[string] {
			mgreeting.Initialize(c)
			return mgreeting.SayHello(ctx, a[0])
		}},
		{"concat", "concat.v1", "concat", 0, []string{"left", "right"}, func(c invoke.Caller, a []string) mono.Mono[string] {
			mconcat.Initialize(c)
			return mconcat.Concat(ctx, a[0], a[1])
		}},
		{"customer", "flow.v1", "flow", 0, []string{"firstName", "lastName"}, func(c invoke.Caller, a []string) mono.Mono[string] {
			// there is no client of this one
			c0 := &mcustomer.Customer{FirstName: a[0], LastName: a[1]}
			var size msgpack.Sizer
			if err := c0.Encode(&size); err != nil {
				return mono.Error[string](err)
			}
			b := make([]byte, size.Len())
			enc := msgpack.NewEncoder(b)
			if err := c0.Encode(&enc); err != nil {
				return mono.Error[string](err)
			}
			m := c.RequestResponse(ctx, payload.New(b, peers.Meta(int(c.ImportRequestResponse("flow.v1", "flow")), "")))
			return mono.Map(m, transform.String.Decode)
		}},
	}
}

func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q... (%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// answer is what a handler does
type answer struct {
	value string
	fail  string
	later bool
}

func (a answer) String() string {
	return fmt.Sprintf("%s fail %q later %v", short(a.value), a.fail, a.later)
}

func (a answer) mono() mono.Mono[string] {
	if !a.later {
		if a.fail != "" {
			return mono.Error[string](errors.New(a.fail))
		}
		return mono.Just(a.value)
	}
	p := mono.NewProcessor[string]()
	vrt.GoNamed("answer", func() {
		if a.fail != "" {
			p.Error(errors.New(a.fail))
		} else {
			p.Success(a.value)
		}
	})
	return p
}

type call struct {
	svc  int
	args []string
	ans  answer
	rev  bool

	runs, ends int
	got        string
	err        error
}

func (c call) String() string {
	s := services[c.svc].name + "("
	for _, a := range c.args {
		s += short(a) + " "
	}
	return s + ") -> " + c.ans.String() + fmt.Sprint(" rev ", c.rev)
}

func over(a, b *peers.Peer) {
	for _, p := range []*peers.Peer{a, b} {
		if n := p.Open(); n != 0 {
			vrt.Fail("left", "%d streams are still open at %s; frames: %q %q", n, p.Name, a.Sent, b.Sent)
		}
		if len(p.Errs) > 0 {
			vrt.Fail("handle-error", "%s could not handle a frame: %v", p.Name, p.Errs[0])
		}
	}
	if bl := vrt.Blocked(); len(bl) > 0 {
		vrt.Fail("left-threads", "threads stay behind: %q", bl)
	}
}

// calls are made one after the other without waiting
func calls(cs ...call) {
	a, b := peers.New()
	W.unary = func(svc string, args ...string) mono.Mono[string] {
		for i := range cs {
			c := &cs[i]
			if services[c.svc].name == svc && fmt.Sprint(len(args), args) == fmt.Sprint(len(c.args), c.args) {
				c.runs++
				return c.ans.mono()
			}
		}
		vrt.Fail("wrong-args", "the handler of %s got %d arguments %s", svc, len(args), short(strings.Join(args, "|")))
		return nil
	}
	for i := range cs {
		c := &cs[i]
		from := a
		if c.rev {
			from = b
		}
		vrt.GoNamed(fmt.Sprint("call ", i+1), func() {
			s := &services[c.svc]
			s.call(link{from.H, s.skip}, c.args).Subscribe(mono.Subscribe[string]{
				OnSuccess: func(v string) { c.got = v },
				OnError:   func(err error) { c.err = err },
				Finally:   func(rx.SignalType) { c.ends++ },
			})
		})
	}
	vrt.Quiesce()
	for i := range cs {
		c := &cs[i]
		if c.runs != 1 || c.ends != 1 {
			vrt.Fail("runs", "call %d: the handler ran %d times and the call has %d ends", i+1, c.runs, c.ends)
		}
		switch {
		case c.ans.fail != "":
			if c.err == nil || c.err.Error() != c.ans.fail {
				vrt.Fail("wrong-error", "call %d: %v and %s instead of the error %q", i+1, c.err, short(c.got), c.ans.fail)
			}
		case c.err != nil || c.got != c.ans.value:
			vrt.Fail("wrong-answer", "call %d: %s, %v instead of %s", i+1, short(c.got), c.err, short(c.ans.value))
		}
	}
	over(a, b)
}

// request gives bytes to the handler of a service; they are judged by the reference parser
func request(e *hx.E, s *service, b []byte) {
	runs := 0
	var args []string
	W.unary = func(svc string, a ...string) mono.Mono[string] {
		if svc != s.name {
			e.Fail("wrong-service", "the handler of %s ran for %s", svc, s.name)
		}
		runs++
		args = a
		return mono.Just("done")
	}
	h := invoke.GetRequestResponseHandler(link{nil, s.skip}.ImportRequestResponse(s.ns, s.op))
	var got payload.Payload
	var err error
	ends := 0
	h(ctx, payload.New(b[:len(b):len(b)])).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { got = p },
		OnError:   func(e error) { err = e },
		Finally:   func(rx.SignalType) { ends++ },
	})
	e.Step(1)
	show := b
	if len(show) > 60 {
		show = show[:60]
	}
	e.Check(ends == 1, "ends", "%s %x: the result has %d ends", s.name, show, ends)
	v, n, st := mpref.Parse(b)
	if st != mpref.OK {
		if bytes.IndexByte(b, 0x91) >= 0 || bytes.IndexByte(b, 0x92) >= 0 {
			return // strings may also be written like arrays of bytes
		}
		e.Check(runs == 0 && err != nil, "malformed-accepted", "%s: the request %x (%d bytes) is %v, but the handler ran %d times with %q, error %v", s.name, show, len(b), st, runs, args, err)
		return
	}
	_ = n
	want := make([]string, len(s.fields))
	valid := v.K == mpref.Map
	if valid {
		for i := 0; i+1 < len(v.Elems); i += 2 {
			k, x := v.Elems[i], v.Elems[i+1]
			if k.K != mpref.Str {
				valid = false
				break
			}
			for j, f := range s.fields {
				if f == string(k.S) {
					want[j] = string(x.S)
					valid = valid && x.K == mpref.Str
				}
			}
		}
	}
	if !valid {
		if v.K != mpref.Map && v.K != mpref.Nil {
			e.Check(runs == 0 && err != nil, "malformed-accepted", "%s: the request %x is no map, but the handler ran %d times with %q, error %v", s.name, show, runs, args, err)
		}
		return
	}
	e.Check(runs == 1 && err == nil && got != nil, "valid-refused", "%s: the request %x: the handler ran %d times, error %v", s.name, show, runs, err)
	e.Check(fmt.Sprint(len(args), args) == fmt.Sprint(len(want), want), "wrong-args", "%s: the request %x: the handler got %q, want %q", s.name, show, args, want)
	r, err := transform.String.Decode(got)
	e.Check(err == nil && r == "done", "wrong-answer", "%s: %q, %v", s.name, r, err)
}

func str(s string) []byte {
	switch {
	case len(s) < 32:
		return append([]byte{0xa0 | byte(len(s))}, s...)
	case len(s) < 256:
		return append([]byte{0xd9, byte(len(s))}, s...)
	}
	return append([]byte{0xda, byte(len(s) >> 8), byte(len(s))}, s...)
}

// items of a stream of strings
type items struct {
	values []string
	fail   string
	later  bool
}

func (s items) String() string {
	return fmt.Sprintf("%d items, fail %q, later %v", len(s.values), s.fail, s.later)
}

type run struct {
	items
	subs, requested, emitted, canceled int
	ended                              bool
}

func (s *run) flux() flux.Flux[string] {
	return flux.Create(func(sink flux.Sink[string]) {
		s.subs++
		end := func() {
			if s.ended {
				return
			}
			s.ended = true
			if s.fail != "" {
				sink.Error(errors.New(s.fail))
			} else {
				sink.Complete()
			}
		}
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				s.requested += n
				if s.later {
					return
				}
				for s.emitted < len(s.values) && s.emitted < s.requested && s.canceled == 0 {
					s.emitted++
					sink.Next(s.values[s.emitted-1])
				}
				if s.emitted == len(s.values) {
					end()
				}
			},
			Cancel: func() { s.canceled++ },
		})
		if s.later {
			vrt.GoNamed("source", func() {
				for s.emitted < len(s.values) {
					vrt.Block("demand", func() bool { return s.emitted < s.requested || s.canceled > 0 })
					if s.canceled > 0 {
						return
					}
					s.emitted++
					sink.Next(s.values[s.emitted-1])
				}
				end()
			})
		}
	})
}

// sub receives a stream of strings
type sub struct {
	demand int // at a time
	stop   int // cancels after so many, -1 never
	got    []string
	asked  int
	err    error
	done   bool
	ends   int
	f      flux.Flux[string]
}

func (r *sub) to(f flux.Flux[string]) {
	r.f = f
	f.Subscribe(flux.Subscribe[string]{
		OnNext: func(v string) {
			r.got = append(r.got, v)
			if len(r.got) > r.asked {
				vrt.Fail("overdrawn", "%d items arrived but %d were requested", len(r.got), r.asked)
			}
			if len(r.got) == r.stop {
				f.Subscription().Cancel()
			}
		},
		OnComplete: func() { r.done = true },
		OnError:    func(err error) { r.err = err },
		OnRequest: func(s rx.Subscription) {
			r.asked += r.demand
			s.Request(r.demand)
		},
		Finally: func(rx.SignalType) { r.ends++ },
	})
}

// judge compares what has arrived with what the other side produced
func (r *sub) judge(s *run, f func(string) string) {
	if r.ends != 1 {
		vrt.Fail("no-end", "the receiver has %d ends after %d items of %d", r.ends, len(r.got), len(s.values))
	}
	for i, v := range r.got {
		if i >= len(s.values) || v != f(s.values[i]) {
			vrt.Fail("wrong-item", "item %d is %s", i+1, short(v))
		}
	}
	if r.stop >= 0 && r.stop <= len(s.values) {
		if len(r.got) != r.stop {
			vrt.Fail("after-cancel", "%d items arrived, although cancelled after %d", len(r.got), r.stop)
		}
		if s.canceled == 0 && !s.ended {
			vrt.Fail("source-not-canceled", "the source was not cancelled")
		}
		return
	}
	if len(r.got) != len(s.values) || s.fail == "" && !r.done || s.fail != "" && (r.err == nil || r.err.Error() != s.fail) {
		vrt.Fail("lost", "%d items of %d, complete %v, error %v; the source ends with error %q", len(r.got), len(s.values), r.done, r.err, s.fail)
	}
}

func same(s string) string { return s }

func counter(to uint64, it items, r sub, rev bool) {
	a, b := peers.New()
	from := a
	if rev {
		from = b
	}
	s := &run{items: it}
	runs := 0
	W.counter = func(n uint64) flux.Flux[string] {
		runs++
		if n != to {
			vrt.Fail("wrong-args", "the handler got %d instead of %d", n, to)
		}
		return s.flux()
	}
	r.to(example.NewCounter(link{Caller: from.H}).CountToN(ctx, to))
	vrt.Quiesce()
	if runs != 1 {
		vrt.Fail("runs", "the handler ran %d times", runs)
	}
	r.judge(s, same)
	over(a, b)
}

func upper(it items, inner int, r sub, rev bool) {
	a, b := peers.New()
	from := a
	if rev {
		from = b
	}
	s := &run{items: it}
	runs := 0
	W.upper = func(in flux.Flux[string]) flux.Flux[string] {
		runs++
		if inner == 0 {
			return flux.Map(in, func(s string) (string, error) { return strings.ToUpper(s), nil })
		}
		return flux.Create(func(sink flux.Sink[string]) {
			in.Subscribe(flux.Subscribe[string]{
				OnNext:     func(v string) { sink.Next(strings.ToUpper(v)) },
				OnComplete: func() { sink.Complete() },
				OnError:    func(err error) { sink.Error(err) },
				OnRequest:  func(s rx.Subscription) { s.Request(inner) },
			})
		})
	}
	r.to(example.NewUppercase(link{Caller: from.H}).Uppercase(ctx, s.flux()))
	vrt.Quiesce()
	if runs != 1 {
		vrt.Fail("runs", "the handler ran %d times", runs)
	}
	r.judge(s, strings.ToUpper)
	over(a, b)
}

// message of a port
type message struct {
	port       string
	data       []byte
	next, done bool
}

func (m message) payload() payload.Payload {
	p := invoke.PortIO{Port: m.port, Next: m.next, Complete: m.done}
	return payload.New(m.data, p.Encode())
}

// component gives messages to a component through a channel, and what it answers to judge
func component(ns, op string, msgs []message, later, rev bool, judge func(out []message, err error)) {
	a, b := peers.New()
	from := a
	if rev {
		from = b
	}
	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
		sent, want, stop := 0, 0, false
		push := func() {
			for sent < len(msgs) && sent < want && !stop {
				sent++
				sink.Next(msgs[sent-1].payload())
			}
			if sent == len(msgs) && !stop {
				stop = true
				sink.Complete()
			}
		}
		sink.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
			want += n
			if !later {
				push()
			}
		}, Cancel: func() { stop = true }})
		if later {
			vrt.GoNamed("inputs", func() {
				for !stop {
					vrt.Block("demand", func() bool { return sent < want || stop })
					push()
				}
			})
		}
	})
	var out []message
	var err error
	ends := 0
	op0 := link{Caller: from.H}.ImportRequestChannel(ns, op)
	from.H.RequestChannel(ctx, payload.New(nil, peers.Meta(int(op0), "")), in).Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			var io invoke.PortIO
			if err := io.Decode(p.Metadata()); err != nil {
				vrt.Fail("port", "an answer is not a port message: %v", err)
			}
			out = append(out, message{io.Port, p.Data(), io.Next, io.Complete})
		},
		OnError: func(e error) { err = e },
		Finally: func(rx.SignalType) { ends++ },
	})
	vrt.Quiesce()
	if ends != 1 {
		vrt.Fail("no-end", "the component's answer has %d ends after %d messages; frames %q %q", ends, len(out), a.Sent, b.Sent)
	}
	judge(out, err)
}

func enc(s string) []byte {
	p, err := transform.String.Encode(s)
	if err != nil {
		vrt.Fail("encode", "%v", err)
	}
	return p.Data()
}

// one message on a port with the string
func one(port, value string) func(out []message, err error) {
	return func(out []message, err error) {
		if err != nil || len(out) != 1 || out[0].port != port || !out[0].next || !out[0].done {
			vrt.Fail("port", "the component answers %v, %v", out, err)
		}
		if s, err := transform.String.Decode(payload.New(out[0].data)); err != nil || s != value {
			vrt.Fail("wrong-value", "the component answers %s, %v instead of %s", short(s), err, short(value))
		}
	}
}

var ignored = map[string]bool{"i": true, "the": true, "and": true, "to": true, "of": true, "a": true, "my": true, "in": true, "you": true, "is": true, "that": true}

func frequencies(words []string) string {
	m := map[string]uint64{}
	for _, w := range words {
		if w = strings.ToLower(w); !ignored[w] {
			m[w]++
		}
	}
	var l []string
	for w, n := range m {
		l = append(l, fmt.Sprintf("%q %d", w, n))
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func judgeCounts(l []wordfrequency.WordCount, words []string) {
	var s []string
	for i, c := range l {
		if i > 0 && l[i-1].Count < c.Count {
			vrt.Fail("order", "%q (%d) comes after %q (%d)", c.Word, c.Count, l[i-1].Word, l[i-1].Count)
		}
		s = append(s, fmt.Sprintf("%q %d", c.Word, c.Count))
	}
	sort.Strings(s)
	if g, w := strings.Join(s, ", "), frequencies(words); g != w {
		vrt.Fail("counts", "the counts are %s instead of %s", g, w)
	}
}

func counts(words []string) func(out []message, err error) {
	return func(out []message, err error) {
		if err != nil || len(out) == 0 {
			vrt.Fail("port", "the component answers %v, %v", out, err)
		}
		var l []wordfrequency.WordCount
		for i, m := range out {
			last := i == len(out)-1
			if m.port != "counts" || m.next == last || m.done != last {
				vrt.Fail("port", "message %d of %d: port %q, next %v, complete %v", i+1, len(out), m.port, m.next, m.done)
			}
			if !last {
				var c wordfrequency.WordCount
				if err := transform.CodecDecode(payload.New(m.data), &c); err != nil {
					vrt.Fail("counts", "message %d: %v", i+1, err)
				}
				l = append(l, c)
			}
		}
		judgeCounts(l, words)
	}
}

// direct use of the word frequency component
func wordsDirect(words []string, demand int) {
	in, out := flux.NewProcessor[string](), flux.NewProcessor[wordfrequency.WordCount]()
	c := wordfrequency.WordFrequency{Input: wordfrequency.WordFrequencyInputs{Words: in}, Output: wordfrequency.WordFrequencyOutputs{Counts: out}}
	c.Process(ctx)
	var l []wordfrequency.WordCount
	asked, done := 0, 0
	out.Subscribe(flux.Subscribe[wordfrequency.WordCount]{
		OnNext: func(c wordfrequency.WordCount) {
			l = append(l, c)
			if len(l) > asked {
				vrt.Fail("overdrawn", "%d counts arrived but %d were requested", len(l), asked)
			}
		},
		OnRequest: func(s rx.Subscription) {
			asked += demand
			s.Request(demand)
		},
		OnComplete: func() { done++ },
	})
	for _, w := range words {
		in.Next(w)
	}
	in.Complete()
	vrt.Quiesce()
	if done != 1 {
		vrt.Fail("no-end", "the counts completed %d times after %d", done, len(l))
	}
	judgeCounts(l, words)
}

func texts() []string {
	t := []string{"", "a", "Ärger", "\x00\xff\xfe", "name", "firstName"}
	for _, n := range []int{31, 32, 255, 256, 65535, 65536} {
		t = append(t, strings.Repeat("x", n-1)+"y")
	}
	return t
}

func main() {
	hx.Main("C29", func(s *hx.Suite) {
		s.Assumptions = []string{"connections deliver frames in order and whole", "sequentially consistent memory"}
		s.Enum("calls", 8, func(e *hx.E) {
			for i := range services {
				for x, a := range texts() {
					for y, b := range texts() {
						if len(services[i].fields) == 1 && y > 0 {
							continue
						}
						for k := 0; k < 4; k++ {
							c := call{svc: i, args: []string{a, b}[:len(services[i].fields)], rev: (x+y+k)%2 == 1}
							c.ans = answer{value: a + "/" + b, later: k&1 != 0}
							if k&2 != 0 {
								c.ans.fail = "boom " + fmt.Sprint(x, y)
							}
							e.Case(func() string { return fmt.Sprint(c) }, func() {
								e.Sched(vrt.Config{Delay: true, Bound: 0}, func() { calls(c) })
							})
						}
					}
				}
			}
		})
		s.Enum("overlapping calls", 8, func(e *hx.E) {
			for i := range services {
				for j := range services {
					for k := 0; k < 16; k++ {
						c := call{svc: i, args: []string{"one", "two"}[:len(services[i].fields)], ans: answer{value: "1", later: k&1 != 0}, rev: k&4 != 0}
						d := call{svc: j, args: []string{"three", "four"}[:len(services[j].fields)], ans: answer{value: "2", later: k&2 != 0, fail: "boom"}, rev: k&8 != 0}
						e.Case(func() string { return fmt.Sprint(c, " and ", d) }, func() {
							e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 2)}, func() { calls(c, d) })
						})
					}
				}
			}
		})
		s.Enum("requests", 8, func(e *hx.E) { requests(s, e) })
		strs := [][]string{{}, {""}, {"a"}, {"a", "b"}, {"x\x00", "", strings.Repeat("z", 300)}}
		var its []items
		for _, v := range strs {
			for k := 0; k < 4; k++ {
				it := items{values: v, later: k&1 != 0}
				if k&2 != 0 {
					it.fail = "boom"
				}
				its = append(its, it)
			}
		}
		s.Enum("streams", 8, func(e *hx.E) {
			for i, to := range []uint64{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
				for j, it := range its {
					for _, d := range []int{1, 2, rx.RequestMax} {
						for stop := -1; stop < 3; stop++ {
							if stop == 0 {
								continue
							}
							to, it, r, rev := to, it, sub{demand: d, stop: stop}, (i+j)%2 == 1
							bound := hx.Pick(s, 0, 1)
							if i < 2 {
								bound++
							}
							e.Case(func() string { return fmt.Sprint("to ", to, ", ", it, ", demand ", d, ", cancels at ", r.stop) }, func() {
								e.Sched(vrt.Config{Delay: true, Bound: bound}, func() { counter(to, it, r, rev) })
							})
						}
					}
				}
			}
		})
		s.Enum("channels", 8, func(e *hx.E) {
			for _, it := range its {
				for _, d := range []int{1, 2, rx.RequestMax} {
					for _, inner := range []int{0, 1, 2, rx.RequestMax} {
						if inner > 0 && d != rx.RequestMax {
							continue // the handler does not look at the demand
						}
						for _, rev := range []bool{false, true} {
							it, inner, r, rev := it, inner, sub{demand: d, stop: -1}, rev
							e.Case(func() string { return fmt.Sprint(it, ", demand ", d, ", handler's demand ", inner, ", rev ", rev) }, func() {
								e.Sched(vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 2)}, func() { upper(it, inner, r, rev) })
							})
						}
					}
				}
			}
		})
		s.Enum("components", 8, func(e *hx.E) { components(s, e) })
	})
}

func requests(s *hx.Suite, e *hx.E) {
	alpha := []byte{0x00, 0x80, 0x81, 0x82, 0xa0, 0xa1, 'a', 0xc0, 0xc1, 0xc4, 0xd9, 0xde, 0xdf, 0xff, 0x91}
	for i := range services {
		sv := &services[i]
		for _, first := range alpha {
			first := first
			e.Case(func() string { return fmt.Sprintf("%s, bytes from %x", sv.name, first) }, func() {
				var rec func(b []byte, max int)
				rec = func(b []byte, max int) {
					request(e, sv, b)
					if len(b) < max {
						for _, c := range alpha {
							rec(append(b[:len(b):len(b)], c), max)
						}
					}
				}
				rec([]byte{first}, hx.Pick(s, 4, 5))
			})
		}
		// maps of every order of fields, known, unknown and repeated, with values of several kinds, whole and cut
		keys := append(append([]string{}, sv.fields...), "other", "")
		vals := [][]byte{str(""), str("v"), str(strings.Repeat("w", 40)), {0xc0}, {0x05}, {0x92, 0x01, 0xa1, 'x'}, {0x81, 0xa1, 'k', 0xc3}}
		for _, k1 := range keys {
			for _, k2 := range append(keys, "-") {
				k1, k2 := k1, k2
				e.Case(func() string { return fmt.Sprintf("%s, fields %q and %q", sv.name, k1, k2) }, func() {
					for _, v1 := range vals {
						for _, v2 := range vals {
							for _, h := range [][]byte{{0x80}, {0xde, 0, 0}, {0xdf, 0, 0, 0, 0}} {
								b := append([]byte{}, h...)
								n := byte(2)
								if k2 == "-" {
									n = 1
								}
								b[len(b)-1] |= n
								b = append(append(b, str(k1)...), v1...)
								if n == 2 {
									b = append(append(b, str(k2)...), v2...)
								}
								request(e, sv, b)
								if h[0] == 0x80 || s.Thorough() {
									for c := 0; c < len(b); c++ {
										request(e, sv, b[:c])
									}
								}
							}
						}
					}
				})
			}
		}
	}
}

func components(s *hx.Suite, e *hx.E) {
	cfg := func(extra int) vrt.Config { return vrt.Config{Delay: true, Bound: hx.Pick(s, 0, 1) + extra} }
	for k := 0; k < 4; k++ {
		later, rev := k&1 != 0, k&2 != 0
		for _, a := range texts() {
			for _, b := range texts() {
				if len(a)+len(b) > 1000 && later {
					continue
				}
				a, b := a, b
				e.Case(func() string { return fmt.Sprint("concat ", short(a), " ", short(b), ", later ", later, ", rev ", rev) }, func() {
					c := cfg(0)
					if len(a)+len(b) < 3 {
						c = cfg(1)
					}
					e.Sched(c, func() {
						p, err := transform.CodecEncode(&cconcat.Strings{Left: a, Right: b})
						if err != nil {
							vrt.Fail("encode", "%v", err)
						}
						component("concat", "Concat", []message{{"strings", p.Data(), true, true}}, later, rev, one("value", a+" "+b))
					})
				})
			}
			a := a
			e.Case(func() string { return fmt.Sprint("greeter ", short(a), ", later ", later, ", rev ", rev) }, func() {
				e.Sched(cfg(1), func() {
					component("greeter", "Greeter", []message{{"name", enc(a), true, true}}, later, rev, one("message", "Hello, "+a))
				})
			})
		}
		alpha := []string{"x", "X", "the", "y", ""}
		var rec func(ws []string)
		rec = func(ws []string) {
			words := append([]string{}, ws...)
			for fin := 0; fin < 3; fin++ { // how the words end: with the channel, with the last word, with a message of their own
				if fin == 1 && len(words) == 0 {
					continue
				}
				fin := fin
				e.Case(func() string { return fmt.Sprintf("words %q, end %d, later %v, rev %v", words, fin, later, rev) }, func() {
					c := cfg(0)
					if len(words) < 2 {
						c = cfg(1)
					}
					e.Sched(c, func() {
						var ms []message
						for i, w := range words {
							ms = append(ms, message{"words", enc(w), true, fin == 1 && i == len(words)-1})
						}
						if fin == 2 {
							ms = append(ms, message{"words", nil, false, true})
						}
						component("wordfrequency", "WordFrequency", ms, later, rev, counts(words))
					})
				})
			}
			if k == 0 {
				for _, d := range []int{1, 2, 100} {
					d := d
					e.Case(func() string { return fmt.Sprintf("words %q, demand %d", words, d) }, func() {
						e.Sched(cfg(0), func() { wordsDirect(words, d) })
					})
				}
			}
			if len(ws) < hx.Pick(s, 3, 4) {
				for _, w := range alpha {
					rec(append(ws[:len(ws):len(ws)], w))
				}
			}
		}
		rec(nil)
	}
}
