// C17: a misbehaving peer cannot crash or confuse the other side.
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/peers"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// Streams that are open when the peer starts to misbehave.  The peer is a client.
const (
	rrIn  = 1 // requests of the peer
	rsIn  = 3
	rcIn  = 5
	endIn = 7 // has ended
	fresh = 9
	rrOut = 2 // requests to the peer
	rsOut = 4
	rcOut = 6
	rrEnd = 8 // has ended
	rsEnd = 10
	last  = 101
)

var ids = []uint32{0, rrIn, rsIn, rcIn, endIn, fresh, rrOut, rsOut, rcOut, rrEnd, rsEnd}

type named struct {
	name string
	id   uint32
	make func() frames.Frame
}

func request(t frames.FrameType, id uint32, op int, n uint32, data string) frames.Frame {
	return &frames.RequestPayload{FrameType: t, StreamID: id, Metadata: peers.Meta(op, "m"), Data: []byte(data), InitialN: n}
}

var types = map[string]frames.FrameType{"rr": frames.FrameTypeRequestResponse, "fnf": frames.FrameTypeRequestFNF, "rs": frames.FrameTypeRequestStream, "rc": frames.FrameTypeRequestChannel}

// all frames, for all streams; a small selection if few
func alphabet(few bool) (a []named) {
	for _, id := range ids {
		id := id
		if few && (id == 0 || id == endIn || id == rsEnd || id == rrIn) {
			continue
		}
		add := func(name string, f func() frames.Frame) {
			a = append(a, named{fmt.Sprint(name, " ", id), id, f})
		}
		for _, k := range []string{"rr", "fnf", "rs", "rc"} {
			t := types[k]
			if few && k == "fnf" {
				continue
			}
			add(k, func() frames.Frame { return request(t, id, 0, 1, "adv") })
			if few {
				continue
			}
			add(k+" later", func() frames.Frame { return request(t, id, 1, 1, "adv") })
			add(k+" unknown", func() frames.Frame { return request(t, id, 99, 1, "adv") })
			add(k+" bad metadata", func() frames.Frame {
				return &frames.RequestPayload{FrameType: t, StreamID: id, Metadata: []byte{0, 0, 0}, InitialN: 1}
			})
			add(k+" no metadata, follows", func() frames.Frame {
				return &frames.RequestPayload{FrameType: t, StreamID: id, InitialN: 0, Follows: true}
			})
		}
		add("request-n 1", func() frames.Frame { return &frames.RequestN{StreamID: id, N: 1} })
		add("cancel", func() frames.Frame { return &frames.Cancel{StreamID: id} })
		add("next", func() frames.Frame { return &frames.Payload{StreamID: id, Data: []byte("adv"), Next: true} })
		add("complete", func() frames.Frame { return &frames.Payload{StreamID: id, Complete: true} })
		add("error", func() frames.Frame { return &frames.Error{StreamID: id, Data: "adv"} })
		if few {
			continue
		}
		add("request-n 0", func() frames.Frame { return &frames.RequestN{StreamID: id, N: 0} })
		add("request-n max", func() frames.Frame { return &frames.RequestN{StreamID: id, N: 1<<31 - 1} })
		add("next, complete", func() frames.Frame {
			return &frames.Payload{StreamID: id, Data: []byte("adv"), Next: true, Complete: true}
		})
		add("neither", func() frames.Frame { return &frames.Payload{StreamID: id, Data: []byte("adv")} })
		add("fragment", func() frames.Frame {
			return &frames.Payload{StreamID: id, Data: []byte("adv"), Next: true, Follows: true}
		})
	}
	a = append(a, named{"setup", 0, func() frames.Frame { return &frames.Setup{} }})
	a = append(a, named{"setup with another table", 0, func() frames.Frame { return &frames.Setup{Data: table(80).ToBytes()} }})
	if !few {
		a = append(a, named{"setup with a broken table", 0, func() frames.Frame { return &frames.Setup{Data: []byte{1, 2, 3}} }})
	}
	return
}

func table(n uint32) (t operations.Table) {
	for i, k := range []operations.RequestType{operations.RequestResponse, operations.FireAndForget, operations.RequestStream, operations.RequestChannel} {
		t = append(t, operations.Operation{Index: n + uint32(i), Type: k, Direction: operations.Export, Namespace: "peer", Operation: "op"})
	}
	return
}

func run(seq []named, settle, setup bool) {
	peers.W.RR = [peers.Ops]func(*peers.Peer, payload.Payload) mono.Mono[payload.Payload]{}
	b := peers.One("B", handler.ServerMode)
	var sent []frames.Frame
	b.H.SetFrameSender(func(f frames.Frame) error { sent = append(sent, peers.Recode(f)); return nil })
	hit := map[uint32]bool{}
	for _, f := range seq {
		hit[f.id] = true
	}
	bad := func(sig string, id uint32, format string, a ...any) {
		var fs []string
		for _, f := range sent {
			if f.GetStreamID() == id {
				fs = append(fs, peers.Show(f))
			}
		}
		vrt.Fail(sig, "stream %d, which the frames do not address: %s; frames sent %q", id, fmt.Sprintf(format, a...), fs)
	}
	handle := func(f frames.Frame) {
		isSetup := f.Type() == frames.FrameTypeSetup
		if err := b.H.HandleFrame(peers.Recode(f)); err != nil && (!isSetup || setup) {
			vrt.Fail("handle-error", "handling %s failed, which takes the connection down: %v", peers.Show(f), err)
		}
	}
	if setup {
		handle(&frames.Setup{Data: table(70).ToBytes()})
	}
	// operations: 0 answers at once, 1 later
	lateRR := mono.NewProcessor[payload.Payload]()
	peers.W.RR[0] = func(_ *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just[payload.Payload](payload.New(append([]byte("re "), p.Data()...)))
	}
	peers.W.RR[1] = func(_ *peers.Peer, p payload.Payload) mono.Mono[payload.Payload] {
		if string(p.Data()) == "own" {
			return lateRR
		}
		return mono.NewProcessor[payload.Payload]()
	}
	peers.W.FNF[0] = func(*peers.Peer, payload.Payload) {}
	peers.W.FNF[1] = func(*peers.Peer, payload.Payload) {}
	three := func(p payload.Payload) flux.Flux[payload.Payload] {
		var v []payload.Payload
		for i := 1; i <= 3; i++ {
			v = append(v, payload.New([]byte(fmt.Sprint(string(p.Data()), i))))
		}
		return flux.FromSlice(v)
	}
	peers.W.RS[0] = func(_ *peers.Peer, p payload.Payload) flux.Flux[payload.Payload] { return three(p) }
	peers.W.RS[1] = func(_ *peers.Peer, p payload.Payload) flux.Flux[payload.Payload] {
		return flux.NewProcessor[payload.Payload]()
	}
	var consumed []string
	peers.W.RC[0] = func(_ *peers.Peer, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		own := string(p.Data()) == "own"
		in.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext: func(p payload.Payload) {
				if own {
					consumed = append(consumed, string(p.Data()))
				}
			},
			OnComplete: func() {
				if own {
					consumed = append(consumed, "complete")
				}
			},
			OnError: func(error) {},
		})
		return three(p)
	}
	peers.W.RC[1] = func(_ *peers.Peer, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		return in
	}

	// what is open before
	bg := context.Background()
	var got = map[uint32][]string{}
	rr := func(id uint32) {
		b.H.RequestResponse(bg, payload.New([]byte("q"), peers.Meta(0, ""))).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { got[id] = append(got[id], string(p.Data())) },
			OnError:   func(err error) { got[id] = append(got[id], err.Error()) },
		})
	}
	stream := func(id uint32, n int, f flux.Flux[payload.Payload]) {
		first := true
		f.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:     func(p payload.Payload) { got[id] = append(got[id], string(p.Data())) },
			OnComplete: func() { got[id] = append(got[id], "complete") },
			OnError:    func(err error) { got[id] = append(got[id], err.Error()) },
			OnRequest: func(s rx.Subscription) {
				if first {
					first = false
					s.Request(n)
				}
			},
		})
	}
	emitted := 0
	inReq := 0
	var inSink flux.Sink[payload.Payload]
	rr(rrOut)
	stream(rsOut, 5, b.H.RequestStream(bg, payload.New([]byte("q"), peers.Meta(0, ""))))
	stream(rcOut, 5, b.H.RequestChannel(bg, payload.New([]byte("q"), peers.Meta(0, "")), flux.Create(func(s flux.Sink[payload.Payload]) {
		inSink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
			inReq += n
			for emitted < 2 && emitted < inReq {
				emitted++
				s.Next(payload.New([]byte(fmt.Sprint("in", emitted))))
			}
			if emitted == 2 {
				s.Complete()
			}
		}})
	})))
	rr(rrEnd)
	stream(rsEnd, 1, b.H.RequestStream(bg, payload.New([]byte("q"), peers.Meta(0, ""))))
	vrt.Quiesce()
	handle(request(frames.FrameTypeRequestResponse, rrIn, 1, 1, "own"))
	handle(request(frames.FrameTypeRequestStream, rsIn, 0, 1, "own"))
	handle(request(frames.FrameTypeRequestChannel, rcIn, 0, 1, "own"))
	handle(request(frames.FrameTypeRequestStream, endIn, 0, 3, "end"))
	handle(&frames.Payload{StreamID: rrEnd, Data: []byte("x"), Next: true, Complete: true})
	handle(&frames.Error{StreamID: rsEnd, Data: "x"})
	handle(&frames.Payload{StreamID: rsOut, Data: []byte("r1"), Next: true})
	handle(&frames.RequestN{StreamID: rcOut, N: 1})
	handle(&frames.Payload{StreamID: rcIn, Data: []byte("c1"), Next: true})
	if settle {
		vrt.Quiesce()
	}

	// the peer misbehaves
	for _, f := range seq {
		handle(f.make())
		if settle {
			vrt.Quiesce()
		}
	}
	vrt.Quiesce()

	// then it goes on as if nothing had happened
	handle(&frames.Payload{StreamID: rrOut, Data: []byte("answer"), Next: true, Complete: true})
	handle(&frames.Payload{StreamID: rsOut, Data: []byte("r2"), Next: true})
	handle(&frames.Payload{StreamID: rsOut, Complete: true})
	handle(&frames.RequestN{StreamID: rcOut, N: 1})
	handle(&frames.Payload{StreamID: rcOut, Data: []byte("o1"), Next: true})
	handle(&frames.Error{StreamID: rcOut, Data: "o end"})
	handle(&frames.RequestN{StreamID: rsIn, N: 2})
	handle(&frames.Payload{StreamID: rcIn, Data: []byte("c2"), Next: true})
	handle(&frames.Payload{StreamID: rcIn, Complete: true})
	handle(&frames.RequestN{StreamID: rcIn, N: 5})
	handle(request(frames.FrameTypeRequestResponse, last, 0, 1, "last"))
	lateRR.Error(errors.New("late"))
	vrt.Quiesce()
	_ = inSink

	check := func(id uint32, what string, got []string, want string) {
		if !hit[id] && fmt.Sprint(got) != want {
			bad("affected", id, "%s: %q instead of %q", what, got, want)
		}
	}
	if setup {
		var now []uint32
		for _, f := range []func(string, string) uint32{b.H.ImportRequestResponse, b.H.ImportFireAndForget, b.H.ImportRequestStream, b.H.ImportRequestChannel} {
			now = append(now, f("peer", "op"))
		}
		if fmt.Sprint(now) != "[70 71 72 73]" {
			vrt.Fail("operations", "the peer's operations have the indices %v instead of those it announced at first, 70 to 73", now)
		}
	}
	frameList := func(id uint32) (l []string) {
		for _, f := range sent {
			if f.GetStreamID() != id {
				continue
			}
			switch v := f.(type) {
			case *frames.Payload:
				s := string(v.Data)
				if !v.Next {
					s = ""
				}
				if v.Complete {
					s += "."
				}
				l = append(l, s)
			case *frames.Error:
				l = append(l, "error "+v.Data)
			}
		}
		return
	}
	check(rrOut, "answer of a call", got[rrOut], "[answer]")
	check(rsOut, "items of a stream", got[rsOut], "[r1 r2 complete]")
	check(rcOut, "items of a channel", got[rcOut], "[o1 o end]")
	check(rcOut, "items sent in a channel", frameList(rcOut), "[in1 in2 .]")
	check(rrEnd, "answer of a call that had ended", got[rrEnd], "[x]")
	check(rsEnd, "items of a stream that had ended", got[rsEnd], "[x]")
	check(rrIn, "answer to a call", frameList(rrIn), "[error late]")
	check(rsIn, "items sent in a stream", frameList(rsIn), "[own1 own2 own3 .]")
	check(rcIn, "items received in a channel", consumed, "[c1 c2 complete]")
	check(rcIn, "items sent in a channel", frameList(rcIn), "[own1 own2 own3 .]")
	check(endIn, "items sent in a stream that had ended", frameList(endIn), "[end1 end2 end3 .]")
	check(last, "answer to a call made afterwards", frameList(last), "[re last.]")
	reused := false // the peer has reused the stream's id for a request of its own
	for _, f := range seq {
		if _, ok := f.make().(*frames.RequestPayload); ok && f.id == rrOut {
			reused = true
		}
		if t := f.make().Type(); f.id == rrOut && !reused && (t == frames.FrameTypePayload || t == frames.FrameTypeError) && f.name != "neither 2" && len(got[rrOut]) == 0 {
			vrt.Fail("hang", "a call that the peer has ended (%s) does not end", f.name)
		}
	}
	if len(got[rrOut]) > 1 {
		vrt.Fail("answered-twice", "a call has ended with %q", got[rrOut])
	}
	// every new request gets one answer at most
	n := map[uint32]int{}
	reqs := map[uint32]int{}
	for _, f := range seq {
		if f.make().Type() == frames.FrameTypeRequestResponse {
			reqs[f.id]++
		}
	}
	for _, f := range sent {
		if _, ok := f.(*frames.Error); ok {
			n[f.GetStreamID()]++
		} else if p, ok := f.(*frames.Payload); ok && p.Complete {
			n[f.GetStreamID()]++
		}
	}
	var open []uint32
	for id := range n {
		open = append(open, id)
	}
	sort.Slice(open, func(i, j int) bool { return open[i] < open[j] })
	for _, id := range open {
		if id == fresh && n[id] > len(seq) {
			vrt.Fail("too-many-answers", "%d ends were sent for stream %d", n[id], id)
		}
	}
	if len(hit) == 0 {
		if o := b.Open(); o != 0 {
			vrt.Fail("left", "%d streams are still open", o)
		}
	}
	vrt.Outcome("%d", len(sent))
}

func main() {
	hx.Main("C17", func(s *hx.Suite) {
		s.Assumptions = []string{"the peer sends well-formed frames, one after another", "sequentially consistent memory"}
		seqs := func(e *hx.E, a []named, depth int, settle, setup bool, cfg vrt.Config) {
			var rec func(seq []named)
			rec = func(seq []named) {
				if len(seq) == depth {
					seq := append([]named{}, seq...)
					e.Case(func() string {
						d := fmt.Sprint("settle ", settle, ", after setup ", setup)
						for _, f := range seq {
							d += ", " + f.name
						}
						return d
					}, func() { e.Sched(cfg, func() { run(seq, settle, setup) }) })
					return
				}
				for _, f := range a {
					rec(append(seq, f))
				}
			}
			rec(nil)
		}
		all, few := alphabet(false), alphabet(true)
		s.Explore("no frame", vrt.Config{Delay: true, Bound: hx.Pick(s, 2, 3)}, func() { run(nil, false, true) })
		s.Enum("one frame", 8, func(e *hx.E) {
			seqs(e, all, 1, false, true, vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 2)})
			seqs(e, all, 1, true, true, vrt.Config{Delay: true, Bound: hx.Pick(s, 1, 2)})
			seqs(e, all, 1, false, false, vrt.Config{Delay: true, Bound: hx.Pick(s, 0, 1)})
		})
		s.Enum("two frames", 8, func(e *hx.E) {
			seqs(e, all, 2, false, true, vrt.Config{Delay: true})
			seqs(e, all, 2, true, true, vrt.Config{Delay: true})
		})
		s.Enum("two frames, schedules", 8, func(e *hx.E) {
			seqs(e, few, 2, false, true, vrt.Config{Delay: true, Bound: hx.Pick(s, 0, 1)})
		})
		s.Enum("a frame repeated, streams left open", 8, func(e *hx.E) {
			one := vrt.Config{Delay: true, Horizon: 5000000}
			for _, n := range hx.Pick(s, []int{3, 20, 130}, []int{3, 4, 8, 9, 16, 17, 33, 65, 130, 260}) {
				try := func(what string, seq []named) {
					for m := 0; m < 2; m++ {
						m := m
						e.Case(func() string { return fmt.Sprint(n, " times ", what, ", settle ", m == 1) }, func() {
							e.Sched(one, func() { run(seq, m == 1, true) })
						})
					}
				}
				for _, f := range all {
					var seq []named
					for i := 0; i < n; i++ {
						seq = append(seq, f)
					}
					try(f.name, seq)
				}
				for _, k := range []string{"rr", "fnf", "rs", "rc"} {
					for _, op := range []int{0, 1, 99} {
						for _, base := range []uint32{fresh, 12, 1<<31 - 10000} {
							var seq []named
							for i := 0; i < n; i++ {
								id, t, op := base+2*uint32(i), types[k], op
								if id == last {
									continue
								}
								seq = append(seq, named{fmt.Sprint(k, " ", id), id, func() frames.Frame { return request(t, id, op, 1, "adv") }})
							}
							try(fmt.Sprint(k, " of operation ", op, " from id ", base), seq)
							both := append([]named{}, seq...)
							for i := range seq {
								id := seq[i].id
								both = append(both, named{fmt.Sprint("cancel ", id), id, func() frames.Frame { return &frames.Cancel{StreamID: id} }})
							}
							try(fmt.Sprint(k, " of operation ", op, " from id ", base, ", cancelled"), both)
						}
					}
				}
			}
		})
		if s.Thorough() {
			s.Enum("three frames", 8, func(e *hx.E) {
				seqs(e, few, 3, false, true, vrt.Config{Delay: true})
				seqs(e, few, 3, true, true, vrt.Config{Delay: true})
			})
		}
	})
}
