// C06: operation tables round-trip and dispatch reaches the advertised operation.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

type T = operations.RequestType

var cur string

func now() string { return cur }

func enc(t operations.Table) []byte {
	b := append([]byte("\x00wrs\x00\x01"), 0, 0, 0, 0)
	binary.BigEndian.PutUint32(b[6:], uint32(len(t)))
	for _, o := range t {
		b = append(b, byte(o.Type), byte(o.Direction), byte(o.Index>>24), byte(o.Index>>16), byte(o.Index>>8), byte(o.Index))
		for _, n := range []string{o.Namespace, o.Operation} {
			b = append(append(b, byte(len(n)>>8), byte(len(n))), n...)
		}
		b = append(b, 0, 0)
	}
	return b
}

func show(t operations.Table) string {
	s := ""
	for i, o := range t {
		if i == 6 {
			return s + fmt.Sprintf("... %d operations", len(t))
		}
		cut := func(x string) string {
			if len(x) > 12 {
				return fmt.Sprintf("%q...(%d)", x[:12], len(x))
			}
			return fmt.Sprintf("%q", x)
		}
		s += fmt.Sprintf("[%d %v %v %s %s]", o.Index, o.Type, o.Direction, cut(o.Namespace), cut(o.Operation))
	}
	return s
}

func same(a, b operations.Table) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func codec(e *hx.E, t operations.Table) {
	e.Step(1)
	cur = show(t)
	b := t.ToBytes()
	if !bytes.Equal(b, enc(t)) {
		e.Fail("layout", "%s is encoded as %.200x, want %.200x", show(t), b, enc(t))
	}
	got, err := operations.FromBytes(b)
	if err != nil || !same(got, t) {
		e.Fail("round-trip", "%s comes back as %s, %v", show(t), show(got), err)
	}
}

// ----------------------------------------------------------------------------------------------------

const (
	nOps = 8 // four exports, four imports
)

type reg struct {
	kind    int // 0..3 export, 4..7 import
	ns, op  string
	index   uint32 // of imports: what the import returned
	handler int    // of exports
}

// everything registered by this process
var regs []reg
var called int

// register performs one registration; ids number the handlers
func register(kind int, ns, op string) reg {
	r := reg{kind: kind, ns: ns, op: op, handler: len(regs) + 1}
	id := r.handler
	switch kind {
	case 0:
		invoke.ExportRequestResponse(ns, op, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { called = id; return nil })
	case 1:
		invoke.ExportFireAndForget(ns, op, func(context.Context, payload.Payload) { called = id })
	case 2:
		invoke.ExportRequestStream(ns, op, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { called = id; return nil })
	case 3:
		invoke.ExportRequestChannel(ns, op, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			called = id
			return nil
		})
	case 4:
		r.index = invoke.ImportRequestResponse(ns, op)
	case 5:
		r.index = invoke.ImportFireAndForget(ns, op)
	case 6:
		r.index = invoke.ImportRequestStream(ns, op)
	case 7:
		r.index = invoke.ImportRequestChannel(ns, op)
	}
	regs = append(regs, r)
	return r
}

// lookup is the id of the handler found for an index, 0 if none
func lookup(kind int, i uint32) int {
	called = 0
	ctx := context.Background()
	switch kind {
	case 0:
		if h := invoke.GetRequestResponseHandler(i); h != nil {
			h(ctx, nil)
		}
	case 1:
		if h := invoke.GetFireAndForgetHandler(i); h != nil {
			h(ctx, nil)
		}
	case 2:
		if h := invoke.GetRequestStreamHandler(i); h != nil {
			h(ctx, nil)
		}
	case 3:
		if h := invoke.GetRequestChannelHandler(i); h != nil {
			h(ctx, nil, nil)
		}
	}
	return called
}

func kindOf(o operations.Operation) int {
	if o.Type < 1 || o.Type > 4 || o.Direction < 1 || o.Direction > 2 {
		return -1
	}
	return int(o.Type) - 1 + 4*(int(o.Direction)-1)
}

type key struct {
	kind   int
	ns, op string
}

// judge compares what is advertised of the given registrations with them; all tells that they are everything
func judge(e *hx.E, rs []reg, all bool) {
	t := invoke.GetOperationsTable()
	want := map[key][]reg{}
	for _, r := range rs {
		k := key{r.kind, r.ns, r.op}
		want[k] = append(want[k], r)
	}
	listed := map[key]int{}
	var max [nOps]uint32
	for _, o := range t {
		k := key{kindOf(o), o.Namespace, o.Operation}
		if k.kind < 0 {
			e.Fail("table-kind", "%s is advertised", show(operations.Table{o}))
		}
		if o.Index+1 > max[k.kind] {
			max[k.kind] = o.Index + 1
		}
		w := want[k]
		if w == nil {
			if all {
				e.Fail("table-extra", "%s is advertised but was never registered", show(operations.Table{o}))
			}
			continue
		}
		listed[k]++
		if k.kind >= 4 {
			for _, r := range w {
				if r.index != o.Index {
					e.Fail("import-index", "importing %q %q gave index %d, advertised is %s", r.ns, r.op, r.index, show(operations.Table{o}))
				}
			}
			continue
		}
		got, ok := lookup(k.kind, o.Index), false
		for _, r := range w {
			ok = ok || r.handler == got
		}
		if !ok {
			e.Fail("dispatch", "%s leads to handler %d, registered under that name is %d", show(operations.Table{o}), got, w[0].handler)
		}
		e.Step(1)
	}
	for k, w := range want {
		n := listed[k]
		if n == 0 || n > 1 && (k.kind >= 4 || len(w) == 1) {
			e.Fail("table-missing", "%v %q %q is advertised %d times", k.kind, k.ns, k.op, n)
		}
	}
	for k := 0; k < 4; k++ {
		for _, i := range []uint32{max[k], max[k] + 1, max[k] + 100, 1 << 16, 1 << 20, 1<<31 - 1, 1 << 31, 1<<31 + max[k], 1<<32 - 2, 1<<32 - 1} {
			if i < max[k] {
				continue
			}
			if got := lookup(k, i); got != 0 {
				e.Fail("unadvertised", "index %d of kind %d was never advertised but leads to handler %d", i, k, got)
			}
		}
	}
	if all {
		codec(e, t)
	}
}

// ----------------------------------------------------------------------------------------------------

var imports = []func(*handler.Handler, string, string) uint32{
	(*handler.Handler).ImportRequestResponse, (*handler.Handler).ImportFireAndForget, (*handler.Handler).ImportRequestStream, (*handler.Handler).ImportRequestChannel,
}

func peer(e *hx.E, t operations.Table) {
	h := handler.New(context.Background(), handler.ClientMode)
	h.SetFrameSender(func(frames.Frame) error { return nil })
	if err := h.HandleFrame(&frames.Setup{Data: t.ToBytes()}); err != nil {
		e.Fail("peer-setup", "table %s: %v", show(t), err)
	}
	for _, o := range t {
		if o.Direction != operations.Export {
			continue
		}
		e.Step(1)
		got := imports[o.Type-1](h, o.Namespace, o.Operation)
		ok := false
		for _, p := range t {
			q := p
			q.Index = o.Index
			ok = ok || q == o && p.Index == got
		}
		if !ok {
			e.Fail("peer-import", "in table %s, importing %v %q %q gives index %d", show(t), o.Type, o.Namespace, o.Operation, got)
		}
	}
}

func main() {
	hx.Main("C06", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions, "operations are registered before they are used, not concurrently with each other (as the generated code does, in init functions and main)",
			"namespace and operation names are at most 65535 bytes (their length field)",
			"what importing an operation that the peer does not export returns is not judged")
		s.Enum("tables of up to two operations", 8, func(e *hx.E) {
			lens := []int{0, 1, 2, 255, 256, 300, 65535}
			nums := []uint32{0, 1, 255, 256, 65536, 0x01020304, 0xffffffff}
			var small []operations.Operation
			for _, n := range lens {
				for _, m := range lens {
					n, m := n, m
					e.Case(now, func() {
						for ty := 0; ty < 256; ty++ {
							for _, dir := range []int{0, 1, 2, 3, 255} {
								if n+m > 700 && (ty > 5 && ty < 254) {
									continue
								}
								o := operations.Operation{Type: T(ty), Direction: operations.Direction(dir), Index: nums[(ty+dir)%len(nums)], Namespace: string(frref.Fill(n, 1)), Operation: string(frref.Fill(m, 9))}
								codec(e, operations.Table{o})
							}
						}
						e.State(fmt.Sprint(n, m))
					})
				}
			}
			for _, ty := range []T{1, 2, 3, 4} {
				for _, dir := range []operations.Direction{1, 2} {
					for _, i := range []uint32{0, 1, 0x01020304} {
						for _, nm := range [][2]string{{"", ""}, {"a", ""}, {"", "a"}, {"greeter", "sayHello"}, {"a\x00", "\xff\x00b"}} {
							small = append(small, operations.Operation{Type: ty, Direction: dir, Index: i, Namespace: nm[0], Operation: nm[1]})
						}
					}
				}
			}
			e.Case(now, func() { codec(e, nil); codec(e, operations.Table{}) })
			for _, a := range small {
				a := a
				e.Case(now, func() {
					for _, b := range small {
						codec(e, operations.Table{a, b})
						peer(e, operations.Table{a, b})
						if a.Index == 1 {
							for _, c := range small {
								if c.Index == 0 {
									codec(e, operations.Table{a, b, c})
									if s.Thorough() {
										peer(e, operations.Table{b, a, c})
									}
								}
							}
						}
					}
				})
			}
			for _, n := range []int{3, 10, 255, 256, 257, 65535, 65536, 70000} {
				n := n
				e.Case(now, func() {
					var t operations.Table
					for i := 0; i < n; i++ {
						o := small[i%len(small)]
						o.Index = uint32(i)
						t = append(t, o)
					}
					codec(e, t)
				})
			}
		})
		histories := func(name string, depth, names int) {
			s.Enum(name, 8, func(e *hx.E) {
				var h []int
				n := 0
				var rec func()
				rec = func() {
					if len(h) > 0 {
						hist := append([]int(nil), h...)
						e.Case(now, func() {
							n++
							p := fmt.Sprintf("p%d.%d", len(regs), n)
							nm := [][2]string{{p, "a"}, {p + "a", ""}, {"a", p}, {p, "b"}}
							var rs []reg
							cur = ""
							for _, x := range hist {
								k, w := x/names, nm[x%names]
								cur += fmt.Sprintf("%s%d(%q,%q) ", []string{"export", "import"}[k/4], k%4, w[0], w[1])
								rs = append(rs, register(k, w[0], w[1]))
								e.Step(1)
							}
							judge(e, rs, false)
							if n%256 == 0 || n < 20 {
								judge(e, regs, true)
							}
							e.State(fmt.Sprint(hist))
						})
					}
					if len(h) == depth || e.Stop() {
						return
					}
					for x := 0; x < nOps*names; x++ {
						h = append(h, x)
						rec()
						h = h[:len(h)-1]
					}
				}
				rec()
			})
		}
		histories("registrations of three names", hx.Pick(s, 3, 4), 3)
		if s.Thorough() {
			histories("registrations of two names", 4, 2)
			histories("registrations of four names", 3, 4)
		} else {
			histories("registrations of one name", 4, 1)
		}
		// Names that a careless comparison could take for each other: joined with some separator, in other
		// case, with blanks around them, in another normal form, of which one begins or ends with the other.
		s.Enum("names that look alike", 8, func(e *hx.E) {
			n := 0
			for k := 0; k < nOps; k++ {
				for _, set := range alike() {
					k, set := k, set
					e.Case(now, func() {
						n++
						p := fmt.Sprintf("q%d.%d", len(regs), n)
						var rs []reg
						cur = fmt.Sprintf("%s%d of:", []string{"export", "import"}[k/4], k%4)
						for round := 0; round < 2; round++ {
							for _, w := range set {
								cur += fmt.Sprintf(" (%q,%q)", p+w[0], w[1])
								rs = append(rs, register(k, p+w[0], w[1]))
								e.Step(1)
							}
						}
						judge(e, rs, n%16 == 0)
						e.State(cur)
						var t operations.Table
						for i, w := range set {
							t = append(t, operations.Operation{Index: uint32(i), Type: T(k%4 + 1), Direction: operations.Direction(k/4 + 1), Namespace: w[0], Operation: w[1]})
						}
						codec(e, t)
						peer(e, t)
					})
				}
			}
		})
		s.Enum("a peer's table", 8, func(e *hx.E) {
			nm := [][2]string{{"a", "b"}, {"ab", ""}, {"b", "a"}}
			var ops []operations.Operation
			for ty := T(1); ty <= 4; ty++ {
				for dir := operations.Direction(1); dir <= 2; dir++ {
					for _, n := range nm {
						ops = append(ops, operations.Operation{Type: ty, Direction: dir, Namespace: n[0], Operation: n[1]})
					}
				}
			}
			for i := range ops {
				for j := range ops {
					i, j := i, j
					e.Case(now, func() {
						for k := range ops {
							t := operations.Table{ops[i], ops[j], ops[k]}
							t[0].Index, t[1].Index, t[2].Index = 5, 6, 7
							cur = show(t)
							peer(e, t)
							if s.Thorough() {
								for l := range ops {
									u := append(t[:3:3], ops[l])
									u[3].Index = 9
									peer(e, u)
								}
							}
						}
						e.State(fmt.Sprint(i, j))
					})
				}
			}
		})
	})
}

// alike returns lists of names, each different from the others of its list but easily taken for one.
func alike() (r [][][2]string) {
	for _, sep := range []string{".", "/", ":", "::", ",", "|", "-", "_", "#", "@", " ", "\t", "\n", "\x00", "->", "%", "\\", "\"", ""} {
		r = append(r, [][2]string{
			{"a", "b" + sep + "c"}, {"a" + sep + "b", "c"}, {"a", "b"}, {"a" + sep, "b"}, {"a", sep + "b"},
			{"a" + sep + "b" + sep + "c", ""}, {"", "a" + sep + "b" + sep + "c"}, {"b", "a"}, {"a" + sep + "b", "a" + sep + "b"},
		})
	}
	for i := range r { // without repetitions
		var l [][2]string
		seen := map[[2]string]bool{}
		for _, w := range r[i] {
			if !seen[w] {
				seen[w] = true
				l = append(l, w)
			}
		}
		r[i] = l
	}
	long := strings.Repeat("n", 70)
	return append(r,
		[][2]string{{"a", "get"}, {"A", "get"}, {"a", "Get"}, {"a", "GET"}, {"a", "gets"}, {"a", "ge"}, {"aa", "get"}},
		[][2]string{{"a", "b"}, {" a", "b"}, {"a ", "b"}, {"a", " b"}, {"a", "b "}, {"a", "b\x00"}, {"a\x00", "b"}},
		[][2]string{{"\u00e9", "x"}, {"e\u0301", "x"}, {"\u212a", "x"}, {"K", "x"}, {"k", "x"}, {"\xff", "x"}, {"\xfe", "x"}, {"\ufffd", "x"}},
		[][2]string{{long, "x"}, {long + "1", "x"}, {long + "2", "x"}, {"1" + long, "x"}, {"x", long + "1"}, {"x", long + "2"}, {long + "1", long + "2"}, {long + "2", long + "1"}},
		[][2]string{{"", ""}, {"", "a"}, {"a", ""}, {"a", "a"}},
		[][2]string{{"0", "1"}, {"1", "0"}, {"00", "1"}, {"0", "01"}, {"-0", "1"}},
	)
}
