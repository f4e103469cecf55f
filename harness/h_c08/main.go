// C08: the unbounded queue delivers every element once, in order.
package main

import (
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
)

type rec struct {
	accepted map[int]bool
	got      []int
	ended    bool
	spawned  bool
}

// consumer follows the documented protocol: receive, then Load, until the channel is closed.
func consume(b *buffer.Unbounded[int], loadBefore bool, each func(v int)) {
	c := b.Get()
	for {
		if loadBefore {
			b.Load()
		}
		v, ok := vrt.Recv2(c, "consumer")
		if !ok {
			return
		}
		each(v)
		b.Load()
	}
}

func main() {
	hx.Main("C08", func(s *hx.Suite) {
		// producers x items, disposers
		type sh struct {
			name       string
			prods      []int
			disposers  int
			cfg        vrt.Config
			loadBefore bool
		}
		shapes := []sh{
			{"1 producer of 3, no dispose", []int{3}, 0, vrt.Config{Bound: hx.Pick(s, 4, 6)}, false},
			{"2 producers of 2, no dispose", []int{2, 2}, 0, vrt.Config{Bound: hx.Pick(s, 2, 3)}, false},
			{"2 producers of 2, no dispose, delays", []int{2, 2}, 0, vrt.Config{Delay: true, Bound: hx.Pick(s, 4, 6)}, false},
			{"1 producer of 3, dispose", []int{3}, 1, vrt.Config{Bound: hx.Pick(s, 2, 4)}, false},
			{"2 producers of 2, dispose", []int{2, 2}, 1, vrt.Config{Delay: true, Bound: hx.Pick(s, 4, 5)}, false},
			{"2 producers of 1, dispose", []int{1, 1}, 1, vrt.Config{Bound: hx.Pick(s, 1, 2)}, false},
			{"1 producer of 2, 2 disposers", []int{2}, 2, vrt.Config{Delay: true, Bound: hx.Pick(s, 4, 6)}, false},
			{"2 producers of 1, 2 disposers", []int{1, 1}, 2, vrt.Config{Delay: true, Bound: hx.Pick(s, 4, 5)}, false},
			{"1 producer of 3, dispose, eager load", []int{3}, 1, vrt.Config{Bound: hx.Pick(s, 2, 3)}, true},
			{"3 producers of 1, dispose", []int{1, 1, 1}, 1, vrt.Config{Delay: true, Bound: hx.Pick(s, 4, 5)}, false},
		}
		for _, p := range shapes {
			p := p
			s.Explore(p.name, p.cfg, func() { concurrent(p.prods, p.disposers, p.loadBefore) })
		}
		for _, lb := range []bool{false, true} {
			lb := lb
			s.Explore(fmt.Sprintf("dispose after all puts, eager load %v", lb), vrt.Config{Bound: hx.Pick(s, 3, 5)}, func() { disposeLast(lb) })
		}
		s.Enum("long queues", 8, func(e *hx.E) {
			sizes := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}
			if s.Thorough() {
				sizes = append(sizes, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049)
			}
			for _, x := range append([]int{511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9000}, sizes...) {
				ys := []int{0, x / 2, x - 1, x}
				if x < 258 {
					ys = sizes
				}
				for _, y := range ys {
					for _, z := range sizes {
						if y < 0 || y > x {
							continue
						}
						x, y, z := x, y, z
						e.Case(func() string { return fmt.Sprintf("%d put, %d received, %d put, all received", x, y, z) }, func() { long(e, x, y, z) })
					}
				}
			}
		})
		s.Enum("sequential histories", 8, func(e *hx.E) { histories(e, hx.Pick(s, 7, 9)) })
	})
}

func concurrent(prods []int, disposers int, loadBefore bool) {
	b := buffer.NewUnbounded[int]()
	accepted := map[int]bool{}
	putAfterDispose := false
	disposedAt := -1 // step at which some Dispose had returned
	var ths []*vrt.Thread
	for pi, n := range prods {
		pi, n := pi, n
		ths = append(ths, vrt.GoNamed(fmt.Sprintf("producer%d", pi), func() {
			for k := 0; k < n; k++ {
				v := pi*10 + k
				begun := disposedAt
				ok := b.Put(v)
				accepted[v] = ok
				if ok && begun >= 0 {
					putAfterDispose = true
				}
			}
		}))
	}
	for d := 0; d < disposers; d++ {
		ths = append(ths, vrt.GoNamed(fmt.Sprintf("disposer%d", d), func() {
			b.Dispose()
			if disposedAt < 0 {
				disposedAt = vrt.Steps()
			}
		}))
	}
	var got []int
	cons := vrt.GoNamed("consumer", func() {
		if disposers == 0 {
			vrt.Daemon()
		}
		consume(b, loadBefore, func(v int) { got = append(got, v) })
	})
	vrt.Join(ths...) // puts and disposes never block for good
	if disposers > 0 {
		vrt.Join(cons)
	} else {
		vrt.Quiesce()
	}
	if putAfterDispose {
		vrt.Fail("put-after-dispose", "a put begun after dispose returned was accepted")
	}
	verify(prods, accepted, got)
	if disposers == 0 {
		for v, ok := range accepted {
			if !ok {
				vrt.Fail("put-refused", "put of %d refused although the queue was not disposed", v)
			}
		}
	} else if b.Put(99) {
		vrt.Fail("put-after-dispose", "put accepted after dispose")
	}
	vrt.Outcome("%v %v", got, len(accepted))
}

func verify(prods []int, accepted map[int]bool, got []int) {
	seen := map[int]bool{}
	last := map[int]int{}
	for _, v := range got {
		if seen[v] {
			vrt.Fail("duplicate", "element %d delivered twice: %v", v, got)
		}
		seen[v] = true
		if !accepted[v] {
			vrt.Fail("refused-delivered", "element %d was refused (or never put) but delivered: %v", v, got)
		}
		p := v / 10
		if l, ok := last[p]; ok && l > v {
			vrt.Fail("order", "producer %d's elements out of order: %v", p, got)
		}
		last[p] = v
	}
	for v, ok := range accepted {
		if ok && !seen[v] {
			vrt.Fail("lost", "element %d was accepted but never delivered: %v", v, got)
		}
	}
}

// Everything is put and then disposed by one thread while the consumer runs: what was accepted before
// the dispose must all arrive.
func disposeLast(loadBefore bool) {
	b := buffer.NewUnbounded[int]()
	var got []int
	cons := vrt.GoNamed("consumer", func() { consume(b, loadBefore, func(v int) { got = append(got, v) }) })
	for k := 0; k < 3; k++ {
		if !b.Put(k) {
			vrt.Fail("put-refused", "put refused before dispose")
		}
	}
	b.Dispose()
	b.Dispose()
	vrt.Join(cons)
	if fmt.Sprint(got) != "[0 1 2]" {
		vrt.Fail("lost", "accepted 0 1 2, delivered %v", got)
	}
	vrt.Outcome("%v", got)
}

// All histories of put (p), load (l), receive-if-possible (r) and dispose (d) up to the given length,
// executed one at a time against a list.
func histories(e *hx.E, depth int) {
	ops := []byte("plrdD")
	var seq []byte
	var rec func()
	rec = func() {
		if e.Stop() {
			return
		}
		if len(seq) == depth {
			h := string(seq)
			e.Case(func() string { return "history " + h }, func() { history(e, h) })
			return
		}
		for _, o := range ops {
			if o == 'D' && strings.Count(string(seq), "D") > 0 {
				continue
			}
			seq = append(seq, o)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

// long puts x elements, receives y, puts z, receives the rest.  Before that the queue is disposed, or after.
func long(e *hx.E, x, y, z int) {
	for _, early := range []bool{true, false} {
		f := vrt.RunSolo(func() {
			b := buffer.NewUnbounded[int]()
			put, got := 0, 0
			puts := func(n int) {
				for ; n > 0; n-- {
					if !b.Put(put) {
						vrt.Fail("put", "put %d refused", put)
					}
					put++
				}
			}
			recv := func() bool {
				c := vrt.RecvCase(b.Get())
				if vrt.Select("r", true, c) < 0 {
					return false
				}
				v, ok := c.Val2()
				if !ok {
					if got != put {
						vrt.Fail("lost", "the queue ended after %d of %d elements", got, put)
					}
					return false
				}
				if v != got {
					vrt.Fail("order", "element %d in place of %d", v, got)
				}
				got++
				b.Load()
				return true
			}
			puts(x)
			for i := 0; i < y; i++ {
				if !recv() {
					vrt.Fail("lost", "nothing to receive after %d of %d elements", got, put)
				}
			}
			puts(z)
			if early {
				b.Dispose()
			}
			for recv() {
			}
			if got != put {
				vrt.Fail("lost", "nothing to receive after %d of %d elements", got, put)
			}
			if b.Dispose(); recv() || b.Put(0) {
				vrt.Fail("end", "the queue has no end")
			}
			c := vrt.RecvCase(b.Get())
			if vrt.Select("r", true, c) < 0 {
				vrt.Fail("no-end", "the end of the queue is not signalled after dispose")
			}
			e.Step(2 * put)
		})
		if f != nil {
			e.Fail(f.Sig, "%s", f.Msg)
		}
	}
	e.State(fmt.Sprint(x, y, z))
}

// d disposes; D reads everything that can be read with the documented protocol.
func history(e *hx.E, h string) {
	r := vrt.RunSolo(func() {
		b := buffer.NewUnbounded[int]()
		n := 0
		var want []int // accepted, not yet delivered
		disposed := false
		fail := func(sig, f string, a ...any) { vrt.Fail(sig, "history %s: "+f, append([]any{h}, a...)...) }
		tryRecv := func() (int, bool, bool) { // value, ok, got
			c := vrt.RecvCase(b.Get())
			if vrt.Select("r", true, c) < 0 {
				return 0, false, false
			}
			v, ok := c.Val2()
			return v, ok, true
		}
		recv := func() bool {
			v, ok, got := tryRecv()
			if !got {
				return false
			}
			if !ok {
				if !disposed {
					fail("early-end", "end of queue before dispose")
				}
				if len(want) > 0 {
					fail("lost", "end of queue with %v undelivered", want)
				}
				return false
			}
			if len(want) == 0 {
				fail("invented", "got %d, nothing outstanding", v)
			}
			if v != want[0] {
				fail("order", "got %d, want %v", v, want)
			}
			want = want[1:]
			return true
		}
		drain := func() {
			for i := 0; i < 40; i++ {
				b.Load()
				if recv() {
					continue
				}
				if len(want) > 0 {
					fail("hang", "nothing to receive although %v is outstanding", want)
				}
				return
			}
			fail("hang", "queue does not drain")
		}
		for i := 0; i < len(h); i++ {
			switch h[i] {
			case 'p':
				n++
				ok := b.Put(n)
				if ok == disposed {
					fail("put", "put returned %v, disposed=%v", ok, disposed)
				}
				if ok {
					want = append(want, n)
				}
			case 'l':
				b.Load()
			case 'r':
				recv()
				b.Load()
			case 'd':
				b.Dispose()
				disposed = true
			case 'D':
				drain()
			}
			e.State(fmt.Sprint(len(want), disposed, h[:i+1]))
			e.Step(1)
		}
		b.Dispose()
		disposed = true
		drain()
		if _, ok, got := tryRecv(); ok || !got {
			fail("no-end", "the end of the queue is not signalled after dispose")
		}
	})
	if r != nil {
		e.Fail(r.Sig, "%s", r.Msg)
	}
}
