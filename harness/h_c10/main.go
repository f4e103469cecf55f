// C10: live-instance handles resolve to their own instance until removed.
package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/transform"
)

type big struct {
	a [40]byte
	p *int
}

func main() {
	hx.Main("C10", func(s *hx.Suite) {
		depth := hx.Pick(s, 7, 9)
		s.Enum("histories, int", 16, func(e *hx.E) { histories(e, depth, func(i int) int { return i % 2 }) })
		s.Enum("histories, string", 16, func(e *hx.E) { histories(e, depth-1, func(i int) string { return fmt.Sprint(i % 2) }) })
		s.Enum("histories, pointer", 16, func(e *hx.E) {
			var x [16]int
			histories(e, depth-1, func(i int) *int { return &x[i%16] })
		})
		s.Enum("histories, struct", 16, func(e *hx.E) { histories(e, depth-1, func(i int) big { return big{a: [40]byte{byte(i)}} }) })
		s.Enum("histories, empty struct", 16, func(e *hx.E) { histories(e, depth-1, func(i int) struct{} { return struct{}{} }) })
		s.Enum("histories, interface", 16, func(e *hx.E) {
			histories(e, depth-1, func(i int) fmt.Stringer {
				if i%3 == 0 {
					return nil
				}
				return str(i)
			})
		})
		s.Enum("handles are not reused after garbage collection", 4, reuse)
		s.Enum("encoded handles", 1, encoded)
		s.Enum("many instances", 8, many)
		progs := []struct {
			name string
			init int
			th   [][]string
			b    int
		}{
			{"put get remove get, twice", 0, [][]string{{"p", "gl", "rl", "gl"}, {"p", "gl", "rl", "gl"}}, 3},
			{"two removals of one handle", 1, [][]string{{"r0", "g0"}, {"r0", "g0"}}, 4},
			{"get races with remove", 2, [][]string{{"g0", "g0", "g1"}, {"r0", "g0"}}, 4},
			{"remove one, read the other", 2, [][]string{{"r0", "g1", "g0"}, {"g1", "r1", "g1"}}, 4},
			{"put races with remove", 1, [][]string{{"p", "gl", "g0"}, {"r0", "p", "gl"}}, 4},
			{"three removals", 2, [][]string{{"r0", "g1"}, {"r0"}, {"r0", "r1"}}, 2},
			{"three puts", 0, [][]string{{"p", "gl"}, {"p", "gl"}, {"p", "rl", "gl"}}, 2},
			{"readers and a writer", 1, [][]string{{"g0", "g0"}, {"g0", "g0"}, {"r0", "p", "gl"}}, 2},
			{"put remove put remove", 0, [][]string{{"p", "rl", "p", "rl"}, {"p", "rl", "gl"}}, 3},
		}
		for _, p := range progs {
			p := p
			s.Explore(p.name, vrt.Config{Bound: hx.Pick(s, p.b, p.b+2)}, func() { program(p.init, p.th) })
			s.Explore(p.name+", delays", vrt.Config{Delay: true, Bound: hx.Pick(s, 5, 7)}, func() { program(p.init, p.th) })
		}
	})
}

type str int

func (s str) String() string { return fmt.Sprint(int(s)) }

func histories[T any](e *hx.E, depth int, val func(i int) T) {
	// op: 0 put; 1+2k remove slot k; 2+2k get slot k (queries are made after every op anyway)
	var seq []int
	var rec func(issued int)
	rec = func(issued int) {
		if e.Stop() {
			return
		}
		if len(seq) == depth {
			c := append([]int{}, seq...)
			e.Case(func() string {
				return fmt.Sprintf("history (0 puts, k removes the k-th handle, -1 removes an unknown one) %v", c)
			}, func() { history(e, c, val) })
			return
		}
		if issued < 4 {
			seq = append(seq, 0)
			rec(issued + 1)
			seq = seq[:len(seq)-1]
		}
		for k := 1; k <= issued; k++ {
			seq = append(seq, k)
			rec(issued)
			seq = seq[:len(seq)-1]
		}
		if n := len(seq); n == 0 || seq[n-1] != -1 {
			seq = append(seq, -1)
			rec(issued)
			seq = seq[:n]
		}
	}
	rec(0)
}

func history[T any](e *hx.E, seq []int, val func(i int) T) {
	l := invoke.NewLiveInstances[T]()
	var hs []uint64
	var vals []T
	live := map[int]bool{}
	unknown := func() []uint64 {
		u := []uint64{0, 1 << 63, ^uint64(0), 12345}
		var r []uint64
	next:
		for _, x := range u {
			for _, h := range hs {
				if h == x {
					continue next
				}
			}
			r = append(r, x)
		}
		return r
	}
	for i, o := range seq {
		switch {
		case o == 0:
			v := val(len(vals))
			h := l.Put(v)
			for j, g := range hs {
				if g == h {
					e.Fail("same-handle", "after %v: put number %d returned the handle of put number %d (live: %v)", seq[:i+1], len(hs)+1, j+1, live[j])
				}
			}
			hs = append(hs, h)
			vals = append(vals, v)
			live[len(hs)-1] = true
		case o > 0:
			v, ok := l.Remove(hs[o-1])
			if ok != live[o-1] || (ok && any(v) != any(vals[o-1])) {
				e.Fail("remove", "after %v: Remove = %v, %v; want present=%v value %v", seq[:i+1], v, ok, live[o-1], vals[o-1])
			}
			var zero T
			if !ok && any(v) != any(zero) {
				e.Fail("remove", "after %v: failed Remove returned %v", seq[:i+1], v)
			}
			live[o-1] = false
		default:
			for _, u := range unknown() {
				if _, ok := l.Remove(u); ok {
					e.Fail("unknown", "after %v: Remove of the never issued handle %#x succeeded", seq[:i+1], u)
				}
			}
		}
		e.Step(1)
		for j, h := range hs {
			v, ok := l.Get(h)
			if ok != live[j] || (ok && any(v) != any(vals[j])) {
				e.Fail("get", "after %v: Get(handle %d) = %v, %v; want present=%v value %v", seq[:i+1], j+1, v, ok, live[j], vals[j])
			}
			var zero T
			if !ok && any(v) != any(zero) {
				e.Fail("get", "after %v: failed Get returned %v", seq[:i+1], v)
			}
		}
		for _, u := range unknown() {
			if _, ok := l.Get(u); ok {
				e.Fail("unknown", "after %v: the never issued handle %#x resolves", seq[:i+1], u)
			}
		}
		e.State(fmt.Sprint(seq[:i+1]))
	}
}

// many: rounds of puts, each followed by the removal of some of the live ones, everything looked up after each round
func many(e *hx.E) {
	rm := []struct {
		name string
		f    func(i, n int) bool
	}{
		{"none", func(i, n int) bool { return false }},
		{"all", func(i, n int) bool { return true }},
		{"first", func(i, n int) bool { return i == 0 }},
		{"last", func(i, n int) bool { return i == n-1 }},
		{"all but the last", func(i, n int) bool { return i < n-1 }},
		{"all but the first", func(i, n int) bool { return i > 0 }},
		{"even", func(i, n int) bool { return i%2 == 0 }},
		{"first half", func(i, n int) bool { return i < n/2 }},
		{"second half", func(i, n int) bool { return i >= n/2 }},
	}
	for _, n := range []int{2, 7, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 1024, 1025} {
		for _, a := range rm {
			for _, b := range rm {
				for _, back := range []bool{false, true} {
					n, a, b, back := n, a, b, back
					e.Case(func() string {
						return fmt.Sprintf("%d put, removing %s, as many put, removing %s, as many put (removing backwards %v)", n, a.name, b.name, back)
					}, func() {
						l := invoke.NewLiveInstances[int]()
						issued := map[uint64]int{}
						live := map[uint64]bool{}
						var order []uint64
						check := func(at string) {
							for h, v := range issued {
								g, ok := l.Get(h)
								if ok != live[h] || ok && g != v || !ok && g != 0 {
									e.Fail("get", "%s: Get(handle %#x of instance %d) = %d, %v; want present=%v", at, h, v, g, ok, live[h])
								}
								e.Step(1)
							}
						}
						put := func(at string) {
							for i := 0; i < n; i++ {
								h := l.Put(len(issued) + 1)
								if v, ok := issued[h]; ok {
									e.Fail("same-handle", "%s: put number %d returned the handle of put number %d (live: %v)", at, len(issued)+1, v, live[h])
								}
								issued[h] = len(issued) + 1
								live[h] = true
								order = append(order, h)
							}
							check(at)
						}
						remove := func(at string, f func(i, n int) bool) {
							var todo, rest []uint64
							for i, h := range order {
								if f(i, len(order)) {
									todo = append(todo, h)
								} else {
									rest = append(rest, h)
								}
							}
							order = rest
							for i := range todo {
								h := todo[i]
								if back {
									h = todo[len(todo)-1-i]
								}
								if v, ok := l.Remove(h); !ok || v != issued[h] {
									e.Fail("remove", "%s: Remove = %d, %v; want %d", at, v, ok, issued[h])
								}
								live[h] = false
								if v, ok := l.Remove(h); ok || v != 0 {
									e.Fail("remove", "%s: the second Remove = %d, %v", at, v, ok)
								}
							}
							check(at)
						}
						put("first puts")
						remove("first removals", a.f)
						put("second puts")
						remove("second removals", b.f)
						put("third puts")
						remove("last removals", func(int, int) bool { return true })
						e.State(fmt.Sprint(n, a.name, b.name, back))
					})
				}
			}
		}
	}
}

func reuse(e *hx.E) {
	for n := 1; n <= 4; n++ {
		n := n
		e.Case(func() string { return fmt.Sprintf("%d instances put and removed, garbage collected, many more put", n) }, func() {
			l := invoke.NewLiveInstances[big]()
			old := map[uint64]bool{}
			var keep []uint64
			for i := 0; i < 64*n; i++ {
				h := l.Put(big{a: [40]byte{1}})
				if i%n == 0 {
					keep = append(keep, h)
				}
				old[h] = true
			}
			for h := range old {
				l.Remove(h)
			}
			runtime.GC()
			runtime.GC()
			for i := 0; i < 2000; i++ {
				h := l.Put(big{a: [40]byte{2}})
				if old[h] {
					e.Fail("reuse", "handle %#x of a removed instance was issued again for another one", h)
				}
				e.Step(1)
			}
			for _, h := range keep {
				if v, ok := l.Get(h); ok {
					e.Fail("stale", "the handle %#x of a removed instance resolves to %v", h, v.a[0])
				}
			}
			e.State(fmt.Sprint(n))
		})
	}
}

func encoded(e *hx.E) {
	e.Case(func() string { return "InterfaceEncode yields a payload whose number is the instance's handle" }, func() {
		l := invoke.NewLiveInstances[string]()
		enc := transform.InterfaceEncode(l)
		seen := map[uint64]bool{}
		var hs []uint64
		for i := 0; i < 300; i++ {
			p, err := enc(fmt.Sprint("inst", i))
			if err != nil {
				e.Fail("encode", "%v", err)
			}
			d := msgpack.NewDecoder(p.Data())
			h, err := d.ReadUint64()
			if err != nil {
				e.Fail("encode", "the payload %x is not a number: %v", p.Data(), err)
			}
			if seen[h] {
				e.Fail("encode", "handle %d encoded twice", h)
			}
			seen[h] = true
			hs = append(hs, h)
			e.Step(1)
			e.State(fmt.Sprint(i))
		}
		for i, h := range hs {
			if v, ok := l.Get(h); !ok || v != fmt.Sprint("inst", i) {
				e.Fail("encode", "encoded handle %d resolves to %q, %v", h, v, ok)
			}
		}
	})
}

type mstate struct {
	live  map[string]int // handle -> instance
	known map[string]bool
}

func apply(m mstate, o hx.Op) (string, mstate) {
	c := mstate{map[string]int{}, map[string]bool{}}
	for k, v := range m.live {
		c.live[k] = v
	}
	for k := range m.known {
		c.known[k] = true
	}
	switch o.Name[0] {
	case 'p':
		if c.known[o.Res] {
			return "duplicate", m
		}
		c.known[o.Res] = true
		c.live[o.Res] = o.Arg
		return o.Res, c
	case 'g':
		h := o.Name[1:]
		if v, ok := c.live[h]; ok {
			return fmt.Sprint(v), m
		}
		return "absent", m
	case 'r':
		h := o.Name[1:]
		if v, ok := c.live[h]; ok {
			delete(c.live, h)
			return fmt.Sprint(v), c
		}
		return "absent", m
	}
	panic("op")
}

func program(init int, th [][]string) {
	l := invoke.NewLiveInstances[int]()
	h := &hx.History{}
	var pre []uint64
	put := func(v int) (r uint64) {
		h.Do("p", v, func() string { r = l.Put(v); return fmt.Sprint(r) })
		return
	}
	get := func(id uint64) {
		h.Do(fmt.Sprint("g", id), 0, func() string {
			if v, ok := l.Get(id); ok {
				return fmt.Sprint(v)
			}
			return "absent"
		})
	}
	remove := func(id uint64) {
		h.Do(fmt.Sprint("r", id), 0, func() string {
			if v, ok := l.Remove(id); ok {
				return fmt.Sprint(v)
			}
			return "absent"
		})
	}
	for i := 0; i < init; i++ {
		pre = append(pre, put(100+i))
	}
	var mine [4][]uint64
	var ths []*vrt.Thread
	for i, ops := range th {
		i, ops := i, ops
		ths = append(ths, vrt.GoNamed(fmt.Sprintf("thread%d", i), func() {
			for k, o := range ops {
				var id uint64
				if len(o) > 1 {
					if o[1] == 'l' {
						id = mine[i][len(mine[i])-1]
					} else {
						id = pre[o[1]-'0']
					}
				}
				switch o[0] {
				case 'p':
					mine[i] = append(mine[i], put(10*i+k))
				case 'g':
					get(id)
				case 'r':
					remove(id)
				}
			}
		}))
	}
	vrt.Join(ths...)
	names := map[string]string{}
	for i, id := range pre {
		names[fmt.Sprint(id)] = fmt.Sprint("P", i)
		get(id)
	}
	for t := range mine {
		for i, id := range mine[t] {
			names[fmt.Sprint(id)] = fmt.Sprintf("T%d.%d", t, i)
			get(id)
		}
	}
	var sb strings.Builder
	for _, o := range h.Ops {
		r := o.Res
		if o.Name == "p" {
			r = "handle"
		}
		n := o.Name[:1]
		if len(o.Name) > 1 {
			n += names[o.Name[1:]]
		}
		fmt.Fprintf(&sb, "%d:%s=%s ", o.Thread, n, r)
	}
	vrt.Outcome("%s", sb.String())
	if !hx.Linearizable(h, mstate{map[string]int{}, map[string]bool{}}, apply) {
		var b strings.Builder
		for _, o := range h.Ops {
			fmt.Fprintf(&b, "  thread %d [%d,%d] %s -> %q\n", o.Thread, o.Start, o.End, o.Name, o.Res)
		}
		vrt.Fail("not-linearizable", "no sequential order explains this history:\n%s", b.String())
	}
}
