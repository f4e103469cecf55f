// C09: the table of open streams behaves like an atomic map.
package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
)

type stream struct {
	id  uint32
	gen int
}

func (s *stream) Context() context.Context { return context.Background() }
func (s *stream) StreamID() uint32         { return s.id }
func (s *stream) OnNext(p payload.Payload) {}
func (s *stream) OnComplete()              {}
func (s *stream) OnError(err error)        {}

// An id is added only while it is absent, as stream ids are unique among open streams; it may be added
// again after it was removed.  The sequential model is a map from id to the stream object added last.
func main() {
	hx.Main("C09", func(s *hx.Suite) {
		s.Enum("sequential histories over 3 ids", 16, func(e *hx.E) { histories(e, 3, hx.Pick(s, 8, 10)) })
		s.Enum("sequential histories over 4 ids", 16, func(e *hx.E) { histories(e, 4, hx.Pick(s, 6, 8)) })
		s.Enum("sequential histories over 5 ids", 16, func(e *hx.E) { histories(e, 5, hx.Pick(s, 5, 7)) })
		s.Enum("many streams", 8, func(e *hx.E) {
			ns := []int{6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129}
			if s.Thorough() {
				ns = append(ns, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025)
			}
			for _, n := range ns {
				for _, o := range idOrders {
					for _, p := range removals {
						n, o, p := n, o, p
						e.Case(func() string { return fmt.Sprintf("%d streams, ids %s, removed %s", n, o.name, p.name) }, func() { many(e, n, o.id, p.pick) })
					}
				}
			}
		})
		progs := []struct {
			name string
			init []uint32
			th   [][]string
			b    int
		}{
			{"add/get/remove vs add/get/remove", nil, [][]string{{"a1", "g1", "r1"}, {"a2", "g2", "r2"}}, 2},
			{"remove two neighbours", []uint32{1, 2, 3}, [][]string{{"r1", "g2", "s"}, {"r2", "g1", "g3"}}, 2},
			{"remove middle while reading last", []uint32{1, 2, 3}, [][]string{{"r2", "g2"}, {"g3", "g1", "g2"}}, 3},
			{"remove head while reading", []uint32{1, 2, 3}, [][]string{{"r1", "g1"}, {"g3", "g2", "g1", "s"}}, 3},
			{"remove last while adding", []uint32{1, 2}, [][]string{{"r2", "s"}, {"a3", "g3", "g1"}}, 3},
			{"remove all while adding", []uint32{1}, [][]string{{"r1", "e"}, {"a2", "g2", "g1"}}, 3},
			{"same id removed twice", []uint32{1, 2}, [][]string{{"r1", "s"}, {"r1", "s", "g2"}}, 3},
			{"remove and add again", []uint32{1, 2}, [][]string{{"r1", "a1", "g1"}, {"g1", "g2", "s"}}, 3},
			{"two adds race on an empty table", nil, [][]string{{"a1", "g2", "s"}, {"a2", "g1", "s"}}, 3},
			{"two adds race on a full table", []uint32{1, 2}, [][]string{{"a3", "g4", "s"}, {"a4", "g3", "s"}}, 2},
			{"list while adding and removing", []uint32{1, 2}, [][]string{{"r1", "a3"}, {"l", "l"}}, 3},
			{"list while removing twice", []uint32{1, 2, 3}, [][]string{{"r2", "r3"}, {"l", "a4", "l"}}, 2},
			{"three threads", []uint32{1}, [][]string{{"r1", "a3"}, {"a2", "g3"}, {"g1", "g2"}}, 1},
			{"three removals", []uint32{1, 2, 3}, [][]string{{"r1", "s"}, {"r2", "s"}, {"r3", "s"}}, 1},
			{"three threads add", nil, [][]string{{"a1", "g1"}, {"a2", "g2"}, {"a3", "g3"}}, 1},
		}
		for _, p := range progs {
			p := p
			s.Explore(p.name, vrt.Config{Bound: hx.Pick(s, p.b, p.b+1)}, func() { program(p.init, p.th) })
			s.Explore(p.name+", delays", vrt.Config{Delay: true, Bound: hx.Pick(s, 4, 6)}, func() { program(p.init, p.th) })
		}
	})
}

var idOrders = []struct {
	name string
	id   func(i, n int) uint32
}{
	{"1, 3, 5...", func(i, n int) uint32 { return uint32(2*i + 1) }},
	{"2, 4, 6...", func(i, n int) uint32 { return uint32(2*i + 2) }},
	{"falling", func(i, n int) uint32 { return uint32(2*(n-i) + 1) }},
	{"multiples of 256", func(i, n int) uint32 { return uint32(256 * (i + 1)) }},
	{"multiples of 65536", func(i, n int) uint32 { return uint32(65536*(i+1)) & 0x7fffffff }},
	{"up to the largest", func(i, n int) uint32 { return 0x7fffffff - uint32(2*(n-i)) }},
	{"scattered", func(i, n int) uint32 { return (uint32(i+1) * 2654435769) & 0x7fffffff }},
}

// which of n streams are removed, in which order
var removals = []struct {
	name string
	pick func(n int) []int
}{
	{"first to last", func(n int) (r []int) { return every(n, 0, 1) }},
	{"last to first", func(n int) (r []int) { return reverse(every(n, 0, 1)) }},
	{"every second", func(n int) (r []int) { return every(n, 0, 2) }},
	{"every other second", func(n int) (r []int) { return every(n, 1, 2) }},
	{"every third from the end", func(n int) (r []int) { return reverse(every(n, 1, 3)) }},
	{"all but the last", func(n int) (r []int) { return every(n-1, 0, 1) }},
	{"all but the first", func(n int) (r []int) { return every(n, 1, 1) }},
	{"from the middle", func(n int) (r []int) { return append(every(n, n/2, 1), reverse(every(n/2, 0, 1))...) }},
	{"the first half", func(n int) (r []int) { return every(n/2, 0, 1) }},
	{"the second half", func(n int) (r []int) { return every(n, n/2, 1) }},
}

func every(n, from, step int) (r []int) {
	for i := from; i < n; i += step {
		r = append(r, i)
	}
	return r
}

func reverse(x []int) []int {
	for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
		x[i], x[j] = x[j], x[i]
	}
	return x
}

// many adds n streams, removes some of them and adds those again, removing the others.
func many(e *hx.E, n int, id func(i, n int) uint32, pick func(n int) []int) {
	l := &proxy.Lookup{}
	m := map[uint32]*stream{}
	check := func(when string, full bool) {
		e.Step(1)
		if l.Size() != len(m) || l.IsEmpty() != (len(m) == 0) {
			e.Fail("size", "%s, Size() = %d, IsEmpty() = %v; %d streams are present", when, l.Size(), l.IsEmpty(), len(m))
		}
		if !full {
			return
		}
		for i := -1; i <= n; i++ {
			got, ok := l.Get(id(i, n))
			want, wok := m[id(i, n)]
			if ok != wok || (ok && got != proxy.Stream(want)) {
				e.Fail("lookup", "%s, Get(%d) = %v, %v; want present=%v", when, id(i, n), got, ok, wok)
			}
		}
		all := map[uint32]bool{}
		for _, s := range l.All() {
			if m[s.StreamID()] != s || all[s.StreamID()] {
				e.Fail("list", "%s, the list has stream %d, which is not present or twice in it", when, s.StreamID())
			}
			all[s.StreamID()] = true
		}
		if len(all) != len(m) {
			e.Fail("list", "%s, the list has %d streams of %d", when, len(all), len(m))
		}
	}
	add := func(i, gen int) {
		s := &stream{id(i, n), gen}
		l.Add(s)
		m[s.id] = s
	}
	remove := func(i int) {
		l.Remove(id(i, n))
		delete(m, id(i, n))
	}
	for i := 0; i < n; i++ {
		add(i, 1)
		check(fmt.Sprintf("after adding %d", i+1), n < 20)
	}
	check("after adding", true)
	gone := pick(n)
	for k, i := range gone {
		remove(i)
		check(fmt.Sprintf("after removing %d", k+1), n < 20 || k%16 == 15)
	}
	check("after removing", true)
	in := map[int]bool{}
	for _, i := range gone {
		in[i] = true
		add(i, 2)
	}
	check("after adding again", true)
	for i := 0; i < n; i++ {
		if !in[i] {
			remove(i)
		}
	}
	check("after removing the others", true)
	for i := n - 1; i >= 0; i-- {
		remove(i)
	}
	check("after removing all", true)
	add(0, 3)
	check("with one stream again", true)
}

type model map[uint32]int

func (m model) clone() model {
	n := model{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func apply(m model, o hx.Op) (string, model) {
	id := uint32(o.Arg % 100)
	switch o.Name[0] {
	case 'a':
		n := m.clone()
		n[id] = o.Arg / 100
		return "", n
	case 'r':
		n := m.clone()
		delete(n, id)
		return "", n
	case 'g':
		if g, ok := m[id]; ok {
			return fmt.Sprintf("found %d/%d", id, g), m
		}
		return "absent", m
	case 's':
		return fmt.Sprint(len(m)), m
	case 'e':
		return fmt.Sprint(len(m) == 0), m
	case 'l':
		var all []string
		for id, g := range m {
			all = append(all, fmt.Sprintf("%d/%d", id, g))
		}
		sort.Strings(all)
		return fmt.Sprint(all), m
	}
	panic("op")
}

func do(l *proxy.Lookup, h *hx.History, op string, gen int) {
	var id uint32
	if len(op) > 1 {
		id = uint32(op[1] - '0')
	}
	h.Do(op, int(id)+100*gen, func() string {
		switch op[0] {
		case 'a':
			l.Add(&stream{id, gen})
		case 'r':
			l.Remove(id)
		case 'g':
			s, ok := l.Get(id)
			if !ok {
				return "absent"
			}
			return fmt.Sprintf("found %d/%d", s.StreamID(), s.(*stream).gen)
		case 's':
			return fmt.Sprint(l.Size())
		case 'e':
			return fmt.Sprint(l.IsEmpty())
		case 'l':
			var all []string
			for _, s := range l.All() {
				all = append(all, fmt.Sprintf("%d/%d", s.StreamID(), s.(*stream).gen))
			}
			sort.Strings(all)
			return fmt.Sprint(all)
		}
		return ""
	})
}

func program(init []uint32, th [][]string) {
	l := &proxy.Lookup{}
	h := &hx.History{}
	for _, id := range init {
		do(l, h, fmt.Sprintf("a%d", id), 1)
	}
	var ths []*vrt.Thread
	for i, ops := range th {
		i, ops := i, ops
		ths = append(ths, vrt.GoNamed(fmt.Sprintf("thread%d", i), func() {
			for _, o := range ops {
				do(l, h, o, i+2)
			}
		}))
	}
	vrt.Join(ths...)
	for id := 1; id <= 4; id++ {
		do(l, h, fmt.Sprintf("g%d", id), 9)
	}
	do(l, h, "s", 9)
	do(l, h, "l", 9)
	do(l, h, "e", 9)
	var sb strings.Builder
	for _, o := range h.Ops {
		if o.Res != "" {
			fmt.Fprintf(&sb, "%d:%s=%s ", o.Thread, o.Name, o.Res)
		}
	}
	vrt.Outcome("%s", sb.String())
	if !hx.Linearizable(h, model{}, apply) {
		vrt.Fail("not-linearizable", "no sequential order explains this history:\n%s", render(h))
	}
}

func render(h *hx.History) string {
	var sb strings.Builder
	for _, o := range h.Ops {
		fmt.Fprintf(&sb, "  thread %d [%d,%d] %s -> %q\n", o.Thread, o.Start, o.End, o.Name, o.Res)
	}
	return sb.String()
}

// Every sequence of add/remove; after each operation every query must agree with the map.
func histories(e *hx.E, ids, depth int) {
	var seq []int
	var rec func(present int)
	rec = func(present int) {
		if e.Stop() {
			return
		}
		if len(seq) > 0 && len(seq) == depth {
			c := append([]int{}, seq...)
			e.Case(func() string { return fmt.Sprintf("history (+add -remove) %v", c) }, func() { history(e, ids, c) })
			return
		}
		for id := 1; id <= ids; id++ {
			if present&(1<<id) == 0 {
				seq = append(seq, id)
				rec(present | 1<<id)
				seq = seq[:len(seq)-1]
			}
			// removal, also of an absent stream
			seq = append(seq, -id)
			rec(present &^ (1 << id))
			seq = seq[:len(seq)-1]
		}
	}
	rec(0)
}

func history(e *hx.E, ids int, seq []int) {
	l := &proxy.Lookup{}
	m := map[uint32]*stream{}
	for i, o := range seq {
		if o > 0 {
			s := &stream{uint32(o), i}
			l.Add(s)
			m[uint32(o)] = s
		} else {
			l.Remove(uint32(-o))
			delete(m, uint32(-o))
		}
		e.Step(1)
		for id := uint32(1); id <= uint32(ids)+1; id++ {
			got, ok := l.Get(id)
			want, wok := m[id]
			if ok != wok || (ok && got != proxy.Stream(want)) {
				e.Fail("lookup", "after %v, Get(%d) = %v, %v; want present=%v", seq[:i+1], id, got, ok, wok)
			}
		}
		if l.Size() != len(m) || l.IsEmpty() != (len(m) == 0) {
			e.Fail("size", "after %v, Size() = %d, IsEmpty() = %v; %d streams are present", seq[:i+1], l.Size(), l.IsEmpty(), len(m))
		}
		e.State(fmt.Sprint(seq[:i+1]))
	}
}
