// C07: stream identifiers are unique, non-zero and of the right parity.
package main

import (
	"context"
	"fmt"
	"reflect"
	"sort"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

const passClient = 1 << 30       // ids of one client pass: 1,3,..,0x7fffffff
const passServer = (1 << 30) - 1 // 2,4,..,0x7ffffffe

type kind struct {
	name string
	odd  bool
	pass uint64
	mk   func(start uint64) (socket.StreamID, bool)
}

// after a number of allocations; the counter is set directly, which needs its representation to be an integer
func mk[T any, P interface {
	*T
	socket.StreamID
}](start uint64) (socket.StreamID, bool) {
	p := P(new(T))
	if start == 0 {
		return p, true
	}
	v := reflect.ValueOf((*T)(p)).Elem()
	if v.Kind() != reflect.Uint64 {
		return nil, false
	}
	// only if the value really is the number of allocations so far
	for i := uint64(0); i < 3; i++ {
		if v.Uint() != i {
			return nil, false
		}
		p.Next()
	}
	v.SetUint(start)
	return p, true
}

var kinds = []kind{
	{"client", true, passClient, mk[socket.ClientStreamIDs]},
	{"server", false, passServer, mk[socket.ServerStreamIDs]},
}

func valid(id uint32, k kind) string {
	switch {
	case id == 0:
		return "zero"
	case id&0x80000000 != 0:
		return "top-bit"
	case id&1 == 1 != k.odd:
		return "parity"
	}
	return ""
}

func lowest(k kind) uint32 {
	if k.odd {
		return 1
	}
	return 2
}

func highest(k kind) uint32 {
	if k.odd {
		return 0x7fffffff
	}
	return 0x7ffffffe
}

func succ(id uint32, k kind) uint32 {
	if id == highest(k) {
		return lowest(k)
	}
	return id + 2
}

func main() {
	hx.Main("C07", func(s *hx.Suite) {
		for _, k := range kinds {
			k := k
			s.Enum("whole id space and wrap-around, "+k.name, 1, func(e *hx.E) {
				e.Case(func() string { return k.name + ": every allocation of the first pass and the start of the second" }, func() { wholePass(e, k) })
			})
			starts := []uint64{0, k.pass - 3, k.pass - 2, k.pass - 1, k.pass, k.pass + 1, 1 << 31, 1<<31 - 1, 1<<31 - 2}
			for _, st := range starts {
				if _, ok := k.mk(st); !ok {
					continue
				}
				st := st
				s.Explore1(fmt.Sprintf("%s ids, 2 threads of 2, from %d", k.name, st), vrt.Config{Bound: hx.Pick(s, 4, 8)}, func() { concurrent(k, st, []int{2, 2}) })
				s.Explore1(fmt.Sprintf("%s ids, 3 threads of 2, from %d", k.name, st), vrt.Config{Bound: hx.Pick(s, 2, 4)}, func() { concurrent(k, st, []int{2, 2, 2}) })
			}
		}
		for _, m := range []struct {
			n string
			m handler.Mode
			k kind
		}{{"client", handler.ClientMode, kinds[0]}, {"server", handler.ServerMode, kinds[1]}} {
			m := m
			for _, pair := range [][2]int{{0, 0}, {0, 1}, {1, 2}, {2, 3}, {0, 3}} {
				pair := pair
				s.Explore1(fmt.Sprintf("%s handler, concurrent calls %v", m.n, pair), vrt.Config{Delay: true, Bound: hx.Pick(s, 3, 5)}, func() { calls(m.m, m.k, pair) })
			}
		}
	})
}

func wholePass(e *hx.E, k kind) {
	ids, _ := k.mk(0)
	want := lowest(k)
	n := uint64(0)
	last := ^uint32(0)
	for ; n < k.pass; n++ {
		id, first := ids.Next()
		if id != want || !first {
			e.Fail("pass", "allocation %d gave (%#x, first=%v), want %#x in the first pass", n+1, id, first, want)
		}
		last = id
		want += 2
		if n&0xfffff == 0 {
			e.Step(1 << 20)
		}
	}
	if last != highest(k) {
		e.Fail("pass", "the first pass ended at %#x", last)
	}
	want = lowest(k)
	for n := 0; n < 100000; n++ {
		id, first := ids.Next()
		if v := valid(id, k); v != "" {
			e.Fail("wrap:"+v, "after the first pass, allocation %d gave the invalid identifier %#x", n+1, id)
		}
		if first {
			e.Fail("wrap:first-pass", "after the first pass, allocation %d still claims to belong to it", n+1)
		}
		if id != want {
			e.Fail("wrap:order", "after the first pass, allocation %d gave %#x, want %#x", n+1, id, want)
		}
		want += 2
	}
	e.State(k.name)
	e.Step(100000)
}

type alloc struct {
	id    uint32
	first bool
}

func concurrent(k kind, start uint64, threads []int) {
	ids, _ := k.mk(start)
	// what one caller would get, sequentially
	ref, _ := k.mk(start)
	total := 0
	for _, n := range threads {
		total += n
	}
	var want []alloc
	res := make([][]alloc, len(threads))
	var ths []*vrt.Thread
	for i, n := range threads {
		i, n := i, n
		ths = append(ths, vrt.GoNamed(fmt.Sprintf("caller%d", i), func() {
			for j := 0; j < n; j++ {
				id, f := ids.Next()
				res[i] = append(res[i], alloc{id, f})
			}
		}))
	}
	vrt.Join(ths...)
	for i := 0; i < total; i++ {
		id, f := ref.Next()
		want = append(want, alloc{id, f})
	}
	seen := map[uint32]bool{}
	var all []alloc
	for _, r := range res {
		for _, a := range r {
			if v := valid(a.id, k); v != "" {
				vrt.Fail(v, "invalid identifier %#x", a.id)
			}
			if seen[a.id] {
				vrt.Fail("duplicate", "identifier %#x given to two callers: %v", a.id, res)
			}
			seen[a.id] = true
			all = append(all, a)
		}
	}
	srt := func(a []alloc) {
		sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id })
	}
	vrt.Outcome("%v", all)
	srt(all)
	srt(want)
	if fmt.Sprint(all) != fmt.Sprint(want) {
		vrt.Fail("not-consecutive", "concurrent callers got %v, one caller would get %v", all, want)
	}
	// the sequential reference itself must be consecutive and valid
	for _, a := range want {
		if v := valid(a.id, k); v != "" {
			vrt.Fail(v, "invalid identifier %#x", a.id)
		}
	}
	ref2, _ := k.mk(start)
	prev, pf := ref2.Next()
	for i := 1; i < total; i++ {
		id, f := ref2.Next()
		if id != succ(prev, k) {
			vrt.Fail("not-consecutive", "identifier %#x follows %#x", id, prev)
		}
		if f && !pf {
			vrt.Fail("first-pass", "identifier %#x claims the first pass again", id)
		}
		if start < k.pass && f != (start+uint64(i) < k.pass) {
			vrt.Fail("first-pass", "allocation %d claims first=%v", start+uint64(i)+1, f)
		}
		prev, pf = id, f
	}
}

// concurrent calls through a Handler put distinct ids of the right parity on the wire
func calls(m handler.Mode, k kind, pair [2]int) {
	h := handler.New(context.Background(), m)
	var ids []uint32
	h.SetFrameSender(func(f frames.Frame) error {
		if _, ok := f.(*frames.RequestPayload); ok {
			ids = append(ids, f.GetStreamID())
		}
		return nil
	})
	p := payload.New([]byte("d"), make([]byte, 8))
	call := func(what int) {
		ctx := context.Background()
		switch what {
		case 0:
			h.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{})
		case 1:
			h.FireAndForget(ctx, p)
		case 2:
			h.RequestStream(ctx, p).Subscribe(flux.Subscribe[payload.Payload]{})
		case 3:
			h.RequestChannel(ctx, p, nil).Subscribe(flux.Subscribe[payload.Payload]{})
		}
	}
	a := vrt.GoNamed("a", func() { call(pair[0]); call(pair[1]) })
	b := vrt.GoNamed("b", func() { call(pair[1]) })
	vrt.Join(a, b)
	vrt.Quiesce()
	vrt.Outcome("%v", ids)
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	want := []uint32{lowest(k), lowest(k) + 2, lowest(k) + 4}
	if fmt.Sprint(ids) != fmt.Sprint(want) {
		vrt.Fail("call-ids", "three calls were sent with stream ids %v, want %v", ids, want)
	}
}
