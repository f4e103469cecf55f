// C23: reading custom sections returns exactly the requested ones, intact.
package main

import (
	"bytes"
	"fmt"
	"unicode/utf8"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/transport/wasmrs/customsections"
)

var cur string

func now() string { return cur }

var head = []byte("\x00asm\x01\x00\x00\x00")

func leb(v uint32) []byte {
	var b []byte
	for {
		c := byte(v & 0x7f)
		v >>= 7
		if v != 0 {
			b = append(b, c|0x80)
			continue
		}
		return append(b, c)
	}
}

// padded is leb in n bytes
func padded(v uint32, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v&0x7f) | 0x80
		v >>= 7
	}
	b[n-1] &= 0x7f
	return b
}

type section struct {
	id   byte
	name string
	data []byte
}

// parse is the reference reader
func parse(b []byte) (r []section, ok bool) {
	if len(b) < 8 || !bytes.Equal(b[:8], head) {
		return nil, false
	}
	b = b[8:]
	num := func(p []byte) (uint64, []byte, bool) {
		v := uint64(0)
		for i := 0; i < 5; i++ {
			if i >= len(p) {
				return 0, nil, false
			}
			v |= uint64(p[i]&0x7f) << (7 * i)
			if p[i] < 0x80 {
				return v, p[i+1:], v <= 0xffffffff
			}
		}
		return 0, nil, false
	}
	for len(b) > 0 {
		id := b[0]
		n, p, ok := num(b[1:])
		if !ok || n > uint64(len(p)) {
			return nil, false
		}
		c := p[:n]
		b = p[n:]
		if id != 0 {
			r = append(r, section{id: id, data: c})
			continue
		}
		n, p, ok = num(c)
		if !ok || n > uint64(len(p)) || !utf8.Valid(p[:n]) {
			return nil, false
		}
		r = append(r, section{0, string(p[:n]), p[n:]})
	}
	return r, true
}

// standard: are the known sections in order, without repetition?
func standard(r []section) bool {
	order := map[byte]int{1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 12: 10, 10: 11, 11: 12}
	last := 0
	for _, s := range r {
		if s.id == 0 {
			continue
		}
		o, ok := order[s.id]
		if !ok || o <= last {
			return false
		}
		last = o
	}
	return true
}

func check(e *hx.E, b []byte, names ...string) {
	e.Step(1)
	want, ok := parse(b)
	show := func() string {
		x := b
		if len(x) > 120 {
			x = x[:120]
		}
		return fmt.Sprintf("reading %q of %d bytes %x", names, len(b), x)
	}
	before := append([]byte(nil), b...)
	got, err := customsections.Read(b, names...)
	if !bytes.Equal(before, b) {
		e.Fail("input-changed", "%s changed the input", show())
	}
	if !ok {
		if err == nil {
			e.Fail("malformed-accepted", "%s: accepted although malformed, got %d sections", show(), len(got))
		}
		return
	}
	if err != nil {
		if standard(want) {
			e.Fail("rejected", "%s: %v", show(), err)
		}
		return
	}
	byName := map[string][][]byte{}
	for _, s := range want {
		if s.id == 0 {
			byName[s.name] = append(byName[s.name], s.data)
		}
	}
	n := 0
	seen := map[string]bool{}
	for _, name := range names {
		if seen[name] {
			continue
		}
		seen[name] = true
		g := got[name]
		w := byName[name]
		if w == nil {
			if g != nil {
				e.Fail("invented", "%s: returned a section %q that is not there", show(), name)
			}
			continue
		}
		if g == nil {
			e.Fail("lost", "%s: section %q is missing", show(), name)
		}
		n++
		match := false
		for _, d := range w {
			match = match || bytes.Equal(d, g.Data)
		}
		if !match || g.Name != name {
			e.Fail("content", "%s: section %q is returned as %q with %d bytes %x, want %x", show(), name, g.Name, len(g.Data), trunc(g.Data), trunc(w[len(w)-1]))
		}
	}
	if len(got) != n {
		e.Fail("unwanted", "%s: returned %d sections, %d were asked for and are there", show(), len(got), n)
	}
}

func trunc(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func sec(id byte, content []byte) []byte {
	return append(append([]byte{id}, leb(uint32(len(content)))...), content...)
}

func custom(name string, data []byte) []byte {
	return sec(0, append(append(leb(uint32(len(name))), name...), data...))
}

func main() {
	hx.Main("C23", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions,
			"the reference reader of the harness (written from the WebAssembly binary format) judges the section structure; the contents of sections other than the custom ones are not looked at",
			"of several custom sections with the same name, any one may be returned",
			"binaries whose sections are unknown or out of order may be read or rejected")
		inner := custom("wasmrs", []byte("inside"))
		alpha := [][]byte{
			custom("wasmrs", nil), custom("wasmrs", []byte{7}), custom("wasmrs", []byte("table")), custom("wasmrs", inner),
			custom("a", nil), custom("a", []byte{0, 0, 0}), custom("", nil), custom("", []byte("wasmrs")), custom("name", inner), custom("\u00e9\u4e16", []byte{1}),
			sec(1, []byte{0}), sec(3, inner), sec(10, nil), sec(11, []byte{0}), sec(12, []byte{0}), sec(13, []byte{0}),
		}
		sets := [][]string{nil, {"wasmrs"}, {"a"}, {""}, {"name"}, {"wasmrs", "a"}, {"wasmrs", ""}, {"a", "wasmrs", "", "name", "\u00e9\u4e16", "absent"}, {"absent"}, {"wasmrs", "wasmrs"}, {"wasm", "wasmrsx", "WASMRS"}}
		build := func(ix ...int) []byte {
			b := append([]byte(nil), head...)
			for _, i := range ix {
				b = append(b, alpha[i]...)
			}
			return b
		}
		s.Enum("sequences of sections, whole and truncated", 8, func(e *hx.E) {
			var rec func(ix []int, max int)
			rec = func(ix []int, max int) {
				ix2 := append([]int(nil), ix...)
				e.Case(now, func() {
					b := build(ix2...)
					cur = fmt.Sprintf("sections %v", ix2)
					for _, n := range sets {
						check(e, b, n...)
						for k := len(b) - 1; k >= 0 && len(ix2) <= hx.Pick(s, 3, 3); k-- {
							check(e, b[:k], n...)
						}
					}
					e.State(cur)
				})
				if len(ix) == max || e.Stop() {
					return
				}
				for i := range alpha {
					rec(append(ix, i), max)
				}
			}
			rec(nil, hx.Pick(s, 4, 5))
		})
		s.Enum("mutations of every byte", 8, func(e *hx.E) {
			for i := range alpha {
				for j := range alpha {
					i, j := i, j
					e.Case(now, func() {
						cur = fmt.Sprintf("sections %d %d", i, j)
						b := build(i, j)
						for k := range b {
							old := b[k]
							for v := 0; v < 256; v++ {
								b[k] = byte(v)
								check(e, b, "wasmrs")
								check(e, b, "wasmrs", "a", "", "name")
							}
							if s.Thorough() {
								for l := k + 1; l < len(b); l++ {
									o2 := b[l]
									for _, v := range []byte{0, 1, 2, 5, 0x7f, 0x80, 0xff} {
										for _, w := range []byte{0, 1, 2, 5, 0x7f, 0x80, 0xff} {
											b[k], b[l] = v, w
											check(e, b, "wasmrs", "a")
										}
									}
									b[l] = o2
								}
							}
							b[k] = old
						}
					})
				}
			}
		})
		s.Enum("words of size bytes", 8, func(e *hx.E) {
			letters := []byte{0, 1, 2, 3, 'a', 0x7f, 0x80, 0xff}
			n := hx.Pick(s, 5, 7)
			for _, c := range letters {
				for _, d := range letters {
					c, d := c, d
					e.Case(now, func() {
						cur = fmt.Sprintf("words starting %x %x", c, d)
						w := append(append([]byte(nil), head...), c, d)
						var rec func(k int)
						rec = func(k int) {
							check(e, w, "a", "", "\x01", "aa")
							if k == 0 {
								return
							}
							for _, x := range letters {
								w = append(w, x)
								rec(k - 1)
								w = w[:len(w)-1]
							}
						}
						rec(n)
					})
				}
			}
			e.Case(now, func() {
				cur = "headers"
				check(e, nil, "a")
				for k := 0; k < 8; k++ {
					check(e, head[:k], "a")
					b := append([]byte(nil), head...)
					for v := 0; v < 256; v++ {
						b[k] = byte(v)
						check(e, b, "a")
						check(e, append(b[:8:8], alpha[4]...), "a")
					}
				}
			})
		})
		s.Enum("padded, large and lying sizes", 8, func(e *hx.E) {
			for _, n := range []int{0, 1, 2, 126, 127, 128, 129, 255, 256, 16383, 16384, 70000, 1 << 21} {
				n := n
				e.Case(now, func() {
					cur = fmt.Sprintf("section of %d bytes", n)
					d := bytes.Repeat([]byte("0123456789abcde"), n/15+1)[:n]
					for _, before := range [][]byte{nil, alpha[0], alpha[5], alpha[10]} {
						for _, after := range [][]byte{nil, alpha[2], alpha[14]} {
							b := append(append(append(append([]byte(nil), head...), before...), custom("big", d)...), after...)
							check(e, b, "big")
							check(e, b, "wasmrs")
							check(e, b[:len(b)-1], "big", "wasmrs")
							nm := append(append(append(append([]byte(nil), head...), before...), custom(string(d), []byte{1, 2})...), after...)
							check(e, nm, string(d))
							check(e, nm, "wasmrs")
						}
					}
				})
			}
			for size := 1; size <= 5; size++ {
				for name := 1; name <= 5; name++ {
					size, name := size, name
					e.Case(now, func() {
						cur = fmt.Sprintf("sizes in %d and %d bytes", size, name)
						for _, d := range []int{0, 1, 3} {
							content := append(append(padded(3, name), "abc"...), make([]byte, d)...)
							for diff := -3; diff <= 3; diff++ {
								n := len(content) + diff
								if n < 0 {
									continue
								}
								b := append(append([]byte(nil), head...), 0)
								b = append(append(b, padded(uint32(n), size)...), content...)
								check(e, b, "abc")
								check(e, append(b, alpha[2]...), "abc", "wasmrs")
								check(e, append(b, alpha[2]...), "wasmrs")
							}
						}
					})
				}
			}
			lies := []uint32{5, 6, 7, 100, 1 << 16, 1 << 20, 1 << 24, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 6, 1<<32 - 5, 1<<32 - 4, 1<<32 - 1}
			for _, a := range lies {
				for _, n := range append(lies, 0, 1) {
					a, n := a, n
					e.Case(now, func() {
						cur = fmt.Sprintf("section said to have %d bytes, name %d", a, n)
						b := append(append([]byte(nil), head...), 0)
						b = append(append(append(b, leb(a)...), leb(n)...), "a123456"...)
						for _, names := range [][]string{nil, {"a"}, {""}} {
							got := hx.Alloc(func() { check(e, b, names...) })
							e.Check(got < 1<<20, "allocation", "%s, reading %q: %d bytes allocated for a file of %d", cur, names, got, len(b))
							e.Check(hx.Alloc(func() { check(e, append(append(b[:8:8], sec(1, b[9:])...), b[8:]...), names...) }) < 1<<20, "allocation", "%s", cur)
						}
						b[8] = 1
						e.Check(hx.Alloc(func() { check(e, b, "a") }) < 1<<20, "allocation", "%s in a section of type 1", cur)
					})
				}
			}
		})
	})
}
