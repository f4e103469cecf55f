// C02: MessagePack decoding is total and skips exactly one value.
package main

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/mpref"
	"github.com/nanobus/iota/go/msgpack"
)

type R = msgpack.Reader

type read struct {
	name string
	f    func(*msgpack.Decoder) (any, error)
	// which values a successful read may come from, and what it then denotes; "" means no opinion
	means func(v mpref.Value, got any) (string, string)
}

func rd[T any](name string, f func(R) (T, error), means func(v mpref.Value, got any) (string, string)) read {
	return read{name, func(d *msgpack.Decoder) (any, error) { return f(d) }, means}
}

func rdn[T any](name string, f func(R) (*T, error), means func(v mpref.Value, got any) (string, string)) read {
	return read{name, func(d *msgpack.Decoder) (any, error) {
		p, err := f(d)
		if p == nil {
			return nil, err
		}
		return *p, err
	}, func(v mpref.Value, got any) (string, string) {
		if v.K == mpref.Nil || got == nil {
			return v.Canon(), mpref.CanonAny(got)
		}
		return means(v, got)
	}}
}

func same(v mpref.Value, got any) (string, string) { return v.Canon(), mpref.CanonAny(got) }

func number(v mpref.Value, got any) (string, string) {
	if v.K == mpref.F64 || v.K == mpref.F32 {
		if g, ok := got.(float32); ok && v.K == mpref.F64 {
			return mpref.CanonAny(float32(v.F)), mpref.CanonAny(g)
		}
	}
	return same(v, got)
}

// the string and byte reads also take some other formats: only judged on their own
func text(v mpref.Value, got any) (string, string) {
	if v.K != mpref.Str {
		return "", ""
	}
	return same(v, got)
}

func binary(v mpref.Value, got any) (string, string) {
	if v.K != mpref.Bin {
		return "", ""
	}
	return same(v, got)
}

func when(v mpref.Value, got any) (string, string) {
	if _, ok := v.Time(); !ok {
		return "", ""
	}
	return same(v, got)
}

func arrSize(v mpref.Value, got any) (string, string) {
	if v.K != mpref.Arr {
		return "", ""
	}
	return fmt.Sprint(len(v.Elems)), fmt.Sprint(got)
}

func mapSize(v mpref.Value, got any) (string, string) {
	if v.K != mpref.Map {
		return "", ""
	}
	return fmt.Sprint(len(v.Elems) / 2), fmt.Sprint(got)
}

func none(v mpref.Value, got any) (string, string) { return "", "" }

func dynamic(v mpref.Value, got any) (string, string) {
	if dup(v) {
		return "", "" // maps with equal keys have no single meaning
	}
	return same(v, got)
}

func dup(v mpref.Value) bool {
	if v.K == mpref.Map {
		seen := map[string]bool{}
		for i := 0; i < len(v.Elems); i += 2 {
			k := v.Elems[i].Canon()
			if seen[k] || v.Elems[i].K == mpref.F32 || v.Elems[i].K == mpref.F64 || v.Elems[i].K == mpref.Ext {
				return true
			}
			seen[k] = true
		}
	}
	for _, x := range v.Elems {
		if dup(x) {
			return true
		}
	}
	return false
}

type rec struct {
	A int32
	B []string
	C map[string]any
}

func (x *rec) Encode(w msgpack.Writer) error { return w.Err() }

func (x *rec) Decode(r R) error {
	n, err := r.ReadMapSize()
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		k, err := r.ReadString()
		if err != nil {
			return err
		}
		switch k {
		case "a":
			x.A, err = r.ReadInt32()
		case "b":
			x.B, err = msgpack.ReadSlice(r, R.ReadString)
		case "c":
			x.C, err = msgpack.ReadMap(r, R.ReadString, R.ReadAny)
		default:
			err = r.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

var reads = []read{
	rd("ReadAny", R.ReadAny, dynamic),
	{"Skip", func(d *msgpack.Decoder) (any, error) { return nil, d.Skip() }, none},
	rd("ReadTime", R.ReadTime, when),
	rd("ReadString", R.ReadString, text),
	rd("ReadByteArray", R.ReadByteArray, binary),
	rd("ReadArraySize", R.ReadArraySize, arrSize),
	rd("ReadMapSize", R.ReadMapSize, mapSize),
	rd("ReadInt64", R.ReadInt64, number),
	rd("ReadUint64", R.ReadUint64, number),
	rd("ReadFloat32", R.ReadFloat32, number),
	rd("ReadFloat64", R.ReadFloat64, number),
	rd("ReadBool", R.ReadBool, same),
	rd("IsNextNil", R.IsNextNil, none),
	rd("ReadInt8", R.ReadInt8, number),
	rd("ReadInt16", R.ReadInt16, number),
	rd("ReadInt32", R.ReadInt32, number),
	rd("ReadUint8", R.ReadUint8, number),
	rd("ReadUint16", R.ReadUint16, number),
	rd("ReadUint32", R.ReadUint32, number),
	rdn("ReadNillableBool", R.ReadNillableBool, same),
	rdn("ReadNillableInt8", R.ReadNillableInt8, number),
	rdn("ReadNillableInt16", R.ReadNillableInt16, number),
	rdn("ReadNillableInt32", R.ReadNillableInt32, number),
	rdn("ReadNillableInt64", R.ReadNillableInt64, number),
	rdn("ReadNillableUint8", R.ReadNillableUint8, number),
	rdn("ReadNillableUint16", R.ReadNillableUint16, number),
	rdn("ReadNillableUint32", R.ReadNillableUint32, number),
	rdn("ReadNillableUint64", R.ReadNillableUint64, number),
	rdn("ReadNillableFloat32", R.ReadNillableFloat32, number),
	rdn("ReadNillableFloat64", R.ReadNillableFloat64, number),
	rdn("ReadNillableString", R.ReadNillableString, text),
	rdn("ReadNillableTime", R.ReadNillableTime, when),
	rd("ReadNillableByteArray", R.ReadNillableByteArray, binary),
	rd("ReadSlice", func(r R) ([]string, error) { return msgpack.ReadSlice(r, R.ReadString) }, none),
	rd("ReadMap", func(r R) (map[string]any, error) { return msgpack.ReadMap(r, R.ReadString, R.ReadAny) }, none),
	rd("Decode", func(r R) (rec, error) { return msgpack.Decode[rec](r) }, none),
	rdn("DecodeNillable", func(r R) (*rec, error) { return msgpack.DecodeNillable[rec](r) }, none),
}

// one read of b, with nothing behind it
func attempt(e *hx.E, r *read, b []byte) (any, error) {
	d := msgpack.NewDecoder(b[:len(b):len(b)])
	v, err := r.f(&d)
	if err == nil && d.Err() != nil {
		e.Fail("error-swallowed:"+r.name, "%s of %x returned %v without an error although the reader failed with %v", r.name, trunc(b), v, d.Err())
	}
	return v, err
}

func trunc(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

// any input: judged against the reference parser
func judge(e *hx.E, b []byte, rs []read) {
	n, st := mpref.Scan(b)
	var v mpref.Value
	if st == mpref.OK && n <= 4096 {
		v, _, _ = mpref.Parse(b[:n])
	}
	e.Step(len(rs))
	for i := range rs {
		r := &rs[i]
		got, err := attempt(e, r, b)
		if err != nil {
			if r.name == "Skip" && st == mpref.OK {
				e.Fail("skip-fails", "Skip of the complete value %x: %v", trunc(b[:n]), err)
			}
			continue
		}
		switch {
		case st != mpref.OK && (r.name == "Skip" || r.name == "ReadAny"):
			e.Fail("incomplete-accepted:"+r.name, "%s of %x returned %v without an error; the bytes are %v", r.name, trunc(b), got, st)
		case st == mpref.OK && n <= 4096:
			if want, is := r.means(v, got); want != is {
				e.Fail("wrong-value:"+r.name, "%s of %x returned %s, the bytes denote %s", r.name, trunc(b), is, want)
			}
		}
	}
}

// a complete well-formed value: Skip consumes exactly it, ReadAny consumes exactly it or fails, and every proper
// prefix is an error
func exact(e *hx.E, b []byte) {
	for _, r := range reads[:2] {
		buf := append(append([]byte{}, b...), 0x2a, 0xc3)
		d := msgpack.NewDecoder(buf)
		if _, err := r.f(&d); err != nil {
			if r.name == "Skip" {
				e.Fail("skip-fails", "Skip of the complete value %x: %v", trunc(b), err)
			}
			continue
		}
		i, err1 := d.ReadInt8()
		t, err2 := d.ReadBool()
		_, err3 := d.ReadBool()
		if err1 != nil || i != 0x2a || err2 != nil || !t || err3 == nil {
			e.Fail("wrong-extent:"+r.name, "%s of the value %x (%d bytes) followed by 2a c3 leaves %d/%v, %v/%v, %v", r.name, trunc(b), len(b), i, err1, t, err2, err3)
		}
	}
	e.Step(2)
	judge(e, b, reads)
	e.State(string(trunc(b)))
	step := 1
	if len(b) > 2000 {
		step = len(b) / 500
	}
	v, _, _ := mpref.Parse(b)
	full := make([]bool, len(reads)) // reads that take this value
	for i := range reads {
		d := msgpack.NewDecoder(append(b[:len(b):len(b)], 0xc1))
		if _, err := reads[i].f(&d); err == nil {
			// and consume all of it
			if x, err := d.ReadAny(); err != nil && d.Err() == nil {
				_ = x
				full[i] = true
			}
		}
	}
	// a read that takes the whole value must not take any proper prefix of it
	for i := range reads {
		if !full[i] || reads[i].name == "IsNextNil" || !whole(i, v) {
			continue
		}
		for k := 0; k < len(b); k += step {
			if got, err := attempt(e, &reads[i], b[:k]); err == nil {
				e.Fail("truncated-accepted:"+reads[i].name, "%s of the first %d bytes of %x (%d bytes) returned %v without an error", reads[i].name, k, trunc(b), len(b), got)
			}
		}
	}
	// the bytes after the slice do not matter
	mem := make([]byte, len(b)+32)
	for i := range reads {
		var res [2]string
		k := len(b) / 2
		for j, fill := range []byte{0x00, 0xff} {
			for x := range mem {
				mem[x] = fill
			}
			copy(mem, b[:k])
			v, err := attempt(e, &reads[i], mem[:k])
			res[j] = fmt.Sprint(mpref.CanonAny(v), err)
		}
		if res[0] != res[1] {
			e.Fail("reads-outside:"+reads[i].name, "%s of %x depends on the bytes after it: %s or %s", reads[i].name, trunc(b[:k]), res[0], res[1])
		}
	}
}

// whole tells whether reads[i] is a read of whole values like v (some scalar reads take the header of an array for
// a length: that says nothing about the array)
func whole(i int, v mpref.Value) bool {
	if v.K != mpref.Arr && v.K != mpref.Map || i < 2 {
		return true
	}
	for k, x := range v.Elems {
		if x.K != mpref.Str && !(v.K == mpref.Map && k%2 == 1 && i == 34) {
			return false
		}
	}
	return i == 33 && v.K == mpref.Arr || i == 34 && v.K == mpref.Map
}

// heap bytes allowed for decoding n bytes
func allowance(n int) uint64 { return 256<<10 + 1024*uint64(n) }

func budget(e *hx.E, b []byte, rs []read) {
	for i := range rs {
		r := &rs[i]
		start := time.Now()
		got := hx.Alloc(func() { attempt(e, r, b) })
		e.Step(1)
		if got > allowance(len(b)) {
			e.Fail("allocation:"+r.name, "%s of %d bytes starting %x allocated %d bytes", r.name, len(b), trunc(b), got)
		}
		if el := time.Since(start); el > 10*time.Second+time.Duration(len(b))*20*time.Microsecond {
			e.Fail("time:"+r.name, "%s of %d bytes starting %x took %v", r.name, len(b), trunc(b), el)
		}
	}
}

func main() {
	mpref.Custom = func(x any) (string, bool) { _, ok := x.(rec); return "rec", ok }
	hx.Main("C02", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions,
			"the reference parser of the harness (written from the MessagePack specification) judges well-formedness",
			"allocation is in proportion if it stays under 256 KiB plus 1024 bytes per input byte")
		s.Enum("every input of up to 3 bytes", 8, func(e *hx.E) {
			e.Case(func() string { return "empty" }, func() { judge(e, nil, reads) })
			for a := 0; a < 256; a++ {
				a := a
				e.Case(func() string { return fmt.Sprintf("%02x", a) }, func() { judge(e, []byte{byte(a)}, reads) })
				for b := 0; b < 256 && !e.Stop(); b++ {
					b := b
					e.Case(func() string { return fmt.Sprintf("%02x %02x *", a, b) }, func() {
						buf := []byte{byte(a), byte(b), 0}
						judge(e, buf[:2], reads)
						rs := reads
						if !s.Thorough() {
							rs = reads[:7]
						}
						for c := 0; c < 256; c++ {
							buf[2] = byte(c)
							judge(e, buf, rs)
						}
						e.State(string(buf[:2]))
					})
				}
			}
		})
		s.Enum("every sequence of tokens", 8, func(e *hx.E) {
			toks := tokens()
			depth := hx.Pick(s, 4, 5)
			rs := reads[:5]
			rs = append(rs[:5:5], read{"ReadSlice", reads[33].f, none}, read{"ReadMap", reads[34].f, none}, read{"Decode", reads[35].f, none})
			// prefixes of all but the last token are cases, the last one is looped over
			var pre []byte
			var rec func(d int)
			rec = func(d int) {
				if e.Stop() {
					return
				}
				if d == depth-1 {
					c := append([]byte{}, pre...)
					e.Case(func() string { return fmt.Sprintf("%x *", c) }, func() {
						judge(e, c, rs)
						for _, t := range toks {
							judge(e, append(c[:len(c):len(c)], t...), rs)
						}
						e.State(string(c))
					})
					return
				}
				l := len(pre)
				for _, t := range toks {
					pre = append(pre[:l], t...)
					rec(d + 1)
				}
				pre = pre[:l]
			}
			rec(0)
		})
		s.Enum("every well-formed value of the pool: extent, prefixes, bytes outside", 8, func(e *hx.E) {
			for _, v := range values(s) {
				v := v
				e.Case(func() string { return fmt.Sprintf("value %x", trunc(v)) }, func() { exact(e, v) })
			}
		})
		s.Enum("every length field and every amount of content", 8, lengths)
		s.Enum("declared sizes out of proportion to the input", 8, bombs)
		s.Enum("deep nesting", 4, deep)
		s.Enum("nil for none", 1, nils)
		s.Enum("the byte reader on every buffer size, offset and request", 8, reader)
	})
}

// leading bytes of every format with small and with huge length fields, and filler
func tokens() [][]byte {
	t := [][]byte{{0x00}, {0x01}, {0x61}, {0xff}, {0x80}, {0x81}, {0x90}, {0x91}, {0x92}, {0xa0}, {0xa1}, {0xa2}, {0xc0}, {0xc1}, {0xc2}}
	for c := 0xc4; c <= 0xdf; c++ {
		t = append(t, []byte{byte(c)})
	}
	t = append(t, []byte{0, 0}, []byte{0, 1}, []byte{0, 0, 0, 1}, []byte{0xff, 0xff}, []byte{0xff, 0xff, 0xff, 0xff}, []byte{0x80, 0, 0, 0}, []byte{0x7f, 0xff, 0xff, 0xff}, []byte{0xa1, 'a'}, []byte{0xa1, 'c'})
	return t
}

func values(s *hx.Suite) [][]byte {
	atoms := mpref.Atoms()
	r := append([][]byte{}, atoms...)
	headers := func(n int) (arr, mp [][]byte) {
		if n < 16 {
			arr, mp = append(arr, []byte{0x90 | byte(n)}), append(mp, []byte{0x80 | byte(n)})
		}
		return append(arr, mpref.Header(0xdc, 2, uint64(n)), mpref.Header(0xdd, 4, uint64(n))), append(mp, mpref.Header(0xde, 2, uint64(n)), mpref.Header(0xdf, 4, uint64(n)))
	}
	join := func(parts ...[]byte) []byte { return bytes.Join(parts, nil) }
	a0, m0 := headers(0)
	r = append(append(r, a0...), m0...)
	a1, m1 := headers(1)
	a2, m2 := headers(2)
	small := [][]byte{{0x01}, {0xc0}, {0xa1, 'k'}, {0xd4, 5, 1}, {0xc7, 1, 5, 9}, {0x90}, {0x81, 0xa1, 'q', 0xc3}, {0xc4, 1, 0}}
	for _, x := range atoms {
		for _, h := range a1 {
			r = append(r, join(h, x))
		}
		for _, h := range m1 {
			r = append(r, join(h, []byte{0xa1, 'k'}, x), join(h, x, []byte{0x01}))
		}
	}
	for _, x := range atoms {
		for _, y := range small {
			for _, h := range a2[:hx.Pick(s, 1, 3)] {
				r = append(r, join(h, x, y), join(h, y, x))
			}
			r = append(r, join(m2[0], []byte{0xa1, 'a'}, x, []byte{0xa1, 'c'}, y))
		}
	}
	// nested two and three deep
	lvl := append([][]byte{}, small...)
	for d := 0; d < hx.Pick(s, 2, 3); d++ {
		var next [][]byte
		for _, x := range lvl {
			next = append(next, join(a1[0], x), join(a1[1], x), join(m1[0], []byte{0xa1, 'c'}, x), join(m1[2], []byte{0x07}, x), join(m1[0], x, x), join(a2[0], x, []byte{0xd9, 0}))
		}
		lvl = next
		r = append(r, lvl...)
	}
	// containers with many elements
	for _, n := range []int{15, 16, 17, 255, 256, 300} {
		as, ms := headers(n)
		for _, h := range as {
			r = append(r, join(h, bytes.Repeat([]byte{0xd4, 5, 1}, n)))
		}
		var ent []byte
		for i := 0; i < n; i++ {
			ent = append(ent, mpref.Header(0xcd, 2, uint64(i))...)
			ent = append(ent, 0xc0)
		}
		for _, h := range ms {
			r = append(r, join(h, ent))
		}
	}
	return r
}

func lengths(e *hx.E) {
	type form struct {
		c    byte
		w    int
		unit []byte
		ext  bool
	}
	forms := []form{{0xc4, 1, []byte{0xc0}, false}, {0xc5, 2, []byte{0xc0}, false}, {0xc6, 4, []byte{0xc0}, false}, {0xd9, 1, []byte{0xc0}, false}, {0xda, 2, []byte{0xc0}, false}, {0xdb, 4, []byte{0xc0}, false},
		{0xc7, 1, []byte{0xc0}, true}, {0xc8, 2, []byte{0xc0}, true}, {0xc9, 4, []byte{0xc0}, true},
		{0xdc, 2, []byte{0xc0}, false}, {0xdd, 4, []byte{0xc0}, false}, {0xde, 2, []byte{0x05, 0xc0}, false}, {0xdf, 4, []byte{0x05, 0xc0}, false}}
	for c := 0x80; c < 0xc0; c++ {
		u := []byte{0xc0}
		if c < 0x90 {
			u = []byte{0x05, 0xc0}
		}
		forms = append(forms, form{byte(c), 0, u, false})
	}
	for i, w := range []int{1, 2, 4, 8, 16} {
		_ = w
		forms = append(forms, form{0xd4 + byte(i), 0, []byte{0xc0}, false})
	}
	counts := []uint64{}
	for i := uint64(0); i < 70; i++ {
		counts = append(counts, i)
	}
	for k := 7; k <= 32; k++ {
		for d := int64(-2); d <= 2; d++ {
			counts = append(counts, uint64(1<<k)+uint64(d))
		}
	}
	for _, f := range forms {
		for _, n := range counts {
			f, n := f, n
			if f.w == 0 && n != counts[0] || f.w > 0 && n >= 1<<(8*f.w) {
				continue
			}
			e.Case(func() string { return fmt.Sprintf("header %02x declaring %d", f.c, n) }, func() {
				h := mpref.Header(f.c, f.w, n)
				if f.ext {
					h = append(h, 0xff)
				}
				body := int(n)
				if f.w == 0 {
					body = 20
				}
				if n > 70000 {
					body = 100
				}
				tries := []int{0, 1, 2, 3, body - 1, body, body + 1}
				if body < 300 {
					tries = nil
					for i := 0; i <= body+2; i++ {
						tries = append(tries, i)
					}
				}
				rs := reads
				if body >= 300 {
					rs = reads[:7]
				}
				for _, k := range tries {
					if k < 0 {
						continue
					}
					b := append(append([]byte{}, h...), bytes.Repeat(f.unit, k)...)
					judge(e, b, rs)
					// in a container after which another value follows
					in := append(append([]byte{0x92}, b...), 0x2a)
					judge(e, in, reads[:2])
					if len(f.unit) == 2 && k > 0 {
						judge(e, b[:len(b)-1], reads[:2])
					}
				}
				// every way to cut the header
				for k := range h {
					judge(e, h[:k], reads)
				}
			})
		}
	}
}

func bombs(e *hx.E) {
	sizes := []uint64{256, 1000, 4096, 0xffff, 0x10000, 1 << 20, 1 << 24, 1 << 28, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
	for _, c := range []byte{0xdc, 0xdd, 0xde, 0xdf, 0xc5, 0xc6, 0xda, 0xdb, 0xc8, 0xc9} {
		w := 4
		if c == 0xdc || c == 0xde || c == 0xc5 || c == 0xda || c == 0xc8 {
			w = 2
		}
		for _, n := range sizes {
			if w == 2 && n > 0xffff {
				continue
			}
			for _, have := range []int{0, 1, 8, 100, 1000} {
				for _, wrap := range []int{0, 1, 2, 30} {
					c, n, have, wrap := c, n, have, wrap
					e.Case(func() string {
						return fmt.Sprintf("header %02x declaring %d with %d bytes present, nested %d", c, n, have, wrap)
					}, func() {
						h := mpref.Header(c, w, n)
						var b []byte
						for i := 0; i < wrap; i++ {
							b = append(b, mpref.Header(0xdd, 4, n)...)
						}
						b = append(append(b, h...), bytes.Repeat([]byte{0xa1, 'c'}, have/2+have%2)[:have]...)
						budget(e, b, reads)
						// as a field of a codec
						budget(e, append([]byte{0x81, 0xa1, 'b'}, b...), reads)
						budget(e, append([]byte{0x81, 0xa1, 'c'}, b...), reads)
						budget(e, append([]byte{0x81, 0xa1, 'c', 0x81, 0xa1, 'k'}, b...), reads)
					})
				}
			}
		}
	}
	// a container header repeated: every level claims as much as is left
	for _, h := range [][]byte{{0x9f}, {0x8f}, {0xdc, 0x40, 0x00}, {0xdd, 0, 1, 0, 0}, {0xdd, 0xff, 0xff, 0xff, 0xff}, {0xde, 0x20, 0}, {0xdf, 0xff, 0xff, 0xff, 0xff}, {0x05, 0xdf, 0x7f, 0xff, 0xff, 0xff}} {
		for _, n := range []int{10, 1000, 9000} {
			h, n := h, n
			e.Case(func() string { return fmt.Sprintf("header %x repeated %d times", h, n) }, func() {
				budget(e, bytes.Repeat(h, n), reads)
				budget(e, append([]byte{0x81, 0x05}, bytes.Repeat(h, n)...), reads[:2])
			})
		}
	}
}

// a nil where a list, a map or bytes are expected
func nils(e *hx.E) {
	for _, r := range []struct {
		name string
		f    func(d *msgpack.Decoder) (int, error)
	}{
		{"ReadArraySize", func(d *msgpack.Decoder) (int, error) { n, err := d.ReadArraySize(); return int(n), err }},
		{"ReadMapSize", func(d *msgpack.Decoder) (int, error) { n, err := d.ReadMapSize(); return int(n), err }},
		{"ReadByteArray", func(d *msgpack.Decoder) (int, error) { b, err := d.ReadByteArray(); return len(b), err }},
		{"ReadNillableByteArray", func(d *msgpack.Decoder) (int, error) { b, err := d.ReadNillableByteArray(); return len(b), err }},
	} {
		for before := 0; before < 3; before++ {
			for after := 0; after < 3; after++ {
				r, before, after := r, before, after
				e.Case(func() string { return fmt.Sprintf("%s of nil, %d values before and %d after", r.name, before, after) }, func() {
					b := append(append(bytes.Repeat([]byte{7}, before), 0xc0), bytes.Repeat([]byte{9}, after)...)
					d := msgpack.NewDecoder(b)
					for i := 0; i < before; i++ {
						v, err := d.ReadUint8()
						e.Check(v == 7 && err == nil, "before-nil", "the value before: %d, %v", v, err)
					}
					n, err := r.f(&d)
					e.Check(n == 0 && err == nil, "nil", "%s of nil: %d, %v", r.name, n, err)
					for i := 0; i < after; i++ {
						v, err := d.ReadUint8()
						e.Check(v == 9 && err == nil, "after-nil", "the value after: %d, %v", v, err)
					}
					_, err = d.ReadUint8()
					e.Check(err != nil, "end", "a value after the end")
					e.Step(before + after + 2)
				})
			}
		}
	}
}

func deep(e *hx.E) {
	for _, h := range [][]byte{{0x91}, {0x92, 0xc0}, {0x81, 0x01}, {0x81}, {0xdc, 0, 1}, {0xdd, 0, 0, 0, 1}, {0xdd, 0xff, 0xff, 0xff, 0xff}, {0xdf, 0, 0, 0, 1, 0xc0}, {0xdf, 0xff, 0xff, 0xff, 0xff}, {0x91, 0x81, 0xc0}} {
		for _, n := range []int{1, 100, 5000, 9000, 20000, 100000, 1000000, 4000000} {
			h, n := h, n
			e.Case(func() string { return fmt.Sprintf("header %x nested %d deep", h, n) }, func() {
				for _, end := range [][]byte{nil, {0xc0}, {0x01}} {
					b := append(bytes.Repeat(h, n), end...)
					_, st := mpref.Scan(b)
					d := msgpack.NewDecoder(b)
					err := d.Skip()
					e.Check((err == nil) == (st == mpref.OK), "skip-deep", "Skip of %x nested %d deep ending %x: %v; the bytes are %v", h, n, end, err, st)
					d = msgpack.NewDecoder(b)
					_, err = d.ReadAny()
					e.Check(err != nil || st == mpref.OK, "deep-accepted", "ReadAny of %x nested %d deep ending %x: no error, but the bytes are %v", h, n, end, st)
					e.Step(2)
				}
			})
		}
	}
}

// DataReader: every operation at every position of small buffers
func reader(e *hx.E) {
	type act struct {
		name string
		n    uint64
		f    func(d *msgpack.DataReader) error
	}
	acts := []act{
		{"GetUint8", 1, func(d *msgpack.DataReader) error { _, err := d.GetUint8(); return err }},
		{"GetUint16", 2, func(d *msgpack.DataReader) error { _, err := d.GetUint16(); return err }},
		{"GetUint32", 4, func(d *msgpack.DataReader) error { _, err := d.GetUint32(); return err }},
		{"GetUint64", 8, func(d *msgpack.DataReader) error { _, err := d.GetUint64(); return err }},
		{"GetInt8", 1, func(d *msgpack.DataReader) error { _, err := d.GetInt8(); return err }},
		{"GetInt16", 2, func(d *msgpack.DataReader) error { _, err := d.GetInt16(); return err }},
		{"GetInt32", 4, func(d *msgpack.DataReader) error { _, err := d.GetInt32(); return err }},
		{"GetInt64", 8, func(d *msgpack.DataReader) error { _, err := d.GetInt64(); return err }},
		{"GetFloat32", 4, func(d *msgpack.DataReader) error { _, err := d.GetFloat32(); return err }},
		{"GetFloat64", 8, func(d *msgpack.DataReader) error { _, err := d.GetFloat64(); return err }},
		{"SetUint8", 1, func(d *msgpack.DataReader) error { return d.SetUint8(1) }},
		{"SetUint16", 2, func(d *msgpack.DataReader) error { return d.SetUint16(1) }},
		{"SetUint32", 4, func(d *msgpack.DataReader) error { return d.SetUint32(1) }},
		{"SetUint64", 8, func(d *msgpack.DataReader) error { return d.SetUint64(1) }},
		{"SetInt8", 1, func(d *msgpack.DataReader) error { return d.SetInt8(1) }},
		{"SetInt16", 2, func(d *msgpack.DataReader) error { return d.SetInt16(1) }},
		{"SetInt32", 4, func(d *msgpack.DataReader) error { return d.SetInt32(1) }},
		{"SetInt64", 8, func(d *msgpack.DataReader) error { return d.SetInt64(1) }},
		{"SetFloat32", 4, func(d *msgpack.DataReader) error { return d.SetFloat32(1) }},
		{"SetFloat64", 8, func(d *msgpack.DataReader) error { return d.SetFloat64(1) }},
	}
	for _, n := range []uint32{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 255, 65535, 65536, 1 << 30, math.MaxInt32, 1 << 31, math.MaxUint32 - 20, math.MaxUint32 - 8, math.MaxUint32 - 7, math.MaxUint32 - 2, math.MaxUint32 - 1, math.MaxUint32} {
		n := n
		acts = append(acts,
			act{fmt.Sprintf("GetBytes(%d)", n), uint64(n), func(d *msgpack.DataReader) error {
				b, err := d.GetBytes(n)
				if err == nil && len(b) != int(n) {
					return fmt.Errorf("got %d bytes", len(b))
				}
				return err
			}},
			act{fmt.Sprintf("Discard(%d)", n), uint64(n), func(d *msgpack.DataReader) error { return d.Discard(n) }})
		if n <= 65536 {
			acts = append(acts, act{fmt.Sprintf("SetBytes(%d)", n), uint64(n), func(d *msgpack.DataReader) error { return d.SetBytes(make([]byte, n)) }})
		}
	}
	acts = append(acts, act{"PeekUint8", 1, nil})
	for size := 0; size <= 20; size++ {
		for pos := 0; pos <= size; pos++ {
			for i := range acts {
				a, size, pos := acts[i], size, pos
				e.Case(func() string { return fmt.Sprintf("%s at %d of %d bytes", a.name, pos, size) }, func() {
					mem := bytes.Repeat([]byte{0xee}, size+16)
					d := msgpack.NewDataReader(mem[:size])
					for j := 0; j < pos; j++ {
						d.GetUint8()
					}
					var err error
					moved := a.n
					if a.f == nil {
						_, err = d.PeekUint8()
						moved = 0
					} else {
						err = a.f(&d)
					}
					e.Step(1)
					fits := uint64(pos)+a.n <= uint64(size)
					e.Check((err == nil) == fits, "bounds", "%s at %d of %d bytes: %v", a.name, pos, size, err)
					e.Check((d.Err() == nil) == fits, "bounds", "%s at %d of %d bytes: Err() = %v", a.name, pos, size, d.Err())
					e.Check(bytes.Equal(mem[size:], bytes.Repeat([]byte{0xee}, 16)), "overrun", "%s at %d of %d bytes wrote outside", a.name, pos, size)
					if fits {
						left := 0
						for d.Discard(1) == nil {
							left++
						}
						e.Check(left == size-pos-int(moved), "position", "%s at %d of %d bytes leaves %d", a.name, pos, size, left)
					} else {
						e.Check(d.Discard(0) != nil, "sticky", "%s at %d of %d bytes failed, the next call did not", a.name, pos, size)
					}
				})
			}
		}
	}
}
