// C01: MessagePack encoding round-trips and is exactly as long as the sizer says.
package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/mpref"
	"github.com/nanobus/iota/go/msgpack"
)

// op is a write with its matching read.
type op struct {
	name  string
	write func(msgpack.Writer)
	read  func(msgpack.Reader) (any, error)
	want  string // what the bytes and the result of the read denote
}

func val[T any](name string, v T, w func(msgpack.Writer, T), r func(msgpack.Reader) (T, error)) op {
	return op{name, func(x msgpack.Writer) { w(x, v) }, func(x msgpack.Reader) (any, error) { return r(x) }, mpref.CanonAny(v)}
}

func nillable[T any](name string, v *T, w func(msgpack.Writer, *T), r func(msgpack.Reader) (*T, error)) op {
	want := "nil"
	if v != nil {
		want = mpref.CanonAny(*v)
	}
	return op{name, func(x msgpack.Writer) { w(x, v) }, func(x msgpack.Reader) (any, error) {
		p, err := r(x)
		if p == nil {
			return nil, err
		}
		return *p, err
	}, want}
}

func both[T any](name string, v T, w func(msgpack.Writer, T), r func(msgpack.Reader) (T, error), wn func(msgpack.Writer, *T), rn func(msgpack.Reader) (*T, error)) []op {
	return []op{val(name, v, w, r), nillable(name+"?", &v, wn, rn)}
}

type (
	W = msgpack.Writer
	R = msgpack.Reader
)

func i8(v int8) []op {
	return both("int8", v, W.WriteInt8, R.ReadInt8, W.WriteNillableInt8, R.ReadNillableInt8)
}
func i16(v int16) []op {
	return both("int16", v, W.WriteInt16, R.ReadInt16, W.WriteNillableInt16, R.ReadNillableInt16)
}
func i32(v int32) []op {
	return both("int32", v, W.WriteInt32, R.ReadInt32, W.WriteNillableInt32, R.ReadNillableInt32)
}
func i64(v int64) []op {
	return both("int64", v, W.WriteInt64, R.ReadInt64, W.WriteNillableInt64, R.ReadNillableInt64)
}
func u8(v uint8) []op {
	return both("uint8", v, W.WriteUint8, R.ReadUint8, W.WriteNillableUint8, R.ReadNillableUint8)
}
func u16(v uint16) []op {
	return both("uint16", v, W.WriteUint16, R.ReadUint16, W.WriteNillableUint16, R.ReadNillableUint16)
}
func u32(v uint32) []op {
	return both("uint32", v, W.WriteUint32, R.ReadUint32, W.WriteNillableUint32, R.ReadNillableUint32)
}
func u64(v uint64) []op {
	return both("uint64", v, W.WriteUint64, R.ReadUint64, W.WriteNillableUint64, R.ReadNillableUint64)
}
func f32(v float32) []op {
	return both("float32", v, W.WriteFloat32, R.ReadFloat32, W.WriteNillableFloat32, R.ReadNillableFloat32)
}
func f64(v float64) []op {
	return both("float64", v, W.WriteFloat64, R.ReadFloat64, W.WriteNillableFloat64, R.ReadNillableFloat64)
}
func boolean(v bool) []op {
	return both("bool", v, W.WriteBool, R.ReadBool, W.WriteNillableBool, R.ReadNillableBool)
}
func str(v string) []op {
	return both("string", v, W.WriteString, R.ReadString, W.WriteNillableString, R.ReadNillableString)
}
func tm(v time.Time) []op {
	return both("time", v, W.WriteTime, R.ReadTime, W.WriteNillableTime, R.ReadNillableTime)
}
func bin(v []byte) []op {
	return []op{val("bytes", v, W.WriteByteArray, R.ReadByteArray), val("bytes?", v, W.WriteNillableByteArray, R.ReadNillableByteArray)}
}
func nils() []op {
	return []op{
		nillable("nil bool", nil, W.WriteNillableBool, R.ReadNillableBool),
		nillable("nil int8", nil, W.WriteNillableInt8, R.ReadNillableInt8),
		nillable("nil int16", nil, W.WriteNillableInt16, R.ReadNillableInt16),
		nillable("nil int32", nil, W.WriteNillableInt32, R.ReadNillableInt32),
		nillable("nil int64", nil, W.WriteNillableInt64, R.ReadNillableInt64),
		nillable("nil uint8", nil, W.WriteNillableUint8, R.ReadNillableUint8),
		nillable("nil uint16", nil, W.WriteNillableUint16, R.ReadNillableUint16),
		nillable("nil uint32", nil, W.WriteNillableUint32, R.ReadNillableUint32),
		nillable("nil uint64", nil, W.WriteNillableUint64, R.ReadNillableUint64),
		nillable("nil float32", nil, W.WriteNillableFloat32, R.ReadNillableFloat32),
		nillable("nil float64", nil, W.WriteNillableFloat64, R.ReadNillableFloat64),
		nillable("nil string", nil, W.WriteNillableString, R.ReadNillableString),
		nillable("nil time", nil, W.WriteNillableTime, R.ReadNillableTime),
		{"nil bytes", func(w W) { w.WriteNillableByteArray(nil) }, func(r R) (any, error) {
			b, err := r.ReadNillableByteArray()
			if b == nil {
				return nil, err
			}
			return b, err
		}, "nil"},
		{"nil", func(w W) { w.WriteNil() }, func(r R) (any, error) {
			n, err := r.IsNextNil()
			if !n {
				return "not nil", err
			}
			return nil, err
		}, "nil"},
		{"any nil", func(w W) { w.WriteAny(nil) }, R.ReadAny, "nil"},
		{"nil codec", func(w W) { w.WriteNil() }, func(r R) (any, error) {
			p, err := msgpack.DecodeNillable[rec](r)
			if p == nil {
				return nil, err
			}
			return p, err
		}, "nil"},
	}
}

func slice(n int) op {
	v := make([]uint16, n)
	want := make([]string, n)
	for i := range v {
		v[i] = uint16(i * 37)
		want[i] = fmt.Sprint(v[i])
	}
	return op{fmt.Sprintf("slice of %d", n), func(w W) { msgpack.WriteSlice(w, v, W.WriteUint16) }, func(r R) (any, error) { return msgpack.ReadSlice(r, R.ReadUint16) },
		"[" + strings.Join(want, " ") + "]"}
}

func mapping(n int) op {
	m := map[int32]string{}
	for i := 0; i < n; i++ {
		m[int32(i*101-5)] = string(rune('a' + i%26))
	}
	return op{fmt.Sprintf("map of %d", n), func(w W) { msgpack.WriteMap(w, m, W.WriteInt32, W.WriteString) },
		func(r R) (any, error) { return msgpack.ReadMap(r, R.ReadInt32, R.ReadString) }, mpref.CanonAny(m)}
}

// rec is a codec with a field of most kinds.
type rec struct {
	A int32
	B *string
	C []byte
	D []float64
	E map[string]uint64
	F any
	G *rec
}

func (x *rec) Encode(w msgpack.Writer) error {
	w.WriteMapSize(7)
	w.WriteString("a")
	w.WriteInt32(x.A)
	w.WriteString("b")
	w.WriteNillableString(x.B)
	w.WriteString("c")
	w.WriteNillableByteArray(x.C)
	w.WriteString("d")
	msgpack.WriteSlice(w, x.D, W.WriteFloat64)
	w.WriteString("e")
	msgpack.WriteMap(w, x.E, W.WriteString, W.WriteUint64)
	w.WriteString("f")
	w.WriteAny(x.F)
	w.WriteString("g")
	if x.G == nil {
		w.WriteNil()
	} else {
		x.G.Encode(w)
	}
	return w.Err()
}

func (x *rec) Decode(r msgpack.Reader) error {
	n, err := r.ReadMapSize()
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		k, err := r.ReadString()
		if err != nil {
			return err
		}
		switch k {
		case "a":
			x.A, err = r.ReadInt32()
		case "b":
			x.B, err = r.ReadNillableString()
		case "c":
			x.C, err = r.ReadNillableByteArray()
		case "d":
			x.D, err = msgpack.ReadSlice(r, R.ReadFloat64)
		case "e":
			x.E, err = msgpack.ReadMap(r, R.ReadString, R.ReadUint64)
		case "f":
			x.F, err = r.ReadAny()
		case "g":
			x.G, err = msgpack.DecodeNillable[rec](r)
		default:
			err = r.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func canonRec(v any) (string, bool) {
	x, ok := v.(*rec)
	if !ok {
		if y, ok2 := v.(rec); ok2 {
			x, ok = &y, true
		}
	}
	if !ok {
		return "", false
	}
	q := func(a any) string { return mpref.CanonAny(a) }
	b, g := "nil", "nil"
	if x.B != nil {
		b = q(*x.B)
	}
	c := q(x.C)
	if x.C == nil {
		c = "nil"
	}
	if x.G != nil {
		g, _ = canonRec(x.G)
	}
	// maps are rendered in the order of their rendered entries; the keys here are in order
	return fmt.Sprintf(`{"a":%d "b":%s "c":%s "d":%s "e":%s "f":%s "g":%s}`, x.A, b, c, q(x.D), q(x.E), q(x.F), g), true
}

const pad = 24

// check runs a sequence of writes through sizing, encoding, the reference parser and the matching reads.
func check(e *hx.E, ops []op) {
	what := func() string {
		var n []string
		for _, o := range ops {
			n = append(n, o.name+" "+short(o.want))
		}
		return strings.Join(n, ", ")
	}
	sizer := msgpack.NewSizer()
	for _, o := range ops {
		o.write(&sizer)
	}
	e.Step(3 * len(ops))
	e.Check(sizer.Err() == nil, "sizer-error", "sizing %s: %v", what(), sizer.Err())
	n := int(sizer.Len())
	mem := make([]byte, n+pad)
	run := func(fill byte, size int) ([]byte, error) {
		for i := range mem {
			mem[i] = fill
		}
		enc := msgpack.NewEncoder(mem[:size])
		for _, o := range ops {
			o.write(&enc)
		}
		for i := size; i < len(mem); i++ {
			e.Check(mem[i] == fill, "overrun", "encoding %s into %d bytes changed byte %d", what(), size, i)
		}
		return mem[:size], enc.Err()
	}
	if n > 0 {
		_, err := run(0x5a, n-1)
		e.Check(err != nil, "size-too-large", "encoding %s needs fewer bytes than the %d sized", what(), n)
	}
	_, err := run(0x00, n)
	e.Check(err == nil, "encode-error", "encoding %s into the %d bytes sized: %v", what(), n, err)
	b := mem[:n]
	e.State(string(trunc(b)))
	// the bytes are well-formed and denote what was written
	p := 0
	for i, o := range ops {
		v, k, st := mpref.Parse(b[p:])
		e.Check(st == mpref.OK, "malformed", "%s: value %d at offset %d of %x is %v", what(), i, p, trunc(b), st)
		e.Check(v.Canon() == o.want, "wrong-bytes", "%s: value %d was encoded as %x which denotes %s", what(), i, trunc(b[p:p+k]), short(v.Canon()))
		p += k
	}
	e.Check(p == n, "wrong-size", "%s: %d bytes sized, %d bytes of values", what(), n, p)
	// and read back
	dec := msgpack.NewDecoder(b)
	for i, o := range ops {
		got, err := o.read(&dec)
		e.Check(err == nil, "read-error", "%s: reading value %d of %x: %v", what(), i, trunc(b), err)
		g := mpref.CanonAny(got)
		e.Check(g == o.want, "wrong-value", "%s: value %d read back as %s from %x", what(), i, short(g), trunc(b))
	}
	e.Check(dec.Err() == nil, "read-error", "%s: %v", what(), dec.Err())
	_, err = dec.ReadAny()
	e.Check(err != nil, "not-consumed", "%s: bytes are left after reading everything from %x", what(), trunc(b))
}

func trunc(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

func short(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

// group checks each op alone, many per case.
func group(e *hx.E, name string, from, to int, mk func(i int) []op) {
	e.Case(func() string { return fmt.Sprintf("%s %d..%d", name, from, to-1) }, func() {
		for i := from; i < to; i++ {
			for _, o := range mk(i) {
				check(e, []op{o})
			}
		}
	})
}

func groups(e *hx.E, name string, n, per int, mk func(i int) []op) {
	for i := 0; i < n && !e.Stop(); i += per {
		to := i + per
		if to > n {
			to = n
		}
		group(e, name, i, to, mk)
	}
}

// a fast path for whole 32-bit ranges
func range32(e *hx.E, name string, write func(w W, x uint32), read func(r R, x uint32) bool, denotes func(v mpref.Value, x uint32) bool) {
	const per = 1 << 20
	for i := uint64(0); i < 1<<32 && !e.Stop(); i += per {
		from := i
		e.Case(func() string { return fmt.Sprintf("%s %d..%d", name, from, from+per-1) }, func() {
			var mem [32]byte
			for x := from; x < from+per; x++ {
				v := uint32(x)
				var s msgpack.Sizer
				write(&s, v)
				n := int(s.Len())
				if n < 1 || n > 16 {
					e.Fail("size", "%s %d sized %d", name, v, n)
				}
				for i := range mem {
					mem[i] = 0x5a
				}
				enc := msgpack.NewEncoder(mem[:n])
				write(&enc, v)
				for i := n; i < len(mem); i++ {
					if mem[i] != 0x5a {
						e.Fail("overrun", "%s %d", name, v)
					}
				}
				if enc.Err() != nil {
					e.Fail("encode-error", "%s %d: %v", name, v, enc.Err())
				}
				pv, k, st := mpref.Parse(mem[:n])
				if st != mpref.OK || k != n || !denotes(pv, v) {
					e.Fail("wrong-bytes", "%s %d encoded as %x", name, v, mem[:n])
				}
				dec := msgpack.NewDecoder(mem[:n])
				if !read(&dec, v) {
					e.Fail("wrong-value", "%s %d does not read back from %x", name, v, mem[:n])
				}
				if _, err := dec.ReadAny(); err == nil {
					e.Fail("not-consumed", "%s %d: bytes left in %x", name, v, mem[:n])
				}
			}
			e.Step(3 * per)
		})
	}
}

func main() {
	mpref.Custom = canonRec
	hx.Main("C01", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions,
			"values whose encoding exceeds 4 GiB are not explored",
			"the reference parser of the harness (written from the MessagePack specification) is the judge of what bytes denote")
		s.Enum("integers: every 8 and 16 bit value, every boundary of the wider ones", 8, func(e *hx.E) {
			groups(e, "int8", 256, 64, func(i int) []op { return i8(int8(i)) })
			groups(e, "uint8", 256, 64, func(i int) []op { return u8(uint8(i)) })
			groups(e, "int16", 65536, 512, func(i int) []op { return i16(int16(i)) })
			groups(e, "uint16", 65536, 512, func(i int) []op { return u16(uint16(i)) })
			is, us := mpref.Ints64(), mpref.Uints64()
			groups(e, "int64 boundary", len(is), 64, func(i int) []op { return i64(is[i]) })
			groups(e, "int32 boundary", len(is), 64, func(i int) []op { return i32(int32(is[i])) })
			groups(e, "uint64 boundary", len(us), 64, func(i int) []op { return u64(us[i]) })
			groups(e, "uint32 boundary", len(us), 64, func(i int) []op { return u32(uint32(us[i])) })
			groups(e, "any integer", len(is), 64, func(i int) []op {
				v := is[i]
				var r []op
				for _, x := range []any{int(v), int8(v), int16(v), int32(v), v, uint(v), uint8(v), uint16(v), uint32(v), uint64(v)} {
					r = append(r, anyOp(x))
				}
				return r
			})
			// every pair of 16 bit positions set to every value of a coarse grid
			grid := []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1234}
			groups(e, "64 bit grid", len(grid)*len(grid)*len(grid)*len(grid), 500, func(i int) []op {
				var v uint64
				for k := 0; k < 4; k++ {
					v = v<<16 | grid[i%len(grid)]
					i /= len(grid)
				}
				return append(i64(int64(v)), u64(v)...)
			})
		})
		s.Enum("nil, bool, float, time", 8, func(e *hx.E) {
			n := nils()
			groups(e, "nil", len(n), 4, func(i int) []op { return n[i : i+1] })
			groups(e, "bool", 2, 1, func(i int) []op { return append(boolean(i == 1), anyOp(i == 1)) })
			groups(e, "float32", 1<<16, 512, func(i int) []op {
				var r []op
				for _, lo := range []uint32{0, 1, 0x8000, 0xffff} {
					r = append(r, f32(math.Float32frombits(uint32(i)<<16|lo))...)
				}
				return r
			})
			groups(e, "float64", 1<<16, 512, func(i int) []op {
				var r []op
				for _, lo := range []uint64{0, 1, 0x800000000000, 0xffffffffffff} {
					r = append(r, f64(math.Float64frombits(uint64(i)<<48|lo))...)
				}
				return r
			})
			ts := mpref.Times()
			groups(e, "time", len(ts), 20, func(i int) []op { return append(tm(ts[i]), anyOp(ts[i])) })
		})
		s.Enum("strings, byte arrays and sizes of every length", 8, func(e *hx.E) {
			theE = e
			lens := hx.Pick(s, 2200, 70000)
			mk := func(n int) []op {
				b := mpref.Fill(n, 0)
				return append(append(str(string(b)), bin(b)...), anyOp(b), anyOp(string(b)))
			}
			groups(e, "string and bytes of length", lens, 100, mk)
			for _, c := range []int{1 << 15, 1 << 16, 1 << 17, 1 << 20, 1<<24 + 3} {
				d := hx.Pick(s, 6, 40)
				if c > 1<<17 {
					d = 2
				}
				for i := c - d; i <= c+d; i++ {
					if i >= lens {
						group(e, "string and bytes of length", i, i+1, mk)
					}
				}
			}
			// headers
			groups(e, "array and map size", 70000, 2000, sizes)
			for k := 16; k <= 32; k++ {
				for d := -3; d <= 3; d++ {
					if n := 1<<k + d; n > 0 && n < 1<<32 {
						group(e, "array and map size", n, n+1, sizes)
					}
				}
			}
			elems := hx.Pick(s, 300, 3000)
			many := func(i int) []op { return append([]op{slice(i), mapping(i)}, typedSlices(i)...) }
			groups(e, "slices and maps of every kind with n elements", elems, 10, many)
			for _, c := range []int{1 << 15, 1 << 16} {
				for i := c - 2; i <= c+2; i++ {
					group(e, "slices and maps of every kind with n elements", i, i+1, many)
				}
			}
		})
		s.Enum("dynamic values: every tree of the atoms", 8, trees)
		s.Enum("codecs: every combination of field values", 8, codecs)
		s.Enum("helpers that return bytes", 4, helpers)
		s.Enum("sequences of values in one buffer", 8, func(e *hx.E) {
			pool := pool()
			depth := hx.Pick(s, 3, 4)
			var seq []op
			var rec func()
			rec = func() {
				if e.Stop() {
					return
				}
				if len(seq) == depth-1 {
					c := append([]op{}, seq...)
					e.Case(func() string {
						var n []string
						for _, o := range c {
							n = append(n, o.name)
						}
						return strings.Join(n, ", ") + ", *"
					}, func() {
						check(e, c)
						for _, o := range pool {
							check(e, append(c[:len(c):len(c)], o))
						}
					})
					return
				}
				for _, o := range pool {
					seq = append(seq, o)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			rec()
		})
		if s.Thorough() {
			s.Enum("every int32 as int32 and int64", 8, func(e *hx.E) {
				range32(e, "int32", func(w W, x uint32) { w.WriteInt32(int32(x)) }, func(r R, x uint32) bool { v, err := r.ReadInt32(); return err == nil && v == int32(x) },
					func(v mpref.Value, x uint32) bool { return v.K == mpref.Int && v.I == int64(int32(x)) })
			})
			s.Enum("every uint32 as uint32", 8, func(e *hx.E) {
				range32(e, "uint32", func(w W, x uint32) { w.WriteUint32(x) }, func(r R, x uint32) bool { v, err := r.ReadUint32(); return err == nil && v == x },
					func(v mpref.Value, x uint32) bool { return v.K == mpref.Int && v.I == int64(x) })
			})
			s.Enum("every 32 bit prefix as int64", 8, func(e *hx.E) {
				range32(e, "int64", func(w W, x uint32) { w.WriteInt64(int64(x) << 32) }, func(r R, x uint32) bool { v, err := r.ReadInt64(); return err == nil && v == int64(x)<<32 },
					func(v mpref.Value, x uint32) bool { return v.K == mpref.Int && v.I == int64(x)<<32 })
			})
			s.Enum("every float32", 8, func(e *hx.E) {
				range32(e, "float32", func(w W, x uint32) { w.WriteFloat32(math.Float32frombits(x)) },
					func(r R, x uint32) bool {
						v, err := r.ReadFloat32()
						return err == nil && math.Float32bits(v) == x
					},
					func(v mpref.Value, x uint32) bool { return v.K == mpref.F32 && uint32(v.U) == x })
			})
		}
	})
}

func sizes(n int) []op {
	hdr := func(name string, w func(W, uint32), r func(R) (uint32, error)) op {
		return op{name: name, write: func(x W) { w(x, uint32(n)) }, read: func(x R) (any, error) { return r(x) }}
	}
	theOps := []op{hdr("array size", W.WriteArraySize, R.ReadArraySize), hdr("map size", W.WriteMapSize, R.ReadMapSize)}
	// a header alone is not a whole value: checked here rather than by check
	for i, o := range theOps {
		var s msgpack.Sizer
		o.write(&s)
		l := int(s.Len())
		mem := bytes.Repeat([]byte{0x5a}, l+pad)
		enc := msgpack.NewEncoder(mem[:l])
		o.write(&enc)
		b := mem[:l]
		fail := func(sig, f string, a ...any) { failNow(sig, fmt.Sprintf("%s %d: ", o.name, n)+fmt.Sprintf(f, a...)) }
		if enc.Err() != nil {
			fail("encode-error", "%v", enc.Err())
		}
		if !bytes.Equal(mem[l:], bytes.Repeat([]byte{0x5a}, pad)) {
			fail("overrun", "%x", mem)
		}
		fix, c16 := byte(0x90), byte(0xdc)
		if i == 1 {
			fix, c16 = 0x80, 0xde
		}
		var h uint64
		switch {
		case l == 1 && b[0]&0xf0 == fix:
			h = uint64(b[0] & 15)
		case l == 3 && b[0] == c16:
			h = uint64(b[1])<<8 | uint64(b[2])
		case l == 5 && b[0] == c16+1:
			h = uint64(b[1])<<24 | uint64(b[2])<<16 | uint64(b[3])<<8 | uint64(b[4])
		default:
			fail("malformed", "encoded as %x", b)
		}
		if h != uint64(n) {
			fail("wrong-bytes", "encoded as %x", b)
		}
		dec := msgpack.NewDecoder(b)
		v, err := o.read(&dec)
		if err != nil || v.(uint32) != uint32(n) {
			fail("wrong-value", "read back as %v, %v", v, err)
		}
		if _, err := dec.ReadAny(); err == nil {
			fail("not-consumed", "bytes left of %x", b)
		}
	}
	return nil
}

var theE *hx.E

func failNow(sig, msg string) { theE.Fail(sig, "%s", msg) }

func anyOp(v any) op {
	return op{fmt.Sprintf("any %T", v), func(w W) { w.WriteAny(v) }, func(r R) (any, error) { return r.ReadAny() }, mpref.CanonAny(v)}
}

func seqOf[T any](n int, f func(i int) T) []T {
	r := make([]T, n)
	for i := range r {
		r[i] = f(i)
	}
	return r
}

func typedSlices(n int) []op {
	num := func(i int) int { return i*73 - 900 }
	r := []op{
		anyOp(seqOf(n, func(i int) any { return num(i) })),
		anyOp(seqOf(n, func(i int) string { return fmt.Sprint("s", i) })),
		anyOp(seqOf(n, func(i int) time.Time { return time.Unix(int64(i)<<(i%36), int64(i)) })),
		anyOp(seqOf(n, func(i int) bool { return i%3 == 0 })),
		anyOp(seqOf(n, func(i int) int { return num(i) })),
		anyOp(seqOf(n, func(i int) int8 { return int8(num(i)) })),
		anyOp(seqOf(n, func(i int) int16 { return int16(num(i)) })),
		anyOp(seqOf(n, func(i int) int32 { return int32(num(i)) })),
		anyOp(seqOf(n, func(i int) int64 { return int64(num(i)) << 20 })),
		anyOp(seqOf(n, func(i int) uint { return uint(i * 99) })),
		anyOp(seqOf(n, func(i int) uint16 { return uint16(num(i)) })),
		anyOp(seqOf(n, func(i int) uint32 { return uint32(num(i)) })),
		anyOp(seqOf(n, func(i int) uint64 { return uint64(num(i)) })),
		anyOp(seqOf(n, func(i int) float32 { return float32(i) / 3 })),
		anyOp(seqOf(n, func(i int) float64 { return float64(i) / 3 })),
	}
	ss, sa, aa := map[string]string{}, map[string]any{}, map[any]any{}
	for i := 0; i < n; i++ {
		ss[fmt.Sprint(i)] = fmt.Sprint("v", i)
		sa[fmt.Sprint(i)] = int64(i)
		if i%2 == 0 {
			aa[i] = "x"
		} else {
			aa[fmt.Sprint(i)] = []any{nil, i}
		}
	}
	r = append(r, anyOp(ss), anyOp(sa), anyOp(aa))
	r = append(r, intMap(n, func(i int) int { return num(i) }), intMap(n, func(i int) int16 { return int16(i) }), intMap(n, func(i int) int32 { return int32(num(i)) }),
		intMap(n, func(i int) int64 { return int64(num(i)) }), intMap(n, func(i int) uint { return uint(i) }), intMap(n, func(i int) uint16 { return uint16(i) }),
		intMap(n, func(i int) uint32 { return uint32(i) }), intMap(n, func(i int) uint64 { return uint64(i) << 30 }))
	if n <= 256 {
		r = append(r, intMap(n, func(i int) int8 { return int8(i) }), intMap(n, func(i int) uint8 { return uint8(i) }))
	}
	return r
}

func intMap[K int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64](n int, f func(i int) K) op {
	m := map[K]any{}
	for i := 0; i < n; i++ {
		m[f(i)] = (i + 1) % 300 // not the key
	}
	return anyOp(m)
}

func one(o []op) op { return o[0] }

// one write of every kind and format, for sequences
func pool() []op {
	p := []op{}
	for _, v := range []int64{0, 127, -1, -32, -33, -129, 128, 1 << 15, -(1<<15 + 1), 1 << 31, math.MinInt64} {
		p = append(p, one(i64(v)))
	}
	for _, v := range []uint64{0, 128, 256, 1 << 16, 1 << 32, math.MaxUint64} {
		p = append(p, one(u64(v)))
	}
	p = append(p, one(i8(-128)), one(u8(255)), one(i16(-32768)), one(u16(65535)), one(i32(math.MinInt32)), one(u32(math.MaxUint32)))
	p = append(p, one(boolean(true)), one(boolean(false)), one(f32(1.5)), one(f64(-2.25)), one(str("")), one(str("abc")), one(str(string(mpref.Fill(32, 'a')))),
		one(str(string(mpref.Fill(256, 'b')))), one(bin(nil)), one(bin([]byte{0xc0})), one(bin(mpref.Fill(255, 0))), one(bin(mpref.Fill(256, 0))),
		one(tm(time.Unix(1, 0))), one(tm(time.Unix(1, 5))), one(tm(time.Unix(-1, 5))), slice(0), slice(3), slice(16), mapping(0), mapping(2), mapping(16))
	n := nils()
	p = append(p, n[0], n[7], n[11], n[12], n[13], n[14], n[15], n[16])
	b := "x"
	r := &rec{A: -7, B: &b, C: []byte{}, D: []float64{1}, E: map[string]uint64{"k": 1 << 40}, F: []any{nil, map[string]any{"q": false}}}
	p = append(p, codecOp(r), anyOp(r), anyOp([]any{nil, nil}), anyOp(map[any]any{nil: nil}), anyOp(time.Unix(3, 0)), anyOp(map[string]string{"a": "b"}))
	return p
}

func codecOp(r *rec) op {
	return op{"codec", func(w W) { r.Encode(w) }, func(x R) (any, error) { v, err := msgpack.Decode[rec](x); return v, err }, mpref.CanonAny(r)}
}

// every tree of depth up to 3 with at most 2 children over a set of atoms
func trees(e *hx.E) {
	atoms := []any{nil, true, int64(-33), uint8(200), "s", []byte{1, 2}, float32(0.5), float64(7), time.Unix(5, 6), "", []string{"p", "q"}, []time.Time{time.Unix(1, 0)},
		map[string]string{"m": "n"}, &rec{A: 1}}
	keys := []any{nil, false, "k", int64(5), uint64(1 << 63), float64(2)}
	build := func(sub []any) []any {
		r := []any{[]any{}, map[any]any{}, map[string]any{}}
		for _, a := range sub {
			r = append(r, []any{a}, map[string]any{"x": a}, map[any]any{keys[len(r)%len(keys)]: a})
			for _, b := range sub {
				r = append(r, []any{a, b}, map[string]any{"x": a, "": b})
			}
		}
		return r
	}
	level1 := append(append([]any{}, atoms...), build(atoms)...)
	groups(e, "tree of depth 2", len(level1), 50, func(i int) []op { return []op{anyOp(level1[i])} })
	level2 := build(level1)
	if !e.Suite.Thorough() {
		// a third level over every tree with one child
		small := append([]any{}, atoms...)
		for _, a := range atoms {
			small = append(small, []any{a}, map[string]any{"x": a}, map[any]any{"y": a})
		}
		level2 = build(small)
	}
	groups(e, "tree of depth 3", len(level2), 200, func(i int) []op { return []op{anyOp(level2[i])} })
	for _, k := range keys {
		for _, a := range atoms {
			k, a := k, a
			e.Case(func() string { return fmt.Sprintf("map[any]any %v: %v", k, a) }, func() { check(e, []op{anyOp(map[any]any{k: a})}) })
		}
	}
	for d := 1; d <= 300; d++ {
		d := d
		e.Case(func() string { return fmt.Sprintf("nested to depth %d", d) }, func() {
			var v any = "leaf"
			for i := 0; i < d; i++ {
				if i%2 == 0 {
					v = []any{v}
				} else {
					v = map[string]any{"k": v}
				}
			}
			check(e, []op{anyOp(v)})
		})
	}
}

func codecs(e *hx.E) {
	s1, s2 := "", string(mpref.Fill(40, 'c'))
	for _, a := range []int32{0, -1, 1 << 20} {
		for _, b := range []*string{nil, &s1, &s2} {
			for _, c := range [][]byte{nil, {}, {7}, mpref.Fill(255, 1), mpref.Fill(300, 1)} {
				for _, d := range [][]float64{nil, {1}, make([]float64, 17)} {
					for _, em := range []map[string]uint64{nil, {"a": 1}, {"b": 1 << 60, "c": 0}} {
						for _, f := range []any{nil, "f", []any{nil}, map[string]any{"n": nil}, time.Unix(9, 9), []float32{1}} {
							for _, g := range []*rec{nil, {A: 5, F: uint8(3)}} {
								r := &rec{a, b, c, d, em, f, g}
								e.Case(func() string { return "codec " + mpref.CanonAny(r) }, func() {
									check(e, []op{codecOp(r)})
									check(e, []op{anyOp(r), codecOp(r), {"nillable codec", func(w W) { r.Encode(w) }, func(x R) (any, error) { return msgpack.DecodeNillable[rec](x) }, mpref.CanonAny(r)}})
									bs, err := msgpack.ToBytes(r)
									e.Check(err == nil, "to-bytes", "ToBytes: %v", err)
									v, n, st := mpref.Parse(bs)
									e.Check(st == mpref.OK && n == len(bs) && v.Canon() == mpref.CanonAny(r), "to-bytes", "ToBytes gave %x: %v", bs, st)
								})
							}
						}
					}
				}
			}
		}
	}
}

func helpers(e *hx.E) {
	theE = e
	one := func(name string, want any, f func() ([]byte, error)) {
		e.Case(func() string { return fmt.Sprintf("%s(%v)", name, short(fmt.Sprint(want))) }, func() {
			b, err := f()
			e.Step(1)
			e.Check(err == nil, "helper-error", "%s: %v", name, err)
			v, n, st := mpref.Parse(b)
			e.Check(st == mpref.OK && n == len(b), "helper-bytes", "%s gave %x: %v, %d bytes used", name, trunc(b), st, n)
			e.Check(v.Canon() == mpref.CanonAny(want), "helper-bytes", "%s(%s) gave %x which denotes %s", name, short(mpref.CanonAny(want)), trunc(b), short(v.Canon()))
		})
	}
	for _, v := range mpref.Ints64() {
		v := v
		one("I8ToBytes", int8(v), func() ([]byte, error) { return msgpack.I8ToBytes(int8(v)) })
		one("I16ToBytes", int16(v), func() ([]byte, error) { return msgpack.I16ToBytes(int16(v)) })
		one("I32ToBytes", int32(v), func() ([]byte, error) { return msgpack.I32ToBytes(int32(v)) })
		one("I64ToBytes", v, func() ([]byte, error) { return msgpack.I64ToBytes(v) })
		one("U8ToBytes", uint8(v), func() ([]byte, error) { return msgpack.U8ToBytes(uint8(v)) })
		one("U16ToBytes", uint16(v), func() ([]byte, error) { return msgpack.U16ToBytes(uint16(v)) })
		one("U32ToBytes", uint32(v), func() ([]byte, error) { return msgpack.U32ToBytes(uint32(v)) })
		one("U64ToBytes", uint64(v), func() ([]byte, error) { return msgpack.U64ToBytes(uint64(v)) })
		one("AnyToBytes", v, func() ([]byte, error) { return msgpack.AnyToBytes(v) })
	}
	for i := 0; i < 256; i++ {
		f, g := math.Float32frombits(uint32(i)<<24|uint32(i)), math.Float64frombits(uint64(i)<<56|uint64(i))
		one("F32ToBytes", f, func() ([]byte, error) { return msgpack.F32ToBytes(f) })
		one("F64ToBytes", g, func() ([]byte, error) { return msgpack.F64ToBytes(g) })
	}
	for _, v := range []bool{false, true} {
		v := v
		one("BoolToBytes", v, func() ([]byte, error) { return msgpack.BoolToBytes(v) })
	}
	for _, n := range []int{0, 1, 2, 15, 16, 31, 32, 33, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536, 65537} {
		b := mpref.Fill(n, 3)
		one("StringToBytes", string(b), func() ([]byte, error) { return msgpack.StringToBytes(string(b)) })
		one("BytesToBytes", b, func() ([]byte, error) { return msgpack.BytesToBytes(b) })
		one("AnyToBytes", b, func() ([]byte, error) { return msgpack.AnyToBytes(b) })
		sl := make([]int32, n)
		for i := range sl {
			sl[i] = int32(i * i)
		}
		mp := map[uint32]bool{}
		for i := range sl {
			mp[uint32(i)] = i%2 == 0
		}
		one("SliceToBytes", sl, func() ([]byte, error) { return msgpack.SliceToBytes(sl, W.WriteInt32) })
		one("MapToBytes", mp, func() ([]byte, error) { return msgpack.MapToBytes(mp, W.WriteUint32, W.WriteBool) })
		one("AnyToBytes", sl, func() ([]byte, error) { return msgpack.AnyToBytes(sl) })
	}
	for _, t := range mpref.Times() {
		t := t
		one("TimeToBytes", t, func() ([]byte, error) { return msgpack.TimeToBytes(t) })
		one("AnyToBytes", []any{t}, func() ([]byte, error) { return msgpack.AnyToBytes([]any{t}) })
	}
	one("AnyToBytes", nil, func() ([]byte, error) { return msgpack.AnyToBytes(nil) })
	// what cannot be written is reported, not encoded as something else
	for _, v := range []any{struct{ A int }{1}, make(chan int), func() {}, []any{struct{}{}}, map[string]any{"x": complex(1, 2)}, [2]int{1, 2}} {
		v := v
		e.Case(func() string { return fmt.Sprintf("AnyToBytes of a %T", v) }, func() {
			b, err := msgpack.AnyToBytes(v)
			if err == nil {
				_, n, st := mpref.Parse(b)
				e.Check(st == mpref.OK && n == len(b), "unsupported", "AnyToBytes(%T) returned %x and no error", v, b)
			}
		})
	}
}
