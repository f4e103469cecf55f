// C25: typed payload transforms and nil-aware conversions are faithful.
package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/mpref"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/msgpack/convert"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
)

var cur string

func now() string { return cur }

type (
	W = msgpack.Writer
	R = msgpack.Reader
	P = payload.Payload
)

// tr is a transform with values, types erased
type tr struct {
	name   string
	n      int
	encode func(i int) (P, error)
	decode func(p P) (any, error)
	want   func(i int) string
	canon  func(any) string
	// scalar decoders may take the size of an array or a map for a length
	scalar bool
	void   bool
}

func mk[T any](name string, enc func(T) (P, error), dec func(P) (T, error), canon func(T) string, vals ...T) tr {
	if canon == nil {
		canon = func(v T) string { return mpref.CanonAny(v) }
	}
	return tr{name: name, n: len(vals), encode: func(i int) (P, error) { return enc(vals[i]) }, decode: func(p P) (any, error) { v, err := dec(p); return v, err },
		want: func(i int) string { return canon(vals[i]) }, canon: func(x any) string { return canon(x.(T)) }, scalar: true}
}

func of[T any](name string, t transform.Transform[T], vals ...T) tr {
	return mk(name, t.Encode, t.Decode, nil, vals...)
}

func conv[T, F any](in []F, f func(F) T, back func(T) F, eq func(a, b F) bool) (r []T) {
	for _, v := range in {
		if t := f(v); eq(back(t), v) {
			r = append(r, t)
		}
	}
	return r
}

// rec is a codec
type rec struct {
	A string
	B int32
	C []byte
	D *time.Time
	M map[string]int64
	F float64
}

func (r *rec) Encode(w W) error {
	w.WriteArraySize(6)
	w.WriteString(r.A)
	w.WriteInt32(r.B)
	w.WriteByteArray(r.C)
	w.WriteNillableTime(r.D)
	if err := msgpack.WriteMap(w, r.M, W.WriteString, W.WriteInt64); err != nil {
		return err
	}
	w.WriteFloat64(r.F)
	return w.Err()
}

func (r *rec) Decode(d R) (err error) {
	n, err := d.ReadArraySize()
	if err != nil {
		return err
	}
	if n != 6 {
		return errors.New("size")
	}
	if r.A, err = d.ReadString(); err != nil {
		return err
	}
	if r.B, err = d.ReadInt32(); err != nil {
		return err
	}
	if r.C, err = d.ReadByteArray(); err != nil {
		return err
	}
	if r.D, err = d.ReadNillableTime(); err != nil {
		return err
	}
	if r.M, err = msgpack.ReadMap(d, R.ReadString, R.ReadInt64); err != nil {
		return err
	}
	r.F, err = d.ReadFloat64()
	return err
}

func canonRec(r rec) string {
	d := "nil"
	if r.D != nil {
		d = mpref.CanonAny(*r.D)
	}
	return fmt.Sprintf("%q %d %x %s %s %x", r.A, r.B, r.C, d, mpref.CanonAny(r.M), math.Float64bits(r.F))
}

// failing is a codec that cannot be encoded (at the given call)
type failing struct{ calls, at int }

var errCodec = errors.New("cannot be encoded")

func (f *failing) Encode(w W) error {
	f.calls++
	w.WriteString("partial")
	if f.calls >= f.at {
		return errCodec
	}
	return nil
}
func (f *failing) Decode(R) error { return errCodec }

type myInt32 int32
type myInt64 int64
type myUint64 uint64
type myF32 float32
type myF64 float64
type myString string
type myBool bool
type myBytes []byte

func strs() (r []string) {
	for _, n := range []int{0, 1, 2, 31, 32, 33, 255, 256, 257, 65535, 65536} {
		r = append(r, string(mpref.Fill(n, 'a')))
	}
	return append(r, "h\u00e9llo \u4e16\u754c", "\x00\xff")
}

func times() (r []time.Time) {
	for _, t := range mpref.Times() {
		if y := t.UTC().Year(); y >= 1 && y < 9999 {
			r = append(r, t.UTC(), t.In(time.FixedZone("", 5*3600+1800)), t.In(time.FixedZone("", -8*3600)))
		}
	}
	return r
}

func transforms(s *hx.Suite) []tr {
	i64, u64 := mpref.Ints64(), mpref.Uints64()
	eqi := func(a, b int64) bool { return a == b }
	equ := func(a, b uint64) bool { return a == b }
	ints := conv(i64, func(v int64) int { return int(v) }, func(v int) int64 { return int64(v) }, eqi)
	i32 := conv(i64, func(v int64) int32 { return int32(v) }, func(v int32) int64 { return int64(v) }, eqi)
	i16 := conv(i64, func(v int64) int16 { return int16(v) }, func(v int16) int64 { return int64(v) }, eqi)
	uints := conv(u64, func(v uint64) uint { return uint(v) }, func(v uint) uint64 { return uint64(v) }, equ)
	u32 := conv(u64, func(v uint64) uint32 { return uint32(v) }, func(v uint32) uint64 { return uint64(v) }, equ)
	u16 := conv(u64, func(v uint64) uint16 { return uint16(v) }, func(v uint16) uint64 { return uint64(v) }, equ)
	var i8 []int8
	var u8 []uint8
	for v := 0; v < 256; v++ {
		i8, u8 = append(i8, int8(v-128)), append(u8, uint8(v))
	}
	if s.Thorough() {
		i16, u16 = nil, nil
		for v := 0; v < 1<<16; v++ {
			i16, u16 = append(i16, int16(v-1<<15)), append(u16, uint16(v))
		}
	}
	f64 := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e300, float64(math.MaxFloat32), 1 << 53}
	f32 := []float32{0, 1, -1, 0.5, 1.1, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN())}
	var bs [][]byte
	for _, n := range []int{0, 1, 2, 31, 32, 254, 255, 256, 257, 65535, 65536} {
		bs = append(bs, mpref.Fill(n, 0x80))
	}
	tm := times()
	r := []tr{
		of("String", transform.String, strs()...), of("Int", transform.Int, ints...), of("Int64", transform.Int64, i64...), of("Int32", transform.Int32, i32...), of("Int16", transform.Int16, i16...), of("Int8", transform.Int8, i8...),
		of("Uint", transform.Uint, uints...), of("Uint64", transform.Uint64, u64...), of("Uint32", transform.Uint32, u32...), of("Uint16", transform.Uint16, u16...), of("Uint8", transform.Uint8, u8...),
		of("Float64", transform.Float64, f64...), of("Float32", transform.Float32, f32...), of("Bytes", transform.Bytes, bs...), of("Bool", transform.Bool, true, false),
		mk("Time", transform.Time.Encode, transform.Time.Decode, func(t time.Time) string { _, o := t.Zone(); return fmt.Sprint(t.Unix(), t.Nanosecond(), o) }, tm...),
		mk("Int32 of", transform.Int32Encode[myInt32], transform.Int32Decode[myInt32], func(v myInt32) string { return fmt.Sprint(v) }, conv(i32, func(v int32) myInt32 { return myInt32(v) }, func(v myInt32) int32 { return int32(v) }, func(a, b int32) bool { return a == b })...),
		mk("Int64 of", transform.Int64Encode[myInt64], transform.Int64Decode[myInt64], func(v myInt64) string { return fmt.Sprint(v) }, conv(i64, func(v int64) myInt64 { return myInt64(v) }, func(v myInt64) int64 { return int64(v) }, eqi)...),
		mk("Uint64 of", transform.Uint64Encode[myUint64], transform.Uint64Decode[myUint64], func(v myUint64) string { return fmt.Sprint(v) }, conv(u64, func(v uint64) myUint64 { return myUint64(v) }, func(v myUint64) uint64 { return uint64(v) }, equ)...),
		mk("Float32 of", transform.Float32Encode[myF32], transform.Float32Decode[myF32], func(v myF32) string { return fmt.Sprint(float32(v)) }, 0, 1.5, -2.25, math.MaxFloat32),
		mk("Float64 of", transform.Float64Encode[myF64], transform.Float64Decode[myF64], func(v myF64) string { return fmt.Sprint(float64(v)) }, 0, 1.5, -2.25, math.MaxFloat64),
		mk("String of", transform.StringEncode[myString], transform.StringDecode[myString], func(v myString) string { return fmt.Sprintf("%q", v) }, conv(strs(), func(v string) myString { return myString(v) }, func(v myString) string { return string(v) }, func(a, b string) bool { return a == b })...),
		mk("ToString", transform.ToStringEncode(strconv.Itoa), transform.ToStringDecode(strconv.Atoi), func(v int) string { return fmt.Sprint(v) }, ints...),
	}
	v := mk("Void", transform.Void.Encode, transform.Void.Decode, func(struct{}) string { return "" }, struct{}{})
	v.void = true
	r = append(r, v)
	anys := []any{nil, true, false, int64(0), int64(127), int64(-33), int64(math.MinInt64), uint64(math.MaxUint64), 1.5, "", "text", []byte{1, 2}, []any{}, []any{int64(1), "a", nil, []any{true}}, map[any]any{}, map[any]any{"k": []any{int64(1)}, int64(2): "v"}, strings.Repeat("x", 300), mpref.Fill(70000, 1), time.Unix(5, 6)}
	an := mk("Any", transform.Any.Encode, transform.Any.Decode, func(v any) string { return mpref.CanonAny(v) }, anys...)
	an.canon = func(x any) string { return mpref.CanonAny(x) }
	an.scalar = false
	r = append(r, an)
	t1 := time.Unix(1600000000, 5).UTC()
	recs := []rec{{}, {A: "a", B: -5, C: []byte{1, 2, 3}, D: &t1, M: map[string]int64{"x": 1, "y": -1 << 40}, F: 1.5}, {A: strings.Repeat("z", 70000), B: math.MinInt32, M: map[string]int64{}}}
	cd := mk("codec", transform.MsgPackEncode[rec], transform.MsgPackDecode[rec], canonRec, recs...)
	cd.scalar = false
	r = append(r, cd)
	slice := func(name string, t tr) { t.scalar = false; t.name = name; r = append(r, t) }
	count := func(n int) []int64 {
		x := make([]int64, n)
		for i := range x {
			x[i] = i64[i%len(i64)]
		}
		return x
	}
	slice("slice of int64", mk("", transform.SliceEncode(W.WriteInt64), transform.SliceDecode(R.ReadInt64), nil, count(0), count(1), count(3), count(15), count(16), count(17), count(65535), count(65536)))
	slice("slice of string", mk("", transform.SliceEncode(W.WriteString), transform.SliceDecode(R.ReadString), nil, []string{}, []string{"a"}, []string{"", "b", strings.Repeat("c", 300)}, make([]string, 16)))
	slice("slice of time", mk("", transform.SliceEncode(W.WriteTime), transform.SliceDecode(R.ReadTime), nil, []time.Time{}, []time.Time{t1, time.Unix(0, 0)}))
	slice("slice of codec", mk("", transform.SliceEncode(func(w W, v rec) { v.Encode(w) }), transform.SliceDecode(func(d R) (rec, error) { var v rec; return v, v.Decode(d) }), func(v []rec) string { return fmt.Sprint(len(v)) }, nil))
	mp := func(n int) map[string]int32 {
		m := map[string]int32{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = int32(i * 7)
		}
		return m
	}
	slice("map of string to int32", mk("", transform.MapEncode(W.WriteString, W.WriteInt32), transform.MapDecode(R.ReadString, R.ReadInt32), nil, mp(0), mp(1), mp(2), mp(15), mp(16), mp(17), mp(65536)))
	slice("map of int64 to string", mk("", transform.MapEncode(W.WriteInt64, W.WriteString), transform.MapDecode(R.ReadInt64, R.ReadString), nil, map[int64]string{}, map[int64]string{-1: "a", 1 << 40: "", 5: "c"}))
	slice("map of string to slice", mk("", transform.MapEncode(W.WriteString, func(w W, v []int64) { msgpack.WriteSlice(w, v, W.WriteInt64) }), transform.MapDecode(R.ReadString, func(d R) ([]int64, error) { return msgpack.ReadSlice(d, R.ReadInt64) }), nil, map[string][]int64{"a": {}, "b": {1, -2}}))
	return r
}

// malformed checks that bytes that are no complete value are not decoded
func malformed(e *hx.E, t tr, b []byte, own bool) {
	e.Step(1)
	v, err := t.decode(payload.New(b, []byte("metadata")))
	if err != nil || t.void {
		return
	}
	_, st := mpref.Scan(b)
	if st == 0 {
		return
	}
	// a scalar read takes the size of an array or a map for a length, on its own
	// and as an element (the transform of dynamic values does not)
	header := func(c byte) bool { return c >= 0x80 && c < 0xa0 || c >= 0xdc && c <= 0xdf }
	if t.scalar && len(b) > 0 && header(b[0]) {
		return
	}
	if t.name != "Any" && !own {
		for i := 1; i < len(b); i++ {
			if header(b[i]) {
				return
			}
		}
	}
	x := b
	if len(x) > 40 {
		x = x[:40]
	}
	e.Fail("malformed:"+t.name, "%s decodes %x (%d bytes), which is malformed, to %.100v", t.name, x, len(b), v)
}

func main() {
	hx.Main("C25", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions, "the time transform carries what RFC 3339 can: years 1 to 9999 and whole minutes of zone offset",
			"narrowing conversions are judged only on values that the target type can hold")
		s.Enum("every value through its transform, whole and truncated", 8, func(e *hx.E) {
			for _, t := range transforms(s) {
				for i := 0; i < t.n; i++ {
					t, i := t, i
					e.Case(now, func() {
						cur = fmt.Sprintf("%s value %d", t.name, i)
						p, err := t.encode(i)
						if err != nil {
							e.Fail("encode:"+t.name, "%s: encoding %.100s: %v", t.name, t.want(i), err)
						}
						before := string(p.Data())
						got, err := t.decode(p)
						if err != nil || t.canon(got) != t.want(i) {
							e.Fail("round-trip:"+t.name, "%s: %.200s comes back as %.200s, %v", t.name, t.want(i), t.canon(got), err)
						}
						// metadata does not matter, and decoding does not change the payload
						got, err = t.decode(payload.New(p.Data(), []byte{1, 2, 3}))
						if err != nil || t.canon(got) != t.want(i) || string(p.Data()) != before {
							e.Fail("round-trip:"+t.name, "%s: %.200s comes back as %.200s, %v, the second time", t.name, t.want(i), t.canon(got), err)
						}
						e.State(cur)
						d := p.Data()
						if !t.void && len(d) > 0 {
							if n, st := mpref.Scan(d); st != 0 || n != len(d) {
								e.Fail("encoding:"+t.name, "%s: the encoding of %.200s is %d bytes, of which %d are a value (%v)", t.name, t.want(i), len(d), n, st)
							}
						}
						for k := 0; k < len(d); k++ {
							if k > 400 && k < len(d)-3 && k%4093 != 0 {
								continue
							}
							malformed(e, t, d[:k], true)
						}
					})
				}
			}
		})
		s.Enum("every transform on every short payload", 8, func(e *hx.E) {
			for _, t := range transforms(s) {
				t := t
				for a := 0; a < 256; a++ {
					a := a
					e.Case(now, func() {
						cur = fmt.Sprintf("%s of payloads starting %02x", t.name, a)
						malformed(e, t, nil, false)
						malformed(e, t, []byte{byte(a)}, false)
						for b := 0; b < 256; b++ {
							malformed(e, t, []byte{byte(a), byte(b)}, false)
							for _, c := range []byte{0, 1, 0x7f, 0x80, 0x81, 0x90, 0xa1, 0xc0, 0xc1, 0xc4, 0xd6, 0xd9, 0xdf, 0xff} {
								malformed(e, t, []byte{byte(a), byte(b), c}, false)
								if s.Thorough() {
									for d := 0; d < 256; d++ {
										malformed(e, t, []byte{byte(a), byte(b), c, byte(d)}, false)
									}
								}
							}
						}
					})
				}
				e.Case(now, func() {
					cur = t.name + " of every format"
					at := mpref.Atoms()
					for _, x := range at {
						for k := 0; k <= len(x); k++ {
							malformed(e, t, x[:k], false)
						}
						for _, h := range []byte{0x91, 0x92, 0x81, 0x82} {
							w := append([]byte{h}, x...)
							malformed(e, t, w, false)
							for _, y := range at {
								malformed(e, t, append(w[:len(w):len(w)], y...), false)
							}
						}
					}
				})
			}
		})
		s.Enum("codecs that fail", 1, func(e *hx.E) {
			for at := 1; at <= 2; at++ {
				at := at
				e.Case(now, func() {
					cur = fmt.Sprintf("fails at call %d", at)
					p, err := transform.CodecEncode(&failing{at: at})
					e.Check(err == errCodec, "codec-error", "encoding fails with %v and %v instead of the codec's error", err, p)
					e.Check(transform.CodecDecode(payload.New([]byte{1}), &failing{}) == errCodec, "codec-error", "the decoding error is lost")
				})
			}
			e.Case(now, func() {
				cur = "unsupported dynamic value"
				_, err := transform.Any.Encode(make(chan int))
				e.Check(err != nil, "any-error", "a channel was encoded")
				_, err = transform.Any.Encode([]any{struct{ X int }{1}})
				e.Check(err != nil, "any-error", "a struct was encoded")
			})
			e.Case(now, func() {
				cur = "decoders of derived values"
				boom := errors.New("boom")
				_, err := transform.ToStringDecode(func(string) (int, error) { return 7, boom })(payload.New([]byte{0xa0}))
				e.Check(err == boom, "to-string", "error %v", err)
			})
			e.Case(now, func() {
				cur = "handles"
				li := invoke.NewLiveInstances[string]()
				enc := transform.InterfaceEncode(li)
				seen := map[uint64]bool{}
				for i := 0; i < 300; i++ {
					v := fmt.Sprint("instance ", i%7)
					p, err := enc(v)
					e.Check(err == nil, "interface", "%v", err)
					h, err := transform.Uint64.Decode(p)
					e.Check(err == nil && !seen[h], "interface", "handle %d, %v", h, err)
					seen[h] = true
					got, ok := li.Get(h)
					e.Check(ok && got == v, "interface", "handle %d leads to %q, %v", h, got, ok)
				}
			})
		})
		s.Enum("conversions", 4, conversions)
		s.Enum("payloads", 1, func(e *hx.E) {
			parts := [][]byte{nil, {}, {1}, []byte("data"), mpref.Fill(1000, 1)}
			for i, d := range parts {
				for j, m := range parts {
					d, m, i, j := d, m, i, j
					e.Case(now, func() {
						cur = fmt.Sprint("payload ", i, j)
						p := payload.New(d, m)
						e.Check(string(p.Data()) == string(d) && string(p.Metadata()) == string(m), "payload", "%v", p)
						q := payload.New(d)
						e.Check(string(q.Data()) == string(d) && len(q.Metadata()) == 0, "payload", "%v", q)
					})
				}
			}
		})
	})
}

func ptr[T any](v T) *T { return &v }

// nil-aware check: f maps nil to nil, values to values, and keeps the error
func nilaware[I, O comparable](e *hx.E, name string, f func(*I, error) (*O, error), to func(I) O, vals ...I) {
	boom := errors.New("boom")
	for _, err := range []error{nil, boom} {
		err := err
		e.Case(now, func() {
			cur = fmt.Sprintf("%s(nil, %v)", name, err)
			got, gerr := f(nil, err)
			e.Check(got == nil && gerr == err, "nil:"+name, "%s gives %v, %v", cur, got, gerr)
		})
		for _, v := range vals {
			v := v
			e.Case(now, func() {
				cur = fmt.Sprintf("%s(%v, %v)", name, v, err)
				in := v
				got, gerr := f(&in, err)
				if gerr != err {
					e.Fail("error:"+name, "%s fails with %v", cur, gerr)
				}
				if err == nil && (got == nil || *got != to(v)) {
					e.Fail("value:"+name, "%s gives %v", cur, got)
				}
				if in != v {
					e.Fail("changed:"+name, "%s changes its argument", cur)
				}
				e.Step(1)
			})
		}
	}
}

func plain[I, O any](e *hx.E, name string, f func(I, error) (O, error), to func(I) O, vals ...I) {
	boom := errors.New("boom")
	for _, v := range vals {
		v := v
		e.Case(now, func() {
			cur = fmt.Sprintf("%s(%v)", name, v)
			got, err := f(v, nil)
			if err != nil || !reflect.DeepEqual(got, to(v)) {
				e.Fail("value:"+name, "%s gives %v, %v", cur, got, err)
			}
			if _, err = f(v, boom); err != boom {
				e.Fail("error:"+name, "%s with an error gives %v", cur, err)
			}
			e.Step(1)
		})
	}
}

func nums[T, I interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~int | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint | ~float32 | ~float64
}](e *hx.E, vals ...I) {
	name := fmt.Sprintf("Numeric[%T,%T]", *new(T), *new(I))
	var fit []I
	for _, v := range vals {
		if t := T(v); I(t) == v && (t < 0) == (v < 0) {
			fit = append(fit, v)
		}
	}
	to := func(v I) T { return T(v) }
	plain(e, name, convert.Numeric[T, I], to, fit...)
	nilaware(e, "Nillable"+name, convert.NillableNumeric[T, I], to, fit...)
}

func conversions(e *hx.E) {
	i64, u64 := mpref.Ints64(), mpref.Uints64()
	nums[int8](e, i64...)
	nums[int32](e, i64...)
	nums[myInt64](e, i64...)
	nums[int](e, i64...)
	nums[uint8](e, u64...)
	nums[uint16](e, u64...)
	nums[uint32](e, u64...)
	nums[myUint64](e, u64...)
	nums[uint](e, u64...)
	nums[int64](e, u64...)
	nums[uint64](e, i64...)
	nums[myInt32](e, int32(math.MinInt32), int32(-1), int32(0), int32(math.MaxInt32))
	nums[myF64](e, float64(0), 1.5, -1e300)
	nums[myF32](e, float32(0), float32(1.5))
	ss := strs()
	plain(e, "String", convert.String[myString], func(v string) myString { return myString(v) }, ss...)
	nilaware(e, "NillableString", convert.NillableString[myString], func(v string) myString { return myString(v) }, ss...)
	plain(e, "Bool", convert.Bool[myBool], func(v bool) myBool { return myBool(v) }, true, false)
	nilaware(e, "NillableBool", convert.NillableBool[myBool], func(v bool) myBool { return myBool(v) }, true, false)
	plain(e, "ByteArray", convert.ByteArray[myBytes, []byte], func(v []byte) myBytes { return myBytes(v) }, nil, []byte{}, []byte{1}, []byte("xyz"))
	boom := errors.New("parse boom")
	plain(e, "Parse", convert.Parse(func(s string) (int, error) { return len(s) + 1, nil }), func(s string) int { return len(s) + 1 }, ss...)
	nilaware(e, "NillableParse", convert.NillableParse(func(s string) (int, error) { return len(s) + 1, nil }), func(s string) int { return len(s) + 1 }, ss...)
	e.Case(now, func() {
		cur = "failing parsers"
		_, err := convert.Parse(func(string) (int, error) { return 3, boom })("x", nil)
		e.Check(err == boom, "parse-error", "Parse gives %v", err)
		called := false
		f := func(string) (int, error) { called = true; return 3, boom }
		other := errors.New("decode")
		_, err = convert.Parse(f)("x", other)
		e.Check(err == other && !called, "parse-error", "Parse after an error gives %v", err)
		_, err = convert.NillableParse(f)(ptr("x"), other)
		e.Check(err == other && !called, "parse-error", "NillableParse after an error gives %v", err)
		_, err = convert.NillableParse(f)(ptr("x"), nil)
		e.Check(err == boom && called, "parse-error", "NillableParse gives %v", err)
	})
	for _, v := range []*string{nil, ptr(""), ptr("abc")} {
		v := v
		e.Case(now, func() {
			cur = fmt.Sprintf("Format(%v)", v)
			got := convert.Format(func(s *string) string { return "<" + *s + ">" })(v)
			e.Check((got == nil) == (v == nil) && (v == nil || *got == "<"+*v+">"), "format", "%s gives %v", cur, got)
		})
	}
	boom2 := errors.New("boom")
	for _, t := range times() {
		t := t
		e.Case(now, func() {
			str := t.Format("2006-01-02T15:04:05.999999999Z07:00")
			cur = "time " + str
			same := func(u time.Time) bool {
				_, a := t.Zone()
				_, b := u.Zone()
				return u.Equal(t) && a == b
			}
			e.Check(convert.TimeToString(t) == str, "time", "TimeToString gives %s, want %s", convert.TimeToString(t), str)
			p := convert.TimeToStringPtr(&t)
			e.Check(p != nil && *p == str, "time", "TimeToStringPtr gives %v", p)
			u, err := convert.StringToTime(str, nil)
			e.Check(err == nil && same(u), "time", "StringToTime gives %v, %v", u, err)
			up, err := convert.StringToTimePtr(&str, nil)
			e.Check(err == nil && up != nil && same(*up), "time", "StringToTimePtr gives %v, %v", up, err)
			_, err = convert.StringToTime(str, boom2)
			_, err2 := convert.StringToTimePtr(&str, boom2)
			e.Check(err == boom2 && err2 == boom2, "time", "errors are lost: %v %v", err, err2)
			for k := 0; k < len(str); k++ {
				_, err := convert.StringToTime(str[:k], nil)
				cutStr := str[:k]
				_, err2 := convert.StringToTimePtr(&cutStr, nil)
				_, want := time.Parse(time.RFC3339Nano, cutStr)
				e.Check((err != nil) == (want != nil) && (err2 != nil) == (want != nil), "time", "%q: %v %v, want %v", cutStr, err, err2, want)
			}
		})
	}
	e.Case(now, func() {
		cur = "nil times"
		e.Check(convert.TimeToStringPtr(nil) == nil, "time", "TimeToStringPtr(nil) is not nil")
		p, err := convert.StringToTimePtr(nil, nil)
		e.Check(p == nil && err == nil, "time", "StringToTimePtr(nil) gives %v %v", p, err)
		p, err = convert.StringToTimePtr(nil, boom2)
		e.Check(p == nil && err == boom2, "time", "StringToTimePtr(nil, err) gives %v %v", p, err)
	})
}
