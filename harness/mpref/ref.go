// Package mpref is an independent reading of the MessagePack specification: a validating parser, and the pools of
// values and operations that the msgpack harnesses enumerate.
package mpref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
)

// Kind of a parsed value.
type Kind int

const (
	Nil Kind = iota
	Bool
	Int  // fits int64
	Uint // above max int64
	F32
	F64
	Str
	Bin
	Arr
	Map
	Ext
)

// Value is a parsed MessagePack value.
type Value struct {
	K     Kind
	B     bool
	I     int64
	U     uint64
	F     float64
	S     []byte
	Elems []Value // Arr; Map: k, v, k, v
	Type  int8
}

// Status of parsing.
type Status int

const (
	OK Status = iota
	Short
	Bad
)

func (s Status) String() string { return [...]string{"ok", "short", "bad"}[s] }

type parser struct {
	b    []byte
	p    int
	keep bool
}

// Scan finds the length of the complete value at the front of b, without recursion.
func Scan(b []byte) (int, Status) {
	p, need := 0, uint64(1)
	for need > 0 {
		need--
		n, kids, st := head(b[p:])
		if st != OK {
			return 0, st
		}
		if n > uint64(len(b)-p) {
			return 0, Short
		}
		p += int(n)
		need += kids
	}
	return p, OK
}

// head gives the size of the header plus scalar content at the front of b, and the number of nested values.
func head(b []byte) (n, kids uint64, st Status) {
	if len(b) == 0 {
		return 0, 0, Short
	}
	c := b[0]
	num := func(w int) (uint64, bool) {
		if len(b) < 1+w {
			return 0, false
		}
		var v uint64
		for i := 0; i < w; i++ {
			v = v<<8 | uint64(b[1+i])
		}
		return v, true
	}
	switch {
	case c <= 0x7f, c >= 0xe0:
		return 1, 0, OK
	case c <= 0x8f:
		return 1, 2 * uint64(c&15), OK
	case c <= 0x9f:
		return 1, uint64(c & 15), OK
	case c <= 0xbf:
		return 1 + uint64(c&31), 0, OK
	}
	switch c {
	case 0xc0, 0xc2, 0xc3:
		return 1, 0, OK
	case 0xc1:
		return 0, 0, Bad
	case 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9:
		ext := uint64(0)
		w := 1 << ((c - 0xc4) % 3)
		if c >= 0xc7 {
			ext = 1
		}
		v, ok := num(w)
		if !ok {
			return 0, 0, Short
		}
		return 1 + uint64(w) + ext + v, 0, OK
	case 0xca:
		return 5, 0, OK
	case 0xcb:
		return 9, 0, OK
	case 0xcc, 0xcd, 0xce, 0xcf:
		return 1 + 1<<(c-0xcc), 0, OK
	case 0xd0, 0xd1, 0xd2, 0xd3:
		return 1 + 1<<(c-0xd0), 0, OK
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return 2 + 1<<(c-0xd4), 0, OK
	case 0xd9, 0xda, 0xdb:
		w := 1 << (c - 0xd9)
		v, ok := num(w)
		if !ok {
			return 0, 0, Short
		}
		return 1 + uint64(w) + v, 0, OK
	}
	// 0xdc..0xdf
	w := 2 << ((c - 0xdc) % 2)
	v, ok := num(w)
	if !ok {
		return 0, 0, Short
	}
	if c >= 0xde {
		v *= 2
	}
	return 1 + uint64(w), v, OK
}

// Parse reads one value; it assumes moderate nesting.
func Parse(b []byte) (v Value, n int, st Status) {
	total, st := Scan(b)
	if st != OK {
		return Value{}, 0, st
	}
	v, n = parse(b[:total])
	return v, n, OK
}

func be(b []byte) uint64 {
	var v uint64
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	return v
}

func parse(b []byte) (Value, int) {
	c := b[0]
	h, kids, _ := head(b)
	nested := func(k Kind) (Value, int) {
		v := Value{K: k, Elems: make([]Value, 0, kids)}
		p := int(h)
		for i := uint64(0); i < kids; i++ {
			e, n := parse(b[p:])
			v.Elems = append(v.Elems, e)
			p += n
		}
		return v, p
	}
	switch {
	case c <= 0x7f, c >= 0xe0:
		return Value{K: Int, I: int64(int8(c))}, 1
	case c <= 0x8f || c == 0xde || c == 0xdf:
		return nested(Map)
	case c <= 0x9f || c == 0xdc || c == 0xdd:
		return nested(Arr)
	case c <= 0xbf:
		return Value{K: Str, S: b[1:h]}, int(h)
	}
	switch c {
	case 0xc0:
		return Value{K: Nil}, 1
	case 0xc2, 0xc3:
		return Value{K: Bool, B: c == 0xc3}, 1
	case 0xc4, 0xc5, 0xc6:
		return Value{K: Bin, S: b[1+1<<(c-0xc4) : h]}, int(h)
	case 0xc7, 0xc8, 0xc9:
		w := 1 + 1<<(c-0xc7)
		return Value{K: Ext, Type: int8(b[w]), S: b[w+1 : h]}, int(h)
	case 0xca:
		return Value{K: F32, F: float64(math.Float32frombits(uint32(be(b[1:5])))), U: be(b[1:5])}, 5
	case 0xcb:
		return Value{K: F64, F: math.Float64frombits(be(b[1:9])), U: be(b[1:9])}, 9
	case 0xcc, 0xcd, 0xce, 0xcf:
		u := be(b[1:h])
		if u > math.MaxInt64 {
			return Value{K: Uint, U: u}, int(h)
		}
		return Value{K: Int, I: int64(u)}, int(h)
	case 0xd0:
		return Value{K: Int, I: int64(int8(b[1]))}, 2
	case 0xd1:
		return Value{K: Int, I: int64(int16(be(b[1:3])))}, 3
	case 0xd2:
		return Value{K: Int, I: int64(int32(be(b[1:5])))}, 5
	case 0xd3:
		return Value{K: Int, I: int64(be(b[1:9]))}, 9
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return Value{K: Ext, Type: int8(b[1]), S: b[2:h]}, int(h)
	}
	return Value{K: Str, S: b[1+1<<(c-0xd9) : h]}, int(h)
}

// Time decodes the timestamp extension.
func (v Value) Time() (time.Time, bool) {
	if v.K != Ext || v.Type != -1 {
		return time.Time{}, false
	}
	switch len(v.S) {
	case 4:
		return time.Unix(int64(be(v.S)), 0), true
	case 8:
		x := be(v.S)
		return time.Unix(int64(x&(1<<34-1)), int64(x>>34)), true
	case 12:
		return time.Unix(int64(be(v.S[4:])), int64(binary.BigEndian.Uint32(v.S))), true
	}
	return time.Time{}, false
}

// Canon renders the value with numbers reduced to what they denote and maps in a fixed order.
func (v Value) Canon() string {
	var sb strings.Builder
	v.canon(&sb)
	return sb.String()
}

func (v Value) canon(w *strings.Builder) {
	switch v.K {
	case Nil:
		w.WriteString("nil")
	case Bool:
		fmt.Fprint(w, v.B)
	case Int:
		fmt.Fprint(w, v.I)
	case Uint:
		fmt.Fprint(w, v.U)
	case F32:
		fmt.Fprintf(w, "f32:%08x", v.U)
	case F64:
		fmt.Fprintf(w, "f64:%016x", v.U)
	case Str:
		fmt.Fprintf(w, "%q", v.S)
	case Bin:
		fmt.Fprintf(w, "bin:%x", v.S)
	case Ext:
		if t, ok := v.Time(); ok {
			canonTime(w, t)
			return
		}
		fmt.Fprintf(w, "ext%d:%x", v.Type, v.S)
	case Arr:
		w.WriteByte('[')
		for i, e := range v.Elems {
			if i > 0 {
				w.WriteByte(' ')
			}
			e.canon(w)
		}
		w.WriteByte(']')
	case Map:
		var kv []string
		for i := 0; i+1 < len(v.Elems); i += 2 {
			kv = append(kv, v.Elems[i].Canon()+":"+v.Elems[i+1].Canon())
		}
		writeMap(w, kv)
	}
}

func writeMap(w *strings.Builder, kv []string) {
	sort.Strings(kv)
	w.WriteString("{" + strings.Join(kv, " ") + "}")
}

func canonTime(w *strings.Builder, t time.Time) {
	fmt.Fprintf(w, "time:%d.%09d", t.Unix(), t.Nanosecond())
}

// CanonAny renders a Go value (as given to WriteAny or returned by ReadAny) like Canon; anything it does not know
// is rendered with its type.
func CanonAny(x any) string {
	var sb strings.Builder
	canonAny(&sb, x)
	return sb.String()
}

// Custom lets a harness add the rendering of its own types.
var Custom func(x any) (string, bool)

func canonAny(w *strings.Builder, x any) {
	list := func(n int, at func(int) any) {
		w.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				w.WriteByte(' ')
			}
			canonAny(w, at(i))
		}
		w.WriteByte(']')
	}
	switch v := x.(type) {
	case nil:
		w.WriteString("nil")
	case bool:
		fmt.Fprint(w, v)
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		fmt.Fprint(w, v)
	case float32:
		fmt.Fprintf(w, "f32:%08x", math.Float32bits(v))
	case float64:
		fmt.Fprintf(w, "f64:%016x", math.Float64bits(v))
	case string:
		fmt.Fprintf(w, "%q", v)
	case []byte:
		fmt.Fprintf(w, "bin:%x", v)
	case time.Time:
		canonTime(w, v)
	case []any:
		list(len(v), func(i int) any { return v[i] })
	case []string:
		list(len(v), func(i int) any { return v[i] })
	case []time.Time:
		list(len(v), func(i int) any { return v[i] })
	case []bool:
		list(len(v), func(i int) any { return v[i] })
	case []int:
		list(len(v), func(i int) any { return v[i] })
	case []int8:
		list(len(v), func(i int) any { return v[i] })
	case []int16:
		list(len(v), func(i int) any { return v[i] })
	case []int32:
		list(len(v), func(i int) any { return v[i] })
	case []int64:
		list(len(v), func(i int) any { return v[i] })
	case []uint:
		list(len(v), func(i int) any { return v[i] })
	case []uint16:
		list(len(v), func(i int) any { return v[i] })
	case []uint32:
		list(len(v), func(i int) any { return v[i] })
	case []uint64:
		list(len(v), func(i int) any { return v[i] })
	case []float32:
		list(len(v), func(i int) any { return v[i] })
	case []float64:
		list(len(v), func(i int) any { return v[i] })
	default:
		if Custom != nil {
			if s, ok := Custom(x); ok {
				w.WriteString(s)
				return
			}
		}
		if m := reflect.ValueOf(x); m.Kind() == reflect.Map {
			var kv []string
			for _, k := range m.MapKeys() {
				kv = append(kv, CanonAny(k.Interface())+":"+CanonAny(m.MapIndex(k).Interface()))
			}
			writeMap(w, kv)
			return
		}
		fmt.Fprintf(w, "%T(%v)", x, x)
	}
}

// ---- pools -------------------------------------------------------------------------------------------

// Ints64 are the boundaries of every signed format, and neighbours of every power of two.
func Ints64() []int64 {
	var r []int64
	seen := map[int64]bool{}
	add := func(v int64) {
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	for k := 0; k < 64; k++ {
		for d := int64(-3); d <= 3; d++ {
			add(int64(uint64(1)<<k) + d)
			add(-int64(uint64(1)<<k) + d)
		}
	}
	for _, b := range []int64{32, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536} {
		for d := int64(-40); d <= 40; d++ {
			add(b + d)
			add(-b + d)
		}
	}
	return r
}

// Uints64 likewise for unsigned.
func Uints64() []uint64 {
	var r []uint64
	seen := map[uint64]bool{}
	for _, v := range Ints64() {
		if !seen[uint64(v)] {
			seen[uint64(v)] = true
			r = append(r, uint64(v))
		}
	}
	return r
}

// Times to encode: every format boundary of the seconds with every boundary of the nanoseconds.
func Times() []time.Time {
	var r []time.Time
	secs := []int64{0, 1, 2, 59, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<33 + 5, 1<<34 - 1, 1 << 34, 1<<34 + 1, 1 << 35,
		-1, -2, -(1 << 31), -(1 << 32), -(1 << 34), -62135596800, -62135596801, 253402300799, 1668807000, 1<<40 + 3, -(1 << 40)}
	ns := []int64{0, 1, 2, 255, 256, 1 << 16, 1<<29 - 1, 1 << 29, 1<<29 + 1, 500000000, 999999998, 999999999}
	for _, s := range secs {
		for _, n := range ns {
			r = append(r, time.Unix(s, n))
		}
	}
	r = append(r, time.Time{}, time.Date(2022, 1, 2, 3, 4, 5, 6, time.FixedZone("x", 3600)), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC))
	return r
}

// Fill makes n bytes of a recognisable, non-repeating pattern.
func Fill(n int, salt byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*7 + byte(i>>8)*13 + byte(i>>16) + salt
	}
	return b
}

// Header builds a MessagePack header byte followed by a big-endian number of w bytes.
func Header(c byte, w int, v uint64) []byte {
	b := []byte{c}
	for i := w - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*i)))
	}
	return b
}

// Atoms is one well-formed scalar value (no nesting) of every format, in minimal and non-minimal encodings.
func Atoms() [][]byte {
	var r [][]byte
	for _, c := range []byte{0x00, 0x01, 0x7f, 0xe0, 0xff, 0xc0, 0xc2, 0xc3, 0xa0} {
		r = append(r, []byte{c})
	}
	for c, w := range map[byte]int{0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8, 0xd0: 1, 0xd1: 2, 0xd2: 4, 0xd3: 8, 0xca: 4, 0xcb: 8} {
		for _, v := range []uint64{0, 5, 0x80 << (8 * (w - 1)), 1<<(8*w-1) - 1, 0xfedcba9876543210 >> (64 - 8*w)} {
			r = append(r, Header(c, w, v))
		}
	}
	for _, n := range []int{1, 2, 31} {
		r = append(r, append([]byte{0xa0 | byte(n)}, Fill(n, 'a')...))
	}
	for _, h := range []struct {
		c byte
		w int
	}{{0xd9, 1}, {0xda, 2}, {0xdb, 4}, {0xc4, 1}, {0xc5, 2}, {0xc6, 4}} {
		for _, n := range []int{0, 1, 3, 40} {
			r = append(r, append(Header(h.c, h.w, uint64(n)), Fill(n, 0x90)...))
		}
	}
	for i, n := range []int{1, 2, 4, 8, 16} {
		r = append(r, append([]byte{0xd4 + byte(i), 5}, Fill(n, 0xc0)...))
		r = append(r, append([]byte{0xd4 + byte(i), 0xff}, make([]byte, n)...))
	}
	for i, w := range []int{1, 2, 4} {
		for _, n := range []int{0, 1, 3, 12, 40, 130} {
			r = append(r, append(append(Header(0xc7+byte(i), w, uint64(n)), 0xff), Fill(n, 0)...))
		}
	}
	sort.Slice(r, func(i, j int) bool { return bytes.Compare(r[i], r[j]) < 0 })
	return r
}
