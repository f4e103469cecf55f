// C03: protocol frames round-trip through their wire encoding.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/u24"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/invoke"
)

const pad = 16

func check(e *hx.E, f frames.Frame) {
	e.Step(2)
	want := frref.Encode(f)
	n := int(f.Size())
	e.Check(n == len(want), "size", "%s: Size() = %d, the layout takes %d bytes", frref.Show(f), n, len(want))
	mem := make([]byte, n+pad)
	for _, fill := range []byte{0xff, 0x00} {
		for i := range mem {
			mem[i] = fill
		}
		f.Encode(mem[:n])
		e.Check(bytes.Equal(mem[:n], want), "layout", "%s was encoded as\n%x, want\n%x", frref.Show(f), cut(mem[:n]), cut(want))
		for i := n; i < len(mem); i++ {
			e.Check(mem[i] == fill, "overrun", "%s: encoding wrote outside the buffer", frref.Show(f))
		}
	}
	h := frames.ParseFrameHeader(mem[:n])
	e.Check(h.Type() == f.Type() && h.StreamID() == f.GetStreamID(), "header", "%s: the header says %v", frref.Show(f), h)
	g := frref.New(int(h.Type()))
	e.Check(g != nil, "header", "%s: type %d", frref.Show(f), h.Type())
	err := g.Decode(&h, mem[frames.FrameHeaderLen:n])
	e.Check(err == nil, "decode-error", "%s: %v", frref.Show(f), err)
	e.Check(frref.Equal(f, g), "round-trip", "%s came back as %s", frref.Show(f), frref.Show(g))
}

func cut(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

var ids = []uint32{1, 2, 3, 127, 128, 255, 256, 65535, 65536, 0x01020304, 0x00ffffff, 0x01000000, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff}
var nums = []uint32{0, 1, 2, 255, 256, 65535, 65536, 0x01020304, 1<<24 - 1, 1 << 24, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}

func blob(n int, salt byte) []byte {
	if n == 0 {
		return nil
	}
	return frref.Fill(n, salt)
}

func bools(n int) [][]bool {
	var r [][]bool
	for m := 0; m < 1<<n; m++ {
		x := make([]bool, n)
		for i := range x {
			x[i] = m>>i&1 == 1
		}
		r = append(r, x)
	}
	return r
}

// payload carrying frames with given metadata and data
func carriers(id, n uint32, md, data []byte) []frames.Frame {
	var r []frames.Frame
	for _, b := range bools(3) {
		r = append(r, &frames.Payload{StreamID: id, Metadata: md, Data: data, Follows: b[0], Complete: b[1], Next: b[2]})
	}
	for _, b := range bools(2) {
		for t := frames.FrameTypeRequestResponse; t <= frames.FrameTypeRequestChannel; t++ {
			r = append(r, &frames.RequestPayload{FrameType: t, StreamID: id, Metadata: md, Data: data, Follows: b[0], Complete: b[1], InitialN: n})
		}
	}
	return r
}

func main() {
	hx.Main("C03", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions,
			"fields that the wire format cannot carry are outside: metadata above 16 MiB, mime types above 255 bytes, tokens and port names above 65535 bytes, durations that are not whole milliseconds or exceed 2^32 of them, stream ids above 31 bits",
			"the completion flag of requests other than channels and the demand of requests answered once are not on the wire and not compared")
		s.Enum("requests and payloads: every small metadata and data length, every flag", 8, func(e *hx.E) {
			max := hx.Pick(s, 48, 200)
			for m := 0; m <= max; m++ {
				m := m
				e.Case(func() string { return fmt.Sprintf("metadata %d bytes, data up to %d", m, max) }, func() {
					for d := 0; d <= max; d++ {
						for _, f := range carriers(ids[(m+d)%len(ids)], nums[(m*3+d)%len(nums)], blob(m, 0xc0), blob(d, 0x30)) {
							check(e, f)
						}
						e.State(fmt.Sprint(m, d))
					}
				})
			}
			big := []int{0, 1, 255, 256, 257, 65535, 65536, 65537, 1 << 20, 1<<24 - 1}
			for _, m := range big {
				for _, d := range big {
					m, d := m, d
					e.Case(func() string { return fmt.Sprintf("metadata %d bytes, data %d bytes", m, d) }, func() {
						for _, f := range carriers(5, 7, blob(m, 1), blob(d, 2)) {
							check(e, f)
						}
					})
				}
			}
		})
		s.Enum("every stream id and number of the grid", 8, func(e *hx.E) {
			for _, id := range ids {
				for _, n := range nums {
					id, n := id, n
					e.Case(func() string { return fmt.Sprintf("id %d n %d", id, n) }, func() {
						for _, md := range []int{0, 1, 9} {
							for _, d := range []int{0, 1, 5} {
								for _, f := range carriers(id, n, blob(md, 3), blob(d, 4)) {
									check(e, f)
								}
							}
						}
						check(e, &frames.RequestN{StreamID: id, N: n})
						check(e, &frames.Cancel{StreamID: id})
						for _, t := range []string{"", "x", "error message", string(frref.Fill(300, 1)), string(frref.Fill(70000, 1))} {
							check(e, &frames.Error{StreamID: id, Code: frames.ErrCode(n), Data: t})
						}
						e.State(fmt.Sprint(id, n))
					})
				}
			}
			for k := uint32(0); k < 1<<16; k += 1 << 10 {
				k := k
				e.Case(func() string { return fmt.Sprintf("n and id %d..", k) }, func() {
					for v := k; v < k+1<<10; v++ {
						for _, x := range []uint32{v, v << 15, v<<15 | v} {
							check(e, &frames.RequestN{StreamID: x & 0x7fffffff, N: v<<16 | x&0xffff})
							check(e, &frames.Cancel{StreamID: x & 0x7fffffff})
							check(e, &frames.RequestPayload{FrameType: frames.FrameTypeRequestStream, StreamID: x & 0x7fffffff, InitialN: x<<1 | 1, Data: []byte{1}})
						}
					}
				})
			}
		})
		s.Enum("setup frames", 8, func(e *hx.E) { setups(s, e) })
		s.Enum("every header", 8, headers)
		s.Enum("every 24 bit number", 8, func(e *hx.E) {
			const per = 1 << 16
			for i := 0; i < 1<<24; i += per {
				from := i
				e.Case(func() string { return fmt.Sprintf("%d..", from) }, func() {
					var w bytes.Buffer
					for v := from; v < from+per; v++ {
						n, err := u24.NewUint24(uint32(v))
						b := n.Bytes()
						if err != nil || len(b) != 3 || b[0] != byte(v>>16) || b[1] != byte(v>>8) || b[2] != byte(v) || n.AsInt() != v || u24.NewUint24Bytes(b).AsInt() != v || u24.ReadUint24ToInt(b) != v || u24.MustNewUint24(uint32(v)) != n {
							e.Fail("u24", "%d becomes %x, %v, %d", v, b, err, n.AsInt())
						}
						if v%64 == 0 {
							w.Reset()
							n.WriteTo(&w)
							if err := u24.WriteUint24(&w, uint32(v)); err != nil || !bytes.Equal(w.Bytes(), append(append([]byte{}, b...), b...)) {
								e.Fail("u24", "%d is written as %x, %v", v, w.Bytes(), err)
							}
						}
					}
					e.Step(per)
				})
			}
			for k := 24; k < 32; k++ {
				for _, v := range []uint32{1 << k, 1<<k + 1, 1<<(k+1) - 1} {
					v := v
					e.Case(func() string { return fmt.Sprint(v) }, func() {
						_, err := u24.NewUint24(v)
						e.Check(u24.IsExceedMaximumUint24Error(err), "u24-range", "NewUint24(%d): %v", v, err)
						var w bytes.Buffer
						e.Check(u24.WriteUint24(&w, v) != nil && w.Len() == 0, "u24-range", "WriteUint24(%d) wrote %x", v, w.Bytes())
					})
				}
			}
		})
		s.Enum("layouts with empty metadata, documented numbers", 2, func(e *hx.E) {
			// a peer may say that there is metadata although it is empty
			for _, typ := range frref.Types {
				if typ == 8 || typ == 9 || typ == 11 {
					continue
				}
				typ := typ
				e.Case(func() string { return fmt.Sprint("type ", typ) }, func() {
					for _, flags := range []int{0x100, 0x180, 0x140, 0x120, 0x160, 0x1e0} {
						if typ == 1 {
							flags &^= 0xc0
						}
						for d := 0; d < 20; d++ {
							id := uint32(3)
							var body []byte
							switch typ {
							case 1:
								id = 0
								body = []byte{0, 1, 0, 2, 0, 0, 0, 3, 0, 0, 0, 4, 1, 'm', 1, 'd'}
							case 6, 7:
								body = []byte{0, 0, 0, 9}
							}
							body = append(append(body, 0, 0, 0), blob(d, 0x31)...)
							body = body[:len(body):len(body)]
							want, ok := frref.Decode(typ, flags, id, body)
							h := frames.NewFrameHeader(id, frames.FrameType(typ), frames.FrameFlag(flags))
							g := frref.New(typ)
							err := g.Decode(&h, body)
							e.Check(ok && err == nil, "decode-error", "type %d flags %x body %x: %v", typ, flags, body, err)
							e.Check(frref.Equal(want, g), "layout", "type %d flags %x body %x decodes to %s, want %s", typ, flags, body, frref.Show(g), frref.Show(want))
							e.Step(1)
						}
					}
				})
			}
			e.Case(func() string { return "types and error codes" }, func() {
				for i, t := range []frames.FrameType{frames.FrameTypeReserved, frames.FrameTypeSetup, frames.FrameTypeLease, frames.FrameTypeKeepalive, frames.FrameTypeRequestResponse,
					frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel, frames.FrameTypeRequestN, frames.FrameTypeCancel, frames.FrameTypePayload,
					frames.FrameTypeError, frames.FrameTypeMetadataPush, frames.FrameTypeResume, frames.FrameTypeResumeOK} {
					e.Check(int(t) == i, "number", "frame type %d has number %d", i, t)
				}
				e.Check(frames.FrameTypeExt == 63, "number", "the extension type has number %d", frames.FrameTypeExt)
				for _, c := range [][2]frames.ErrCode{{frames.ErrCodeInvalidSetup, 1}, {frames.ErrCodeUnsupportedSetup, 2}, {frames.ErrCodeRejectedSetup, 3}, {frames.ErrCodeRejectedResume, 4},
					{frames.ErrCodeConnectionError, 0x101}, {frames.ErrCodeConnectionClose, 0x102}, {frames.ErrCodeApplicationError, 0x201}, {frames.ErrCodeRejected, 0x202},
					{frames.ErrCodeCanceled, 0x203}, {frames.ErrCodeInvalid, 0x204}} {
					e.Check(c[0] == c[1], "number", "error code %x has number %x", uint32(c[1]), uint32(c[0]))
				}
			})
			e.Case(func() string { return "a writer that fails" }, func() {
				for n := 0; n < 3; n++ {
					w := &failing{n}
					e.Check(u24.WriteUint24(w, 0x010203) != nil, "u24-error", "WriteUint24 hides that only %d bytes were written", n)
					v := u24.MustNewUint24(0x010203)
					w = &failing{n}
					k, err := v.WriteTo(w)
					e.Check(err != nil && k == int64(n), "u24-error", "WriteTo of a writer that takes %d bytes: %d, %v", n, k, err)
				}
			})
		})
		s.Enum("port messages", 4, func(e *hx.E) {
			names := []int{0, 1, 2, 40, 255, 256, 257, 4096, 65535}
			datas := []int{0, 1, 2, 3, 17, 255, 256, 70000}
			if s.Thorough() {
				for i := 3; i < 600; i++ {
					names = append(names, i)
				}
			}
			for _, n := range names {
				for _, d := range datas {
					for _, b := range bools(2) {
						p := invoke.PortIO{Port: string(blob(n, 0x40)), Data: blob(d, 9), Next: b[0], Complete: b[1]}
						e.Case(func() string {
							return fmt.Sprintf("port of %d bytes, data of %d bytes, next %v complete %v", n, d, p.Next, p.Complete)
						}, func() {
							e.Step(2)
							var q invoke.PortIO
							err := q.Decode(p.Encode())
							e.Check(err == nil, "port-error", "%v", err)
							e.Check(q.Port == p.Port && bytes.Equal(q.Data, p.Data) && q.Next == p.Next && q.Complete == p.Complete, "port-round-trip", "came back as port %q, %d bytes, next %v complete %v", cut([]byte(q.Port)), len(q.Data), q.Next, q.Complete)
						})
					}
				}
			}
		})
	})
}

// failing takes n bytes
type failing struct{ n int }

func (f *failing) Write(p []byte) (int, error) { return f.n, errors.New("full") }

func setups(s *hx.Suite, e *hx.E) {
	mk := func(maj, min uint16, ka, ml uint32, token int, mm, md, meta, data int, lease bool) *frames.Setup {
		return &frames.Setup{MajorVersion: maj, MinorVersion: min, TimeBetweenKeepalive: time.Duration(ka) * time.Millisecond, MaxLifetime: time.Duration(ml) * time.Millisecond,
			Token: blob(token, 0x50), MimeMetadata: strings.Repeat("m", mm), MimeData: strings.Repeat("d", md), Metadata: blob(meta, 0x60), Data: blob(data, 0x70), Lease: lease}
	}
	// mime lengths
	for a := 0; a < 256; a++ {
		a := a
		e.Case(func() string { return fmt.Sprintf("metadata mime type of %d bytes", a) }, func() {
			for b := 0; b < 256; b++ {
				check(e, mk(1, 0, 20000, 90000, 0, a, b, b%3, a%3, false))
			}
			e.State(fmt.Sprint(a))
		})
	}
	for _, v := range []uint16{0, 1, 2, 255, 256, 65535} {
		for _, ka := range append([]uint32{3, 4294, 4295, 4296, 20000, 90000}, nums...) {
			v, ka := v, ka
			e.Case(func() string { return fmt.Sprintf("version %d keepalive %d", v, ka) }, func() {
				for _, w := range []uint16{0, 1, 2, 255, 256, 65535} {
					for _, ml := range nums {
						check(e, mk(v, w, ka, ml, 0, 1, 1, 0, 3, ml%2 == 0))
						check(e, mk(v, w, ka, ml, 2, 0, 0, 2, 0, ml%2 == 1))
					}
				}
			})
		}
	}
	// every duration and version of a range, and those around the powers of two
	const per = 1 << 12
	to := uint32(1 << 17)
	if s.Thorough() {
		to = 1 << 21
	}
	durations := func(from, to uint64) {
		e.Case(func() string { return fmt.Sprintf("durations from %d ms to %d ms", from, to) }, func() {
			for v := from; v < to; v++ {
				check(e, mk(uint16(v), uint16(v>>1), uint32(v), uint32(v+1), 0, 1, 1, 0, 0, false))
			}
		})
	}
	for from := uint32(0); from < to; from += per {
		durations(uint64(from), uint64(from+per))
	}
	for k := 17; k <= 32; k++ {
		hi := uint64(1)<<k + 512
		if hi > 1<<32-1 {
			hi = 1<<32 - 1
		}
		durations(uint64(1)<<k-512, hi)
	}
	for v := uint64(0); v < 1<<32; v += 1 << 28 {
		durations(v+123456, v+123456+per)
	}
	small := []int{0, 1, 2, 3, 5, 17}
	for _, tok := range append(small, 255, 256, 257, 65532, 65533, 65534, 65535) {
		for _, meta := range append(small, 255, 256, 65535, 65536) {
			tok, meta := tok, meta
			e.Case(func() string { return fmt.Sprintf("token of %d bytes, metadata of %d bytes", tok, meta) }, func() {
				for _, data := range append(small, 255, 256, 65536) {
					for _, mm := range []int{0, 1, 23, 254, 255} {
						for _, md := range []int{0, 1, 23, 254, 255} {
							for _, lease := range []bool{false, true} {
								check(e, mk(1, 2, 3, 4, tok, mm, md, meta, data, lease))
							}
						}
					}
				}
			})
		}
	}
}

func headers(e *hx.E) {
	for t := 0; t < 64; t++ {
		t := t
		e.Case(func() string { return fmt.Sprintf("type %d", t) }, func() {
			for fl := 0; fl < 1024; fl++ {
				for _, id := range append([]uint32{0}, ids...) {
					want := []byte{byte(id >> 24), byte(id >> 16), byte(id >> 8), byte(id), byte(t<<2 | fl>>8), byte(fl)}
					h := frames.NewFrameHeader(id, frames.FrameType(t), frames.FrameFlag(fl))
					b := bytes.Repeat([]byte{0xff}, 6)
					frames.ResetFrameHeader(b, id, frames.FrameType(t), frames.FrameFlag(fl))
					var w, w2 bytes.Buffer
					frames.WriteFrameHeader(&w, id, frames.FrameType(t), frames.FrameFlag(fl))
					h.WriteTo(&w2)
					for _, x := range [][]byte{h.Bytes(), b, w.Bytes(), w2.Bytes()} {
						e.Check(bytes.Equal(x, want), "header", "type %d flags %x id %d: %x, want %x", t, fl, id, x, want)
					}
					p := frames.ParseFrameHeader(want)
					e.Check(p.StreamID() == id && p.Type() == frames.FrameType(t) && p.Flag() == frames.FrameFlag(fl), "header", "%x parsed as %d %d %x", want, p.StreamID(), p.Type(), p.Flag())
					for i, f := range []frames.FrameFlag{frames.FlagNext, frames.FlagComplete, frames.FlagFollow, frames.FlagMetadata, frames.FlagIgnore} {
						e.Check(p.Flag().Check(f) == (fl>>(5+i)&1 == 1), "flags", "flags %x: Check(%x) = %v", fl, f, p.Flag().Check(f))
					}
					// the reserved bit of the stream id is ignored
					want[0] |= 0x80
					e.Check(frames.ParseFrameHeader(want).StreamID() == id, "header", "reserved bit not ignored in %x", want)
					e.Step(6)
				}
			}
			e.State(fmt.Sprint(t))
		})
	}
}
