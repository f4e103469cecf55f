// C04: no bytes in the place of a frame body, an operation table or a port message can crash the decoders.
package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"reflect"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/rsocket"
)

var cur string

func now() string { return cur }

func cut(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// frame decodes body as a frame of the given type and flags, twice with different bytes behind it
func frame(e *hx.E, typ, flags int, body []byte) {
	e.Step(1)
	id := uint32(5)
	if typ == 1 {
		id = 0
	}
	h := frames.NewFrameHeader(id, frames.FrameType(typ), frames.FrameFlag(flags))
	want, ok := frref.Decode(typ, flags, id, body)
	var mem [96]byte
	for k, fill := range []byte{0x00, 0xff} {
		in := body
		if len(body) <= 48 {
			for i := range mem {
				mem[i] = fill
			}
			copy(mem[:], body)
			in = mem[:len(body)]
			if k == 1 {
				in = in[:len(in):len(in)] // nothing behind it
			}
		} else if k == 1 {
			break
		}
		g := frref.New(typ)
		err := g.Decode(&h, in)
		if !ok && err == nil {
			e.Fail("short-accepted", "type %d flags %x body %x (%d bytes) is cut short but decodes to %s", typ, flags, cut(body), len(body), frref.Show(g))
		}
		if ok && err == nil && !frref.Equal(want, g) {
			e.Fail("value", "type %d flags %x body %x (%d bytes) decodes to %s, want %s", typ, flags, cut(body), len(body), frref.Show(g), frref.Show(want))
		}
	}
}

func words(alpha []byte, max int, f func([]byte)) {
	var w []byte
	var rec func()
	rec = func() {
		f(w)
		if len(w) == max {
			return
		}
		for _, c := range alpha {
			w = append(w, c)
			rec()
			w = w[:len(w)-1]
		}
	}
	rec()
}

func parse(b []byte) (operations.Table, bool) {
	p, short := b, false
	take := func(n int) []byte {
		if short || len(p) < n {
			short = true
			return make([]byte, n)
		}
		r := p[:n]
		p = p[n:]
		return r
	}
	if string(take(4)) != "\x00wrs" || binary.BigEndian.Uint16(take(2)) != 1 {
		return nil, false
	}
	n := binary.BigEndian.Uint32(take(4))
	t := operations.Table{}
	for i := uint32(0); i < n && !short; i++ {
		var o operations.Operation
		o.Type = operations.RequestType(take(1)[0])
		o.Direction = operations.Direction(take(1)[0])
		o.Index = binary.BigEndian.Uint32(take(4))
		o.Namespace = string(take(int(binary.BigEndian.Uint16(take(2)))))
		o.Operation = string(take(int(binary.BigEndian.Uint16(take(2)))))
		take(int(binary.BigEndian.Uint16(take(2))))
		t = append(t, o)
	}
	return t, !short
}

func table(e *hx.E, b []byte) {
	e.Step(1)
	want, ok := parse(b)
	for _, fill := range []byte{0, 0xff} {
		mem := append(append(make([]byte, 0, len(b)+64), b...), make([]byte, 64)...)
		for i := len(b); i < len(mem); i++ {
			mem[i] = fill
		}
		var got operations.Table
		var err error
		in := mem[:len(b)]
		if fill != 0 {
			in = in[:len(b):len(b)] // nothing behind it
		}
		a := hx.Alloc(func() { got, err = operations.FromBytes(in) })
		if !ok && err == nil {
			e.Fail("table-accepted", "operation table %x (%d bytes) is malformed but accepted as %v", cut(b), len(b), got)
		}
		if ok && err == nil && !(len(want) == 0 && len(got) == 0) && !reflect.DeepEqual(want, got) {
			e.Fail("table-value", "operation table %x (%d bytes) decodes to %v, want %v", cut(b), len(b), got, want)
		}
		if a > 1<<20+64*uint64(len(b)) {
			e.Fail("table-alloc", "operation table %x of %d bytes allocated %d", cut(b), len(b), a)
		}
	}
}

func port(e *hx.E, b []byte) {
	e.Step(1)
	mem := append(append(make([]byte, 0, len(b)+64), b...), make([]byte, 64)...)
	var p invoke.PortIO
	var err error
	in := mem[:len(b)]
	if len(b)%2 == 0 {
		in = in[:len(b):len(b)] // nothing behind it
	}
	a := hx.Alloc(func() { err = p.Decode(in) })
	short := len(b) < 3 || len(b)-3 < int(binary.BigEndian.Uint16(b[1:]))
	if short && err == nil {
		e.Fail("port-accepted", "port message %x is cut short but decodes to %q", cut(b), p.Port)
	}
	if !short && err == nil {
		n := int(binary.BigEndian.Uint16(b[1:]))
		if p.Port != string(b[3:3+n]) || string(p.Data) != string(b[3+n:]) {
			e.Fail("port-value", "port message %x decodes to port %q data %x", cut(b), p.Port, cut(p.Data))
		}
	}
	if a > 1<<20+16*uint64(len(b)) {
		e.Fail("port-alloc", "port message %x of %d bytes allocated %d", cut(b), len(b), a)
	}
}

// valid encodings, the seeds of truncations and mutations
func seeds() []frames.Frame {
	b := func(n int) []byte { return frref.Fill(n, 3) }
	var r []frames.Frame
	for _, tok := range []int{0, 1, 4} {
		for _, mm := range []int{0, 2} {
			for _, md := range []int{0, 3} {
				r = append(r, &frames.Setup{MajorVersion: 1, MinorVersion: 2, TimeBetweenKeepalive: time.Second, MaxLifetime: time.Minute, Token: b(tok), MimeMetadata: string(b(mm)), MimeData: string(b(1 + mm)), Metadata: b(md), Data: b(3)})
			}
		}
	}
	for _, md := range []int{0, 1, 8, 11} {
		for _, d := range []int{0, 1, 7} {
			for t := frames.FrameTypeRequestResponse; t <= frames.FrameTypeRequestChannel; t++ {
				r = append(r, &frames.RequestPayload{FrameType: t, StreamID: 5, Metadata: b(md), Data: b(d), InitialN: 3})
			}
			r = append(r, &frames.Payload{StreamID: 5, Metadata: b(md), Data: b(d), Next: true})
		}
	}
	return append(r, &frames.RequestN{StreamID: 5, N: 9}, &frames.Cancel{StreamID: 5}, &frames.Error{StreamID: 5, Code: 1, Data: "err"})
}

func split(enc []byte) (typ, flags int, body []byte) {
	v := int(enc[4])<<8 | int(enc[5])
	return v >> 10, v & 0x3ff, enc[6:]
}

var edge = []byte{0, 1, 2, 3, 4, 5, 8, 0x10, 0x7f, 0x80, 0xfe, 0xff}

func main() {
	hx.Main("C04", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions,
			"the reference decoder of the harness (written from the RSocket and wasmRS layouts) judges what is cut short",
			"allocation is in proportion if it stays under 1 MiB plus 64 bytes per input byte")
		s.Enum("frame bodies of up to 2 bytes, every type and flag", 8, func(e *hx.E) {
			for _, t := range frref.Types {
				for fl := 0; fl < 1024; fl += 32 {
					t, fl := t, fl
					e.Case(now, func() {
						cur = fmt.Sprintf("type %d flags %x", t, fl)
						frame(e, t, fl, nil)
						for a := 0; a < 256; a++ {
							frame(e, t, fl, []byte{byte(a)})
							for b := 0; b < 256; b++ {
								frame(e, t, fl, []byte{byte(a), byte(b)})
							}
						}
						e.State(cur)
					})
				}
				for fl := 0; fl < 1024; fl++ {
					t, fl := t, fl
					e.Case(now, func() {
						cur = fmt.Sprintf("type %d flags %x", t, fl)
						words([]byte{0, 1, 0xff}, 4, func(w []byte) { frame(e, t, fl, w) })
					})
				}
			}
		})
		s.Enum("frame bodies over an alphabet of lengths", 8, func(e *hx.E) {
			alpha := []byte{0, 1, 2, 3, 0xff}
			n := hx.Pick(s, 6, 8)
			fixed := []byte{0, 1, 0, 0, 0, 0, 0x4e, 0x20, 0, 1, 0x5f, 0x90}
			for _, t := range frref.Types {
				for _, fl := range []int{0, 0x20, 0x40, 0x80, 0xc0, 0x100, 0x140, 0x180, 0x1e0, 0x3e0} {
					for _, c := range alpha {
						t, fl, c := t, fl, c
						e.Case(now, func() {
							cur = fmt.Sprintf("type %d flags %x bodies starting %x", t, fl, c)
							words(alpha, n, func(w []byte) {
								b := append([]byte{c}, w...)
								frame(e, t, fl, b)
								if t == 1 {
									frame(e, t, fl, append(fixed[:12:12], b...))
								}
								if t == 6 || t == 7 || t == 11 {
									frame(e, t, fl, append([]byte{0, 0, 0, 1}, b...))
								}
							})
						})
					}
				}
			}
		})
		s.Enum("truncations and mutations of valid frames", 8, func(e *hx.E) {
			for _, f := range seeds() {
				typ, flags, body := split(frref.Encode(f))
				show := frref.Show(f)
				e.Case(now, func() {
					cur = show
					for _, fl := range []int{flags, flags | 0x100, flags | 0x80, flags &^ 0x100, flags ^ 0x180} {
						for k := 0; k <= len(body); k++ {
							frame(e, typ, fl, body[:k])
							b := append([]byte(nil), body[:k]...)
							for i := range b {
								for v := 0; v < 256; v++ {
									b[i] = byte(v)
									frame(e, typ, fl, b)
								}
								for j := i + 1; j < len(b) && k == len(body); j++ {
									for _, v := range edge {
										for _, w := range edge {
											b[i], b[j] = v, w
											frame(e, typ, fl, b)
										}
									}
									b[j] = body[j]
								}
								b[i] = body[i]
							}
						}
					}
				})
			}
			// lengths that no body of this size has, and large ones
			for _, t := range frref.Types {
				for _, size := range []int{12, 300, 70000, 1 << 20} {
					for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff} {
						t, size, v := t, size, v
						e.Case(now, func() {
							cur = fmt.Sprintf("type %d, %d bytes %x", t, size, v)
							b := make([]byte, size)
							for i := range b {
								b[i] = v
							}
							for fl := 0; fl < 1024; fl += 32 {
								a := hx.Alloc(func() { frame(e, t, fl, b) })
								e.Check(a <= 1<<20+64*uint64(size), "frame-alloc", "type %d flags %x body of %d bytes %x allocated %d", t, fl, size, v, a)
							}
						})
					}
				}
			}
		})
		s.Enum("operation tables", 8, func(e *hx.E) {
			e.Case(now, func() {
				cur = "short inputs"
				words([]byte{0, 0x77, 0x72, 0x73, 1}, hx.Pick(s, 7, 8), func(w []byte) { table(e, w) })
			})
			head := func(ver uint16, n uint32) []byte {
				b := append([]byte("\x00wrs"), byte(ver>>8), byte(ver))
				return append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
			}
			counts := []uint32{0, 1, 2, 3, 4, 5, 255, 256, 65535, 65536, 1 << 24, 1<<28 - 1, 1 << 28, 357913941, 357913942, 715827882, 715827883, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1}
			one := []byte{1, 1, 0, 0, 0, 0, 0, 1, 'n', 0, 2, 'o', 'p', 0, 0}
			two := []byte{4, 2, 0, 0, 0, 7, 0, 0, 0, 1, 'x', 0, 3, 9, 9, 9}
			bodies := [][]byte{nil, one, two, append(append([]byte{}, one...), two...), append(append(append([]byte{}, two...), one...), two...)}
			for _, n := range counts {
				for bi, body := range bodies {
					for _, ver := range []uint16{0, 1, 2, 256, 65535} {
						n, bi, body, ver := n, bi, body, ver
						e.Case(now, func() {
							cur = fmt.Sprintf("count %d, version %d, body %d", n, ver, bi)
							full := append(head(ver, n), body...)
							for k := 0; k <= len(full); k++ {
								table(e, full[:k])
							}
							table(e, append(full[:len(full):len(full)], 0, 0, 0))
							e.State(cur)
							if n > 3 || ver != 1 {
								return
							}
							b := append([]byte(nil), full...)
							for i := range b {
								for v := 0; v < 256; v++ {
									b[i] = byte(v)
									table(e, b)
								}
								for j := i + 1; j < len(b); j++ {
									for _, v := range []byte{0, 1, 2, 0x80, 0xff} {
										for _, w := range []byte{0, 1, 2, 0x80, 0xff} {
											b[i], b[j] = v, w
											table(e, b)
										}
									}
									b[j] = full[j]
								}
								b[i] = full[i]
							}
						})
					}
				}
			}
			for _, l := range []int{0, 1, 255, 256, 32767, 32768, 65534, 65535} {
				for _, r := range []int{0, 1, 255, 256, 65535} {
					l, r := l, r
					e.Case(now, func() {
						cur = fmt.Sprintf("names of %d bytes, reserved %d", l, r)
						b := append(head(1, 1), 1, 1, 0, 0, 0, 9, byte(l>>8), byte(l))
						b = append(b, frref.Fill(l, 1)...)
						b = append(b, byte(l>>8), byte(l))
						b = append(b, frref.Fill(l, 2)...)
						b = append(b, byte(r>>8), byte(r))
						b = append(b, frref.Fill(r, 2)...)
						for _, d := range []int{0, 1, 2, 3, 4, r, r + 1, r + 2, r + 3, r + l, r + l + 3, r + l + 4, r + l + 5, r + 2*l + 4, r + 2*l + 5} {
							if d <= len(b) {
								table(e, b[:len(b)-d])
							}
						}
					})
				}
			}
		})
		s.Enum("port messages", 8, func(e *hx.E) {
			e.Case(now, func() { cur = "empty"; port(e, nil) })
			for a := 0; a < 256; a++ {
				a := a
				e.Case(now, func() {
					cur = fmt.Sprintf("starting %x", a)
					port(e, []byte{byte(a)})
					for b := 0; b < 256; b++ {
						port(e, []byte{byte(a), byte(b)})
						if a < 8 || s.Thorough() {
							for c := 0; c < 256; c++ {
								port(e, []byte{byte(a), byte(b), byte(c)})
								port(e, []byte{byte(a), byte(b), byte(c), 'p', 'q'})
							}
						}
					}
				})
			}
			for _, l := range []int{0, 1, 2, 3, 255, 256, 257, 32767, 32768, 65534, 65535} {
				l := l
				e.Case(now, func() {
					cur = fmt.Sprintf("port of %d bytes", l)
					for fl := 0; fl < 256; fl += 17 {
						b := append([]byte{byte(fl), byte(l >> 8), byte(l)}, frref.Fill(l+3, 1)...)
						for _, d := range []int{0, 1, 2, 3, 4, l + 2, l + 3, l + 4, l + 5} {
							if d <= len(b) {
								port(e, b[:len(b)-d])
							}
						}
					}
				})
			}
		})
		s.Enum("bodies of every frame type on a connection", 8, func(e *hx.E) {
			for typ := 0; typ < 64; typ++ {
				for fl := 0; fl < 1024; fl += 32 {
					typ, fl := typ, fl
					e.Case(now, func() {
						cur = fmt.Sprintf("type %d flags %x on a connection", typ, fl)
						words([]byte{0, 2, 0xff}, hx.Pick(s, 4, 6), func(w []byte) {
							e.Step(1)
							raw := append([]byte{0, 0, byte(6 + len(w)), 0, 0, 0, 5, byte(typ<<2 | fl>>8), byte(fl)}, w...)
							c := rsocket.NewTCPConn(&conn{b: raw})
							f, err := c.Read()
							if err == nil && f == nil {
								e.Fail("conn-nil", "%x read as neither a frame nor an error", raw)
							}
							want, ok := frref.Decode(typ, fl, 5, w)
							if typ == 1 {
								want, ok = frref.Decode(typ, fl, 0, w)
							}
							if !ok && err == nil {
								e.Fail("conn-accepted", "%x read as %s", raw, frref.Show(f))
							}
							if ok && err == nil && !frref.Equal(f, want) {
								e.Fail("conn-value", "%x read as %s, want %s", raw, frref.Show(f), frref.Show(want))
							}
						})
					})
				}
			}
		})
	})
}

// conn is a connection that delivers b and then ends
type conn struct {
	net.Conn
	b []byte
}

func (c *conn) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, fmt.Errorf("end")
	}
	n := copy(p, c.b)
	c.b = c.b[n:]
	return n, nil
}
func (c *conn) Close() error { return nil }
