// C18: frames sent over TCP arrive whole, unmixed, in order and unaltered.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/transport/rsocket"
)

var cur string

func now() string { return cur }

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "mem" }

var errReset = errors.New("connection reset by peer")

// how a byte stream ends
const (
	endEOF      = iota // an end-of-file of its own
	endEOFData         // the end-of-file comes with the last bytes
	endReset           // an error of its own
	endResetAll        // an error comes with the last bytes
	endModes
)

var endName = []string{"eof", "eof with data", "error", "error with data"}

// mem is a connection in memory
type mem struct {
	in    []byte
	cuts  []int // positions after which a read stops
	end   int
	empty bool // empty reads in between
	pause bool
	pos   int
	out   []byte
	calls int
	fail  int // fails the write call of this number, having written half of it
	sched bool
	multi int
}

func (c *mem) Read(p []byte) (int, error) {
	if c.pos >= len(c.in) {
		return 0, c.endErr()
	}
	if c.empty && !c.pause {
		c.pause = true
		return 0, nil
	}
	c.pause = false
	to := len(c.in)
	for _, k := range c.cuts {
		if k > c.pos {
			to = k
			break
		}
	}
	n := copy(p, c.in[c.pos:to])
	c.pos += n
	if c.pos == len(c.in) && (c.end == endEOFData || c.end == endResetAll) {
		return n, c.endErr()
	}
	return n, nil
}

func (c *mem) endErr() error {
	if c.end == endReset || c.end == endResetAll {
		return errReset
	}
	return io.EOF
}

func (c *mem) Write(p []byte) (int, error) {
	c.calls++
	if c.sched {
		vrt.P("conn.Write")
	}
	if c.calls == c.fail {
		c.out = append(c.out, p[:len(p)/2]...)
		return len(p) / 2, errReset
	}
	if c.fail > 0 && c.calls > c.fail {
		return 0, errReset
	}
	c.out = append(c.out, p...)
	if c.sched {
		vrt.P("conn.Write done")
	}
	return len(p), nil
}
func (c *mem) Close() error                     { return nil }
func (c *mem) LocalAddr() net.Addr              { return addr{} }
func (c *mem) RemoteAddr() net.Addr             { return addr{} }
func (c *mem) SetDeadline(time.Time) error      { return nil }
func (c *mem) SetReadDeadline(time.Time) error  { return nil }
func (c *mem) SetWriteDeadline(time.Time) error { return nil }

// none is a handler that is not used
type none struct{ send func(frames.Frame) error }

func (n *none) SetFrameSender(f rsocket.FrameHandler) { n.send = f }
func (n *none) HandleFrame(frames.Frame) error        { return errors.New("given to the handler") }

type named struct {
	name string
	f    frames.Frame
}

func alphabet() []named {
	return []named{
		{"cancel", &frames.Cancel{StreamID: 0x01020304}},
		{"request-n", &frames.RequestN{StreamID: 3, N: 0x7fffffff}},
		{"payload", &frames.Payload{StreamID: 5, Metadata: []byte("m"), Data: []byte("dat"), Next: true, Complete: true}},
		{"empty payload", &frames.Payload{StreamID: 7, Complete: true}},
		{"error", &frames.Error{StreamID: 9, Code: frames.ErrCodeApplicationError, Data: "no"}},
		{"request-response", &frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: 11, Metadata: []byte{0, 0, 0}, Data: []byte{0, 0, 1}}},
		{"fire and forget", &frames.RequestPayload{FrameType: frames.FrameTypeRequestFNF, StreamID: 13, Data: []byte{0xff}}},
		{"request-stream", &frames.RequestPayload{FrameType: frames.FrameTypeRequestStream, StreamID: 15, InitialN: 2, Data: []byte{1}}},
		{"request-channel", &frames.RequestPayload{FrameType: frames.FrameTypeRequestChannel, StreamID: 17, InitialN: 1, Complete: true, Metadata: []byte{9}}},
		{"setup", &frames.Setup{MajorVersion: 1, MinorVersion: 2, TimeBetweenKeepalive: time.Second, MaxLifetime: time.Minute, MimeMetadata: "a", MimeData: "b", Data: []byte("t")}},
	}
}

func wire(b []byte) []byte {
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

// expect is the reference reading of a byte stream: the complete frames in front of the first thing wrong
func expect(in []byte) (fs []frames.Frame, raws [][]byte, wrong bool, rest int) {
	for len(in) >= 3 {
		n := int(in[0])<<16 | int(in[1])<<8 | int(in[2])
		if n == 0 {
			return fs, raws, true, len(in)
		}
		if len(in) < 3+n {
			return fs, raws, false, len(in)
		}
		b := in[3 : 3+n]
		if n < 6 {
			return fs, raws, true, len(in)
		}
		typ, fl := int(b[4])>>2, int(b[4]&3)<<8|int(b[5])
		if !known(typ) {
			return fs, raws, true, len(in)
		}
		f, ok := frref.Decode(typ, fl, uint32(b[0])<<24|uint32(b[1])<<16|uint32(b[2])<<8|uint32(b[3]), b[6:])
		if !ok {
			return fs, raws, true, len(in)
		}
		fs, raws = append(fs, f), append(raws, b)
		in = in[3+n:]
	}
	return fs, raws, false, len(in)
}

func known(t int) bool { return t == 1 || t >= 4 && t <= 11 }

// reading reads a stream to its end
func reading(e *hx.E, c *mem) {
	want, _, wrong, rest := expect(c.in)
	readingWant(e, c, want, wrong, rest)
}

func readingWant(e *hx.E, c *mem, want []frames.Frame, wrong bool, rest int) {
	tc := rsocket.NewTCPConn(c)
	var got []frames.Frame
	for {
		e.Step(1)
		f, err := tc.Read()
		if err != nil {
			if f != nil {
				e.Fail("frame-and-error", "a frame %s and an error %v", frref.Show(f), err)
			}
			if len(got) < len(want) {
				e.Fail("lost", "ends with %v after %d of the %d complete frames", err, len(got), len(want))
			}
			if wrong && err == io.EOF {
				e.Fail("bad-frame-accepted", "end-of-file in place of an error")
			}
			if !wrong && rest == 0 && (c.end == endEOF || c.end == endEOFData) && err != io.EOF {
				e.Fail("eof", "%v in place of end-of-file", err)
			}
			if !wrong && (c.end == endReset || c.end == endResetAll) && !errors.Is(err, errReset) {
				e.Fail("read-error", "%v in place of %v", err, errReset)
			}
			break
		}
		if len(got) == len(want) {
			e.Fail("partial", "frame %s after the %d complete frames (%d bytes left)", frref.Show(f), len(want), rest)
		}
		if f == nil {
			e.Fail("nil", "neither a frame nor an error")
		}
		if !frref.Equal(want[len(got)], f) {
			e.Fail("altered", "frame %d is %s, want %s", len(got), frref.Show(f), frref.Show(want[len(got)]))
		}
		got = append(got, f)
	}
	for i := range got {
		if !frref.Equal(want[i], got[i]) {
			e.Fail("changed-later", "frame %d has become %s, was %s", i, frref.Show(got[i]), frref.Show(want[i]))
		}
	}
}

// cutting tries all ways to cut n bytes in at most k places (all ways if k < 0)
func cutting(n, k int, f func([]int)) {
	if k < 0 {
		var cuts []int
		for m := 0; m < 1<<(n-1); m++ {
			cuts = cuts[:0]
			for i := 0; i < n-1; i++ {
				if m>>i&1 == 1 {
					cuts = append(cuts, i+1)
				}
			}
			f(cuts)
		}
		return
	}
	var rec func(from int, cuts []int)
	rec = func(from int, cuts []int) {
		f(cuts)
		if len(cuts) == k {
			return
		}
		for p := from; p < n; p++ {
			rec(p+1, append(cuts[:len(cuts):len(cuts)], p))
		}
	}
	rec(1, nil)
}

func every(n, step int) (cuts []int) {
	for p := step; p < n; p += step {
		cuts = append(cuts, p)
	}
	return
}

func seqs(a []named, n int, f func([]named)) {
	var rec func(cur []named)
	rec = func(cur []named) {
		if len(cur) == n {
			f(cur)
			return
		}
		for _, x := range a {
			rec(append(cur[:len(cur):len(cur)], x))
		}
	}
	rec(nil)
}

func join(fs []named) (b []byte, names string) {
	for _, x := range fs {
		b = append(b, wire(frref.Encode(x.f))...)
		names += x.name + "; "
	}
	return
}

// sized is a frame of exactly n bytes
func sized(kind, n int, salt byte) frames.Frame {
	switch kind {
	case 0:
		return &frames.Payload{StreamID: 5, Data: frref.Fill(n-6, salt), Next: true}
	case 1:
		if n > 6+3+10 {
			return &frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: 7, Metadata: frref.Fill(10, salt+1), Data: frref.Fill(n-19, salt)}
		}
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: 7, Data: frref.Fill(n-6, salt)}
	}
	return &frames.Error{StreamID: 9, Code: 0x201, Data: string(frref.Fill(n-10, salt))}
}

func main() {
	hx.Main("C18", func(s *hx.Suite) {
		th := s.Thorough()
		s.Assumptions = append(s.Assumptions, "a net.Conn's Write puts its bytes on the wire without others in between; it may fail after any part of them")
		all := alphabet()

		s.Enum("read: one or two short frames, cut in every way", 16, func(e *hx.E) {
			max := hx.Pick(s, 15, 21)
			for n := 1; n <= 2; n++ {
				seqs(all, n, func(fs []named) {
					in, names := join(fs)
					if len(in) > max {
						return
					}
					for end := 0; end < endModes; end++ {
						e.Case(func() string { return names + endName[end] + " " + now() }, func() {
							cutting(len(in), -1, func(cuts []int) {
								if e.Stop() {
									return
								}
								cur = fmt.Sprint("cut at ", cuts)
								reading(e, &mem{in: in, cuts: cuts, end: end})
							})
						})
					}
				})
			}
		})

		s.Enum("read: sequences of frames, cut in few places", 32, func(e *hx.E) {
			for n := 1; n <= hx.Pick(s, 2, 3); n++ {
				k := 2
				if n == 2 && th {
					k = 3
				}
				seqs(all, n, func(fs []named) {
					in, names := join(fs)
					for end := 0; end < endModes; end++ {
						e.Case(func() string { return names + endName[end] + " " + now() }, func() {
							cutting(len(in), k, func(cuts []int) {
								if e.Stop() {
									return
								}
								cur = fmt.Sprint("cut at ", cuts)
								reading(e, &mem{in: in, cuts: cuts, end: end})
								if len(cuts) <= 1 {
									reading(e, &mem{in: in, cuts: cuts, end: end, empty: true})
								}
							})
							for step := 1; step <= 4; step++ {
								cur = fmt.Sprint("in reads of ", step)
								reading(e, &mem{in: in, cuts: every(len(in), step), end: end})
								reading(e, &mem{in: in, cuts: every(len(in), step), end: end, empty: true})
							}
						})
					}
				})
			}
		})

		s.Enum("read: streams that end anywhere", 32, func(e *hx.E) {
			for n := 1; n <= hx.Pick(s, 2, 3); n++ {
				k := hx.Pick(s, 1, 2)
				if n == 3 {
					k = 1
				}
				seqs(all, n, func(fs []named) {
					in, names := join(fs)
					for end := 0; end < endModes; end++ {
						e.Case(func() string { return names + endName[end] + " " + now() }, func() {
							for l := 0; l < len(in); l++ {
								cutting(l, k, func(cuts []int) {
									if e.Stop() {
										return
									}
									cur = fmt.Sprint("after ", l, " bytes, cut at ", cuts)
									reading(e, &mem{in: in[:l], cuts: cuts, end: end})
								})
							}
						})
					}
				})
			}
		})

		s.Enum("read: bad lengths, headers and bodies between good frames", 16, func(e *hx.E) {
			var bad [][]byte
			bad = append(bad, []byte{0, 0, 0})
			for n := 1; n < 6; n++ {
				bad = append(bad, wire(make([]byte, n)), wire(frref.Fill(n, 77)))
			}
			for t := 0; t < 64; t++ {
				bad = append(bad, wire([]byte{0, 0, 0, 1, byte(t << 2), 0}), wire([]byte{0, 0, 0, 1, byte(t<<2 | 1), 0, 0, 0, 9, 1}))
			}
			for _, x := range all {
				b := frref.Encode(x.f)
				for l := 0; l < len(b); l++ {
					bad = append(bad, wire(b[:l]))
				}
				bad = append(bad, wire(append(b[:len(b):len(b)], 1, 2, 3)))
			}
			for _, b := range bad {
				for before := 0; before <= 2; before++ {
					for end := 0; end < endModes; end++ {
						e.Case(func() string {
							return fmt.Sprintf("%d good frames, %x, a good one, %s %s", before, b, endName[end], now())
						}, func() {
							var in []byte
							for i := 0; i < before; i++ {
								in = append(in, wire(frref.Encode(all[2+i].f))...)
							}
							in = append(in, b...)
							in = append(in, wire(frref.Encode(all[4].f))...)
							cutting(len(in), hx.Pick(s, 1, 2), func(cuts []int) {
								if e.Stop() {
									return
								}
								cur = fmt.Sprint("cut at ", cuts)
								reading(e, &mem{in: in, cuts: cuts, end: end})
							})
						})
					}
				}
			}
		})

		s.Enum("read: frames around the sizes of the buffers", 48, func(e *hx.E) {
			var sizes []int
			for _, b := range []int{64, 256, 4096, 8192, 16384, 32768, 65536} {
				for d := -4; d <= 4; d++ {
					sizes = append(sizes, b+d)
				}
			}
			if th {
				for _, b := range []int{131072, 262144, 1 << 20} {
					for d := -4; d <= 4; d++ {
						sizes = append(sizes, b+d)
					}
				}
			}
			big := []int{1<<24 - 1, 1<<24 - 2, 1<<24 - 4, 1<<23 - 1, 1 << 23, 1<<23 + 1}
			if !th {
				big = big[:3]
			}
			sizes = append(sizes, big...)
			reads := []int{0, 1000, 1460, 4095, 4096, 8191, 8192, 8193, 65536}
			for i, n := range sizes {
				for kind := 0; kind < 3; kind++ {
					if n >= 1<<20 && kind > 0 && !th {
						continue
					}
					for _, behind := range []int{0, 1, 2} {
						for _, cut := range []bool{false, true} {
							e.Case(func() string {
								return fmt.Sprintf("frame of %d bytes (kind %d), %d frames behind it, %v, %s", n, kind, behind, cut, now())
							}, func() {
								fs := []frames.Frame{all[2].f, sized(kind, n, byte(i))}
								if behind > 0 {
									fs = append(fs, sized(kind, 64+n%97, 9))
								}
								if behind > 1 {
									fs = append(fs, sized(0, 8192-3, 11), all[5].f)
								}
								var in []byte
								for _, f := range fs {
									in = append(in, wire(frref.Encode(f))...)
								}
								if cut {
									in = in[:len(in)-1]
								}
								want, _, wrong, rest := expect(in)
								for _, step := range reads {
									if n >= 1<<20 && step > 0 && step < 8192 {
										continue
									}
									for end := 0; end < endModes; end++ {
										cur = fmt.Sprintf("in reads of %d, %s", step, endName[end])
										c := &mem{in: in, end: end}
										if step > 0 {
											c.cuts = []int{}
											c.multi = step
										}
										readingWant(e, c.every(), want, wrong, rest)
										if e.Stop() {
											return
										}
									}
								}
							})
						}
					}
				}
			}
		})

		s.Enum("write: frames of every kind and size", 32, func(e *hx.E) {
			var fs []named
			fs = append(fs, all...)
			sizes := []int{10, 4093, 4096, 8180, 8183, 8185, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 8193, 8195, 8200, 16375, 16378, 16381, 16384, 65535, 65536, 70000, 1<<24 - 1, 1 << 24, 1<<24 + 9}
			for i, n := range sizes {
				for kind := 0; kind < 3; kind++ {
					if n > 1<<20 && kind > 0 {
						continue
					}
					fs = append(fs, named{fmt.Sprintf("%d bytes (kind %d)", n, kind), sized(kind, n, byte(i))})
				}
			}
			for _, a := range fs {
				for _, b := range fs {
					for mode := 0; mode < 4; mode++ {
						if a.f.Size() > 1<<20 && b.f.Size() > 1<<20 {
							continue
						}
						e.Case(func() string { return fmt.Sprintf("%s; %s; mode %d", a.name, b.name, mode) }, func() { writing(e, []named{a, b, all[2]}, mode) })
					}
				}
			}
		})

		s.Enum("write: failing connection", 16, func(e *hx.E) {
			fs := []named{all[2], {"8185 bytes", sized(0, 8185, 1)}, {"20000 bytes", sized(1, 20000, 2)}, {"8192 bytes", sized(0, 8192, 3)}, all[8]}
			for _, a := range fs {
				for _, b := range fs {
					for _, c := range fs {
						for fail := 1; fail <= 8; fail++ {
							for _, split := range []bool{false, true} {
								e.Case(func() string {
									return fmt.Sprintf("%s; %s; %s; write call %d fails; %v", a.name, b.name, c.name, fail, split)
								}, func() {
									failing(e, []named{a, b, c}, fail, split)
								})
							}
						}
					}
				}
			}
		})

		// concurrent senders
		small := func(i, k int) frames.Frame {
			return &frames.Payload{StreamID: uint32(2*i + 1), Metadata: []byte{byte(k)}, Data: []byte(fmt.Sprintf("sender %d frame %d", i, k)), Next: true}
		}
		sizesOf := map[string]func(i, k int) frames.Frame{
			"small": small,
			"large": func(i, k int) frames.Frame {
				return &frames.Payload{StreamID: uint32(2*i + 1), Metadata: []byte{byte(k)}, Data: frref.Fill(9000+100*i+k, byte(16*i+k)), Next: true}
			},
			"mixed": func(i, k int) frames.Frame {
				if (i+k)%2 == 0 {
					return &frames.Payload{StreamID: uint32(2*i + 1), Metadata: []byte{byte(k)}, Data: frref.Fill(9000+100*i+k, byte(16*i+k)), Next: true}
				}
				return small(i, k)
			},
		}
		for _, size := range []string{"small", "large", "mixed"} {
			for _, mode := range []string{"send", "send, last flushes", "write and flush", "handler"} {
				for _, n := range []int{2, 3} {
					mk := sizesOf[size]
					mode := mode
					n := n
					cfg := vrt.Config{Bound: hx.Pick(s, 3, 5)}
					per := 2
					if n == 3 {
						cfg = vrt.Config{Bound: hx.Pick(s, 3, 4), Delay: true}
						per = hx.Pick(s, 1, 2)
					}
					s.Explore1(fmt.Sprintf("%d senders of %s frames, %s", n, size, mode), cfg, func() { senders(n, per, mk, mode) })
				}
			}
		}
		s.Explore1("reader and senders share the connection", vrt.Config{Bound: hx.Pick(s, 2, 4)}, func() {
			in, _ := join([]named{all[2], all[5], all[9]})
			want, _, _, _ := expect(in)
			c := &mem{in: in, cuts: every(len(in), 7), sched: true}
			tc := rsocket.NewTCPConn(c)
			var ths []*vrt.Thread
			ths = append(ths, vrt.GoNamed("reader", func() {
				for i := 0; ; i++ {
					f, err := tc.Read()
					if err != nil {
						if i != len(want) {
							vrt.Fail("lost", "%d of %d frames read, %v", i, len(want), err)
						}
						return
					}
					if i == len(want) || !frref.Equal(want[i], f) {
						vrt.Fail("altered", "read %s", frref.Show(f))
					}
				}
			}))
			runSenders(2, 2, c, rsocket.NewTransport(tc, &none{}, false), sizesOf["mixed"], "send", nil, ths)
		})
	})
}

// every cuts the input in reads of c.multi bytes
func (c *mem) every() *mem {
	if c.multi > 0 {
		c.cuts = every(len(c.in), c.multi)
	}
	return c
}

const tooLarge = 1<<24 - 1

func writing(e *hx.E, fs []named, mode int) {
	c := &mem{}
	tc := rsocket.NewTCPConn(c)
	h := &none{}
	tp := rsocket.NewTransport(tc, h, mode%2 == 0)
	var want []byte
	for i, x := range fs {
		e.Step(1)
		var err error
		switch mode {
		case 0:
			err = tp.Send(x.f, true)
		case 1:
			err = tp.Send(x.f, i == len(fs)-1)
		case 2:
			err = tc.Write(x.f)
		case 3:
			err = h.send(x.f)
		}
		enc := frref.Encode(x.f)
		if len(enc) > tooLarge {
			if err == nil {
				e.Fail("too-large", "no error for a frame of %d bytes", len(enc))
			}
			continue
		}
		if err != nil {
			e.Fail("write-error", "%s: %v", x.name, err)
		}
		want = append(want, wire(enc)...)
		if (mode == 0 || mode == 3) && len(c.out) != len(want) {
			e.Fail("not-flushed", "%d of %d bytes written after frame %d has been sent", len(c.out), len(want), i)
		}
	}
	if mode == 2 {
		if err := tp.Flush(); err != nil {
			e.Fail("write-error", "flush: %v", err)
		}
	}
	if !bytes.Equal(c.out, want) {
		p := 0
		for p < len(want) && p < len(c.out) && want[p] == c.out[p] {
			p++
		}
		e.Fail("wire", "%d bytes written, want %d; they differ from byte %d", len(c.out), len(want), p)
	}
}

// failing: once a write has failed the sender is told, and what is on the wire begins like what was sent
func failing(e *hx.E, fs []named, fail int, split bool) {
	c := &mem{fail: fail}
	tp := rsocket.NewTransport(rsocket.NewTCPConn(c), &none{}, true)
	var want []byte
	for _, x := range fs {
		e.Step(1)
		want = append(want, wire(frref.Encode(x.f))...)
		var err error
		if split {
			if err = tp.Send(x.f, false); err == nil {
				err = tp.Flush()
			}
		} else {
			err = tp.Send(x.f, true)
		}
		if err == nil && len(c.out) != len(want) {
			e.Fail("unreported", "no error though %d of %d bytes are written", len(c.out), len(want))
		}
		if err != nil && c.calls < fail {
			e.Fail("write-error", "%v", err)
		}
		if !bytes.HasPrefix(want, c.out) {
			e.Fail("wire", "what is written is not what was sent")
		}
		if err != nil && !errors.Is(err, errReset) {
			e.Fail("write-error", "%v in place of %v", err, errReset)
		}
	}
}

func senders(n, per int, mk func(i, k int) frames.Frame, mode string) {
	c := &mem{sched: true}
	h := &none{}
	tp := rsocket.NewTransport(rsocket.NewTCPConn(c), h, true)
	runSenders(n, per, c, tp, mk, mode, h.send, nil)
}

func runSenders(n, per int, c *mem, tp *rsocket.Transport, mk func(i, k int) frames.Frame, mode string, send func(frames.Frame) error, ths []*vrt.Thread) {
	for i := 0; i < n; i++ {
		i := i
		ths = append(ths, vrt.GoNamed(fmt.Sprint("sender ", i), func() {
			for k := 0; k < per; k++ {
				f := mk(i, k)
				var err error
				switch mode {
				case "send":
					err = tp.Send(f, true)
				case "send, last flushes":
					err = tp.Send(f, k == per-1)
				case "write and flush":
					if err = tp.Connection().Write(f); err == nil {
						err = tp.Connection().Flush()
					}
				case "handler":
					err = send(f)
				}
				if err != nil {
					vrt.Fail("write-error", "sender %d frame %d: %v", i, k, err)
				}
				if mode != "send, last flushes" || k == per-1 {
					if !bytes.Contains(c.out, wire(frref.Encode(f))) {
						vrt.Fail("not-flushed", "frame %d of sender %d is not on the wire after it has been sent", k, i)
					}
				}
			}
		}))
	}
	vrt.Join(ths...)
	next := make([]int, n)
	in := c.out
	order := ""
	for len(in) > 0 {
		if len(in) < 3 {
			vrt.Fail("mixed", "%d bytes behind the last frame", len(in))
		}
		l := int(in[0])<<16 | int(in[1])<<8 | int(in[2])
		if len(in) < 3+l || l < 6 {
			vrt.Fail("mixed", "a length of %d with %d bytes left", l, len(in)-3)
		}
		found := false
		for i := 0; i < n; i++ {
			if next[i] < per && bytes.Equal(in[3:3+l], frref.Encode(mk(i, next[i]))) {
				next[i]++
				order += fmt.Sprint(i)
				found = true
				break
			}
		}
		if !found {
			vrt.Fail("mixed", "a frame of %d bytes that is not any sender's next frame (%v)", l, next)
		}
		in = in[3+l:]
	}
	for i := range next {
		if next[i] != per {
			vrt.Fail("lost", "%d of the %d frames of sender %d are on the wire", next[i], per, i)
		}
	}
	vrt.Outcome("%s", order)
}
