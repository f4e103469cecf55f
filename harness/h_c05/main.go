// C05: fragmenting a payload loses, duplicates and reorders nothing.
package main

import (
	"bytes"
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/frref"
	"github.com/nanobus/iota/go/internal/zzverif/hx"
)

var cur string

func now() string { return cur }

func check(e *hx.E, f frames.Frame, max int) {
	e.Step(1)
	var got []frames.Frame
	var md, data []byte
	var next, complete, request bool
	var kind frames.FrameType
	switch f := f.(type) {
	case *frames.Payload:
		md, data, next, complete = f.Metadata, f.Data, f.Next, f.Complete
		before := frref.Encode(f)
		got = f.Fragment(uint32(max))
		e.Check(bytes.Equal(before, frref.Encode(f)), "changed", "splitting %s at %d changed it", frref.Show(f), max)
	case *frames.RequestPayload:
		md, data, complete, request, kind = f.Metadata, f.Data, f.Complete, true, f.FrameType
		before := frref.Encode(f)
		got = f.Fragment(uint32(max))
		e.Check(bytes.Equal(before, frref.Encode(f)), "changed", "splitting %s at %d changed it", frref.Show(f), max)
	}
	desc := func() string {
		s := ""
		for _, g := range got {
			s += "\n  " + frref.Show(g)
		}
		return fmt.Sprintf("%s with %d bytes of metadata and %d of data, split at %d:%s", frref.Show(f), len(md), len(data), max, s)
	}
	bad := func(sig, what string) { e.Fail(sig, "%s: %s", what, desc()) }
	if len(frref.Encode(f)) <= max {
		if len(got) != 0 {
			bad("split-needlessly", "a frame that fits is split")
		}
		return
	}
	if len(got) < 2 {
		bad("not-split", "a frame that does not fit is not split")
	}
	var m, d []byte
	for i, g := range got {
		last := i == len(got)-1
		if len(frref.Encode(g)) > max || int(g.Size()) > max {
			bad("too-large", fmt.Sprintf("fragment %d is larger than the maximum", i))
		}
		if g.GetStreamID() != f.GetStreamID() {
			bad("stream", fmt.Sprintf("fragment %d is for stream %d", i, g.GetStreamID()))
		}
		var follows, nx, cp bool
		switch g := g.(type) {
		case *frames.RequestPayload:
			if i != 0 || !request {
				bad("kind", fmt.Sprintf("fragment %d is a request", i))
			}
			o := f.(*frames.RequestPayload)
			if g.FrameType != o.FrameType || (kind == frames.FrameTypeRequestStream || kind == frames.FrameTypeRequestChannel) && g.InitialN != o.InitialN {
				bad("first", "the first fragment has another kind or initial demand")
			}
			m, d, follows, nx, cp = append(m, g.Metadata...), append(d, g.Data...), g.Follows, false, g.Complete && kind == frames.FrameTypeRequestChannel
		case *frames.Payload:
			if i == 0 && request {
				bad("kind", "the first fragment of a request is a payload")
			}
			m, d, follows, nx, cp = append(m, g.Metadata...), append(d, g.Data...), g.Follows, g.Next, g.Complete
		default:
			bad("kind", fmt.Sprintf("fragment %d is a %T", i, g))
		}
		if follows == last {
			bad("follows", fmt.Sprintf("fragment %d of %d says follows = %v", i, len(got), follows))
		}
		if last {
			if !request && nx != next {
				bad("next", fmt.Sprintf("the last fragment says next = %v", nx))
			}
			if (!request || kind == frames.FrameTypeRequestChannel) && cp != complete {
				bad("complete", fmt.Sprintf("the last fragment says complete = %v", cp))
			}
		} else if cp {
			bad("complete", fmt.Sprintf("fragment %d already says complete", i))
		}
		// and it survives the wire
		h, err := frref.Parse(frref.Wire(g))
		if err != nil || !frref.Equal(g, h) {
			bad("wire", fmt.Sprintf("fragment %d does not survive its encoding: %v", i, err))
		}
	}
	if !bytes.Equal(m, md) || !bytes.Equal(d, data) {
		bad("content", "the fragments do not join to the original")
	}
}

func all(e *hx.E, md, data []byte, max int) {
	for t := frames.FrameTypeRequestResponse; t <= frames.FrameTypeRequestChannel; t++ {
		for _, c := range []bool{false, true} {
			check(e, &frames.RequestPayload{FrameType: t, StreamID: 7, Metadata: md, Data: data, Complete: c, InitialN: 0x01020304}, max)
		}
	}
	for k := 0; k < 4; k++ {
		check(e, &frames.Payload{StreamID: 7, Metadata: md, Data: data, Next: k&1 == 1, Complete: k&2 == 2}, max)
	}
}

func main() {
	hx.Main("C05", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions, "the maximum frame size leaves room for the header, the demand, the metadata length and at least one byte (14 bytes)",
			"frames that are themselves fragments (follows set) are not split again")
		lim := hx.Pick(s, 56, 130)
		s.Enum("every metadata length, data length and maximum", 8, func(e *hx.E) {
			for max := 14; max <= hx.Pick(s, 40, 64); max++ {
				for m := 0; m <= lim; m++ {
					max, m := max, m
					e.Case(now, func() {
						cur = fmt.Sprintf("maximum %d, metadata of %d bytes", max, m)
						md := frref.Fill(m, 0x80)
						for d := 0; d <= lim; d++ {
							all(e, md, frref.Fill(d, 0x10), max)
						}
						e.State(cur)
					})
				}
			}
		})
		s.Enum("around multiples of larger maxima", 8, func(e *hx.E) {
			for _, max := range []int{255, 256, 257, 1024, 8192, 65535, 65536} {
				var ls []int
				for k := 0; k <= 3; k++ {
					step := 1
					if k == 0 {
						step = 3
					}
					for x := k*max - 36; x <= k*max+4; x += step {
						if x >= 0 {
							ls = append(ls, x)
						}
					}
				}
				if !s.Thorough() && max > 8192 {
					ls = ls[:len(ls)/3]
				}
				for _, m := range ls {
					max, m := max, m
					e.Case(now, func() {
						cur = fmt.Sprintf("maximum %d, metadata of %d bytes", max, m)
						md := frref.Fill(m, 0x80)
						for i, d := range ls {
							if max <= 257 || s.Thorough() && max < 8192 {
								all(e, md, frref.Fill(d, 0x10), max)
							} else if i%7 == 0 || d%max < 20 && i%3 == 0 {
								check(e, &frames.RequestPayload{FrameType: frames.FrameTypeRequestChannel, StreamID: 7, Metadata: md, Data: frref.Fill(d, 0x10), InitialN: 9}, max)
								check(e, &frames.Payload{StreamID: 7, Metadata: md, Data: frref.Fill(d, 0x10), Next: true, Complete: true}, max)
							}
						}
					})
				}
			}
		})
		s.Enum("many fragments", 8, func(e *hx.E) {
			top := hx.Pick(s, 1200, 5000)
			for _, max := range []int{14, 15, 17, 21, 64, 200} {
				for l := 0; l <= top; l += hx.Pick(s, 17, 11) {
					max, l := max, l
					e.Case(now, func() {
						cur = fmt.Sprintf("maximum %d, %d bytes", max, l)
						for _, m := range []int{0, l / 3, l / 2, l} {
							all(e, frref.Fill(m, 0x80), frref.Fill(l-m+l%3, 0x10), max)
						}
						e.State(cur)
					})
				}
			}
			// and very many
			for _, n := range []int{1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1 << 17} {
				for _, max := range []int{15, 16} {
					n, max := n, max
					e.Case(now, func() {
						cur = fmt.Sprintf("maximum %d, about %d fragments", max, n)
						for _, big := range []bool{false, true} {
							md, data := frref.Fill(4*n, 0x80), frref.Fill(9*n, 0x10)
							if big {
								md, data = md[:3], frref.Fill(max*n, 0x20)
							}
							check(e, &frames.RequestPayload{FrameType: frames.FrameTypeRequestStream, StreamID: 7, Metadata: md, Data: data, InitialN: 9}, max)
							check(e, &frames.Payload{StreamID: 7, Metadata: md, Data: data, Next: true, Complete: true}, max)
						}
					})
				}
			}
		})
	})
}
