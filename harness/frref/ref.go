// Package frref is an independent reading of the RSocket frame layout, used as the oracle for the frame codecs.
package frref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
)

const (
	tSetup = 1
	tRR    = 4
	tFNF   = 5
	tRS    = 6
	tRC    = 7
	tN     = 8
	tCan   = 9
	tPay   = 10
	tErr   = 11

	flagNext     = 0x20
	flagComplete = 0x40
	flagFollows  = 0x80
	flagMetadata = 0x100
)

func u16(b []byte, v int) []byte    { return append(b, byte(v>>8), byte(v)) }
func u24(b []byte, v int) []byte    { return append(b, byte(v>>16), byte(v>>8), byte(v)) }
func u32(b []byte, v uint32) []byte { return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }

func header(id uint32, typ, flags int) []byte { return u16(u32(nil, id), typ<<10|flags) }

func meta(b, md []byte) []byte {
	if len(md) > 0 {
		b = append(u24(b, len(md)), md...)
	}
	return b
}

// Encode is the reference encoding.
func Encode(f frames.Frame) []byte {
	fl := 0
	set := func(c bool, x int) {
		if c {
			fl |= x
		}
	}
	switch f := f.(type) {
	case *frames.Setup:
		set(f.Lease, 0x40)
		set(len(f.Token) > 0, 0x80)
		set(len(f.Metadata) > 0, flagMetadata)
		b := header(0, tSetup, fl)
		b = u16(u16(b, int(f.MajorVersion)), int(f.MinorVersion))
		b = u32(u32(b, uint32(f.TimeBetweenKeepalive/time.Millisecond)), uint32(f.MaxLifetime/time.Millisecond))
		if len(f.Token) > 0 {
			b = append(u16(b, len(f.Token)), f.Token...)
		}
		b = append(append(b, byte(len(f.MimeMetadata))), f.MimeMetadata...)
		b = append(append(b, byte(len(f.MimeData))), f.MimeData...)
		return append(meta(b, f.Metadata), f.Data...)
	case *frames.RequestPayload:
		set(f.Follows, flagFollows)
		set(f.Complete && f.FrameType == tRC, flagComplete)
		set(len(f.Metadata) > 0, flagMetadata)
		b := header(f.StreamID, int(f.FrameType), fl)
		if f.FrameType == tRS || f.FrameType == tRC {
			b = u32(b, f.InitialN)
		}
		return append(meta(b, f.Metadata), f.Data...)
	case *frames.Payload:
		set(f.Follows, flagFollows)
		set(f.Complete, flagComplete)
		set(f.Next, flagNext)
		set(len(f.Metadata) > 0, flagMetadata)
		return append(meta(header(f.StreamID, tPay, fl), f.Metadata), f.Data...)
	case *frames.RequestN:
		return u32(header(f.StreamID, tN, 0), f.N)
	case *frames.Cancel:
		return header(f.StreamID, tCan, 0)
	case *frames.Error:
		return append(u32(header(f.StreamID, tErr, 0), uint32(f.Code)), f.Data...)
	}
	panic(fmt.Sprintf("%T", f))
}

// Decode is the reference decoding of a frame body; ok is false if it is cut short.
func Decode(typ int, flags int, id uint32, body []byte) (f frames.Frame, ok bool) {
	p := body
	short := false
	take := func(n int) []byte {
		if len(p) < n {
			short = true
			return make([]byte, n)
		}
		r := p[:n]
		p = p[n:]
		return r
	}
	md := func() []byte {
		if flags&flagMetadata == 0 {
			return nil
		}
		l := take(3)
		n := int(l[0])<<16 | int(l[1])<<8 | int(l[2])
		if short || len(p) < n {
			short = true
			return nil
		}
		return take(n)
	}
	switch typ {
	case tSetup:
		s := &frames.Setup{Lease: flags&0x40 != 0}
		s.MajorVersion = binary.BigEndian.Uint16(take(2))
		s.MinorVersion = binary.BigEndian.Uint16(take(2))
		s.TimeBetweenKeepalive = time.Duration(binary.BigEndian.Uint32(take(4))) * time.Millisecond
		s.MaxLifetime = time.Duration(binary.BigEndian.Uint32(take(4))) * time.Millisecond
		if flags&0x80 != 0 {
			n := int(binary.BigEndian.Uint16(take(2)))
			s.Token = take(n)
		}
		s.MimeMetadata = string(take(int(take(1)[0])))
		s.MimeData = string(take(int(take(1)[0])))
		s.Metadata = md()
		s.Data = p
		return s, !short
	case tRR, tFNF, tRS, tRC:
		r := &frames.RequestPayload{FrameType: frames.FrameType(typ), StreamID: id, Follows: flags&flagFollows != 0, Complete: flags&flagComplete != 0}
		if typ == tRS || typ == tRC {
			r.InitialN = binary.BigEndian.Uint32(take(4))
		}
		r.Metadata = md()
		r.Data = p
		return r, !short
	case tPay:
		r := &frames.Payload{StreamID: id, Follows: flags&flagFollows != 0, Complete: flags&flagComplete != 0, Next: flags&flagNext != 0}
		r.Metadata = md()
		r.Data = p
		return r, !short
	case tN:
		return &frames.RequestN{StreamID: id, N: binary.BigEndian.Uint32(take(4))}, !short
	case tCan:
		return &frames.Cancel{StreamID: id}, true
	case tErr:
		c := binary.BigEndian.Uint32(take(4))
		return &frames.Error{StreamID: id, Code: frames.ErrCode(c), Data: string(p)}, !short
	}
	return nil, false
}

// New makes an empty frame of a type.
func New(typ int) frames.Frame {
	switch typ {
	case tSetup:
		return &frames.Setup{}
	case tRR, tFNF, tRS, tRC:
		return &frames.RequestPayload{}
	case tN:
		return &frames.RequestN{}
	case tCan:
		return &frames.Cancel{}
	case tPay:
		return &frames.Payload{}
	case tErr:
		return &frames.Error{}
	}
	return nil
}

// Types are the frame types the library knows.
var Types = []int{tSetup, tRR, tFNF, tRS, tRC, tN, tCan, tPay, tErr}

// Equal compares what the wire can carry: requests other than channels carry no completion flag, and the ones
// answered once carry no demand.
func Equal(a, b frames.Frame) bool {
	if a == nil || b == nil || a.Type() != b.Type() || a.GetStreamID() != b.GetStreamID() {
		return false
	}
	switch x := a.(type) {
	case *frames.Setup:
		y, ok := b.(*frames.Setup)
		return ok && x.MajorVersion == y.MajorVersion && x.MinorVersion == y.MinorVersion && x.TimeBetweenKeepalive == y.TimeBetweenKeepalive && x.MaxLifetime == y.MaxLifetime &&
			bytes.Equal(x.Token, y.Token) && x.MimeMetadata == y.MimeMetadata && x.MimeData == y.MimeData && bytes.Equal(x.Metadata, y.Metadata) && bytes.Equal(x.Data, y.Data) && x.Lease == y.Lease
	case *frames.RequestPayload:
		y, ok := b.(*frames.RequestPayload)
		return ok && bytes.Equal(x.Metadata, y.Metadata) && bytes.Equal(x.Data, y.Data) && x.Follows == y.Follows &&
			(x.FrameType != tRC || x.Complete == y.Complete) && (x.FrameType != tRC && x.FrameType != tRS || x.InitialN == y.InitialN)
	case *frames.Payload:
		y, ok := b.(*frames.Payload)
		return ok && bytes.Equal(x.Metadata, y.Metadata) && bytes.Equal(x.Data, y.Data) && x.Follows == y.Follows && x.Complete == y.Complete && x.Next == y.Next
	case *frames.RequestN:
		y, ok := b.(*frames.RequestN)
		return ok && x.N == y.N
	case *frames.Cancel:
		_, ok := b.(*frames.Cancel)
		return ok
	case *frames.Error:
		y, ok := b.(*frames.Error)
		return ok && x.Code == y.Code && x.Data == y.Data
	}
	return false
}

// Show renders a frame shortly.
func Show(f frames.Frame) string {
	cut := func(b []byte) string {
		if len(b) > 24 {
			return fmt.Sprintf("%x...(%d)", b[:24], len(b))
		}
		return fmt.Sprintf("%x", b)
	}
	switch f := f.(type) {
	case *frames.Setup:
		return fmt.Sprintf("Setup{v%d.%d keepalive=%v lifetime=%v token=%s mime=%q/%q md=%s data=%s lease=%v}", f.MajorVersion, f.MinorVersion, f.TimeBetweenKeepalive, f.MaxLifetime, cut(f.Token), short(f.MimeMetadata), short(f.MimeData), cut(f.Metadata), cut(f.Data), f.Lease)
	case *frames.RequestPayload:
		return fmt.Sprintf("%v{id=%d md=%s data=%s follows=%v complete=%v n=%d}", f.FrameType, f.StreamID, cut(f.Metadata), cut(f.Data), f.Follows, f.Complete, f.InitialN)
	case *frames.Payload:
		return fmt.Sprintf("PAYLOAD{id=%d md=%s data=%s follows=%v complete=%v next=%v}", f.StreamID, cut(f.Metadata), cut(f.Data), f.Follows, f.Complete, f.Next)
	case *frames.RequestN:
		return fmt.Sprintf("REQUEST_N{id=%d n=%d}", f.StreamID, f.N)
	case *frames.Cancel:
		return fmt.Sprintf("CANCEL{id=%d}", f.StreamID)
	case *frames.Error:
		return fmt.Sprintf("ERROR{id=%d code=%d %q}", f.StreamID, f.Code, short(f.Data))
	}
	return fmt.Sprintf("%T", f)
}

func short(s string) string {
	if len(s) > 24 {
		return s[:24] + "..."
	}
	return s
}

// Fill makes n bytes of a recognisable, non-repeating pattern.
func Fill(n int, salt byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*7 + byte(i>>8)*13 + byte(i>>16) + salt
	}
	return b
}

// Wire encodes f with the code under test.
func Wire(f frames.Frame) []byte {
	b := make([]byte, f.Size())
	f.Encode(b)
	return b
}

// Parse decodes one frame with the code under test.
func Parse(b []byte) (frames.Frame, error) {
	if len(b) < frames.FrameHeaderLen {
		return nil, fmt.Errorf("short header")
	}
	h := frames.ParseFrameHeader(b)
	f := New(int(h.Type()))
	if f == nil {
		return nil, fmt.Errorf("unknown type %d", h.Type())
	}
	return f, f.Decode(&h, b[frames.FrameHeaderLen:])
}
