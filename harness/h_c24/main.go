// C24: UUIDs parse, print, and are generated correctly and uniquely.
package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/hx"
	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/types/uuid"
)

var cur string

func now() string { return cur }

func canon(u uuid.UUID) string {
	h := hex.EncodeToString(u[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

// ref is the reference parser
func ref(s string) (u uuid.UUID, ok bool) {
	switch {
	case len(s) == 45 && strings.EqualFold(s[:9], "urn:uuid:") && isASCII(s[:9]):
		s = s[9:]
	case len(s) == 38 && s[0] == '{' && s[37] == '}':
		s = s[1:37]
	case len(s) == 32:
		b, err := hex.DecodeString(s)
		if err != nil {
			return u, false
		}
		copy(u[:], b)
		return u, true
	}
	if len(s) != 36 || s[8] != '-' || s[13] != '-' || s[18] != '-' || s[23] != '-' {
		return u, false
	}
	b, err := hex.DecodeString(s[:8] + s[9:13] + s[14:18] + s[19:23] + s[24:])
	if err != nil {
		return u, false
	}
	copy(u[:], b)
	return u, true
}

func isASCII(s string) bool {
	for i := range []byte(s) {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func parse(e *hx.E, s string) {
	e.Step(1)
	want, ok := ref(s)
	judge := func(how string, got uuid.UUID, err error) {
		if ok && (err != nil || got != want) {
			e.Fail("parse", "%s(%q) gives %x, %v", how, s, got[:], err)
		}
		if !ok && err == nil {
			e.Fail("parse-accepts", "%s(%q) accepts it as %x", how, s, got[:])
		}
	}
	u, err := uuid.Parse(s)
	judge("Parse", u, err)
	b := append(make([]byte, 0, len(s)+40), s...)
	u, err = uuid.ParseBytes(b)
	judge("ParseBytes", u, err)
	if string(b) != s {
		e.Fail("parse-changes", "ParseBytes(%q) changed its argument to %q", s, b)
	}
	var v uuid.UUID
	err = v.UnmarshalText(b)
	judge("UnmarshalText", v, err)
	var refused any
	func() {
		defer func() { refused = recover() }()
		u = uuid.MustParse(s)
	}()
	if refused == nil {
		judge("MustParse", u, nil)
	} else if ok {
		e.Fail("must-parse", "MustParse(%q) panics: %v", s, refused)
	}
}

func forms(u uuid.UUID) []string {
	c := canon(u)
	return []string{c, "urn:uuid:" + c, "{" + c + "}", strings.ReplaceAll(c, "-", "")}
}

func printing(e *hx.E, u uuid.UUID) {
	e.Step(1)
	c := canon(u)
	if u.String() != c || u.URN() != "urn:uuid:"+c {
		e.Fail("print", "%x prints as %q and %q", u[:], u.String(), u.URN())
	}
	t, err := u.MarshalText()
	if err != nil || string(t) != c {
		e.Fail("marshal-text", "%x marshals to %q, %v", u[:], t, err)
	}
	b, err := u.MarshalBinary()
	if err != nil || string(b) != string(u[:]) {
		e.Fail("marshal-binary", "%x marshals to %x, %v", u[:], b, err)
	}
	var v uuid.UUID
	if err := v.UnmarshalBinary(b); err != nil || v != u {
		e.Fail("unmarshal-binary", "%x comes back as %x, %v", u[:], v[:], err)
	}
	if w, err := uuid.FromBytes(b); err != nil || w != u {
		e.Fail("from-bytes", "%x comes back as %x, %v", u[:], w[:], err)
	}
	if int(u.Version()) != int(u[6]>>4) {
		e.Fail("version", "%s has version %v", c, u.Version())
	}
	want := uuid.Reserved
	switch {
	case u[8]>>6 == 2:
		want = uuid.RFC4122
	case u[8]>>5 == 6:
		want = uuid.Microsoft
	case u[8]>>5 == 7:
		want = uuid.Future
	}
	if u.Variant() != want {
		e.Fail("variant", "%s has variant %v, want %v", c, u.Variant(), want)
	}
	ts := int64(u[0])<<24 | int64(u[1])<<16 | int64(u[2])<<8 | int64(u[3]) | int64(u[4])<<40 | int64(u[5])<<32 | int64(u[6]&0xf)<<56 | int64(u[7])<<48
	if int64(u.Time()) != ts || u.ClockSequence() != int(u[8]&0x3f)<<8|int(u[9]) {
		e.Fail("fields", "%s has time %x and sequence %x", c, int64(u.Time()), u.ClockSequence())
	}
	for _, f := range forms(u) {
		parse(e, f)
		parse(e, strings.ToUpper(f))
	}
}

// ----------------------------------------------------------------------------------------------------
// random UUIDs

// source is a random source whose every window of 16 bytes is unique
type source struct {
	out   []byte
	seed  byte
	chunk int // bytes per read at most, 0: no limit
	left  int // bytes until it fails, -1: never
}

var errSource = errors.New("source failed")

func (s *source) Read(p []byte) (int, error) {
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if s.left >= 0 && n > s.left {
		n = s.left
	}
	for i := 0; i < n; i++ {
		k := uint64(len(s.out)) + uint64(s.seed)<<32 + 1
		k *= 0x9e3779b97f4a7c15
		k ^= k >> 29
		k *= 0xbf58476d1ce4e5b9
		k ^= k >> 32
		p[i] = byte(k)
		s.out = append(s.out, byte(k))
	}
	if s.left >= 0 {
		s.left -= n
		if n == 0 && len(p) > 0 {
			return 0, errSource
		}
	}
	return n, nil
}

// usage records which bytes of which source went into which UUID
type usage struct {
	srcs []*source
	used map[*source]map[int]int
	n    int
}

// claim finds the bytes a UUID was made of
func (us *usage) claim(u uuid.UUID, fail func(sig, msg string)) {
	us.n++
	if u[6]>>4 != 4 || u[8]>>6 != 2 || u.Version() != 4 || u.Variant() != uuid.RFC4122 {
		fail("random-version", fmt.Sprintf("random UUID %v has version %v and variant %v", u, u.Version(), u.Variant()))
		return
	}
	for _, s := range us.srcs {
	next:
		for o := 0; o+16 <= len(s.out); o++ {
			w := s.out[o : o+16]
			for i := range u {
				m := byte(0xff)
				if i == 6 {
					m = 0x0f
				}
				if i == 8 {
					m = 0x3f
				}
				if (u[i]^w[i])&m != 0 {
					continue next
				}
			}
			if us.used[s] == nil {
				us.used[s] = map[int]int{}
			}
			for i := o; i < o+16; i++ {
				if p := us.used[s][i]; p != 0 {
					fail("random-reused", fmt.Sprintf("UUID number %d (%v) uses random bytes that number %d has used", us.n, u, p))
					return
				}
				us.used[s][i] = us.n
			}
			return
		}
	}
	fail("random-not-fresh", fmt.Sprintf("UUID number %d (%v) was not made of 16 bytes of the random source", us.n, u))
}

func reset(srcs ...*source) *usage {
	uuid.DisableRandPool()
	uuid.SetRand(srcs[0])
	return &usage{srcs: srcs, used: map[*source]map[int]int{}}
}

const maxOps = 9

func histories(e *hx.E, depth int) {
	names := []string{"new", "new string", "new x15", "new x16", "pool on", "pool off", "source B", "source B that fails", "source A in small pieces"}
	var h []int
	var rec func()
	rec = func() {
		if len(h) > 0 && h[len(h)-1] < 4 {
			hist := append([]int(nil), h...)
			e.Case(now, func() {
				cur = ""
				a, b := &source{seed: 1, left: -1}, &source{seed: 2, left: -1}
				us := reset(a, b)
				defer func() { uuid.DisableRandPool(); uuid.SetRand(nil) }()
				fail := func(sig, msg string) { e.Fail(sig, "%s", msg) }
				gen := func() {
					may := b.left >= 0 // the failing source is or was in use
					u, err := uuid.NewRandom()
					if err != nil {
						if !may || err != errSource && err != io.ErrUnexpectedEOF {
							e.Fail("random-error", "NewRandom: %v", err)
						}
						if u != (uuid.UUID{}) {
							e.Fail("random-error", "NewRandom fails and returns %v", u)
						}
						return
					}
					us.claim(u, fail)
				}
				for _, x := range hist {
					cur += names[x] + ", "
					e.Step(1)
					switch x {
					case 0:
						gen()
					case 1:
						var text string
						var failed any
						func() {
							defer func() { failed = recover() }()
							text = uuid.NewString()
						}()
						if failed != nil {
							if b.left < 0 {
								panic(failed)
							}
							break
						}
						u, err := uuid.Parse(text)
						if err != nil {
							e.Fail("random-string", "NewString: %v", err)
						}
						us.claim(u, fail)
						func() {
							defer func() { failed = recover() }()
							u = uuid.New()
						}()
						if failed != nil {
							if b.left < 0 {
								panic(failed)
							}
							break
						}
						us.claim(u, fail)
					case 2, 3:
						for k := 0; k < 13+x; k++ {
							gen()
						}
					case 4:
						uuid.EnableRandPool()
					case 5:
						uuid.DisableRandPool()
					case 6:
						b.left = -1
						uuid.SetRand(b)
					case 7:
						b.left = 40
						uuid.SetRand(b)
					case 8:
						a.chunk = 7
						uuid.SetRand(a)
					}
				}
				e.State(fmt.Sprint(len(a.out), len(b.out), us.n))
			})
		}
		if len(h) == depth || e.Stop() {
			return
		}
		for x := 0; x < maxOps; x++ {
			h = append(h, x)
			rec()
			h = h[:len(h)-1]
		}
	}
	rec()
}

// ----------------------------------------------------------------------------------------------------
// time based values

type stamp struct {
	t   uuid.Time
	seq uint16
}

func clocks(e *hx.E, depth int) {
	base := time.Unix(1600000000, 0)
	steps := []int64{0, 1, -1, 7, -7}
	for _, start := range []int{0, 1, 0x1fff, 0x3ffd, 0x3ffe, 0x3fff} {
		var h []int
		var rec func()
		rec = func() {
			if len(h) == depth {
				hist := append([]int(nil), h...)
				start := start
				e.Case(now, func() {
					clock := base
					vrt.Clock = func() time.Time { return clock }
					defer func() { vrt.Clock = nil }()
					uuid.SetClockSequence(start ^ 5)
					uuid.SetClockSequence(start)
					if uuid.ClockSequence() != start {
						e.Fail("clock-sequence", "SetClockSequence(%x), ClockSequence() = %x", start, uuid.ClockSequence())
					}
					cur = fmt.Sprintf("sequence %x, clock", start)
					var got []stamp
					for _, x := range hist {
						if x < len(steps) {
							clock = clock.Add(time.Duration(steps[x] * 100))
							cur += fmt.Sprintf(" %+d", steps[x])
						} else {
							uuid.SetClockSequence(uuid.ClockSequence())
							cur += " (same sequence set again)"
						}
						t, seq, err := uuid.GetTime()
						e.Step(1)
						if err != nil || seq>>14 != 2 {
							e.Fail("time-error", "GetTime: %v, sequence %x", err, seq)
						}
						if s, n := t.UnixTime(); s != clock.Unix() || n != int64(clock.Nanosecond()) {
							e.Fail("time-value", "at %d.%09d GetTime gives %d.%09d", clock.Unix(), clock.Nanosecond(), s, n)
						}
						st := stamp{t, seq}
						if len(got) > 0 {
							l := got[len(got)-1]
							if !(t > l.t && seq == l.seq) && seq&0x3fff != (l.seq+1)&0x3fff {
								e.Fail("time-order", "%v is followed by %v", l, st)
							}
						}
						for _, g := range got {
							if g == st {
								e.Fail("time-repeated", "%v is handed out twice", st)
							}
						}
						got = append(got, st)
						if uuid.ClockSequence() != int(seq&0x3fff) {
							e.Fail("clock-sequence", "GetTime gives %x, ClockSequence() = %x", seq, uuid.ClockSequence())
						}
					}
					e.State(fmt.Sprint(got))
				})
				return
			}
			for x := 0; x <= len(steps); x++ {
				h = append(h, x)
				rec()
				h = h[:len(h)-1]
			}
		}
		rec()
	}
	for n := 0; n < 6; n++ {
		n := n
		e.Case(now, func() {
			cur = fmt.Sprintf("a random sequence after %d bytes", n)
			src := &source{seed: byte(n), left: -1, chunk: n % 3}
			reset(src)
			defer uuid.SetRand(nil)
			io.CopyN(io.Discard, src, int64(n))
			uuid.SetClockSequence(-1)
			if len(src.out) < n+2 {
				e.Fail("clock-sequence-random", "a new sequence is %x, without reading the random source", uuid.ClockSequence())
			}
			first := uuid.ClockSequence()
			uuid.SetClockSequence(-1)
			if uuid.ClockSequence() == first || len(src.out) < n+4 {
				e.Fail("clock-sequence-random", "two new sequences are %x", first)
			}
			e.Step(2)
		})
	}
	e.Case(now, func() {
		for v := -1; v < 1<<16; v++ {
			cur = fmt.Sprintf("sequence %d", v)
			uuid.SetClockSequence(v)
			if v >= 0 && uuid.ClockSequence() != v&0x3fff {
				e.Fail("clock-sequence", "SetClockSequence(%x), ClockSequence() = %x", v, uuid.ClockSequence())
			}
			if v%16 == 0 {
				if _, seq, err := uuid.GetTime(); err != nil || seq != uint16(v)&0x3fff|0x8000 {
					e.Fail("clock-sequence", "SetClockSequence(%x), GetTime gives %x, %v", v, seq, err)
				}
			}
		}
		e.Step(1 << 16)
	})
}

func main() {
	hx.Main("C24", func(s *hx.Suite) {
		s.Assumptions = append(s.Assumptions,
			"the random source is safe for concurrent use, and the pool is not switched on or off while UUIDs are being generated (as documented)",
			"a UUID is made of 16 consecutive bytes of the random source")
		samples := []uuid.UUID{{}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef, 0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10}}
		s.Enum("every byte at every position of a UUID", 8, func(e *hx.E) {
			for _, base := range samples {
				for i := 0; i < 16; i++ {
					base, i := base, i
					e.Case(now, func() {
						for v := 0; v < 256; v++ {
							u := base
							u[i] = byte(v)
							cur = canon(u)
							printing(e, u)
							if s.Thorough() || v < 8 {
								for j := i + 1; j < 16; j++ {
									u[j] ^= byte(v) + 1
									printing(e, u)
								}
							}
						}
						e.State(cur)
					})
				}
			}
		})
		s.Enum("every byte at every position of a text", 8, func(e *hx.E) {
			odd := []byte{0, ' ', '-', '0', '9', ':', '@', 'A', 'F', 'G', 'a', 'f', 'g', 'x', '{', '}', '(', 0x7f, 0x80, 0xff}
			for _, base := range samples[1:] {
				for _, f := range forms(base) {
					for i := range []byte(f) {
						f, i := f, i
						e.Case(now, func() {
							b := []byte(f)
							for v := 0; v < 256; v++ {
								b[i] = byte(v)
								cur = string(b)
								parse(e, cur)
							}
							for _, v := range odd {
								for j := i + 1; j < len(b); j++ {
									o := b[j]
									for _, w := range odd {
										b[i], b[j] = v, w
										parse(e, string(b))
									}
									b[j] = o
								}
							}
						})
					}
				}
			}
		})
		s.Enum("every length", 8, func(e *hx.E) {
			for n := 0; n <= 100; n++ {
				n := n
				e.Case(now, func() {
					cur = fmt.Sprint(n)
					for _, c := range []string{"0", "a", "-", "{", "g", "\x00", "\xff"} {
						parse(e, strings.Repeat(c, n))
					}
					for _, u := range samples {
						for _, f := range forms(u) {
							if n <= len(f) {
								parse(e, f[:n])
								parse(e, f[n:])
								parse(e, f[:n]+"-"+f[n:])
								if n < len(f) {
									parse(e, f[:n]+f[n+1:])
								}
								parse(e, f[:n]+f)
								parse(e, f+f[:n])
								for _, p := range []string{"urn:uuid:", "{", "}", " ", "URN:UUID:", "urn:uuid;", "urn_uuid:", "0x", "()", "[]"} {
									parse(e, p+f[n:])
									parse(e, f[:n]+p)
									parse(e, p+f[n:]+p)
								}
							}
						}
					}
					b := make([]byte, n)
					for i := range b {
						b[i] = byte(i + 1)
					}
					u, err := uuid.FromBytes(b)
					var v uuid.UUID
					err2 := v.UnmarshalBinary(b)
					if (err == nil) != (n == 16) || (err2 == nil) != (n == 16) || n == 16 && (string(u[:]) != string(b) || u != v) {
						e.Fail("binary-length", "%d bytes: %v, %v", n, err, err2)
					}
				})
			}
		})
		s.Enum("generation histories", 8, func(e *hx.E) { histories(e, hx.Pick(s, 5, 6)) })
		s.Enum("clock histories", 8, func(e *hx.E) { clocks(e, hx.Pick(s, 6, 8)) })
		for _, p := range []struct {
			threads, each, before int
			pool                  bool
			cfg                   vrt.Config
		}{
			{2, 2, 0, true, vrt.Config{Bound: hx.Pick(s, 3, 5)}},
			{2, 2, 14, true, vrt.Config{Bound: hx.Pick(s, 3, 5)}},
			{2, 2, 15, true, vrt.Config{Bound: hx.Pick(s, 3, 5)}},
			{3, 1, 15, true, vrt.Config{Bound: hx.Pick(s, 2, 4)}},
			{3, 2, 14, true, vrt.Config{Delay: true, Bound: hx.Pick(s, 4, 6)}},
			{2, 2, 0, false, vrt.Config{Bound: hx.Pick(s, 3, 5)}},
			{3, 2, 0, false, vrt.Config{Delay: true, Bound: hx.Pick(s, 4, 6)}},
		} {
			p := p
			s.Explore(fmt.Sprintf("%d threads generate %d each, pool %v after %d", p.threads, p.each, p.pool, p.before), p.cfg, func() {
				src := &source{seed: 3, left: -1}
				us := reset(src)
				if p.pool {
					uuid.EnableRandPool()
				}
				for i := 0; i < p.before; i++ {
					us.claim(uuid.New(), func(sig, msg string) { vrt.Fail(sig, "%s", msg) })
				}
				var ths []*vrt.Thread
				got := make([][]uuid.UUID, p.threads)
				for i := 0; i < p.threads; i++ {
					i := i
					ths = append(ths, vrt.GoNamed(fmt.Sprintf("g%d", i), func() {
						for k := 0; k < p.each; k++ {
							got[i] = append(got[i], uuid.New())
						}
					}))
				}
				vrt.Join(ths...)
				for _, g := range got {
					for _, u := range g {
						us.claim(u, func(sig, msg string) { vrt.Fail(sig, "%s", msg) })
					}
				}
				if p.pool {
					// what the threads got is not given again
					for i := 0; i < 17; i++ {
						us.claim(uuid.New(), func(sig, msg string) { vrt.Fail(sig, "%s", msg) })
					}
				}
				vrt.Outcome("%v", got)
				uuid.DisableRandPool()
				uuid.SetRand(nil)
			})
		}
		for _, p := range []struct {
			threads, each int
			tick          bool
			cfg           vrt.Config
		}{
			{2, 2, false, vrt.Config{Bound: hx.Pick(s, 3, 5)}},
			{2, 2, true, vrt.Config{Bound: hx.Pick(s, 3, 5)}},
			{3, 1, false, vrt.Config{Bound: hx.Pick(s, 3, 4)}},
			{3, 2, true, vrt.Config{Delay: true, Bound: hx.Pick(s, 4, 6)}},
		} {
			p := p
			s.Explore(fmt.Sprintf("%d threads take %d times each, clock moves %v", p.threads, p.each, p.tick), p.cfg, func() {
				clock := time.Unix(1700000000, 0)
				vrt.Clock = func() time.Time {
					if p.tick {
						clock = clock.Add(100)
					}
					return clock
				}
				uuid.SetClockSequence(7)
				uuid.SetClockSequence(0x3ffe)
				var ths []*vrt.Thread
				seen := map[stamp]string{}
				for i := 0; i < p.threads; i++ {
					ths = append(ths, vrt.GoNamed(fmt.Sprintf("g%d", i), func() {
						var l stamp
						for k := 0; k < p.each; k++ {
							t, seq, err := uuid.GetTime()
							st := stamp{t, seq}
							if err != nil || seq>>14 != 2 {
								vrt.Fail("time-error", "GetTime: %v, %x", err, seq)
							}
							if o := seen[st]; o != "" {
								vrt.Fail("time-repeated", "%v is handed out to %s and %s", st, o, vrt.ThreadName())
							}
							seen[st] = vrt.ThreadName()
							if k > 0 && t <= l.t && seq == l.seq {
								vrt.Fail("time-order", "%v is followed by %v", l, st)
							}
							l = st
						}
					}))
				}
				vrt.Join(ths...)
				vrt.Outcome("%v", len(seen))
				vrt.Clock = nil
			})
		}
	})
}
