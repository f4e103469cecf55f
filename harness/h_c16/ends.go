// Sources and receivers of streams: what they do in a run and the judgement of it.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/internal/zzverif/vrt"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

// later does something in a thread of its own, where wait waits for something. Where there are no threads, it is done
// from time to time until it returns true.
var (
	later = func(name string, f func() bool) { vrt.GoNamed(name, func() { f() }) }
	wait  = func(what string, ready func() bool) bool { vrt.Block(what, ready); return true }
)

// bare: items lack data, metadata or both
var bare bool

func bared(f func()) {
	bare = true
	defer func() { bare = false }()
	f()
}

// boom is the message of an error
func boom(name string) string {
	if message != nil {
		return *message
	}
	return "boom " + name
}

var message *string

// messages runs something with several messages
var messages = []string{"", " ", "x", "not_found", "Invalid metadata", "EOF", "boom", "a\x00b", "\xff\xfe\x80", "\u00fc\u20ac\U0001f600", "%d %s %", "two\nlines",
	strings.Repeat("0123456789", 26)[:255], strings.Repeat("0123456789", 26)[:256], strings.Repeat("long ", 1000)}

func saying(m string, f func()) {
	message = &m
	defer func() { message = nil }()
	f()
}

func data(name string, i int) payload.Payload {
	if bare {
		switch i % 3 {
		case 0:
			return payload.New(nil, []byte(fmt.Sprint("meta ", name, i)))
		case 1:
			return payload.New(nil)
		}
		return payload.New([]byte(fmt.Sprint(name, i)))
	}
	return payload.New([]byte(fmt.Sprint(name, i)), []byte(fmt.Sprint("meta ", name, i)))
}

// source produces n items, as many as are requested, and then ends
type source struct {
	name      string
	n         int
	fail      bool
	async     bool
	slice     bool // flux.FromSlice
	allowed   *int // what may be requested of it
	requested int
	emitted   int
	subs      int
	ended     bool
	canceled  int
}

func (s source) String() string {
	m := "now"
	if s.async {
		m = "later"
	}
	if s.slice {
		m = "slice"
	}
	e := ""
	if s.fail {
		e = ", fails"
	}
	return fmt.Sprintf("%d %s%s", s.n, m, e)
}

func (s *source) flux() flux.Flux[payload.Payload] {
	if s.slice {
		s.canceled = 1 // not observed
		s.subs = 1
		var v []payload.Payload
		for i := 1; i <= s.n; i++ {
			v = append(v, data(s.name, i))
		}
		return flux.FromSlice(v)
	}
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		s.subs++
		if s.subs > 1 {
			vrt.Fail("subscribed-twice", "%s was subscribed to twice", s.name)
		}
		end := func() {
			s.ended = true
			if s.fail {
				sink.Error(errors.New(boom(s.name)))
			} else {
				sink.Complete()
			}
		}
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(k int) {
				if s.allowed != nil && s.requested+k > *s.allowed {
					vrt.Fail("demand-invented", "%s was asked for %d more after %d, although only %d were requested", s.name, k, s.requested, *s.allowed)
				}
				s.requested += k
				if s.async {
					return
				}
				for s.emitted < s.n && s.emitted < s.requested && s.canceled == 0 {
					s.emitted++
					sink.Next(data(s.name, s.emitted))
				}
				if s.emitted == s.n && !s.ended {
					end()
				}
			},
			Cancel: func() {
				s.canceled++
			},
		})
		if s.async {
			later("source "+s.name, func() bool {
				for s.emitted < s.n {
					if !wait("demand "+s.name, func() bool { return s.emitted < s.requested || s.canceled > 0 }) {
						return false
					}
					if s.canceled > 0 {
						return true
					}
					s.emitted++
					sink.Next(data(s.name, s.emitted))
				}
				end()
				return true
			})
		}
	})
}

// receiver asks for the given numbers of items
type receiver struct {
	name      string
	demands   []int
	early     bool // from another thread, not waiting for items
	threads   bool // each from a thread of its own, the first one included
	cancelAt  int  // after so many items, -1 never
	canceler  bool // from another thread, any time
	requested int
	got       int
	late      int // items that came after the end
	end       string
	ends      int
	canceled  bool
	suffix    string
	f         flux.Flux[payload.Payload]
	onEnd     func()
	inside    bool
}

func (r receiver) String() string {
	c := ""
	if r.cancelAt >= 0 {
		c = fmt.Sprint(" cancels after ", r.cancelAt)
	}
	if r.canceler {
		c = " cancels any time"
	}
	if r.early {
		c += " early"
	}
	if r.threads {
		c += " in threads"
	}
	return fmt.Sprint(r.demands, c)
}

func (r *receiver) total() int {
	t := 0
	for _, d := range r.demands {
		t += d
	}
	return t
}

// item judges an item that arrives.
func (r *receiver) item(p payload.Payload) {
	if r.inside {
		vrt.Fail("concurrent", "%s gets two items at the same time", r.name)
	}
	r.inside = true
	r.got++
	want := data(r.name, r.got)
	if string(p.Data()) != string(want.Data())+r.suffix || string(p.Metadata()) != string(want.Metadata()) {
		vrt.Fail("wrong-item", "%s got %q %q as item %d", r.name, p.Data(), p.Metadata(), r.got)
	}
	if r.got > r.requested {
		vrt.Fail("overdrawn", "%s got %d items but requested %d", r.name, r.got, r.requested)
	}
	if r.ends > 0 {
		// one that was on its way when another thread cancelled may still come
		if r.late++; r.end != "cancel" || !r.canceler || r.late > 1 {
			vrt.Fail("after-end", "%s got an item after the end", r.name)
		}
	}
	r.inside = false
}

func (r *receiver) subscribe(f flux.Flux[payload.Payload]) {
	r.f = f
	i := 0
	f.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			r.item(p)
			if r.got == r.cancelAt {
				r.cancel()
			}
		},
		OnComplete: func() { r.end = "complete" },
		OnError:    func(err error) { r.end = "error " + err.Error() },
		OnRequest: func(s rx.Subscription) {
			if r.cancelAt == 0 {
				r.canceled = true
				s.Cancel()
				return
			}
			if i < len(r.demands) && !(r.early && i > 0) && !r.threads {
				i++
				r.requested += r.demands[i-1]
				s.Request(r.demands[i-1])
			}
		},
		Finally: func(sig rx.SignalType) {
			r.ends++
			if r.ends > 1 {
				vrt.Fail("ended-twice", "%s ended twice", r.name)
			}
			if sig == rx.SignalCancel {
				r.end = "cancel"
			}
			if r.onEnd != nil {
				r.onEnd()
			}
		},
	})
	if r.early {
		later("requests "+r.name, func() bool {
			for _, d := range r.demands[1:] {
				r.requested += d
				f.Subscription().Request(d)
			}
			return true
		})
	}
	if r.threads {
		for j := range r.demands {
			d := r.demands[j]
			later(fmt.Sprint("request ", j+1, " ", r.name), func() bool {
				r.requested += d
				f.Subscription().Request(d)
				return true
			})
		}
	}
	if r.canceler {
		later("cancels "+r.name, func() bool { r.cancel(); return true })
	}
}

func (r *receiver) cancel() {
	if !r.canceled {
		r.canceled = true
		r.f.Subscription().Cancel()
	}
}

// ended judges what the receiver has got of the source
func (r *receiver) judge(s *source, through func(string) string) {
	n := s.n
	if r.canceled {
		if r.ends != 1 {
			vrt.Fail("cancel-no-end", "%s was cancelled but its end was not signalled", r.name)
		}
		if r.cancelAt >= 0 && r.got > r.cancelAt {
			vrt.Fail("after-cancel", "%s got %d items although it cancelled after %d", r.name, r.got, r.cancelAt)
		}
		if s.subs > 0 && s.canceled == 0 && !s.ended {
			vrt.Fail("source-not-canceled", "the source of %s was not cancelled", r.name)
		}
		return
	}
	t := r.total()
	if t >= n && (t > 0 || n == 0 && s.async) {
		want := "complete"
		if s.fail {
			want = "error " + boom(s.name)
		}
		if through != nil {
			want = through(want)
		}
		if r.got != n || r.end != want {
			vrt.Fail("lost", "%s: got %d of %d items and end %q instead of %q", r.name, r.got, n, r.end, want)
		}
	} else {
		if r.got != t {
			vrt.Fail("lost", "%s: got %d of %d requested items", r.name, r.got, t)
		}
		if r.end != "" {
			vrt.Fail("early-end", "%s: ended with %q after %d of %d items", r.name, r.end, r.got, n)
		}
	}
}

func never(d ...int) receiver { return receiver{demands: d, cancelAt: -1} }
