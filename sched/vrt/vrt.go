// Package vrt is the controlled scheduler.  Exactly one thread (goroutine under its control) runs at a
// time; at every scheduling point the explorer decides who continues.  All choices made in a run are
// recorded, so a run can be replayed and the space of choices enumerated.
package vrt

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Config bounds an exploration.
type Config struct {
	// Bound on the total cost of a schedule.  A switch away from a thread that could go on costs 1.  With
	// Delay set, every departure from the default order costs its distance from the default instead, also
	// when the running thread has blocked or ended.
	Bound int
	Delay bool
	// Horizon is the maximal number of steps of one run.
	Horizon int
	// FreeLimit, if > 0, limits the number of cost-free deviations (choices at blocking points).
	FreeLimit int
}

type Thread struct {
	id     int
	name   string
	wake   chan struct{}
	ready  func() bool // nil: runnable
	site   string
	done   bool
	until  time.Duration // when a sleeper goes on
	kind   int           // 0 normal, 1 sleeper, 2 waits for quiescence
	daemon bool
}

type decision struct {
	n      int // number of alternatives
	chosen int
	cost   []int // nil: uniform (see Config)
	cur    bool  // running thread still enabled
	env    bool
}

type Exec struct {
	cfg        Config
	prefix     []int
	prefixN    []int // expected number of alternatives
	decs       []decision
	threads    []*Thread
	cur        *Thread
	now        time.Duration // virtual time
	steps      int
	failure    *Failure
	abort      bool
	finished   chan struct{}
	outcome    []string
	chans      map[unsafe.Pointer]*chanState
	trace      bool
	Trace      []string
	diverged   bool
	blocked    []string
	preempted  int
	lastSwitch int
}

type Failure struct {
	Sig string
	Msg string
}

var ex *Exec

// progress is bumped at every step; a watchdog uses it to recognise a run that makes no progress.
var Progress atomic.Int64

func active() bool { return ex != nil && !ex.abort }

// Active tells whether code is running under the scheduler.
func Active() bool { return active() }

// ----------------------------------------------------------------------------------------------------

// Result of one run.
type Result struct {
	Failure  *Failure
	Steps    int
	Decs     []decision
	Outcome  string
	Diverged bool
	Trace    []string
	NewNodes int
}

func runOnce(cfg Config, prefix, prefixN []int, body func(), trace bool) *Result {
	if cfg.Horizon == 0 {
		cfg.Horizon = 20000
	}
	e := &Exec{cfg: cfg, prefix: prefix, prefixN: prefixN, finished: make(chan struct{}), chans: map[unsafe.Pointer]*chanState{}, trace: trace}
	ex = e
	t := e.newThread("main")
	e.cur = t
	go e.runThread(t, body)
	t.wake <- struct{}{}
	<-e.finished
	// unwind whatever is still blocked
	e.abort = true
	for _, t := range e.threads {
		if !t.done {
			e.cur = t
			t.wake <- struct{}{}
			<-unwound
		}
	}
	ex = nil
	h := fnv.New64a()
	for _, o := range e.outcome {
		h.Write([]byte(o))
		h.Write([]byte{0})
	}
	return &Result{Failure: e.failure, Steps: e.steps, Decs: e.decs, Outcome: strings.Join(e.outcome, ";"), Diverged: e.diverged, Trace: e.Trace}
}

var unwound = make(chan struct{})

func (e *Exec) newThread(name string) *Thread {
	t := &Thread{id: len(e.threads), name: name, wake: make(chan struct{}, 1)}
	e.threads = append(e.threads, t)
	return t
}

func (e *Exec) runThread(t *Thread, f func()) {
	<-t.wake
	defer func() {
		r := recover()
		t.done = true
		if e.abort {
			// being unwound
			unwound <- struct{}{}
			return
		}
		if r != nil {
			st := string(debug.Stack())
			e.setFail("panic:"+PanicSite(st), fmt.Sprintf("panic in thread %s: %v\n%s", t.name, r, trimStack(st)))
			close(e.finished)
			return
		}
		if e.failure != nil { // Goexit after Fail
			close(e.finished)
			return
		}
		e.next(t)
	}()
	if e.abort {
		return
	}
	f()
}

// PanicSite names the innermost function of the repository on the stack of a panic.
func PanicSite(st string) string {
	seen := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "github.com/nanobus/iota/go/") && !strings.Contains(l, "/zzverif/") {
			l = strings.TrimPrefix(l, "github.com/nanobus/iota/go/")
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.ReplaceAll(l, " ", "")
		}
	}
	return "?"
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	// drop the frames of recover/debug.Stack up to and including panic
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/vrt/vrt.go") || strings.Contains(l, "zzverif/vrt.") {
			continue
		}
		out = append(out, l)
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}

func (e *Exec) setFail(sig, msg string) {
	if e.failure == nil {
		e.failure = &Failure{sig, msg}
	}
}

func (t *Thread) enabled() bool {
	return !t.done && t.kind == 0 && (t.ready == nil || t.ready())
}

// next is called by a thread that has ended; it hands over to another one or ends the run.
func (e *Exec) next(from *Thread) {
	n := e.pick(from)
	if n == nil {
		e.finish()
		return
	}
	e.cur = n
	n.wake <- struct{}{}
}

func (e *Exec) finish() {
	if !e.threads[0].done && e.failure == nil {
		var bl []string
		for _, t := range e.threads {
			if !t.done {
				bl = append(bl, fmt.Sprintf("%s at %s", t.name, t.site))
			}
		}
		e.setFail("deadlock", "deadlock: no thread can go on; blocked: "+strings.Join(bl, ", "))
	}
	close(e.finished)
}

// pick chooses the next thread to run.
func (e *Exec) pick(from *Thread) *Thread {
	var en [16]*Thread
	list := en[:0]
	curEn := false
	if from != nil && from.enabled() {
		list = append(list, from)
		curEn = true
	}
	for _, t := range e.threads {
		if t != from && t.enabled() {
			list = append(list, t)
		}
	}
	if len(list) == 0 {
		// time passes only when nothing else can happen
		for _, t := range e.threads {
			if !t.done && t.kind == 1 {
				if len(list) > 0 && t.until < list[0].until {
					list = list[:0]
				}
				if len(list) == 0 || t.until == list[0].until {
					list = append(list, t)
				}
			}
		}
		if len(list) == 0 {
			for _, t := range e.threads {
				if !t.done && t.kind == 2 {
					list = append(list, t)
				}
			}
		}
		if len(list) == 0 {
			return nil
		}
	}
	i := e.choose(len(list), curEn, false)
	n := list[i]
	if n.kind != 0 {
		if n.kind == 1 && n.until > e.now {
			e.now = n.until
		}
		n.kind = 0
		n.ready = nil
	}
	if n != from && curEn {
		e.preempted++
	}
	return n
}

func (e *Exec) choose(n int, cur, env bool) int {
	if n == 1 {
		return 0
	}
	k := len(e.decs)
	c := 0
	if k < len(e.prefix) {
		c = e.prefix[k]
		if c >= n || (e.prefixN != nil && e.prefixN[k] != n) {
			e.diverged = true
			c = 0
		}
	}
	e.decs = append(e.decs, decision{n: n, chosen: c, cur: cur, env: env})
	return c
}

// Choose is a choice of the environment among n alternatives; each alternative is explored, free of cost.
func Choose(n int) int {
	if !active() || n <= 1 {
		return 0
	}
	return ex.choose(n, false, true)
}

func (e *Exec) step(site string) {
	e.steps++
	Progress.Add(1)
	if e.trace {
		e.Trace = append(e.Trace, e.cur.name+" "+site)
	}
	if e.steps > e.cfg.Horizon {
		e.setFail("horizon", fmt.Sprintf("no end after %d steps (thread %s at %s)", e.steps, e.cur.name, site))
		runtime.Goexit()
	}
}

// yield gives up control; the caller continues when chosen again.  Its ready predicate must be set before.
func (e *Exec) yield(t *Thread) {
	n := e.pick(t)
	if n == t {
		return
	}
	if n == nil {
		e.finish()
	} else {
		e.cur = n
		n.wake <- struct{}{}
	}
	<-t.wake
	if e.abort {
		runtime.Goexit()
	}
}

// SwitchTo lets another thread run now, if it can, without a choice.
func SwitchTo(t *Thread) {
	if !active() || t == ex.cur || !t.enabled() {
		return
	}
	me := ex.cur
	ex.step("switch to " + t.name)
	me.ready = nil
	t.kind, t.ready = 0, nil
	ex.cur = t
	t.wake <- struct{}{}
	<-me.wake
	if ex.abort {
		runtime.Goexit()
	}
}

// P is a scheduling point.
func P(site string) {
	e := ex
	if e == nil || e.abort {
		return
	}
	t := e.cur
	t.site = site
	e.step(site)
	e.yield(t)
}

func T(site string) bool { P(site); return true }
func F(site string) bool { P(site); return false }

// Block waits until ready() holds.  It is not itself a point when ready already holds.
func Block(site string, ready func() bool) {
	e := ex
	if e == nil {
		if !ready() {
			panic("vrt: blocking operation outside a run would block forever at " + site)
		}
		return
	}
	if e.abort {
		return
	}
	if ready() {
		return
	}
	t := e.cur
	t.site = site
	e.step(site + " (blocks)")
	t.ready = ready
	e.yield(t)
	t.ready = nil
}

func never() bool { return false }

func Gosched() { P("Gosched") }

// Sleep lets everything else happen first: time passes only when no other thread can go on.
func Sleep(d time.Duration) {
	e := ex
	if e == nil || e.abort {
		return
	}
	t := e.cur
	t.site = "sleep"
	e.step("sleep")
	t.kind = 1
	t.until = e.now + d
	e.yield(t)
	t.kind = 0
}

// After is time.After under virtual time: the channel is ready once nothing else can happen.
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	Go("timer", func() {
		Sleep(d)
		SendTo(c, "timer")(time.Time{})
	})
	return c
}

// Timer is time.Timer under virtual time.
type Timer struct {
	C <-chan time.Time

	c    chan time.Time
	f    func()
	real *time.Timer
	th   *Thread
	gen  int
	live bool
}

// AfterFunc is time.AfterFunc under virtual time.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// NewTimer is time.NewTimer under virtual time.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func (t *Timer) start(d time.Duration) {
	fire := t.f
	if fire == nil {
		fire = func() {
			select {
			case t.c <- time.Time{}:
			default:
			}
		}
	}
	e := ex
	if e == nil {
		t.real = time.AfterFunc(d, fire)
		return
	}
	if e.abort {
		return
	}
	t.gen++
	gen := t.gen
	t.live = true
	th := e.newThread(fmt.Sprintf("t%d(timer)", len(e.threads)))
	th.site = "timer"
	t.th = th
	th.kind = 1
	th.until = e.now + d
	go e.runThread(th, func() {
		if t.gen == gen && t.live {
			t.live = false
			fire()
		}
	})
}

// Stop is (*time.Timer).Stop.
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	P("timer stop")
	was := t.live
	t.live = false
	t.gen++
	if was && t.th != nil && !t.th.done {
		t.th.kind = 0 // nothing is left for it to do
	}
	return was
}

// Reset is (*time.Timer).Reset.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// Clock, if set, stands in for time.Now in instrumented code.
var Clock func() time.Time

// Now is time.Now, unless the harness has set Clock.
func Now() time.Time {
	if Clock != nil {
		return Clock()
	}
	return time.Now()
}

// Quiesce waits until no other thread can go on (blocked threads may remain).
func Quiesce() {
	e := ex
	if e == nil || e.abort {
		return
	}
	t := e.cur
	t.site = "quiesce"
	e.step("quiesce")
	t.kind = 2
	e.yield(t)
	t.kind = 0
}

// Blocked lists the threads that exist, other than the caller, and where they are blocked.
func Blocked() []string {
	e := ex
	if e == nil {
		return nil
	}
	var bl []string
	for _, t := range e.threads {
		if !t.done && t != e.cur && !t.daemon {
			bl = append(bl, t.name+" at "+t.site)
		}
	}
	return bl
}

// Daemon marks the calling thread as one that may stay blocked.
func Daemon() {
	if ex != nil && !ex.abort {
		ex.cur.daemon = true
	}
}

// Go starts a thread.
func Go(site string, f func()) {
	e := ex
	if e == nil {
		go f()
		return
	}
	if e.abort {
		return
	}
	t := e.newThread(fmt.Sprintf("t%d(%s)", len(e.threads), site))
	t.site = site
	go e.runThread(t, f)
	P("go " + site)
}

// GoNamed starts a thread of the harness without a scheduling point.
func GoNamed(name string, f func()) *Thread {
	e := ex
	if e == nil {
		panic("vrt.GoNamed outside a run")
	}
	t := e.newThread(name)
	t.site = "start"
	go e.runThread(t, f)
	return t
}

// Done tells whether the thread has ended.
func (t *Thread) Done() bool { return t.done }

// Join waits for the given threads.
func Join(ts ...*Thread) {
	for _, t := range ts {
		t := t
		Block("join "+t.name, func() bool { return t.done })
	}
}

// Fail reports a violation and ends the run.
func Fail(sig, format string, a ...any) {
	e := ex
	if e == nil {
		panic("vrt.Fail outside a run: " + fmt.Sprintf(format, a...))
	}
	if e.abort {
		return
	}
	e.setFail(strings.ReplaceAll(sig, " ", "_"), fmt.Sprintf(format, a...))
	runtime.Goexit()
}

// Outcome records an observable result; distinct outcomes are counted.
func Outcome(format string, a ...any) {
	if active() {
		ex.outcome = append(ex.outcome, fmt.Sprintf(format, a...))
	}
}

// ThreadName names the running thread.
func ThreadName() string {
	if ex == nil {
		return ""
	}
	return ex.cur.name
}

// ThreadID identifies the running thread within the run.
func ThreadID() int {
	if ex == nil {
		return 0
	}
	return ex.cur.id
}

// Steps is the number of steps so far; usable as a logical clock.
func Steps() int {
	if ex == nil {
		return 0
	}
	return ex.steps
}

// ----------------------------------------------------------------------------------------------------
// channels

type chanState struct {
	keep   any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	fired *bool
	val   any
	ok    bool
	idx   int
	sel   *int
}

func chanPtr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

var globalChans = map[unsafe.Pointer]*chanState{}

func state(p unsafe.Pointer, keep any, cp int) *chanState {
	m := globalChans
	if ex != nil {
		if s := globalChans[p]; s != nil {
			return s
		}
		m = ex.chans
	}
	s := m[p]
	if s == nil {
		s = &chanState{keep: keep, cap: cp}
		m[p] = s
	}
	return s
}

func live(q []*waiter) []*waiter {
	i := 0
	for i < len(q) && *q[i].fired {
		i++
	}
	return q[i:]
}

func (s *chanState) receiver() *waiter { s.recvq = live(s.recvq); return first(s.recvq) }
func (s *chanState) sender() *waiter   { s.sendq = live(s.sendq); return first(s.sendq) }

func first(q []*waiter) *waiter {
	for _, w := range q {
		if !*w.fired {
			return w
		}
	}
	return nil
}

func (w *waiter) fire() {
	*w.fired = true
	if w.sel != nil {
		*w.sel = w.idx
	}
}

func (s *chanState) trySend(v any) bool {
	if s.closed {
		panic(sendClosed{})
	}
	if w := s.receiver(); w != nil {
		w.val, w.ok = v, true
		w.fire()
		return true
	}
	if len(s.buf) < s.cap {
		s.buf = append(s.buf, v)
		return true
	}
	return false
}

func (s *chanState) tryRecv() (v any, ok, done bool) {
	if len(s.buf) > 0 {
		v = s.buf[0]
		s.buf = s.buf[1:]
		if w := s.sender(); w != nil {
			s.buf = append(s.buf, w.val)
			w.fire()
		}
		return v, true, true
	}
	if w := s.sender(); w != nil {
		v = w.val
		w.fire()
		return v, true, true
	}
	if s.closed {
		return nil, false, true
	}
	return nil, false, false
}

type sendClosed struct{}

func (sendClosed) Error() string  { return "send on closed channel" }
func (sendClosed) RuntimeError()  {}
func (sendClosed) String() string { return "send on closed channel" }

type closeErr string

func (c closeErr) Error() string { return string(c) }
func (closeErr) RuntimeError()   {}

// SendTo(c, site)(v) is c <- v.
func SendTo[T any](c chan<- T, site string) func(T) {
	return func(v T) {
		if ex != nil && ex.abort {
			return
		}
		P(site)
		if c == nil {
			Block(site, never)
		}
		s := state(chanPtr(c), c, cap(c))
		if s.trySend(v) {
			return
		}
		fired := false
		w := &waiter{fired: &fired, val: v}
		s.sendq = append(s.sendq, w)
		Block(site, func() bool { return fired || s.closed })
		if ex != nil && ex.abort {
			return
		}
		if !fired {
			fired = true
			panic(sendClosed{})
		}
	}
}

func poll[T any](c <-chan T) (v T, ok, got bool) {
	select {
	case v, ok = <-c:
		return v, ok, true
	default:
	}
	return
}

func Recv[T any](c <-chan T, site string) T {
	v, _ := Recv2(c, site)
	return v
}

func Recv2[T any](c <-chan T, site string) (v T, ok bool) {
	if ex != nil && ex.abort {
		return
	}
	P(site)
	if c == nil {
		Block(site, never)
	}
	s := state(chanPtr(c), c, cap(c))
	if x, ok, done := s.tryRecv(); done {
		if ok {
			v, _ = x.(T)
		}
		return v, ok
	}
	if x, ok, got := poll(c); got {
		return x, ok
	}
	fired := false
	w := &waiter{fired: &fired}
	s.recvq = append(s.recvq, w)
	var pv T
	var pok, pgot bool
	Block(site, func() bool {
		if fired || s.closed || pgot {
			return true
		}
		pv, pok, pgot = poll(c)
		return pgot
	})
	if ex != nil && ex.abort {
		return
	}
	if fired {
		v, _ = w.val.(T)
		return v, w.ok
	}
	fired = true
	if pgot {
		return pv, pok
	}
	return v, false
}

func Close[T any](c chan<- T, site string) {
	if ex != nil && ex.abort {
		return
	}
	P(site)
	if c == nil {
		panic(closeErr("close of nil channel"))
	}
	s := state(chanPtr(c), c, cap(c))
	if s.closed {
		panic(closeErr("close of closed channel"))
	}
	s.closed = true
}

func Len[T any](c <-chan T) int {
	P("len")
	if c == nil {
		return 0
	}
	return len(state(chanPtr(c), c, cap(c)).buf)
}

type Case interface {
	ready() bool
	exec()
	enqueue(fired *bool, sel *int, idx int)
	complete(fired bool)
}

type RCase[T any] struct {
	c    <-chan T
	v    T
	ok   bool
	w    *waiter
	pgot bool
}

func RecvCase[T any](c <-chan T) *RCase[T] { return &RCase[T]{c: c} }

func (r *RCase[T]) st() *chanState { return state(chanPtr(r.c), r.c, cap(r.c)) }
func (r *RCase[T]) ready() bool {
	if r.c == nil {
		return false
	}
	s := r.st()
	if len(s.buf) > 0 || s.closed || s.sender() != nil || r.pgot {
		return true
	}
	r.v, r.ok, r.pgot = poll(r.c)
	return r.pgot
}
func (r *RCase[T]) exec() {
	if x, ok, done := r.st().tryRecv(); done {
		if ok {
			r.v, _ = x.(T)
		}
		r.ok = ok
	}
}
func (r *RCase[T]) enqueue(fired *bool, sel *int, idx int) {
	if r.c == nil {
		return
	}
	r.w = &waiter{fired: fired, sel: sel, idx: idx}
	s := r.st()
	s.recvq = append(s.recvq, r.w)
}
func (r *RCase[T]) complete(fired bool) {
	if fired {
		r.v, _ = r.w.val.(T)
		r.ok = r.w.ok
	} else {
		r.exec()
	}
}
func (r *RCase[T]) Val() T          { return r.v }
func (r *RCase[T]) Val2() (T, bool) { return r.v, r.ok }

type SCase[T any] struct {
	c chan<- T
	v T
	w *waiter
}

func SendCase[T any](c chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{c: c, v: v} }
}
func (r *SCase[T]) st() *chanState { return state(chanPtr(r.c), r.c, cap(r.c)) }
func (r *SCase[T]) ready() bool {
	if r.c == nil {
		return false
	}
	s := r.st()
	return s.closed || s.receiver() != nil || len(s.buf) < s.cap
}
func (r *SCase[T]) exec() { r.st().trySend(r.v) }
func (r *SCase[T]) enqueue(fired *bool, sel *int, idx int) {
	if r.c == nil {
		return
	}
	r.w = &waiter{fired: fired, sel: sel, idx: idx, val: r.v}
	s := r.st()
	s.sendq = append(s.sendq, r.w)
}
func (r *SCase[T]) complete(fired bool) {
	if !fired {
		r.exec()
	}
}

// Select performs a select statement; it returns the index of the chosen case or -1 for the default.
func Select(site string, hasDefault bool, cases ...Case) int {
	if ex != nil && ex.abort {
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	P(site)
	var rd []int
	for i, c := range cases {
		if c.ready() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		i := rd[Choose(len(rd))]
		cases[i].exec()
		return i
	}
	if hasDefault {
		return -1
	}
	fired := false
	sel := -1
	for i, c := range cases {
		c.enqueue(&fired, &sel, i)
	}
	// woken by a partner (fired), by a close, or by an outside event
	pick := -1
	Block(site, func() bool {
		if fired {
			return true
		}
		for i, c := range cases {
			if closedOrPolled(c) {
				pick = i
				return true
			}
		}
		return false
	})
	if ex != nil && ex.abort {
		runtime.Goexit()
	}
	if fired {
		cases[sel].complete(true)
		return sel
	}
	fired = true
	cases[pick].complete(false)
	return pick
}

type closedChecker interface{ isClosed() bool }

func (r *RCase[T]) isClosed() bool {
	if r.c == nil {
		return false
	}
	if r.st().closed || r.pgot {
		return true
	}
	r.v, r.ok, r.pgot = poll(r.c)
	return r.pgot
}
func (r *SCase[T]) isClosed() bool { return r.c != nil && r.st().closed }

func closedOrPolled(c Case) bool { return c.(closedChecker).isClosed() }

func init() {
	debug.SetMaxStack(256 << 20)
	_ = os.Stderr
}
