package vrt

import (
	"context"
	"fmt"
	"time"
)

// ContextAfterFunc is context.AfterFunc: f runs in a thread of its own.
func ContextAfterFunc(ctx context.Context, f func()) (stop func() bool) {
	e := ex
	if e == nil {
		return context.AfterFunc(ctx, f)
	}
	if e.abort || ctx.Done() == nil {
		return func() bool { return !e.abort }
	}
	started, stopped := false, false
	th := e.newThread(fmt.Sprintf("t%d(context.AfterFunc)", len(e.threads)))
	th.site = "context.AfterFunc"
	th.daemon = true // it may wait for ever
	th.ready = func() bool { return !stopped && ctx.Err() != nil }
	go e.runThread(th, func() {
		th.ready = nil
		th.daemon = false
		started = true
		f()
	})
	return func() bool {
		P("context.AfterFunc stop")
		if stopped || started || ctx.Err() != nil {
			return false
		}
		stopped = true
		return true
	}
}

type timeoutCtx struct {
	context.Context
	deadline time.Time
	expired  *bool
}

func (t timeoutCtx) Deadline() (time.Time, bool) { return t.deadline, true }

func (t timeoutCtx) Err() error {
	err := t.Context.Err()
	if err != nil && *t.expired {
		return context.DeadlineExceeded
	}
	return err
}

// WithTimeout is context.WithTimeout under virtual time.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if ex == nil {
		return context.WithTimeout(parent, d)
	}
	return withDeadline(parent, Now().Add(d), d)
}

// WithDeadline is context.WithDeadline under virtual time.
func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	if ex == nil {
		return context.WithDeadline(parent, t)
	}
	return withDeadline(parent, t, t.Sub(Now()))
}

func withDeadline(parent context.Context, t time.Time, d time.Duration) (context.Context, context.CancelFunc) {
	if earlier, ok := parent.Deadline(); ok && earlier.Before(t) {
		return context.WithCancel(parent)
	}
	ctx, cancel := context.WithCancel(parent)
	expired := new(bool)
	tm := AfterFunc(d, func() {
		if ctx.Err() == nil {
			*expired = true
			cancel()
		}
	})
	return timeoutCtx{ctx, t, expired}, func() {
		tm.Stop()
		cancel()
	}
}
