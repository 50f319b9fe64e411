//go:build go1.24

package context

import (
	"context"
	"time"

	"github.com/crimist/trakx/zz/rt"
)

type zctx struct {
	context.Context
	done     chan struct{}
	err      error
	cause    error
	after    map[int]func()
	nAfter   int
	children []*zctx
	deadline time.Time
	has      bool
}

func (c *zctx) Done() <-chan struct{} { return c.done }
func (c *zctx) Err() error            { return c.err }
func (c *zctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.Context.Deadline()
}
func (c *zctx) Value(k any) any {
	if k == key {
		return c
	}
	return c.Context.Value(k)
}

type keyT int

const key keyT = 0

func (c *zctx) cancel(err error) { c.cancelCause(err, nil) }

func (c *zctx) cancelCause(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	rt.CloseQuiet(c.done)
	for i := 0; i < c.nAfter; i++ {
		if f := c.after[i]; f != nil {
			delete(c.after, i)
			f()
		}
	}
	for _, k := range c.children {
		k.cancelCause(err, cause)
	}
}

// Cause is the reason a context was cancelled for.
func Cause(c context.Context) error {
	if z, ok := c.Value(key).(*zctx); ok {
		return z.cause
	}
	return c.Err()
}

// AfterFunc runs f in its own goroutine after ctx is done.
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	rt.SyncOp()
	c, ok := ctx.Value(key).(*zctx)
	if !ok {
		return func() bool { return true }
	}
	if c.err != nil {
		rt.Go("contextafter", f)
		return func() bool { return false }
	}
	if c.after == nil {
		c.after = map[int]func(){}
	}
	n := c.nAfter
	c.nAfter++
	p := rt.CurProc()
	c.after[n] = func() { rt.S.Spawn(p, "contextafter", f) }
	return func() bool {
		rt.SyncOp()
		_, was := c.after[n]
		delete(c.after, n)
		return was
	}
}

type detached struct{ context.Context }

func (detached) Done() <-chan struct{}       { return nil }
func (detached) Err() error                  { return nil }
func (detached) Deadline() (time.Time, bool) { return time.Time{}, false }
func (d detached) Value(k any) any {
	if k == key {
		return nil
	}
	return d.Context.Value(k)
}

func WithoutCancel(parent context.Context) context.Context { return detached{parent} }

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	rt.SyncOp()
	c := mk(parent)
	return c, func(cause error) { rt.SyncOp(); c.cancelCause(context.Canceled, cause) }
}
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	rt.SyncOp()
	c := mk(parent)
	c.has, c.deadline = true, rt.TimeNow().Add(d)
	t := rt.S.After(max(int64(d), 0), func() { c.cancelCause(context.DeadlineExceeded, cause) })
	return c, func() { rt.SyncOp(); t.Stop(); c.cancel(context.Canceled) }
}
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, rt.TimeUntil(d), cause)
}

func mk(parent context.Context) *zctx {
	c := &zctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(key).(*zctx); ok {
		if p.err != nil {
			c.cancelCause(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	rt.SyncOp()
	c := mk(parent)
	return c, func() { rt.SyncOp(); c.cancel(context.Canceled) }
}
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, rt.TimeUntil(d))
}
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	rt.SyncOp()
	c := mk(parent)
	c.has, c.deadline = true, rt.TimeNow().Add(d)
	t := rt.S.After(max(int64(d), 0), func() { c.cancel(context.DeadlineExceeded) })
	return c, func() { rt.SyncOp(); t.Stop(); c.cancel(context.Canceled) }
}
