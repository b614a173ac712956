// Package context replaces the standard one inside the simulation. The
// Context interface and the errors are the standard ones.
package context

import (
	gc "context"
	"simrt"
	"simstd/sync"
	"simstd/time"
)

type (
	Context         = gc.Context
	CancelFunc      = gc.CancelFunc
	CancelCauseFunc = gc.CancelCauseFunc
)

var (
	Canceled         = gc.Canceled
	DeadlineExceeded = gc.DeadlineExceeded
	Background       = gc.Background
	TODO             = gc.TODO
	WithValue        = gc.WithValue
)

// WithoutCancel hides the cancellation of its parent.
func WithoutCancel(parent Context) Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	return withoutCancel{parent}
}

type withoutCancel struct{ c Context }

func (withoutCancel) Deadline() (deadline time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}                   { return nil }
func (withoutCancel) Err() error                              { return nil }
func (w withoutCancel) Value(key any) any {
	if key == any(&cancelKey) {
		return nil
	}
	return w.c.Value(key)
}

type keyT int

var cancelKey keyT

type child interface {
	cancelNow(err, cause error)
}

type cancelCtx struct {
	parent   Context
	mu       sync.Mutex
	done     chan struct{}
	err      error
	cause    error
	kids     []child
	deadline time.Time
	hasDL    bool
	timer    *simrt.Timer
	up       *cancelCtx
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *cancelCtx) Done() <-chan struct{} { return c.done }

func (c *cancelCtx) Err() error {
	simrt.Yield("ctx err")
	simrt.Acquire(c)
	return c.err
}

func (c *cancelCtx) Value(k any) any {
	if k == &cancelKey {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) cancelNow(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	simrt.ReleaseMerge(c)
	simrt.CloseNow(c.done)
	kids := c.kids
	c.kids = nil
	for _, k := range kids {
		k.cancelNow(err, cause)
	}
	if c.timer != nil {
		simrt.StopTimer(c.timer)
	}
	if c.up != nil {
		c.up.drop(c)
	}
}

func (c *cancelCtx) drop(k child) {
	for i, x := range c.kids {
		if x == k {
			c.kids = append(append([]child{}, c.kids[:i]...), c.kids[i+1:]...)
			return
		}
	}
}

func (c *cancelCtx) cancel(err, cause error) {
	simrt.Yield("ctx cancel")
	c.cancelNow(err, cause)
}

func attach(parent Context, k child) (up *cancelCtx) {
	d := parent.Done()
	if d == nil {
		return nil
	}
	if p, ok := parent.Value(&cancelKey).(*cancelCtx); ok && p.done == d {
		if p.err != nil {
			k.cancelNow(p.err, p.cause)
			return nil
		}
		p.kids = append(p.kids, k)
		return p
	}
	simrt.GoNamed("context.propagate", func() {
		simrt.Recv(d)
		k.cancelNow(parent.Err(), Cause(parent))
	})
	return nil
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	simrt.Yield("ctx new")
	return &cancelCtx{parent: parent, done: make(chan struct{})}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	c.up = attach(parent, c)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	c.up = attach(parent, c)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCancel(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.deadline, c.hasDL = d, true
	}
	c.up = attach(parent, c)
	if c.hasDL && c.err == nil {
		left := time.Until(d)
		if left <= 0 {
			c.cancelNow(DeadlineExceeded, cause)
		} else {
			c.timer = simrt.AddTimer(int64(left), func() { c.cancelNow(DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), cause)
}

func Cause(c Context) error {
	if p, ok := c.Value(&cancelKey).(*cancelCtx); ok {
		if p.err != nil {
			return p.cause
		}
	}
	return c.Err()
}

type afterKid struct {
	f    func()
	done bool
}

func (a *afterKid) cancelNow(error, error) {
	if !a.done {
		a.done = true
		simrt.SpawnFromTimer("context.AfterFunc", a.f)
	}
}

func AfterFunc(ctx Context, f func()) func() bool {
	simrt.Yield("ctx afterfunc")
	a := &afterKid{f: f}
	up := attach(ctx, a)
	return func() bool {
		simrt.Yield("ctx stop")
		was := a.done
		a.done = true
		if up != nil {
			up.drop(a)
		}
		return !was
	}
}
