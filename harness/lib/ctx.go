package lib

import (
	"context"
	"sync"
	"sync/atomic"
	"time"
)

// CountCtx is a cancellable context which counts the registrations of derived
// contexts and callbacks (package context registers with AfterFunc).
type CountCtx struct {
	mtx  sync.Mutex
	done chan struct{}
	err  error
	fns  map[int]func()
	next int
	regs atomic.Int64
}

// NewCountCtx makes a context.
func NewCountCtx() *CountCtx {
	return &CountCtx{done: make(chan struct{}), fns: map[int]func(){}}
}

// Deadline implements context.Context.
func (c *CountCtx) Deadline() (time.Time, bool) { return time.Time{}, false }

// Done implements context.Context.
func (c *CountCtx) Done() <-chan struct{} { return c.done }

// Err implements context.Context.
func (c *CountCtx) Err() error {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	return c.err
}

// Value implements context.Context.
func (c *CountCtx) Value(any) any { return nil }

// AfterFunc is used by package context to register derived contexts.
func (c *CountCtx) AfterFunc(f func()) func() bool {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	if c.err != nil {
		go f()
		return func() bool { return false }
	}
	id := c.next
	c.next++
	c.fns[id] = f
	c.regs.Add(1)
	return func() bool {
		c.mtx.Lock()
		defer c.mtx.Unlock()
		if _, ok := c.fns[id]; ok {
			delete(c.fns, id)
			c.regs.Add(-1)
			return true
		}
		return false
	}
}

// Cancel cancels the context.
func (c *CountCtx) Cancel() {
	c.mtx.Lock()
	if c.err != nil {
		c.mtx.Unlock()
		return
	}
	c.err = context.Canceled
	close(c.done)
	fns := c.fns
	c.fns = map[int]func(){}
	c.regs.Add(-int64(len(fns)))
	c.mtx.Unlock()
	for _, f := range fns {
		go f()
	}
}

// Registered is the number of live registrations.
func (c *CountCtx) Registered() int { return int(c.regs.Load()) }

var _ context.Context = (*CountCtx)(nil)
