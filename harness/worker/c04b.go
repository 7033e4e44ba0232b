package main

import (
	"bytes"
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

// c04many: many calls at once over one connection, all of which wait until
// every one of them runs, then many calls after each other.
func (x *Ctx) c04many(idx int, r *lib.Rand) {
	if x.Override != nil {
		return
	}
	kind := lib.PickOf(r, "yamux-pipe", "yamux-sim", "yamux-rwc", "nested-yamux", "proxy-yamux", "pipe")
	n := lib.PickOf(r, 40, 150, 300, 700)
	// calls which are cancelled while all wait, in addition to n
	nx := lib.PickOf(r, 0, 3, n/4)
	seq := lib.PickOf(r, 50, 300, 1500)
	desc := map[string]any{"transport": kind, "calls": n, "cancelled": nx, "later": seq}
	var mtx sync.Mutex
	running := map[string]bool{}
	all := make(chan struct{})
	ended := make(chan struct{}, nx)
	inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		msg := srpc.NewRawMessage(nil, true)
		if err := strm.MsgRecv(msg); err != nil {
			return true, err
		}
		if m == "later" {
			return true, strm.MsgSend(msg)
		}
		mtx.Lock()
		running[m] = true
		if len(running) == n+nx {
			close(all)
		}
		mtx.Unlock()
		if m[0] == 'x' {
			<-strm.Context().Done()
			ended <- struct{}{}
			return true, nil
		}
		<-all
		return true, strm.MsgSend(msg)
	})
	t, err := lib.NewTransport(kind, inv, r.Fork(), nil, false)
	if err != nil {
		x.Rep.Violate("transport", idx, desc, "%v", err)
		return
	}
	defer t.Close()
	bad := func(format string, a ...any) { x.Rep.Violate("wrong-outcome", idx, desc, format, a...) }
	ctx := lib.NewCountCtx()
	x.Do(idx, desc, "many calls at once", nil, nil, func() {
		var wg sync.WaitGroup
		xctx, xcancel := context.WithCancel(context.Background())
		defer xcancel()
		call := func(ctx context.Context, m string, i, z int) ([]byte, error) {
			out := srpc.NewRawMessage(nil, true)
			err := t.Client.ExecCall(ctx, "s", m, srpc.NewRawMessage(lib.Content(i, 0, 0, z), true), out)
			return out.GetData(), err
		}
		for i := range nx {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if out, err := call(xctx, fmt.Sprintf("x%d", i), i, i%20); err == nil {
					bad("cancelled call %d returned %d bytes", i, len(out))
				}
			}()
		}
		for i := range n {
			wg.Add(1)
			go func() {
				defer wg.Done()
				out, err := call(ctx, fmt.Sprintf("m%d", i), i, i%100)
				if err != nil || !bytes.Equal(out, lib.Content(i, 0, 0, i%100)) {
					bad("call %d of many returned %d bytes, error %v", i, len(out), err)
				}
			}()
		}
		<-all
		xcancel()
		for range nx {
			<-ended
		}
		wg.Wait()
		for i := range seq {
			out, err := call(ctx, "later", i, i%30)
			if err != nil || !bytes.Equal(out, lib.Content(i, 0, 0, i%30)) {
				bad("call %d after many others returned %d bytes, error %v", i, len(out), err)
				return
			}
		}
	})
	ctx.Cancel()
	t.Close()
	lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
	x.Rep.Count("calls:at-once", n+nx)
	x.Rep.Count("calls:later", seq)
	x.Rep.Eval(lib.Mix(uint64(idx), lib.HashStr(fmt.Sprint(desc))))
}
