package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() { Props["C17"] = c17 }

// starpcGoroutines counts the goroutines by stack of the code under test.
func starpcGoroutines(gs []*lib.Goroutine) map[string]int {
	out := map[string]int{}
	for _, g := range gs {
		if !strings.Contains(g.Stack, "aperturerobotics/starpc/") {
			continue
		}
		fs := g.Funcs()
		var l []string
		for _, f := range fs {
			if strings.Contains(f, "aperturerobotics/starpc/") {
				l = append(l, strings.ReplaceAll(f, "github.com/aperturerobotics/starpc/", ""))
			}
		}
		if len(l) == 1 && strings.Contains(l[0], "AcceptMuxedConn") {
			continue // the accept loop of the connection
		}
		out[fmt.Sprintf("[%s] %s", g.State, strings.Join(l, " < "))]++
	}
	return out
}

// leakCheck is called when all calls ended.
func (x *Ctx) leakCheck(idx int, cs *Case, base map[string]int) func(o *Outcome) {
	return func(o *Outcome) {
		gs := lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
		if gs == nil {
			x.Rep.Inconclusive(idx, "did not settle")
			return
		}
		n := 0
		for k, v := range starpcGoroutines(gs) {
			if v > base[k] {
				x.Rep.Violate("goroutine-leak", idx, cs, "%d goroutines of ended calls are left: %s", v-base[k], k)
				n++
			}
		}
		if r := o.World.Registered(); r != 0 {
			x.Rep.Violate("ctx-leak", idx, cs, "%d registrations with the call contexts are left after the calls ended", r)
		}
		if r := o.T.SrvCtx.Registered(); r != 0 {
			x.Rep.Violate("ctx-leak", idx, cs, "%d registrations with the server context are left after the calls ended", r)
		}
		if c, s := o.T.Streams(); (c != 0 || s != 0) && cs.Fault == nil {
			// go-yamux keeps a stream if the context is cancelled while it writes
			// the SYN: a known finding
			allow := int(o.T.OpenErrs.Load())
			if s == 0 && c <= allow {
				x.Rep.Finding("stream-leak-cancelled-open", idx, cs, "%d streams are left on the client connection, yamux OpenStream failed %d times", c, allow)
			} else {
				x.Rep.Violate("stream-leak", idx, cs, "%d client and %d server streams of the connection are left after the calls ended", c, s)
			}
		}
		if len(o.T.Sess) == 0 {
			for i, p := range o.T.Conns() {
				if p[0].Closes() == 0 || p[1].Closes() == 0 {
					x.Rep.Violate("conn-leak", idx, cs, "connection %d of an ended call was closed %d times by the client and %d times by the server", i, p[0].Closes(), p[1].Closes())
					break
				}
			}
		}
		x.Rep.Count("goroutine-snapshots", 1)
		x.Rep.Count("goroutines-inspected", len(gs))
	}
}

func c17(x *Ctx) {
	x.keys()
	mix := append(append([]int{}, lib.PlainMix...), lib.CancelMix...)
	mix = append(mix, lib.AAbandonUnread, lib.ASrvClose)
	kinds := append(append([]string{}, lib.BasicKinds...), "sim", "yamux-sim", "nested-sim", "nested-yamux", "proxy-sim", "proxy-yamux", "nested2-sim")
	baseline := func() map[string]int {
		return starpcGoroutines(lib.Snapshot())
	}
	x.Each("ended", 2400, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, kinds, lib.GenOpts{Mix: mix, MaxMsgs: 4, Big: 1}, r.Weighted(0, 5, 2, 1, 1))
		for _, c := range cs.Calls {
			if !c.Cancels && r.OneIn(2) {
				c.NoClose = true
			}
		}
		b := baseline()
		x.record(cs, x.RunCalls(idx, cs, x.leakCheck(idx, cs, b)))
	})
	fm := []int{lib.AUnary, lib.AClientStream, lib.AServerStream, lib.AEcho, lib.ADuplex, lib.AFaultWait, lib.AFaultExec}
	x.Each("connection-lost", 1200, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, []string{"sim", "sim", "yamux-sim", "nested-sim"}, lib.GenOpts{Mix: fm, MaxMsgs: 4, Small: r.OneIn(2)}, r.Range(1, 2))
		if x.Override == nil {
			cs.Fault = &Fault{Dir: r.Intn(2), At: int64(r.Intn(lib.PickOf(r, 60, 300, 3000))), Kind: lib.PickOf(r, lib.CutEOF, lib.CutErr, lib.CutErrWithData), Both: r.OneIn(2), Conn: -1}
			if r.OneIn(3) {
				cs.Fault.Async = r.Range(1, 300)
			}
		}
		b := baseline()
		x.record(cs, x.RunCalls(idx, cs, x.leakCheck(idx, cs, b)))
	})
	x.c17server()
	x.Each("ended-by-caller", 2000, func(idx int, r *lib.Rand) { x.c17client(idx, r, false) })
	x.Each("cancelled-before-open", 60, func(idx int, r *lib.Rand) {
		tr, err := lib.NewTransport("yamux-sim", lib.NewWorld(nil).Invoker(), r.Fork(), nil, false)
		if err != nil {
			x.Rep.Violate("transport", idx, nil, "%v", err)
			return
		}
		n := r.Range(1, 5)
		for range n {
			ctx := lib.NewCountCtx()
			ctx.Cancel()
			var err error
			if r.OneIn(2) {
				err = tr.Client.ExecCall(ctx, "s", "m", srpc.NewRawMessage([]byte("x"), false), srpc.NewRawMessage(nil, true))
			} else {
				_, err = tr.Client.NewStream(ctx, "s", "m", nil)
			}
			if err == nil {
				x.Rep.Violate("open-failed", idx, nil, "a call with a cancelled context succeeded")
			}
			if ctx.Registered() != 0 {
				x.Rep.Violate("ctx-leak", idx, nil, "a call with a cancelled context left a registration")
			}
		}
		lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
		if c, s := tr.Streams(); c != 0 || s != 0 {
			x.Rep.Violate("stream-leak", idx, nil, "%d client and %d server streams are left after %d calls whose context was cancelled before the call", c, s, n)
		}
		tr.Close()
		x.Rep.Eval(lib.Mix(uint64(idx), uint64(n)))
	})
	x.Each("open-failed", 100, func(idx int, r *lib.Rand) {
		ctx := lib.NewCountCtx()
		b := baseline()
		werr := errors.New("write failed")
		mode := r.Intn(3)
		closed := 0
		cl := srpc.NewClient(func(context.Context, srpc.PacketDataHandler, srpc.CloseHandler) (srpc.PacketWriter, error) {
			switch mode {
			case 0:
				return nil, errors.New("open failed")
			case 1:
				return nil, nil
			}
			return &failWriter{err: werr, closed: &closed}, nil
		})
		n := r.Range(1, 4)
		for i := range n {
			var err error
			if r.OneIn(2) {
				err = cl.ExecCall(ctx, "s", "m", srpc.NewRawMessage([]byte("x"), false), srpc.NewRawMessage(nil, true))
			} else {
				_, err = cl.NewStream(ctx, "s", "m", nil)
			}
			if err == nil {
				x.Rep.Violate("open-failed", idx, nil, "call %d succeeded although the transport could not be opened (mode %d)", i, mode)
			}
		}
		gs := lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
		for k, v := range starpcGoroutines(gs) {
			if v > b[k] {
				x.Rep.Violate("goroutine-leak", idx, nil, "after calls which failed to open (mode %d): %s", mode, k)
			}
		}
		if k := ctx.Registered(); k != 0 {
			x.Rep.Violate("ctx-leak", idx, nil, "%d registrations are left after %d calls which failed to open (mode %d)", k, n, mode)
		}
		if mode == 2 && closed < n {
			x.Rep.Violate("conn-leak", idx, nil, "%d of %d writers which failed were closed", closed, n)
		}
		x.Rep.Eval(lib.Mix(uint64(idx), uint64(mode)))
	})
}

type failWriter struct {
	err    error
	closed *int
}

func (f *failWriter) WritePacket(*srpc.Packet) error { return f.err }
func (f *failWriter) Close() error                   { *f.closed++; return nil }

// scriptWriter is a packet writer which fails from a packet on.
type scriptWriter struct {
	mtx    sync.Mutex
	n      int
	failAt int
	closes int
	pkts   []*srpc.Packet
}

func (f *scriptWriter) WritePacket(p *srpc.Packet) error {
	f.mtx.Lock()
	defer f.mtx.Unlock()
	f.n++
	if f.n > f.failAt {
		return errors.New("write failed")
	}
	f.pkts = append(f.pkts, p.CloneVT())
	return nil
}

func (f *scriptWriter) closed() int {
	f.mtx.Lock()
	defer f.mtx.Unlock()
	return f.closes
}

func (f *scriptWriter) Close() error {
	f.mtx.Lock()
	f.closes++
	f.mtx.Unlock()
	return nil
}

// c17server: calls served over a transport which stops accepting packets while
// the other direction stays open.
func (x *Ctx) c17server() {
	x.Each("writes-fail", 300, func(idx int, r *lib.Rand) {
		fw := &scriptWriter{failAt: r.Intn(6)}
		if r.OneIn(3) {
			fw.failAt = 1 << 30
		}
		ctx := lib.NewCountCtx()
		b := starpcGoroutines(lib.Snapshot())
		sends, recvs, fail, handled := r.Intn(5), r.OneIn(2), r.OneIn(3), !r.OneIn(4)
		done := make(chan struct{})
		s := srpc.NewServerRPC(ctx, srpc.InvokerFunc(func(_, _ string, strm srpc.Stream) (bool, error) {
			defer close(done)
			if !handled {
				return false, nil
			}
			if recvs {
				_ = strm.MsgRecv(srpc.NewRawMessage(nil, true))
			}
			for i := range sends {
				if err := strm.MsgSend(srpc.NewRawMessage(lib.Content(idx, 1, i, 5), true)); err != nil && r.OneIn(2) {
					return true, err
				}
			}
			if fail {
				return true, errors.New("failed")
			}
			return true, nil
		}), fw)
		desc := map[string]any{"fail_from": fw.failAt, "sends": sends, "recv": recvs, "handled": handled}
		if !x.Do(idx, desc, "a handler", nil, nil, func() {
			_ = s.HandlePacket(srpc.NewCallStartPacket("s", "m", []byte("x"), false))
			<-done
		}) {
			return
		}
		gs := lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
		for k, v := range starpcGoroutines(gs) {
			if v > b[k] {
				x.Rep.Violate("goroutine-leak", idx, desc, "after the handler returned: %s", k)
			}
		}
		if k := ctx.Registered(); k != 0 {
			x.Rep.Violate("ctx-leak", idx, desc, "%d registrations with the server context are left after the handler returned", k)
		}
		if fw.closes == 0 {
			x.Rep.Violate("conn-leak", idx, desc, "the handler returned but its transport was not closed (%d packets written, failing from packet %d)", fw.n, fw.failAt)
		}
		if s.Context().Err() == nil {
			x.Rep.Violate("ctx-leak", idx, desc, "the handler returned but the context of the call is alive")
		}
		x.Rep.Eval(lib.Mix(uint64(idx), uint64(fw.failAt), uint64(sends)))
	})
}
