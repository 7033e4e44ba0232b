package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() {
	Props["C01"] = c01
	Props["C02"] = c02
	Props["C03"] = c03
	Props["C04"] = c04
	Props["C05"] = c05
}

// CallCase makes a case with calls.
func (x *Ctx) CallCase(r *lib.Rand, kinds []string, o lib.GenOpts, ncalls int) *Case {
	if x.Override != nil {
		return x.Override
	}
	cs := &Case{Kind: kinds[r.Intn(len(kinds))], TSeed: r.Uint64()}
	for i := range ncalls {
		cs.Calls = append(cs.Calls, lib.GenCall(r, i, o))
	}
	x.GenSched(r, cs)
	return cs
}

func (x *Ctx) record(cs *Case, o *Outcome) {
	msgs := 0
	for _, c := range cs.Calls {
		msgs += c.Msgs()
		x.Rep.Count("calls:"+c.Arche, 1)
	}
	x.Rep.Count("transport:"+cs.Kind, 1)
	x.Rep.Count("messages", msgs)
	x.Rep.Eval(cs.Sig())
	x.Rep.Sample(cs.Brief())
}

func c01(x *Ctx) {
	x.keys("extra-message", "wrong-message", "retained-message-changed", "early-message", "lost-message", "send-failed", "wrong-response", "fabricated-response", "lost-response", "message-after-end", "server-recv-error")
	mix := []int{lib.AUnary, lib.AClientStream, lib.AServerStream, lib.AEcho, lib.AEcho, lib.ADuplex, lib.ADuplex, lib.AServerHalfFirst, lib.AClientHalfFirst, lib.AErrMidway, lib.AEmpty}
	kinds := append(append([]string{}, lib.BasicKinds...), "sim", "sim")
	// a slow receiver: many messages are queued
	x.Each("backlog", 60, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, kinds, lib.GenOpts{Mix: []int{lib.ABacklog}}, 1)
		x.record(cs, x.RunCalls(idx, cs, nil))
	})
	// messages up to the largest which fit in a packet
	x.Each("huge", 48, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, append([]string{"nested-sim", "nested-yamux", "proxy-yamux"}, kinds...), lib.GenOpts{Mix: []int{lib.AUnary, lib.AClientStream, lib.AServerStream, lib.AEcho, lib.ADuplex}, MaxMsgs: 2, Huge: true}, r.Range(1, 2))
		x.record(cs, x.RunCalls(idx, cs, nil))
	})
	x.Each("mixed", 3000, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, kinds, lib.GenOpts{Mix: mix, MaxMsgs: 12, Big: 3}, r.Weighted(0, 4, 2, 1, 1))
		x.record(cs, x.RunCalls(idx, cs, nil))
	})
}

func c02(x *Ctx) {
	x.keys("early-eof", "lost-message", "eof-changed", "message-after-end", "send-failed", "closesend-failed", "fabricated-eof", "extra-message", "server-recv-error", "client-recv-error", "outcome-changed")
	mix := []int{lib.AClientStream, lib.ADuplex, lib.AServerHalfFirst, lib.AServerHalfFirst, lib.AClientHalfFirst, lib.AClientHalfFirst, lib.AEmpty, lib.AEcho}
	kinds := append(append([]string{}, lib.BasicKinds...), "sim", "nested-sim", "nested-yamux")
	x.Each("half-close", 3000, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, kinds, lib.GenOpts{Mix: mix, MaxMsgs: 5, Big: 1}, r.Weighted(0, 5, 2, 1))
		x.record(cs, x.RunCalls(idx, cs, nil))
	})
}

func c03(x *Ctx) {
	x.keys("wrong-outcome", "failure-as-success", "outcome-changed", "fabricated-eof", "fabricated-response", "wrong-response", "lost-response", "lost-message", "exec-failed", "client-recv-error", "not-invoked", "message-after-end", "open-failed")
	mix := []int{lib.AUnary, lib.AUnary, lib.AUnaryErr, lib.AUnaryErr, lib.AUnhandled, lib.AUnhandled, lib.ANoResponse, lib.AEarlyReturn, lib.AErrMidway, lib.AErrMidway, lib.AServerStream, lib.ADrainOnly}
	kinds := append(append([]string{}, lib.BasicKinds...), "sim", "nested-sim")
	x.Each("outcome", 3000, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, kinds, lib.GenOpts{Mix: mix, MaxMsgs: 5, Big: 1}, r.Weighted(0, 5, 2, 1))
		x.record(cs, x.RunCalls(idx, cs, nil))
	})
	x.Each("kept", 1500, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, kinds, lib.GenOpts{Mix: []int{lib.AOutcomeKept}, MaxMsgs: 4}, 1)
		x.record(cs, x.RunCalls(idx, cs, nil))
	})
	x.Each("final", 12000, x.c03final)
	x.Each("typed", 2000, x.c03typed)
	// the context of the server is cancelled
	stopMix := append([]int{lib.AFaultWait, lib.AFaultExec, lib.AFaultWait}, append(mix, lib.PlainMix...)...)
	x.Each("server-stop", 1500, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, []string{"sim", "sim", "yamux-sim", "yamux-rwc", "nested-sim", "nested-yamux", "proxy-sim"}, lib.GenOpts{Mix: stopMix, MaxMsgs: 5, Big: 1}, r.Weighted(0, 5, 2, 1))
		if x.Override == nil {
			cs.Fault = &Fault{Kind: lib.CutErr, Async: r.Range(1, lib.PickOf(r, 20, 200, 1000)), Stop: true}
		}
		x.record(cs, x.RunCalls(idx, cs, nil))
	})
}

func c04(x *Ctx) {
	mix := append(append([]int{}, lib.PlainMix...), lib.CancelMix...)
	mix = append(mix, lib.AAbandonUnread, lib.ASrvClose, lib.AStaller, lib.AStaller, lib.AStaller)
	kinds := []string{"yamux-pipe", "yamux-sim", "yamux-sim", "yamux-rwc", "nested-yamux", "pipe"}
	x.Each("concurrent", 900, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, kinds, lib.GenOpts{Mix: mix, MaxMsgs: 5, Big: 1}, r.Range(3, 16))
		x.record(cs, x.RunCalls(idx, cs, nil))
	})
	c04many(x)
	x.Each("unread", 120, x.c04unread)
	x.Each("many", 48, x.c04many)
}

// c04unread: peers which do not read the streams of some calls, so that the
// sender of those calls is blocked by flow control, while other calls are made
// over the same connection.
func (x *Ctx) c04unread(idx int, r *lib.Rand) {
	if x.Override != nil {
		return
	}
	clientSends := r.OneIn(2)
	k := r.Range(1, 3)
	n := r.Range(3, 8)
	desc := map[string]any{"client_sends": clientSends, "unread": k, "calls": n}
	ab, ba := lib.DefaultConn(r.Fork())(0)
	if ab.MaxRead != 0 && ab.MaxRead < 64 {
		ab.MaxRead = 0
	}
	if ba.MaxRead != 0 && ba.MaxRead < 64 {
		ba.MaxRead = 0
	}
	if ab.Cap != 0 && ab.Cap < 64 {
		ab.Cap = 64
	}
	if ba.Cap != 0 && ba.Cap < 64 {
		ba.Cap = 64
	}
	a, b := lib.NewSimPair(ab, ba)
	ctx := lib.NewCountCtx()
	size := lib.PickOf(r, 1000, 20000, 100000)
	var flooded atomic.Int64
	flood := func(strm srpc.Stream) {
		m := srpc.NewRawMessage(make([]byte, size), true)
		for strm.MsgSend(m) == nil {
			flooded.Add(int64(size))
		}
	}
	var floods sync.WaitGroup
	inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		if m == "flood" {
			defer floods.Done()
			flood(strm)
			return true, nil
		}
		msg := srpc.NewRawMessage(nil, true)
		if err := strm.MsgRecv(msg); err != nil {
			return true, err
		}
		return true, strm.MsgSend(msg)
	})
	sizes := make([]int, n)
	for i := range sizes {
		sizes[i] = lib.PickOf(r, 0, 10, 3000, 70000, 300000)
	}
	floods.Add(k)
	ok := x.Do(idx, desc, "calls next to calls which the peer does not read", nil, nil, func() {
		cm, err := srpc.NewMuxedConn(a, true, nil)
		if err != nil {
			x.Rep.Violate("transport", idx, desc, "%v", err)
			return
		}
		sm, err := srpc.NewMuxedConn(b, false, nil)
		if err != nil {
			x.Rep.Violate("transport", idx, desc, "%v", err)
			return
		}
		srv := srpc.NewServer(inv)
		cl := srpc.NewClientWithMuxedConn(cm)
		var unread []interface{ Reset() error }
		if clientSends {
			var mtx sync.Mutex
			go func() {
				for i := 0; ; i++ {
					s, err := sm.AcceptStream()
					if err != nil {
						return
					}
					if i < k {
						mtx.Lock()
						unread = append(unread, s)
						mtx.Unlock()
						continue
					}
					go srv.HandleStream(ctx, s)
				}
			}()
			for i := range k {
				strm, err := cl.NewStream(ctx, "s", "flood", nil)
				if err != nil {
					x.Rep.Violate("open-failed", idx, desc, "%v", err)
					return
				}
				for { // the server sees the streams in the order they were opened
					mtx.Lock()
					l := len(unread)
					mtx.Unlock()
					if l > i {
						break
					}
					runtime.Gosched()
				}
				go func() {
					defer floods.Done()
					flood(strm)
					_ = strm.Close()
				}()
			}
		} else {
			go func() { _ = srv.AcceptMuxedConn(ctx, sm) }()
			for range k {
				s, err := cm.OpenStream(ctx)
				if err != nil {
					x.Rep.Violate("open-failed", idx, desc, "%v", err)
					return
				}
				unread = append(unread, s)
				start := &lib.WPacket{Kind: lib.WStart, Service: "s", Method: "flood"}
				if _, err := s.Write(lib.Frame(start.Encode())); err != nil {
					x.Rep.Violate("open-failed", idx, desc, "%v", err)
					return
				}
			}
		}
		for flooded.Load() < 100000 {
			runtime.Gosched()
		}
		for i, z := range sizes {
			out := srpc.NewRawMessage(nil, true)
			want := lib.Content(i, 0, 0, z)
			if err := cl.ExecCall(ctx, "s", "echo", srpc.NewRawMessage(want, true), out); err != nil || !bytes.Equal(out.GetData(), want) {
				x.Rep.Violate("wrong-outcome", idx, desc, "a call next to calls which are not read: error %v, %d bytes for %d", err, len(out.GetData()), len(want))
				break
			}
		}
		x.Rep.Count("flooded-kilobytes", int(flooded.Load()/1000))
		for _, s := range unread {
			_ = s.Reset()
		}
		floods.Wait()
	})
	_ = a.Close()
	_ = b.Close()
	ctx.Cancel()
	if ok {
		x.Rep.Count("calls:next-to-unread", n)
	}
	x.Rep.Eval(lib.Mix(uint64(idx), uint64(n), lib.HashStr(fmt.Sprint(desc))))
}

func c05(x *Ctx) {
	x.keys("early-eof", "lost-message", "fabricated-response", "wrong-response", "failure-as-success", "extra-message", "wrong-message", "message-after-end")
	mix := append(append([]int{}, lib.CancelMix...), lib.AAbandonUnread, lib.ASrvClose)
	kinds := append(append([]string{}, lib.BasicKinds...), "sim", "nested-sim", "nested-yamux")
	x.Each("cancel", 4000, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, kinds, lib.GenOpts{Mix: mix, MaxMsgs: 5, Big: 1}, r.Weighted(0, 6, 1, 1))
		x.record(cs, x.RunCalls(idx, cs, nil))
	})
	x.Each("silent", 4000, x.c05silent)
	x.Each("cancel-packet", 2000, func(idx int, r *lib.Rand) { x.c17client(idx, r, true) })
}

// c04many: many calls are open on one connection, and more calls are made.
func c04many(x *Ctx) {
	x.Each("many", 6, func(idx int, r *lib.Rand) {
		if x.Override != nil {
			return
		}
		k := PickKind(r, "yamux-pipe", "yamux-sim", "nested-yamux")
		n := r.Range(700, 1500)
		stop := make(chan struct{})
		end := sync.OnceFunc(func() { close(stop) })
		var running, ran atomic.Int64
		inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
			ran.Add(1)
			if m == "idle" {
				running.Add(1)
				<-stop
				return true, strm.MsgSend(srpc.NewRawMessage([]byte(svc), true))
			}
			msg := srpc.NewRawMessage(nil, true)
			if err := strm.MsgRecv(msg); err != nil {
				return true, err
			}
			return true, strm.MsgSend(msg)
		})
		tr, err := lib.NewTransport(k, inv, r.Fork(), nil, false)
		if err != nil {
			x.Rep.Violate("transport", idx, nil, "%v", err)
			return
		}
		defer tr.Close()
		ctx := lib.NewCountCtx()
		ok := x.Do(idx, map[string]any{"transport": k, "idle": n}, fmt.Sprintf("opening %d calls and calling next to them over %s", n, k), nil, nil, func() {
			var strms []srpc.Stream
			for i := range n {
				s, err := tr.Client.NewStream(ctx, fmt.Sprint("s", i), "idle", nil)
				if err != nil {
					x.Rep.Violate("open-failed", idx, nil, "opening call %d next to idle calls failed: %v", i, err)
					end()
					return
				}
				strms = append(strms, s)
			}
			for i := range 20 {
				out := srpc.NewRawMessage(nil, true)
				want := lib.Content(i, 0, 0, i*7)
				if err := tr.Client.ExecCall(ctx, "s", "echo", srpc.NewRawMessage(want, true), out); err != nil || !bytes.Equal(out.GetData(), want) {
					x.Rep.Violate("wrong-outcome", idx, nil, "a call next to %d idle calls: error %v, %d bytes for %d", n, err, len(out.GetData()), len(want))
				}
			}
			end()
			for i, s := range strms {
				out := srpc.NewRawMessage(nil, true)
				if err := s.MsgRecv(out); err != nil || string(out.GetData()) != fmt.Sprint("s", i) {
					x.Rep.Violate("wrong-outcome", idx, nil, "call %d of %d: error %v, response %q", i, n, err, out.GetData())
					return
				}
				_ = s.Close()
			}
		})
		if !ok {
			end()
		}
		x.Rep.Count("calls:idle", n)
		x.Rep.Eval(lib.Mix(uint64(idx), uint64(n)))
	})
}

// PickKind picks a transport.
func PickKind(r *lib.Rand, k ...string) string { return k[r.Intn(len(k))] }
