package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() { Props["C18"] = c18 }

// c18 is run by a worker built with the race detector, which stops the worker
// at the first race. The workloads do not synchronise the goroutines more than
// a caller would.
func c18(x *Ctx) {
	mix := append(append([]int{}, lib.PlainMix...), lib.CancelMix...)
	mix = append(mix, lib.AAbandonUnread, lib.ASrvClose, lib.AStaller)
	kinds := append(append([]string{}, lib.BasicKinds...), "sim", "yamux-sim", "yamux-mrwc", "wrapped-pipe", "wrapped-sim", "wrapped-yamux", "nested-pipe")
	kinds = append(append(kinds, lib.NestedKinds...), lib.ProxyKinds...)
	kinds = append(kinds, "lis-mem", "ws-mem", "lis-mem")
	x.Each("calls", 1600, func(idx int, r *lib.Rand) {
		cs := x.CallCase(r, kinds, lib.GenOpts{Mix: mix, MaxMsgs: 5, Big: 1}, r.Weighted(0, 2, 2, 2, 1, 1, 1, 1))
		x.record(cs, x.RunCalls(idx, cs, nil))
	})
	x.Each("streams", 1600, x.c18streams)
	x.Each("mux", 800, x.c18mux)
	x.Each("clients", 400, x.c18clients)
	x.Each("rwc-conn", 1200, x.c18rwc)
	x.Each("pipe-stream", 1200, x.c18pipe)
	x.Each("packets", 600, x.c18packets)
	x.Each("adapters", 600, x.c18adapters)
	x.Each("rpc", 1200, x.c18rpc)
	x.Each("connections", 160, x.c18conns)
}

// par runs functions concurrently.
func par(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

func yields(n int) {
	for range n {
		runtime.Gosched()
	}
}

func raw(s string) srpc.Message { return srpc.NewRawMessage([]byte(s), true) }

// c18streams: each operation of a stream from a goroutine of its own, on both
// sides.
func (x *Ctx) c18streams(idx int, r *lib.Rand) {
	k := PickKind(r, "pipe", "sim", "yamux-pipe", "yamux-sim", "yamux-rwc", "nested-sim", "nested-yamux", "proxy-sim", "wrapped-sim", "lis-mem")
	sN, rN := r.Intn(6), r.Intn(6)
	hold := r.Intn(200)
	side := r.Intn(4)
	early := r.OneIn(4)
	inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		fs := []func(){
			func() {
				for range sN {
					if strm.MsgSend(raw("s")) != nil {
						return
					}
				}
				if side&1 == 0 {
					_ = strm.CloseSend()
				}
			},
			func() {
				for strm.MsgRecv(srpc.NewRawMessage(nil, true)) == nil {
				}
			},
			func() { yields(hold / 2); _ = strm.Context().Err() },
		}
		if side&2 != 0 {
			fs = append(fs, func() { yields(hold); _ = strm.Close() })
		}
		if early {
			for _, f := range fs[1:] {
				go f()
			}
			fs[0]()
			return true, nil
		}
		par(fs...)
		return true, nil
	})
	how := lib.PickOf(r, "none", "close", "close", "cancel", "cancel", "close-close", "close-cancel")
	first := r.OneIn(2)
	n := r.Range(1, 3)
	desc := map[string]any{"transport": k, "server_sends": sN, "client_sends": rN, "how": how, "early": early, "side": side}
	tr, err := lib.NewTransport(k, inv, r.Fork(), nil, false)
	if err != nil {
		x.Rep.Violate("transport", idx, desc, "%v", err)
		return
	}
	defer tr.Close()
	x.Do(idx, desc, "a stream", nil, nil, func() {
		var calls []func()
		for range n {
			calls = append(calls, func() {
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				var fm srpc.Message
				if first {
					fm = raw("first")
				}
				openCancel := how == "cancel" && hold%3 == 0
				if openCancel {
					go func() { yields(hold / 4); cancel() }()
				}
				st, err := tr.Client.NewStream(ctx, "svc", "m", fm)
				if err != nil {
					return
				}
				fs := []func(){
					func() {
						for range rN {
							if st.MsgSend(raw("c")) != nil {
								return
							}
						}
						_ = st.CloseSend()
					},
					func() {
						m := srpc.NewRawMessage(nil, false)
						for st.MsgRecv(m) == nil {
							_ = len(m.GetData())
						}
						// the handler may wait for us
						if how == "none" {
							_ = st.Close()
						}
					},
					func() { yields(hold / 3); _ = st.Context().Err() },
				}
				cl := func() { yields(hold); _ = st.Close() }
				switch how {
				case "close":
					fs = append(fs, cl)
				case "cancel":
					fs = append(fs, func() { yields(hold); cancel() })
				case "close-close":
					fs = append(fs, cl, cl)
				case "close-cancel":
					fs = append(fs, cl, func() { yields(hold); cancel() })
				default:
					if side&2 == 0 && !early && (side&1 != 0) {
						// nobody ends the direction of the server
						fs = append(fs, func() { yields(hold * 10); _ = st.Close() })
					}
				}
				par(fs...)
			})
		}
		par(calls...)
	})
	x.Rep.Count("streams", n)
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(desc)), uint64(hold)))
	if idx%400 == 0 {
		x.Rep.Sample(desc)
	}
}

// lockedHandler is a handler with state of its own.
type lockedHandler struct {
	mtx sync.Mutex
	n   int
	svc string
	met []string
}

func (h *lockedHandler) GetServiceID() string   { return h.svc }
func (h *lockedHandler) GetMethodIDs() []string { return h.met }
func (h *lockedHandler) InvokeMethod(_, _ string, strm srpc.Stream) (bool, error) {
	h.mtx.Lock()
	h.n++
	h.mtx.Unlock()
	if strm == nil {
		return true, nil
	}
	return true, strm.MsgSend(raw("ok"))
}

// c18mux: registration, queries and calls.
func (x *Ctx) c18mux(idx int, r *lib.Rand) {
	fall := srpc.NewMux()
	mx := srpc.NewMux(nil, fall)
	verbose := r.OneIn(3)
	if verbose {
		mx = srpc.NewVMux(mx, quietLog(), r.OneIn(2))
	}
	var hs []*lockedHandler
	for range r.Range(1, 4) {
		hs = append(hs, &lockedHandler{svc: lib.PickOf(r, "a", "b", "c"), met: []string{lib.PickOf(r, "M", "N"), lib.PickOf(r, "M", "O")}})
	}
	viaCalls := r.OneIn(2)
	var tr *lib.Transport
	if viaCalls {
		var err error
		if tr, err = lib.NewTransport(PickKind(r, "pipe", "yamux-pipe", "yamux-sim"), mx, r.Fork(), nil, false); err != nil {
			x.Rep.Violate("transport", idx, nil, "%v", err)
			return
		}
		defer tr.Close()
	}
	var fs []func()
	var ops []string
	for range r.Range(2, 6) {
		rr := r.Fork()
		var seq []func()
		for range rr.Range(1, 6) {
			svc, met := lib.PickOf(rr, "a", "b", "c", ""), lib.PickOf(rr, "M", "N", "O")
			h := hs[rr.Intn(len(hs))]
			k := rr.Intn(6)
			ops = append(ops, fmt.Sprint(k, svc, met))
			switch k {
			case 0, 1:
				seq = append(seq, func() { _ = mx.Register(h) })
			case 2:
				seq = append(seq, func() { _ = fall.Register(h) })
			case 3:
				seq = append(seq, func() { _ = mx.HasService(svc); _ = fall.HasService(svc) })
			case 4:
				seq = append(seq, func() { _ = mx.HasServiceMethod(svc, met) })
			case 5:
				seq = append(seq, func() {
					if viaCalls && svc != "" {
						_ = tr.Client.ExecCall(context.Background(), svc, met, raw("x"), srpc.NewRawMessage(nil, true))
					} else {
						_, _ = mx.InvokeMethod(svc, met, nil)
					}
				})
			}
		}
		fs = append(fs, func() {
			for _, f := range seq {
				f()
			}
		})
	}
	x.Do(idx, ops, "using a mux", nil, nil, func() { par(fs...) })
	x.Rep.Count("mux-operations", len(ops))
	x.Rep.Eval(lib.HashStr(fmt.Sprint(verbose, viaCalls, ops)))
}

// c18clients: wrappers and sets of clients shared by goroutines.
func (x *Ctx) c18clients(idx int, r *lib.Rand) {
	inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		if m == "no" {
			return false, nil
		}
		return true, strm.MsgSend(raw(svc))
	})
	none := srpc.InvokerSlice{nil, srpc.InvokerFunc(nil)}
	t1, err := lib.NewTransport(PickKind(r, "pipe", "yamux-sim", "yamux-pipe"), srpc.NewPrefixInvoker(inv, []string{"p/", "q/"}), r.Fork(), nil, false)
	if err != nil {
		return
	}
	defer t1.Close()
	t2, err := lib.NewTransport(PickKind(r, "pipe", "yamux-sim"), none, r.Fork(), nil, false)
	if err != nil {
		return
	}
	defer t2.Close()
	c := srpc.NewClientSet([]srpc.Client{
		nil,
		srpc.NewPrefixClient(t1.Client, []string{"z/"}),
		srpc.NewVClient(t2.Client, quietLog()),
		srpc.NewVClient(srpc.NewPrefixClient(t1.Client, []string{"x/", "y/"}), quietLog()),
	})
	n := r.Range(2, 6)
	var fs []func()
	for i := range n {
		m := lib.PickOf(r, "m", "m", "no")
		stream := r.OneIn(2)
		cancelAt := -1
		if r.OneIn(4) {
			cancelAt = r.Intn(100)
		}
		fs = append(fs, func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if cancelAt >= 0 {
				go func() { yields(cancelAt); cancel() }()
			}
			svc := fmt.Sprint("x/p/", i)
			if stream {
				st, err := c.NewStream(ctx, svc, m, raw("f"))
				if err == nil {
					_ = st.MsgRecv(srpc.NewRawMessage(nil, true))
					_ = st.Close()
				}
				return
			}
			_ = c.ExecCall(ctx, svc, m, raw("x"), srpc.NewRawMessage(nil, true))
		})
	}
	x.Do(idx, n, "calls through a client set", nil, nil, func() { par(fs...) })
	x.Rep.Count("client-set-calls", n)
	x.Rep.Eval(lib.Mix(uint64(idx), uint64(n)))
}

// c18rwc: every method of a connection.
func (x *Ctx) c18rwc(idx int, r *lib.Rand) {
	a, b := net.Pipe()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ca := srpc.NewRwcConn(ctx, a, c15addr("l"), c15addr("r"), r.Intn(4))
	cb := srpc.NewRwcConn(ctx, b, nil, nil, r.Intn(4))
	n := r.Range(1, 12)
	how := lib.PickOf(r, "close", "close", "cancel", "close-both")
	hold := r.Intn(300)
	readers := r.Range(1, 2)
	var fs []func()
	for _, c := range []*srpc.RwcConn{ca, cb} {
		for range readers {
			sz := r.Range(1, 40)
			fs = append(fs, func() {
				buf := make([]byte, sz)
				for range 20000 {
					if _, err := c.Read(buf); err != nil && !isTimeout(err) {
						return
					}
					runtime.Gosched()
				}
			})
		}
		for range r.Range(1, 2) {
			sz := r.Range(1, 60)
			fs = append(fs, func() {
				for range n {
					if _, err := c.Write(make([]byte, sz)); err != nil {
						return
					}
				}
			})
		}
		k := r.Intn(4)
		fs = append(fs, func() {
			for i := range n {
				switch (i + k) % 4 {
				case 0:
					_ = c.SetReadDeadline(time.Now().Add(50 * time.Microsecond))
				case 1:
					_ = c.SetDeadline(time.Time{})
				case 2:
					_ = c.SetReadDeadline(time.Now().Add(time.Hour))
				case 3:
					_ = c.SetWriteDeadline(time.Now().Add(time.Hour))
				}
				_, _ = c.LocalAddr(), c.RemoteAddr()
			}
		})
	}
	fs = append(fs, func() { yields(hold); _ = ca.Close() })
	switch how {
	case "close":
		fs = append(fs, func() { yields(hold * 2); _ = cb.Close() })
	case "cancel":
		fs = append(fs, func() { yields(hold / 2); cancel() }, func() { yields(hold * 2); _ = cb.Close() })
	case "close-both":
		fs = append(fs, func() { yields(hold); _ = cb.Close() }, func() { yields(hold); _ = cb.Close() })
	}
	x.Do(idx, how, "using a connection", nil, nil, func() { par(fs...) })
	x.Rep.Count("rwc-conns", 2)
	x.Rep.Eval(lib.Mix(uint64(idx), uint64(n), uint64(hold)))
}

// c18pipe: both ends of a pipe stream.
func (x *Ctx) c18pipe(idx int, r *lib.Rand) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	a, b := srpc.NewPipeStream(ctx)
	hold := r.Intn(200)
	n := r.Intn(12)
	var fs []func()
	for i, s := range []srpc.Stream{a, b} {
		how := r.Intn(4)
		fs = append(fs, func() {
			buf := []byte("msg")
			m := srpc.NewRawMessage(nil, true)
			for k := range n + i {
				buf[0] = byte(k)
				m.SetData(buf)
				if s.MsgSend(m) != nil {
					return
				}
			}
			_ = s.CloseSend()
		}, func() {
			m := srpc.NewRawMessage(nil, false)
			for s.MsgRecv(m) == nil {
				for range m.GetData() {
				}
			}
		}, func() { _ = s.Context().Err() })
		if how&1 != 0 {
			fs = append(fs, func() { yields(hold); _ = s.Close() })
		}
		if how&2 != 0 {
			fs = append(fs, func() { yields(hold); _ = s.CloseSend() })
		}
	}
	if r.OneIn(3) {
		fs = append(fs, func() { yields(hold); cancel() })
	} else {
		fs = append(fs, func() { yields(hold * 20); _ = a.Close() }, func() { yields(hold * 20); _ = b.Close() })
	}
	x.Do(idx, n, "using a pipe stream", nil, nil, func() { par(fs...) })
	x.Rep.Count("pipe-streams", 1)
	x.Rep.Eval(lib.Mix(uint64(idx), uint64(n), uint64(hold)))
}

// c18packets: packets written by several goroutines and read by another.
func (x *Ctx) c18packets(idx int, r *lib.Rand) {
	a, b := lib.NewSimPair(lib.ConnOpts{Rand: r.Fork(), MaxRead: lib.PickOf(r, 0, 3, 100)}, lib.ConnOpts{Rand: r.Fork()})
	pa, pb := srpc.NewPacketReadWriter(a), srpc.NewPacketReadWriter(b)
	w := r.Range(1, 4)
	n := r.Range(1, 5)
	hold := r.Intn(300)
	var kept [][]byte
	var fs []func()
	var wg sync.WaitGroup
	for range w {
		wg.Add(1)
		sz := r.Intn(3000)
		fs = append(fs, func() {
			defer wg.Done()
			p := srpc.NewCallDataPacket(make([]byte, sz), sz == 0, false, nil)
			for range n {
				if pa.WritePacket(p) != nil {
					return
				}
			}
		})
	}
	early := r.OneIn(4)
	fs = append(fs, func() {
		if early {
			yields(hold)
		} else {
			wg.Wait()
		}
		_ = pa.Close()
	}, func() {
		pb.ReadPump(func(d []byte) error {
			p := &srpc.Packet{}
			if err := p.UnmarshalVT(d); err != nil {
				return err
			}
			kept = append(kept, p.GetCallData().GetData())
			return nil
		}, func(error) { _ = pb.Close() })
	})
	x.Do(idx, w, "writing packets", nil, nil, func() { par(fs...) })
	x.Rep.Count("packets", len(kept))
	x.Rep.Eval(lib.Mix(uint64(idx), uint64(w), uint64(n), uint64(hold)))
}

// c18adapters: byte streams on streams.
func (x *Ctx) c18adapters(idx int, r *lib.Rand) {
	var open func(end io.ReadWriteCloser)
	raws := r.OneIn(2)
	srvHold := r.Intn(100)
	inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		if raws {
			return true, rpcstream.HandleRawRpcStream(&lib.Rs{Stream: strm}, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
				p, q := net.Pipe()
				go func() { _, _ = io.Copy(q, q); _ = q.Close() }()
				return p, func() {}, nil
			})
		}
		rw := srpc.NewStreamRwc(strm)
		par(func() { _, _ = io.Copy(io.Discard, rw) }, func() {
			for range srvHold {
				if _, err := rw.Write([]byte("abc")); err != nil {
					return
				}
			}
			_ = rw.CloseSend()
		})
		return true, nil
	})
	k := PickKind(r, "pipe", "sim", "yamux-sim", "yamux-pipe")
	tr, err := lib.NewTransport(k, inv, r.Fork(), nil, false)
	if err != nil {
		return
	}
	defer tr.Close()
	hold := r.Intn(300)
	n := r.Intn(10)
	open = func(e io.ReadWriteCloser) {
		par(func() {
			buf := make([]byte, 5)
			for i := range n {
				buf[0] = byte(i)
				if _, err := e.Write(buf); err != nil {
					return
				}
			}
		}, func() { _, _ = io.Copy(io.Discard, e) },
			func() { yields(hold); _ = e.Close() })
	}
	x.Do(idx, k, "a byte stream", nil, nil, func() {
		if raws {
			s, err := rpcstream.OpenRpcStream(context.Background(), lib.RsCaller(tr.Client, "s", "m"), "c", hold&1 == 0)
			if err != nil {
				return
			}
			open(rpcstream.NewRpcStreamReadWriter(s))
			return
		}
		s, err := tr.Client.NewStream(context.Background(), "s", "m", nil)
		if err != nil {
			return
		}
		open(srpc.NewStreamRwc(s))
	})
	x.Rep.Count("byte-streams", 1)
	x.Rep.Eval(lib.Mix(uint64(idx), uint64(n), uint64(hold)))
}

// c18rpc: the session objects used directly: waiting next to the other
// operations, packets from the transport at any time.
func (x *Ctx) c18rpc(idx int, r *lib.Rand) {
	a, b := lib.NewSimPair(lib.ConnOpts{Rand: r.Fork()}, lib.ConnOpts{Rand: r.Fork()})
	sctx, scancel := context.WithCancel(context.Background())
	defer scancel()
	n := r.Intn(5)
	hold := r.Intn(200)
	ret := r.OneIn(2)
	srv := srpc.NewServer(srpc.InvokerFunc(func(_, _ string, strm srpc.Stream) (bool, error) {
		par(func() {
			for range n {
				if strm.MsgSend(raw("x")) != nil {
					return
				}
			}
		}, func() {
			for !ret && strm.MsgRecv(srpc.NewRawMessage(nil, true)) == nil {
			}
		})
		return true, nil
	}))
	cctx, ccancel := context.WithCancel(context.Background())
	defer ccancel()
	cl := srpc.NewClientRPC(cctx, "svc", "met")
	pa := srpc.NewPacketReadWriter(a)
	how := lib.PickOf(r, "close", "close", "cancel", "complete", "cut", "server-cancel")
	fs := []func(){
		func() { srv.HandleStream(sctx, b) },
		func() { pa.ReadPump(cl.HandlePacketData, cl.HandleStreamClose) },
		func() { _ = cl.Wait(context.Background()) },
		func() { _ = cl.Context().Err() },
		func() {
			wctx, wcancel := context.WithCancel(context.Background())
			go func() { yields(hold); wcancel() }()
			_ = cl.Wait(wctx)
		},
	}
	started := func() {
		for range n {
			if cl.WriteCallData([]byte("c"), false, nil) != nil {
				return
			}
		}
		if how == "complete" {
			_ = cl.WriteCallData(nil, true, nil)
		}
	}
	fs = append(fs, func() {
		if cl.Start(pa, hold&1 == 0, []byte("first")) != nil {
			return
		}
		more := []func(){started, func() {
			for {
				if _, err := cl.ReadOne(); err != nil {
					return
				}
			}
		}}
		switch how {
		case "cancel":
			more = append(more, func() { yields(hold); ccancel() })
		case "cut":
			more = append(more, func() { yields(hold); a.Cut(lib.CutErr) })
		case "server-cancel":
			more = append(more, func() { yields(hold); scancel(); _ = b.Close() })
		}
		more = append(more, func() { yields(hold * lib.PickOf(lib.NewRand(uint64(idx)), 1, 5)); cl.Close() })
		par(more...)
		_ = pa.Close()
	})
	x.Do(idx, how, "a session", nil, nil, func() { par(fs...) })
	x.Rep.Count("sessions:"+how, 1)
	x.Rep.Eval(lib.Mix(uint64(idx), uint64(n), uint64(hold)))
}

// c18conns: connections are made and used concurrently.
func (x *Ctx) c18conns(idx int, r *lib.Rand) {
	inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		return true, strm.MsgSend(raw(svc))
	})
	srv := srpc.NewServer(inv)
	lis := newMemListener()
	ctx, cancel := context.WithCancel(context.Background())
	n := r.Range(2, 6)
	use := r.Intn(3)
	cutAt := r.Intn(400)
	x.Do(idx, n, "connecting", nil, nil, func() {
		var fs []func()
		var wg sync.WaitGroup
		for range n {
			wg.Add(1)
			fs = append(fs, func() {
				defer wg.Done()
				a, b := net.Pipe()
				if lis.put(b) != nil {
					return
				}
				defer a.Close()
				var c srpc.Client
				switch use {
				case 0:
					cl, err := srpc.NewClientWithConn(a, true, nil)
					if err != nil {
						return
					}
					c = cl
				case 1:
					mc, err := srpc.NewMuxedConnWithRwc(ctx, a, true, srpc.NewYamuxConfig())
					if err != nil {
						return
					}
					c = srpc.NewClientWithMuxedConn(mc)
				default:
					mc, err := srpc.NewMuxedConn(a, true, srpc.NewYamuxConfig())
					if err != nil {
						return
					}
					c = srpc.NewClientWithMuxedConn(mc)
				}
				par(func() {
					_ = c.ExecCall(context.Background(), "s", "m", raw("x"), srpc.NewRawMessage(nil, true))
				}, func() {
					_ = c.ExecCall(ctx, "s", "m", raw("x"), srpc.NewRawMessage(nil, true))
				})
			})
		}
		fs = append(fs, func() { _ = srpc.AcceptMuxedListener(ctx, lis, srv, nil) }, func() {
			if idx&1 == 0 {
				wg.Wait()
			}
			yields(cutAt)
			cancel()
			_ = lis.Close()
		})
		par(fs...)
	})
	cancel()
	_ = lis.Close()
	x.Rep.Count("connections", n)
	x.Rep.Eval(lib.Mix(uint64(idx), uint64(n), uint64(cutAt)))
}
