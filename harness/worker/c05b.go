package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

// c05silent: a call to a remote which accepts everything and never reacts (it
// may send some messages, but never ends the call): cancelling the context or
// closing the stream releases every request and receive pending on the call.
func (x *Ctx) c05silent(idx int, r *lib.Rand) {
	type desc struct {
		Conn, How      string
		Exec, First    bool
		Answers, Sends int
		Receivers      int
		HalfClosed     bool
	}
	d := desc{Conn: lib.PickOf(r, "single", "muxed", "nested"), How: lib.PickOf(r, "close", "close", "cancel", "cancel-close"), Exec: r.OneIn(5), First: r.OneIn(2), Answers: r.Weighted(3, 2, 1), Sends: r.Intn(3), Receivers: 1, HalfClosed: r.OneIn(3)}
	if r.OneIn(4) {
		d.Receivers = 2
	}
	if d.Exec {
		d.How, d.Answers = "cancel", 0
	}
	ab, ba := lib.DefaultConn(r.Fork())(0)
	ab.Cap, ba.Cap = 0, 0
	a, b := lib.NewSimPair(ab, ba)
	ctx := lib.NewCountCtx()
	st := newScriptStream()
	var ends []error
	var more error
	var openErr error
	got := 0
	delay := r.Intn(4)
	ok := x.Do(idx, d, "ending a call to a silent remote", x.Sched(r), r.Fork(), func() {
		answers := func(w srpc.PacketWriter) {
			for i := range d.Answers {
				_ = w.WritePacket(srpc.NewCallDataPacket([]byte(fmt.Sprint("answer", i)), false, false, nil))
			}
		}
		var cl srpc.Client
		switch d.Conn {
		case "single":
			cl = srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
				prw := srpc.NewPacketReadWriter(a)
				go prw.ReadPump(mh, ch)
				return prw, nil
			})
			go func() { _, _ = io.Copy(io.Discard, b) }()
			go answers(srpc.NewPacketReadWriter(b))
		case "muxed":
			mc, err := srpc.NewMuxedConn(a, true, nil)
			if err != nil {
				openErr = err
				return
			}
			cl = srpc.NewClientWithMuxedConn(mc)
			sc, err := srpc.NewMuxedConn(b, false, nil)
			if err != nil {
				openErr = err
				return
			}
			go func() {
				for {
					s, err := sc.AcceptStream()
					if err != nil {
						return
					}
					go func() { _, _ = io.Copy(io.Discard, s) }()
					go answers(srpc.NewPacketReadWriter(s))
				}
			}()
		case "nested":
			for i := range d.Answers {
				p, _ := srpc.NewCallDataPacket([]byte(fmt.Sprint("answer", i)), false, false, nil).MarshalVT()
				st.in = append(st.in, toR(&lib.RPacket{Kind: lib.RData, Data: p}))
			}
			cl = rpcstream.NewRpcStreamClient(func(ctx context.Context) (rpcstream.RpcStream, error) { return st, nil }, "comp", false)
		}
		if d.Exec {
			done := make(chan struct{})
			go func() {
				defer close(done)
				ends = append(ends, cl.ExecCall(ctx, "s", "m", srpc.NewRawMessage([]byte("x"), true), srpc.NewRawMessage(nil, true)))
			}()
			for range delay * 30 {
				runtime.Gosched()
			}
			ctx.Cancel()
			<-done
			return
		}
		var first srpc.Message
		if d.First {
			first = srpc.NewRawMessage([]byte("x"), true)
		}
		strm, err := cl.NewStream(ctx, "s", "m", first)
		if err != nil {
			openErr = err
			return
		}
		for range d.Sends {
			_ = strm.MsgSend(srpc.NewRawMessage([]byte("y"), true))
		}
		if d.HalfClosed {
			_ = strm.CloseSend()
		}
		for range d.Answers {
			if err := strm.MsgRecv(srpc.NewRawMessage(nil, true)); err == nil {
				got++
			}
		}
		var wg sync.WaitGroup
		var mtx sync.Mutex
		for range d.Receivers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				err := strm.MsgRecv(srpc.NewRawMessage(nil, true))
				mtx.Lock()
				ends = append(ends, err)
				mtx.Unlock()
			}()
		}
		for range delay * 30 {
			runtime.Gosched()
		}
		if d.How != "close" {
			ctx.Cancel()
		}
		if d.How != "cancel" {
			_ = strm.Close()
		}
		wg.Wait()
		more = strm.MsgRecv(srpc.NewRawMessage(nil, true))
		if d.How == "cancel" {
			_ = strm.Close()
		}
	})
	_ = a.Close()
	_ = b.Close()
	_ = st.Close()
	ctx.Cancel()
	x.Rep.Eval(lib.Mix(uint64(idx), lib.HashStr(fmt.Sprint(d))))
	if !ok {
		return
	}
	x.Rep.Count("silent-"+d.Conn, 1)
	if openErr != nil {
		x.Rep.Violate("open-failed", idx, d, "opening the stream failed: %v", openErr)
		return
	}
	if got != d.Answers && !d.Exec {
		x.Rep.Violate("lost-message", idx, d, "%d of %d messages were received", got, d.Answers)
	}
	if !d.Exec {
		ends = append(ends, more)
	}
	for _, err := range ends {
		if err == nil {
			x.Rep.Violate("fabricated-response", idx, d, "a receive succeeded although the remote sent nothing more")
		} else if errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			x.Rep.Violate("early-eof", idx, d, "a receive returned io.EOF although the remote did not end its messages")
		}
	}
}
