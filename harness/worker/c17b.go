package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

// c17client: calls over a transport whose remote never ends its side: the
// caller releases its own end once the call is over for it.
// With packets, only what was sent is judged: the remote is told of the cancel.
func (x *Ctx) c17client(idx int, r *lib.Rand, packets bool) {
	if x.Override != nil {
		return
	}
	type desc struct {
		Exec    bool
		First   bool
		Answers int
		Outcome string // what the remote sends in the end
		How     string // how the caller ends a stream
		Half    bool
		FailAt  int
		Late    bool
	}
	d := desc{Exec: r.OneIn(3), First: r.OneIn(2), Answers: r.Weighted(2, 2, 1), Outcome: lib.PickOf(r, "none", "none", "complete", "error"), How: lib.PickOf(r, "close", "close", "cancel-close", "close-twice"), Half: r.OneIn(3), FailAt: 1 << 30, Late: r.OneIn(2)}
	if r.OneIn(6) {
		d.FailAt = r.Range(1, 3)
	}
	fw := &scriptWriter{failAt: d.FailAt}
	ctx := lib.NewCountCtx()
	b := starpcGoroutines(lib.Snapshot())
	var opened bool
	answer := func(mh srpc.PacketDataHandler) {
		send := func(p *srpc.Packet) {
			data, _ := p.MarshalVT()
			_ = mh(data)
		}
		for i := range d.Answers {
			send(srpc.NewCallDataPacket([]byte(fmt.Sprint(i)), false, false, nil))
		}
		switch d.Outcome {
		case "complete":
			send(srpc.NewCallDataPacket(nil, false, true, nil))
		case "error":
			send(srpc.NewCallDataPacket(nil, false, true, errors.New("failed")))
		}
	}
	cl := srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
		opened = true
		if d.Late {
			go answer(mh)
		} else {
			answer(mh)
		}
		return fw, nil
	})
	if !x.Do(idx, d, "a call to a remote which never ends its side", x.Sched(r), r.Fork(), func() {
		if d.Exec {
			if d.Answers == 0 && d.Outcome == "none" {
				go func() {
					for range 40 {
						runtime.Gosched()
					}
					ctx.Cancel()
				}()
			}
			_ = cl.ExecCall(ctx, "s", "m", srpc.NewRawMessage([]byte("x"), true), srpc.NewRawMessage(nil, true))
			return
		}
		var first srpc.Message
		if d.First {
			first = srpc.NewRawMessage([]byte("x"), true)
		}
		strm, err := cl.NewStream(ctx, "s", "m", first)
		if err != nil {
			return
		}
		for range d.Answers {
			_ = strm.MsgRecv(srpc.NewRawMessage(nil, true))
		}
		_ = strm.MsgSend(srpc.NewRawMessage([]byte("y"), true))
		if d.Half {
			_ = strm.CloseSend()
		}
		if d.Outcome == "complete" {
			if err := strm.MsgRecv(srpc.NewRawMessage(nil, true)); err != io.EOF && d.FailAt > 3 {
				x.Rep.Violate("wrong-outcome", idx, d, "the remote completed the call, the receive returned %v", err)
			}
		}
		switch d.How {
		case "cancel-close":
			ctx.Cancel()
		case "close-twice":
			_ = strm.Close()
		}
		_ = strm.Close()
	}) {
		return
	}
	x.Rep.Eval(lib.Mix(uint64(idx), lib.HashStr(fmt.Sprint(d))))
	x.Rep.Count("ended-by-caller", 1)
	if packets {
		started, cancelled := false, false
		for _, p := range fw.pkts {
			started = started || p.GetCallStart() != nil
			cancelled = cancelled || p.GetCallCancel()
		}
		if started && d.Outcome == "none" && d.FailAt > 3 && !(d.Exec && d.Answers != 0) && !cancelled {
			x.Rep.Violate("handler-not-cancelled", idx, d, "the caller ended its call but the remote was not told: %d packets", len(fw.pkts))
		}
		return
	}
	gs := lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
	for k, v := range starpcGoroutines(gs) {
		if v > b[k] {
			x.Rep.Violate("goroutine-leak", idx, d, "after the caller ended the call: %s", k)
		}
	}
	if k := ctx.Registered(); k != 0 && ctx.Err() == nil {
		x.Rep.Violate("ctx-leak", idx, d, "%d registrations with the context of the caller are left after the call", k)
	}
	if opened && fw.closed() == 0 {
		x.Rep.Violate("conn-leak", idx, d, "the caller ended the call but its transport was not closed (%d packets written)", fw.n)
	}
}
