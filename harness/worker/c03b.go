package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

// recWriter records packets.
type recWriter struct {
	mtx    sync.Mutex
	ps     []*lib.WPacket
	closed int
}

func (w *recWriter) WritePacket(p *srpc.Packet) error {
	b, err := p.MarshalVT()
	if err != nil {
		return err
	}
	w.mtx.Lock()
	defer w.mtx.Unlock()
	if w.closed != 0 {
		return io.ErrClosedPipe
	}
	wp, _ := lib.Decode(b)
	w.ps = append(w.ps, wp)
	return nil
}

func (w *recWriter) Close() error {
	w.mtx.Lock()
	w.closed++
	w.mtx.Unlock()
	return nil
}

// c03final: the first end of a call is final, whatever follows it.
func (x *Ctx) c03final(idx int, r *lib.Rand) {
	server := r.OneIn(3)
	late := r.OneIn(2) // all is read after all happened
	var evs []string
	n := r.Range(1, 7)
	for range n {
		evs = append(evs, lib.PickOf(r, "data", "data", "empty", "complete", "last", "fail", "failed-data", "cancel", "no-cancel", "close", "close-eof", "close-err", "start", "undecodable"))
	}
	if !late {
		evs = append(evs, "close")
	}
	desc := map[string]any{"server": server, "late": late, "events": evs}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w := &recWriter{}
	var got [][]byte
	var ends []error
	read := func(readOne func() ([]byte, error)) {
		for len(ends) < 3 {
			b, err := readOne()
			if err != nil {
				ends = append(ends, err)
				continue
			}
			got = append(got, b)
			if len(got) > 20 {
				return
			}
		}
	}
	var handle func([]byte) error
	var closed func(error)
	gate := make(chan struct{})
	done := make(chan struct{})
	if server {
		rpc := srpc.NewServerRPC(ctx, srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
			defer close(done)
			<-gate
			read(func() ([]byte, error) {
				m := srpc.NewRawMessage(nil, true)
				err := strm.MsgRecv(m)
				return m.GetData(), err
			})
			return true, nil
		}), w)
		handle, closed = rpc.HandlePacketData, rpc.HandleStreamClose
		if err := handle((&lib.WPacket{Kind: lib.WStart, Service: "s", Method: "m"}).Encode()); err != nil {
			x.Rep.Violate("not-started", idx, desc, "%v", err)
			return
		}
	} else {
		rpc := srpc.NewClientRPC(ctx, "s", "m")
		if err := rpc.Start(w, false, nil); err != nil {
			x.Rep.Violate("not-started", idx, desc, "%v", err)
			return
		}
		handle, closed = rpc.HandlePacketData, rpc.HandleStreamClose
		go func() {
			defer close(done)
			<-gate
			read(rpc.ReadOne)
		}()
	}
	if !late {
		close(gate)
	}
	// what was read is a copy of no one: the buffer is used again
	buf := make([]byte, 0, 200)
	var want [][]byte
	outcome := "" // of the call as far as it ended
	late2 := false
	errLost := errors.New("connection lost")
	for i, e := range evs {
		var p *lib.WPacket
		data := lib.Content(3, 1, i, 1+i)
		over := outcome != ""
		bad := false
		switch e {
		case "data":
			p = &lib.WPacket{Kind: lib.WData, Data: data}
		case "empty":
			p = &lib.WPacket{Kind: lib.WData, DataIsZero: true}
			data = nil
		case "complete":
			p = &lib.WPacket{Kind: lib.WData, Complete: true}
		case "last":
			p = &lib.WPacket{Kind: lib.WData, Complete: true, Data: data}
		case "fail":
			p = &lib.WPacket{Kind: lib.WData, Complete: r.OneIn(2), Error: "failed " + fmt.Sprint(i)}
		case "failed-data":
			p = &lib.WPacket{Kind: lib.WData, Complete: true, Error: "failed " + fmt.Sprint(i), Data: data}
		case "cancel":
			p = &lib.WPacket{Kind: lib.WCancel, Cancel: true}
		case "no-cancel":
			p = &lib.WPacket{Kind: lib.WCancel}
		case "start":
			p = &lib.WPacket{Kind: lib.WStart, Service: "s", Method: "m"}
			bad = true
		case "close", "close-eof", "close-err":
			var err error
			switch e {
			case "close-eof":
				err = io.EOF
			case "close-err":
				err = errLost
			}
			closed(err)
			if !over {
				outcome = "closed"
				if err == errLost {
					outcome = errLost.Error()
				}
			} else if err == errLost {
				late2 = true
			}
			continue
		}
		buf = buf[:0]
		if p == nil {
			buf = append(buf, 0x0a, 0x50, 1)
			bad = true
		} else {
			buf = append(buf, p.Encode()...)
		}
		err := handle(buf)
		for k := range buf {
			buf[k] = 0xee
		}
		if bad {
			if err == nil && e != "no-cancel" {
				x.Rep.Violate("accepted", idx, desc, "event %d (%s) was accepted", i, e)
			}
			continue
		}
		if over && e == "cancel" {
			late2 = true
		}
		if over && p.Kind == lib.WData {
			if err == nil && outcome != "closed" {
				// the end of a stream may be detected later
				x.Rep.Violate("accepted", idx, desc, "event %d (%s) after the end was accepted", i, e)
			}
			continue
		}
		if err != nil && !over {
			x.Rep.Violate("refused", idx, desc, "event %d (%s) was refused: %v", i, e, err)
		}
		if over {
			continue
		}
		if p.Kind == lib.WData && (len(p.Data) != 0 || p.DataIsZero) {
			want = append(want, data)
		}
		switch {
		case p.Error != "":
			outcome = p.Error
		case p.Complete:
			outcome = io.EOF.Error()
		case e == "cancel":
			outcome = context.Canceled.Error()
		}
	}
	if late {
		close(gate)
	}
	if outcome == "" {
		// what was received so far is read, then the call is cancelled
		cancel()
		outcome = context.Canceled.Error()
		if !server {
			outcome = "any"
		}
	}
	if !x.Do(idx, desc, "reading a call which ended", nil, r, func() { <-done }) {
		return
	}
	x.Rep.Eval(lib.HashStr(fmt.Sprint(desc)))
	x.Rep.Count("finals", 1)
	if len(got) > len(want) {
		x.Rep.Violate("extra-message", idx, desc, "%d messages were received instead of %d", len(got), len(want))
		return
	}
	for i, g := range got {
		if !bytes.Equal(g, want[i]) {
			x.Rep.Violate("wrong-message", idx, desc, "message %d is %x instead of %x", i, g, want[i])
			return
		}
	}
	if len(got) < len(want) && outcome != "any" && outcome != context.Canceled.Error() {
		x.Rep.Violate("lost-message", idx, desc, "%d of %d messages were received, then %v", len(got), len(want), ends)
	}
	for _, e := range ends {
		switch {
		case (e == io.EOF) != (outcome == io.EOF.Error()) && !(server && late2):
			x.Rep.Violate("wrong-outcome", idx, desc, "the call ended with %q, the reader got %v", outcome, ends)
			return
		case outcome == "closed" || outcome == "any" || server && late2:
		case e.Error() != outcome:
			x.Rep.Violate("wrong-outcome", idx, desc, "the call ended with %q, the reader got %v", outcome, ends)
			return
		}
		if e.Error() != ends[0].Error() && !(server && late2) {
			x.Rep.Violate("outcome-changed", idx, desc, "the reader got %v", ends)
			return
		}
	}
}

// badMsg cannot be encoded.
type badMsg struct{ srpc.Message }

var errEncode = errors.New("this message has no encoding")

func (badMsg) MarshalVT() ([]byte, error)                      { return nil, errEncode }
func (badMsg) MarshalToSizedBufferVT(dAtA []byte) (int, error) { return 0, errEncode }

// c03typed: messages which cannot be encoded or decoded.
func (x *Ctx) c03typed(idx int, r *lib.Rand) {
	kind := PickKind(r, "pipe", "sim", "yamux-pipe", "nested-sim")
	op := lib.PickOf(r, "exec", "exec", "exec-in", "open", "stream", "stream", "send", "request", "reply")
	body := genStr(r)
	raw := lib.Content(5, 0, idx, r.Range(0, 30))
	switch r.Intn(4) {
	case 0:
		raw, _ = (&echo.EchoMsg{Body: body}).MarshalVT()
	case 1:
		raw, _ = (&echo.EchoMsg{Body: body}).MarshalVT()
		if len(raw) > 0 {
			raw = raw[:r.Intn(len(raw))]
		}
	case 2:
		raw = append([]byte{0x0a, byte(len(body))}, body...)
		raw = append(raw, 0xff)
	}
	var ref echo.EchoMsg
	valid := ref.UnmarshalVT(append([]byte{}, raw...)) == nil
	desc := map[string]any{"transport": kind, "op": op, "data": fmt.Sprintf("%x", raw), "valid": valid}
	var invoked atomic.Int64
	inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		invoked.Add(1)
		switch op {
		case "request":
			var in echo.EchoMsg
			if err := strm.MsgRecv(&in); err != nil {
				return true, errors.New("bad request")
			}
			return true, strm.MsgSend(&in)
		case "reply":
			if err := strm.MsgSend(badMsg{}); err == nil {
				return true, errors.New("sent")
			} else if !errors.Is(err, errEncode) {
				return true, err
			}
			return true, strm.MsgSend(&echo.EchoMsg{Body: body})
		case "send":
			var in echo.EchoMsg
			if err := strm.MsgRecv(&in); err != nil {
				return true, err
			}
			return true, strm.MsgSend(&in)
		}
		return true, strm.MsgSend(srpc.NewRawMessage(raw, true))
	})
	tr, err := lib.NewTransport(kind, inv, r.Fork(), nil, false)
	if err != nil {
		x.Rep.Violate("transport", idx, desc, "%v", err)
		return
	}
	defer tr.Close()
	in := &echo.EchoMsg{Body: "x"}
	var out echo.EchoMsg
	bad := ""
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	is := func(err error, ok bool, want string) {
		switch {
		case ok && err != nil:
			bad = "the call failed with " + err.Error()
		case !ok && err == nil:
			bad = fmt.Sprintf("the call succeeded with %q", out.GetBody())
		case ok && out.GetBody() != want:
			bad = fmt.Sprintf("the call succeeded with %q instead of %q", out.GetBody(), want)
		case !ok && err == io.EOF:
			bad = "the stream ended regularly"
		}
	}
	f := func() {
		switch op {
		case "exec":
			err := tr.Client.ExecCall(ctx, "s", "m", in, &out)
			is(err, valid, ref.GetBody())
			if !valid && bad == "" && !errors.Is(err, srpc.ErrInvalidMessage) && err.Error() == "" {
				bad = "the error has no text"
			}
		case "reply":
			is(tr.Client.ExecCall(ctx, "s", "m", in, &out), true, body)
		case "exec-in":
			err := tr.Client.ExecCall(ctx, "s", "m", badMsg{}, &out)
			is(err, false, "")
			if err != nil && !errors.Is(err, errEncode) {
				bad = "the call failed with " + err.Error()
			}
		case "open":
			st, err := tr.Client.NewStream(ctx, "s", "m", badMsg{})
			if err == nil {
				bad = "a stream was opened with a message which has no encoding"
				_ = st.Close()
			} else if !errors.Is(err, errEncode) {
				bad = "opening failed with " + err.Error()
			}
		case "request":
			is(tr.Client.ExecCall(ctx, "s", "m", srpc.NewRawMessage(raw, true), &out), valid, ref.GetBody())
		default:
			st, err := tr.Client.NewStream(ctx, "s", "m", nil)
			if err != nil {
				bad = "opening failed with " + err.Error()
				return
			}
			defer st.Close()
			if op == "send" {
				if err := st.MsgSend(badMsg{}); !errors.Is(err, errEncode) {
					bad = fmt.Sprint("sending a message without encoding returned ", err)
					return
				}
				if err := st.MsgSend(&echo.EchoMsg{Body: body}); err != nil {
					bad = "the next message failed with " + err.Error()
					return
				}
				is(st.MsgRecv(&out), true, body)
				return
			}
			is(st.MsgRecv(&out), valid, ref.GetBody())
			if bad == "" {
				// a message which cannot be decoded does not end the call
				if err := st.MsgRecv(&out); err != io.EOF {
					bad = fmt.Sprintf("after the only message: %v", err)
				}
			}
		}
	}
	if !x.Do(idx, desc, "a call", x.Sched(r), r.Fork(), f) {
		return
	}
	if bad == "" && (op == "exec-in" || op == "open") && invoked.Load() != 0 {
		bad = "a handler ran"
	}
	if bad != "" {
		x.Rep.Violate("typed", idx, desc, "%s: %s", op, bad)
	}
	x.Rep.Eval(lib.HashStr(fmt.Sprint(desc)))
	x.Rep.Count("typed:"+op, 1)
}
