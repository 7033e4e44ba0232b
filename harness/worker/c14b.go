package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

// passStream records what is done to it.
type passStream struct {
	ctx  context.Context
	log  []string
	errs []error
	recv []byte
}

func (p *passStream) op(name string) error {
	p.log = append(p.log, name)
	if len(p.errs) == 0 {
		return nil
	}
	e := p.errs[0]
	p.errs = p.errs[1:]
	return e
}
func (p *passStream) Context() context.Context { return p.ctx }
func (p *passStream) MsgSend(m srpc.Message) error {
	b, _ := m.MarshalVT()
	return p.op(fmt.Sprintf("send %x", b))
}

func (p *passStream) MsgRecv(m srpc.Message) error {
	err := p.op("recv")
	if err == nil {
		err = m.UnmarshalVT(p.recv)
	}
	return err
}
func (p *passStream) CloseSend() error { return p.op("closesend") }
func (p *passStream) Close() error     { return p.op("close") }
func (p *passStream) WritePacket(pk *srpc.Packet) error {
	b, _ := pk.MarshalVT()
	return p.op(fmt.Sprintf("write %x", b))
}

var errPass = []error{nil, nil, nil, io.EOF, context.Canceled, errors.New("a"), errors.New("b"), io.ErrClosedPipe}

// c14wrapped: streams and writers with a further close function, and packet handlers.
func (x *Ctx) c14wrapped(idx int, r *lib.Rand) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	in := &passStream{ctx: ctx, recv: lib.Content(1, 1, idx, r.Intn(20))}
	writer := r.OneIn(3)
	depth := r.Range(1, 3)
	closeErrs := make([]error, depth)
	closes := make([]int, depth)
	var order []int
	var strm srpc.Stream = in
	var wr srpc.PacketWriter = in
	for k := range depth {
		closeErrs[k] = lib.PickOf(r, errPass...)
		fn := func() error {
			closes[k]++
			order = append(order, k)
			return closeErrs[k]
		}
		if writer {
			wr = srpc.NewPacketWriterWithClose(wr, fn)
		} else {
			strm = srpc.NewStreamWithClose(strm, fn)
		}
	}
	var ops []string
	for range r.Intn(5) {
		ops = append(ops, lib.PickOf(r, "send", "recv", "closesend"))
	}
	ops = append(ops, "close")
	desc := map[string]any{"writer": writer, "depth": depth, "ops": ops, "close_errors": fmt.Sprint(closeErrs)}
	bad := func(f string, a ...any) { x.Rep.Violate("wrapped", idx, desc, f, a...) }
	var want []string
	for i, op := range ops {
		e := lib.PickOf(r, errPass...)
		in.errs = []error{e}
		data := lib.Content(2, 0, i, r.Intn(9))
		var got error
		switch {
		case op == "close":
			want = append(want, "close")
			first := e
			for _, ce := range closeErrs {
				if first == nil {
					first = ce
				}
			}
			if writer {
				got = wr.Close()
			} else {
				got = strm.Close()
			}
			if got != first {
				bad("closing returned %v, the errors were %v and %v", got, e, closeErrs)
			}
			for k, c := range closes {
				if c != 1 {
					bad("the close function %d ran %d times", k, c)
				}
			}
			continue
		case writer:
			p := toPacket(&lib.WPacket{Kind: lib.WData, Data: data, DataIsZero: len(data) == 0})
			b, _ := p.MarshalVT()
			want = append(want, fmt.Sprintf("write %x", b))
			got = wr.WritePacket(p)
		case op == "send":
			want = append(want, fmt.Sprintf("send %x", data))
			got = strm.MsgSend(srpc.NewRawMessage(data, true))
		case op == "recv":
			want = append(want, "recv")
			m := srpc.NewRawMessage(nil, true)
			got = strm.MsgRecv(m)
			if got == nil && !bytes.Equal(m.GetData(), in.recv) {
				bad("received %x instead of %x", m.GetData(), in.recv)
			}
		default:
			want = append(want, "closesend")
			got = strm.CloseSend()
		}
		if got != e {
			bad("%s returned %v, the stream %v", op, got, e)
		}
	}
	if fmt.Sprint(in.log) != fmt.Sprint(want) {
		bad("the stream saw %q instead of %q", in.log, want)
	}
	if !writer && strm.Context() != ctx {
		bad("the context is another one")
	}
	x.Rep.Eval(lib.HashStr(fmt.Sprint(desc, in.log)))

	// a handler of packets over a handler of bytes
	p := &lib.WPacket{Kind: lib.WData, Data: lib.Content(3, 0, idx, r.Intn(30)), Complete: r.OneIn(2)}
	p.DataIsZero = len(p.Data) == 0
	b := p.Encode()
	valid := !r.OneIn(3)
	if !valid {
		b = append(b, 0x0a, 0x7f)
	}
	e := lib.PickOf(r, errPass...)
	ran := 0
	err := srpc.NewPacketDataHandler(func(pk *srpc.Packet) error {
		ran++
		if g := fromPacket(pk); !g.Equal(p) {
			bad("the handler got %v instead of %v", g, p)
		}
		return e
	})(b)
	if valid && (ran != 1 || err != e) || !valid && (ran != 0 || err == nil) {
		bad("a packet (valid: %v): the handler ran %d times and returned %v, the result is %v", valid, ran, e, err)
	}
}
