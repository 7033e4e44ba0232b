package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

// rawStream is one end of a message stream with scripted encoded packets.
type rawStream struct {
	ctx    *lib.CountCtx
	mtx    sync.Mutex
	cond   *sync.Cond
	in     [][]byte
	end    error // nil: stays open
	hold   bool  // the end only comes when everything else happened
	out    [][]byte
	closes int
	halfs  int
	sent   int
	failAt int // sends fail from this one on (if > 0)
	failed bool
	r      *lib.Rand
}

func newRawStream(r *lib.Rand) *rawStream {
	s := &rawStream{ctx: lib.NewCountCtx(), r: r}
	s.cond = sync.NewCond(&s.mtx)
	return s
}

func (s *rawStream) Context() context.Context { return s.ctx }
func (s *rawStream) MsgSend(m srpc.Message) error {
	b, err := m.MarshalVT()
	if err != nil {
		return err
	}
	s.mtx.Lock()
	defer s.mtx.Unlock()
	if s.closes != 0 {
		return io.ErrClosedPipe
	}
	s.sent++
	if s.failAt != 0 && s.sent >= s.failAt {
		s.failed = true
		s.cond.Broadcast()
		return errCall
	}
	s.out = append(s.out, bytes.Clone(b))
	s.cond.Broadcast()
	return nil
}
func (s *rawStream) MsgRecv(m srpc.Message) error {
	s.mtx.Lock()
	for {
		if s.closes != 0 {
			s.mtx.Unlock()
			return context.Canceled
		}
		if len(s.in) != 0 {
			b := s.in[0]
			s.in = s.in[1:]
			s.mtx.Unlock()
			return m.UnmarshalVT(bytes.Clone(b))
		}
		if s.failed { // a stream which ended
			s.mtx.Unlock()
			return errCall
		}
		if s.end != nil && !s.hold {
			s.mtx.Unlock()
			return s.end
		}
		s.cond.Wait()
	}
}
func (s *rawStream) Send(p *rpcstream.RpcStreamPacket) error { return s.MsgSend(p) }
func (s *rawStream) Recv() (*rpcstream.RpcStreamPacket, error) {
	p := &rpcstream.RpcStreamPacket{}
	if err := s.MsgRecv(p); err != nil {
		return nil, err
	}
	return p, nil
}
func (s *rawStream) CloseSend() error {
	s.mtx.Lock()
	s.halfs++
	s.mtx.Unlock()
	return nil
}
func (s *rawStream) Close() error {
	s.mtx.Lock()
	s.closes++
	s.cond.Broadcast()
	s.mtx.Unlock()
	return nil
}

// release lets the end come.
func (s *rawStream) release() {
	s.mtx.Lock()
	s.hold = false
	s.cond.Broadcast()
	s.mtx.Unlock()
}

// c13packets makes encoded packets of a nested stream.
func c13packets(r *lib.Rand, n int) (out [][]byte) {
	for i := range n {
		p := &lib.RPacket{Kind: lib.RData, Data: lib.Content(3, 4, i, r.Range(0, 60))}
		switch r.Weighted(6, 1, 1) {
		case 1:
			p = &lib.RPacket{Kind: lib.RAck, Str: lib.PickOf(r, "", "an error")}
		case 2:
			p = &lib.RPacket{Kind: lib.RInit, Str: lib.PickOf(r, "", "comp")}
		}
		b, err := toR(p).MarshalVT()
		if err != nil {
			panic(err)
		}
		if r.OneIn(4) { // a field of a later version of the protocol
			b = append(b, vunknown(r, 4)...)
		}
		if len(b) == 0 {
			b = []byte{0x1a, 0}
		}
		out = append(out, b)
	}
	return
}

// c13proxy: a proxy between two scripted streams.
func (x *Ctx) c13proxy(idx int, r *lib.Rand) {
	a, b := newRawStream(r.Fork()), newRawStream(r.Fork())
	fault := lib.PickOf(r, "", "", "", "", "", "lookup", "lookup-rel", "unknown", "unknown-rel", "open", "init", "no-init")
	comp, target := lib.PickOf(r, "comp", "", "a/b", "é", " c", strings.Repeat("comp/", 60), strings.Repeat("comp/", 6000)), lib.PickOf(r, "target", "", "x", "comp", "t ", strings.Repeat("target", 50), strings.Repeat("target/", 6000))
	a2b, b2a := c13packets(r, r.Weighted(2, 3, 3, 2, 1)), c13packets(r, r.Weighted(2, 3, 3, 2, 1))
	if fault != "no-init" {
		init, _ := toR(&lib.RPacket{Kind: lib.RInit, Str: comp}).MarshalVT()
		a.in = append(a.in, init)
	} else {
		first := lib.PickOf(r, &lib.RPacket{Kind: lib.RAck}, &lib.RPacket{Kind: lib.RData, Data: []byte("x")}, &lib.RPacket{})
		p, _ := toR(first).MarshalVT()
		a.in = append(a.in, p)
	}
	a.in = append(a.in, a2b...)
	b.in = append(b.in, b2a...)
	// how the streams end: one or both, at once or when all is forwarded
	ends := func(s *rawStream) {
		s.end = lib.PickOf[error](r, io.EOF, errRead, context.Canceled)
		s.hold = r.OneIn(2)
	}
	who := lib.PickOf(r, "a", "b", "ab")
	if strings.Contains(who, "a") {
		ends(a)
	}
	if strings.Contains(who, "b") {
		ends(b)
	}
	switch r.Weighted(8, 1, 1) {
	case 1:
		a.failAt = r.Range(1, 4)
	case 2:
		b.failAt = r.Range(1, 5)
	}
	if fault == "init" {
		b.failAt = 1
	}
	desc := map[string]any{"component": comp, "target": target, "fault": fault, "a2b": len(a2b), "b2a": len(b2a), "ends": who, "aend": fmt.Sprint(a.end, a.hold), "bend": fmt.Sprint(b.end, b.hold), "afail": a.failAt, "bfail": b.failAt}
	var rels, lookups, opens atomic.Int32
	var gotID string
	relEarly := false
	var herr error
	done := make(chan struct{})
	s := x.Sched(r)
	run := func() {
		defer close(done)
		herr = rpcstream.HandleProxyRpcStream(a, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[*rawStream], string, func(), error) {
			lookups.Add(1)
			gotID = id
			rel := func() {
				b.mtx.Lock()
				relEarly = relEarly || opens.Load() != 0 && fault == "" && b.closes == 0
				b.mtx.Unlock()
				rels.Add(1)
			}
			switch fault {
			case "lookup":
				return nil, "", nil, errCall
			case "lookup-rel":
				return nil, "", rel, errCall
			case "unknown":
				return nil, "", nil, nil
			case "unknown-rel":
				return nil, "", rel, nil
			}
			return func(context.Context) (*rawStream, error) {
				opens.Add(1)
				if rels.Load() != 0 {
					relEarly = true
				}
				if fault == "open" {
					return nil, errCall
				}
				return b, nil
			}, target, rel, nil
		})
	}
	// the held ends come when nothing else happens
	ok := x.Do(idx, desc, "proxying a nested stream", s, r.Fork(), func() {
		go run()
		for _, e := range []*rawStream{a, b} {
			if e.end != nil && e.hold {
				// wait until the other direction was forwarded, or it is over
				go func() {
					o, n, m := b, len(a2b)+1, len(b2a)
					if e == b {
						o, n, m = a, len(b2a), len(a2b)+1
					}
					_ = m
					o.mtx.Lock()
					for len(o.out) < n && !o.failed && o.closes == 0 {
						o.cond.Wait()
					}
					o.mtx.Unlock()
					e.mtx.Lock()
					for len(e.out) < m && !e.failed && e.closes == 0 {
						e.cond.Wait()
					}
					e.mtx.Unlock()
					e.release()
				}()
			}
		}
		<-done
	})
	if !ok {
		_ = a.Close()
		_ = b.Close()
		return
	}
	lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(desc)), lib.HashStr(fmt.Sprint(a2b, b2a))))
	x.Rep.Count("fault:"+fault, 1)
	if idx%500 == 0 {
		x.Rep.Sample(desc)
	}
	bad := func(key, format string, args ...any) { x.Rep.Violate(key, idx, desc, format, args...) }
	if fault == "no-init" {
		if lookups.Load() != 0 || herr == nil {
			bad("no-init", "%d lookups without an init packet, result %v", lookups.Load(), herr)
		}
		return
	}
	if lookups.Load() != 1 || gotID != comp {
		bad("wrong-component", "%d lookups, of %q", lookups.Load(), gotID)
	}
	wantRel := int32(1)
	if fault == "lookup" || fault == "unknown" {
		wantRel = 0
	}
	if n := rels.Load(); n != wantRel {
		bad("release", "the lookup was released %d times", n)
	}
	if relEarly {
		bad("release-early", "the lookup was released before the stream of the target was opened or while it was open")
	}
	if fault == "init" && b.closes == 0 {
		bad("not-closed", "the stream of the target was left open")
	}
	if fault != "" {
		if herr == nil {
			bad("wrong-outcome", "proxying returned no error")
		}
		if a.failAt == 1 {
			return
		}
		p := &rpcstream.RpcStreamPacket{}
		if len(a.out) == 0 || p.UnmarshalVT(a.out[0]) != nil || p.GetAck().GetError() == "" || !strings.HasPrefix(fault, "unknown") && !strings.Contains(p.GetAck().GetError(), errCall.Error()) {
			bad("no-ack", "the caller got %v instead of the error", p)
		}
		if len(a.out) > 1 || len(b.out) > 0 {
			bad("extra-packet", "packets were sent after the error")
		}
		return
	}
	// the proxied stream
	p := &rpcstream.RpcStreamPacket{}
	if b.failAt != 1 {
		if len(b.out) == 0 || p.UnmarshalVT(b.out[0]) != nil || p.GetInit() == nil || p.GetInit().GetComponentId() != target {
			bad("wrong-component", "the target got %v instead of component id %q", p, target)
			return
		}
		b.out = b.out[1:]
	} else {
		return
	}
	dir := func(name string, from, to *rawStream, sent [][]byte, all bool) {
		for i, g := range to.out {
			if i >= len(sent) {
				bad("extra-packet", "%s: %d packets sent, %d forwarded", name, len(sent), len(to.out))
				return
			}
			if !bytes.Equal(g, sent[i]) {
				bad("changed-packet", "%s: packet %d was %x, forwarded as %x", name, i, sent[i], g)
				return
			}
		}
		if all && len(to.out) != len(sent) {
			bad("lost-packet", "%s: %d of %d packets were forwarded", name, len(to.out), len(sent))
		}
	}
	clean := !a.failed && !b.failed
	// all packets arrive if only this side ended, or the other only afterwards
	dir("caller to target", a, b, a2b, clean && (b.end == nil || b.hold))
	dir("target to caller", b, a, b2a, clean && (a.end == nil || a.hold))
	if a.closes == 0 || b.closes == 0 {
		bad("not-closed", "the caller's stream was closed %d times, the target's %d times", a.closes, b.closes)
	}
	x.Rep.Count("forwarded", len(a.out)+len(b.out))
}
