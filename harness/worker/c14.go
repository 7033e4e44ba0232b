package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() { Props["C14"] = c14 }

func c14(x *Ctx) {
	x.Each("adapter", 24000, x.c14adapter)
	x.Each("end-to-end", 1500, x.c14pair)
	x.Each("raw-scripted", 4000, x.c14raw)
	x.Each("raw-calls", 1200, x.c14rawCalls)
	x.Each("wrapped", 4000, x.c14wrapped)
}

// bufSize picks the size of a read buffer.
func bufSize(r *lib.Rand, mode int) int {
	switch mode {
	case 0:
		return r.Range(1, 4)
	case 1:
		return r.Range(1, 40)
	case 2:
		return lib.PickOf(r, 1, 7, 512, 2047, 2048, 2049, 4096, 70000)
	}
	return r.Range(1, 9000)
}

// readAll reads until the error, checking the reader contract. each is called
// with the data of each read.
func readAll(rd io.Reader, r *lib.Rand, mode int, each func(b []byte)) (end error, bad string) {
	idle := 0
	for {
		n := bufSize(r, mode)
		if r.OneIn(15) {
			if k, err := rd.Read(nil); k != 0 {
				return nil, fmt.Sprintf("reading into an empty buffer returned %d, %v", k, err)
			} else if err != nil {
				return err, ""
			}
		}
		buf := bytes.Repeat([]byte{0xa5}, n+8)
		k, err := rd.Read(buf[:n:n])
		if k < 0 || k > n {
			return nil, fmt.Sprintf("Read returned %d for a buffer of %d bytes", k, n)
		}
		if !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xa5}, 8)) {
			return nil, "Read wrote behind the buffer"
		}
		each(buf[:k])
		if err != nil {
			return err, ""
		}
		if k == 0 {
			if idle++; idle > 1000 {
				return nil, "Read returns 0, nil forever"
			}
		} else {
			idle = 0
		}
	}
}

// diffBytes describes how got differs from the stream want (complete: all of it).
func diffBytes(got, want []byte, complete bool) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("%d bytes more than written (%d)", len(got)-len(want), len(want))
		}
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d is 0x%02x, 0x%02x was written (%d read of %d)", i, got[i], want[i], len(got), len(want))
		}
	}
	if complete && len(got) != len(want) {
		return fmt.Sprintf("only %d of %d bytes were read", len(got), len(want))
	}
	return ""
}

// aliasStream keeps the sent buffers as they are.
type aliasStream struct {
	*rawStream
	kept [][]byte
	// keepOnly: fail after that number.
}

func (s *aliasStream) MsgSend(m srpc.Message) error {
	b, err := m.MarshalVT()
	if err != nil {
		return err
	}
	if s.failAt != 0 && len(s.kept)+1 >= s.failAt {
		return errCall
	}
	s.kept = append(s.kept, b)
	return nil
}
func (s *aliasStream) Send(p *rpcstream.RpcStreamPacket) error { return s.MsgSend(p) }

// c14adapter: one adapter over a scripted stream, read and written.
func (x *Ctx) c14adapter(idx int, r *lib.Rand) {
	nested := r.OneIn(2)
	st := &aliasStream{rawStream: newRawStream(r.Fork())}
	var want []byte
	endErr := lib.PickOf[error](r, io.EOF, errRead, context.Canceled)
	wantEnd := endErr.Error()
	sizes := []int{}
	n := r.Weighted(1, 2, 3, 3, 2, 2, 1)
	for i := range n {
		sz := r.Range(0, 30)
		switch r.Weighted(6, 2, 2, 1) {
		case 1:
			sz = 0
		case 2:
			sz = r.Range(0, 700)
		case 3:
			sz = lib.Size(r, 0)
		}
		data := lib.Content(idx, 1, i, sz)
		if !nested {
			st.in = append(st.in, data)
			want = append(want, data...)
			sizes = append(sizes, sz)
			continue
		}
		p := &lib.RPacket{Kind: lib.RData, Data: data}
		switch r.Weighted(12, 1, 1, 1, 1) {
		case 1:
			p = &lib.RPacket{Kind: lib.RAck}
		case 2:
			p = &lib.RPacket{}
		case 3:
			p = &lib.RPacket{Kind: lib.RInit, Str: "x"}
		case 4:
			p = &lib.RPacket{Kind: lib.RAck, Str: "lookup failed"}
		}
		b, err := toR(p).MarshalVT()
		if err != nil {
			panic(err)
		}
		st.in = append(st.in, b)
		if p.Kind == lib.RAck && p.Str != "" {
			wantEnd = p.Str
			sizes = append(sizes, -1)
			break
		}
		if p.Kind == lib.RData {
			want = append(want, data...)
			sizes = append(sizes, sz)
		}
	}
	st.end = endErr
	var rw io.ReadWriteCloser
	if nested {
		rw = rpcstream.NewRpcStreamReadWriter(st)
	} else {
		rw = srpc.NewStreamRwc(st)
	}
	mode := r.Intn(4)
	if len(want) > 4000 && mode == 0 {
		mode = 1
	}
	desc := map[string]any{"nested": nested, "messages": sizes, "mode": mode, "end": wantEnd}
	if r.OneIn(6) {
		st.failAt = r.Range(1, 4)
		desc["failAt"] = st.failAt
	}
	var got, wrote []byte
	writes, werr := 0, 0
	write := func() bool {
		buf := lib.Content(idx, 2, writes, r.Weighted(2, 1, 1)*r.Intn(50))
		sent := bytes.Clone(buf)
		k, err := rw.Write(buf)
		for i := range buf {
			buf[i] ^= 0x5a // a writer must not keep the buffer
		}
		writes++
		if err != nil {
			werr++
			if k != 0 || st.failAt == 0 {
				x.Rep.Violate("write-failed", idx, desc, "Write of %d bytes returned %d, %v (sends fail from %d)", len(sent), k, err, st.failAt)
				return false
			}
			return true
		}
		if k != len(sent) {
			x.Rep.Violate("short-write", idx, desc, "Write of %d bytes returned %d, nil", len(sent), k)
			return false
		}
		if st.failAt != 0 && len(st.kept) >= st.failAt-1 && k != 0 && werr > 0 {
			x.Rep.Violate("write-lost", idx, desc, "Write succeeded although the stream failed")
			return false
		}
		wrote = append(wrote, sent...)
		return true
	}
	ok := true
	end, bad := readAll(rw, r, mode, func(b []byte) {
		got = append(got, b...)
		if ok && r.OneIn(3) {
			ok = write()
		}
	})
	for range r.Intn(4) {
		ok = ok && write()
	}
	if bad != "" {
		x.Rep.Violate("read-contract", idx, desc, "%s", bad)
		return
	}
	if d := diffBytes(got, want, true); d != "" {
		x.Rep.Violate("wrong-bytes", idx, desc, "reading: %s", d)
	}
	if end == nil || end.Error() != wantEnd {
		x.Rep.Violate("wrong-end", idx, desc, "reading ended with %v instead of %v", end, wantEnd)
	}
	var sent []byte
	for _, b := range st.kept {
		if nested {
			p := &rpcstream.RpcStreamPacket{}
			if err := p.UnmarshalVT(b); err != nil {
				x.Rep.Violate("wrong-bytes", idx, desc, "sent an invalid packet %x", b)
				return
			}
			if _, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Data); !ok {
				x.Rep.Violate("wrong-bytes", idx, desc, "sent %v instead of data", p)
				return
			}
			b = p.GetData()
		}
		sent = append(sent, b...)
	}
	if d := diffBytes(sent, wrote, true); d != "" {
		x.Rep.Violate("wrong-bytes", idx, desc, "writing: %s", d)
	}
	_ = rw.Close()
	if st.closes == 0 {
		x.Rep.Violate("not-closed", idx, desc, "closing the adapter did not close the stream")
	}
	x.Rep.Count("bytes-read", len(got))
	x.Rep.Count("bytes-written", len(wrote))
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(desc)), lib.HashStr(fmt.Sprint(len(wrote), writes))))
	if idx%2000 == 0 {
		x.Rep.Sample(desc)
	}
}

// byteSide is one side of a byte stream in a case.
type byteSide struct {
	name   string
	chunks []int
	wrote  []byte
	werr   error
	got    []byte
	end    error
	bad    string
}

func (b *byteSide) write(w io.Writer, id, dir int) {
	for i, sz := range b.chunks {
		buf := lib.Content(id, dir, i, sz)
		n, err := w.Write(buf)
		b.wrote = append(b.wrote, buf[:max(0, min(n, len(buf)))]...)
		if err == nil && n != len(buf) {
			err = fmt.Errorf("short write: %d of %d bytes", n, len(buf))
		}
		for j := range buf {
			buf[j] = 0xee
		}
		if err != nil {
			b.werr = err
			return
		}
	}
}

func (b *byteSide) read(rd io.Reader, r *lib.Rand, mode int) {
	b.end, b.bad = readAll(rd, r, mode, func(p []byte) { b.got = append(b.got, p...) })
}

func chunks(r *lib.Rand) (out []int) {
	for range r.Weighted(1, 2, 3, 3, 2, 1, 1) {
		switch r.Weighted(3, 4, 2, 1) {
		case 0:
			out = append(out, 0)
		case 1:
			out = append(out, r.Range(1, 60))
		case 2:
			out = append(out, r.Range(1, 3000))
		default:
			out = append(out, lib.Size(r, 1))
		}
	}
	return
}

func total(c []int) (n int) {
	for _, k := range c {
		n += k
	}
	return
}

func readMode(r *lib.Rand, c []int) int {
	if total(c) > 4000 {
		return r.Range(2, 3)
	}
	return r.Intn(4)
}

// c14pair: adapters on both ends of a real call or an in-memory pipe.
func (x *Ctx) c14pair(idx int, r *lib.Rand) {
	kind := lib.PickOf(r, "memory", "pipe", "sim", "yamux-sim", "yamux-pipe", "nested-sim")
	cl, sv := &byteSide{name: "client", chunks: chunks(r)}, &byteSide{name: "server", chunks: chunks(r)}
	mc, ms := readMode(r, sv.chunks), readMode(r, cl.chunks)
	rc, rs := r.Fork(), r.Fork()
	desc := map[string]any{"transport": kind, "client": cl.chunks, "server": sv.chunks, "read_modes": []int{mc, ms}}
	wrap := func(s srpc.Stream) io.ReadWriteCloser {
		if idx%2 == 0 {
			return srpc.NewStreamRwc(s)
		}
		return rpcstream.NewRpcStreamReadWriter(&lib.Rs{Stream: s})
	}
	fail := r.OneIn(4)
	// handler: writes and reads until the end
	both := func(s srpc.Stream, b *byteSide, dir int, mode int, r *lib.Rand) {
		rw := wrap(s)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			b.write(rw, idx, dir)
			if dir == 1 || kind == "memory" {
				_ = s.CloseSend()
			}
		}()
		b.read(rw, r, mode)
		wg.Wait()
	}
	handlerDone := make(chan struct{})
	ctx := lib.NewCountCtx()
	var tr *lib.Transport
	s := x.Sched(r)
	ok := x.Do(idx, desc, "copying bytes over "+kind, s, r.Fork(), func() {
		var cs srpc.Stream
		if kind == "memory" {
			a, b := srpc.NewPipeStream(ctx)
			cs = a
			go func() {
				defer close(handlerDone)
				both(b, sv, 2, ms, rs)
			}()
		} else {
			var err error
			tr, err = lib.NewTransport(kind, srpc.InvokerFunc(func(_, _ string, strm srpc.Stream) (bool, error) {
				defer close(handlerDone)
				both(strm, sv, 2, ms, rs)
				if fail {
					return true, errCall
				}
				return true, nil
			}), r.Fork(), nil, false)
			if err == nil {
				cs, err = tr.Client.NewStream(ctx, "s", "m", nil)
			}
			if err != nil {
				x.Rep.Violate("transport", idx, desc, "opening the stream failed: %v", err)
				return
			}
		}
		both(cs, cl, 1, mc, rc)
		<-handlerDone
		_ = cs.Close()
	})
	if tr != nil {
		tr.Close()
	}
	ctx.Cancel()
	if !ok {
		return
	}
	wantEnd := io.EOF.Error()
	if fail && kind != "memory" {
		wantEnd = errCall.Error()
	}
	for _, p := range [][2]*byteSide{{cl, sv}, {sv, cl}} {
		from, to := p[0], p[1]
		if from.werr != nil {
			x.Rep.Violate("write-failed", idx, desc, "the %s failed to write: %v", from.name, from.werr)
			continue
		}
		if to.bad != "" {
			x.Rep.Violate("read-contract", idx, desc, "%s: %s", to.name, to.bad)
			continue
		}
		if d := diffBytes(to.got, from.wrote, true); d != "" {
			x.Rep.Violate("wrong-bytes", idx, desc, "%s to %s: %s (the read ended with %v)", from.name, to.name, d, to.end)
		}
		we := io.EOF.Error()
		if to == cl {
			we = wantEnd
		}
		if to.end == nil || to.end.Error() != we {
			x.Rep.Violate("wrong-end", idx, desc, "reading at the %s ended with %v instead of %s", to.name, to.end, we)
		}
	}
	x.Rep.Count("bytes-read", len(cl.got)+len(sv.got))
	x.Rep.Count("transport:"+kind, 1)
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(desc)), uint64(idx&1), uint64(s.SchedSig())))
	if idx%300 == 0 {
		x.Rep.Sample(desc)
	}
}

// closeConn monitors the connection of a raw component.
type closeConn struct {
	*lib.SimConn
	onClose func()
}

func (c *closeConn) Close() error {
	if c.onClose != nil {
		c.onClose()
	}
	return c.SimConn.Close()
}

// c14raw: a raw component behind a scripted stream.
func (x *Ctx) c14raw(idx int, r *lib.Rand) {
	a := newRawStream(r.Fork())
	fault := lib.PickOf(r, "", "", "", "", "", "", "lookup", "lookup-rel", "unknown", "unknown-rel", "no-init", "ack")
	comp := lib.PickOf(r, "comp", "", "a/b", "é", " x ", strings.Repeat("comp/", 60), strings.Repeat("comp/", 6000))
	if fault == "no-init" {
		first := lib.PickOf(r, &lib.RPacket{Kind: lib.RAck}, &lib.RPacket{Kind: lib.RData, Data: []byte("x")}, &lib.RPacket{})
		p, _ := toR(first).MarshalVT()
		a.in = append(a.in, p)
	} else {
		p, _ := toR(&lib.RPacket{Kind: lib.RInit, Str: comp}).MarshalVT()
		a.in = append(a.in, p)
	}
	in := &byteSide{name: "stream", chunks: chunks(r)}
	for i, sz := range in.chunks {
		d := lib.Content(idx, 1, i, sz)
		in.wrote = append(in.wrote, d...)
		p, _ := toR(&lib.RPacket{Kind: lib.RData, Data: d}).MarshalVT()
		a.in = append(a.in, p)
	}
	out := &byteSide{name: "connection", chunks: chunks(r)}
	// who ends: the stream, the connection, or both; held until all was copied
	who := lib.PickOf(r, "stream", "conn", "both")
	held := r.OneIn(2)
	var aEnd error
	if who != "conn" {
		aEnd = lib.PickOf[error](r, io.EOF, errRead)
		a.end, a.hold = aEnd, held
	}
	connCut := lib.CutNone
	if who != "stream" && r.OneIn(3) {
		connCut = lib.PickOf(r, lib.CutErr, lib.CutErrWithData)
	}
	if fault == "ack" {
		a.failAt = 1
	} else if r.OneIn(10) {
		a.failAt = r.Range(2, 4)
	}
	gen := lib.DefaultConn(r.Fork())
	ab, ba := gen(0)
	if total(in.chunks)+total(out.chunks) > 3000 {
		ab.Cap, ba.Cap = 0, 0
	}
	if connCut != lib.CutNone {
		ba.Cut, ba.CutAt = connCut, int64(total(out.chunks))
	}
	loc, rem := lib.NewSimPair(ab, ba)
	var rels, lookups atomic.Int32
	var relEarly, relOpen atomic.Bool
	var running atomic.Bool
	var gotID string
	mc := &closeConn{SimConn: loc}
	desc := map[string]any{"component": comp, "fault": fault, "in": in.chunks, "out": out.chunks, "ends": who, "held": held, "cut": connCut, "end": fmt.Sprint(aEnd), "failAt": a.failAt}
	rel := func() {
		rels.Add(1)
		if loc.Closes() == 0 && fault == "" {
			// allowed after the return only
			relOpen.Store(true)
		}
		_ = relEarly.Load()
	}
	var herr error
	mode := readMode(r, in.chunks)
	rr := r.Fork()
	s := x.Sched(r)
	var wg sync.WaitGroup
	// the held ends come when all is idle
	go2 := make(chan struct{})
	steps := 0
	idle := func() bool {
		steps++
		if steps == 1 && held {
			close(go2)
			a.release()
			return true
		}
		return false
	}
	ok := x.DoOpt(idx, desc, "serving a raw component", lib.WaitOpts{Sched: s, Rand: r.Fork(), Idle: idle}, func() {
		running.Store(true)
		wg.Add(1)
		go func() { // the peer of the connection
			defer wg.Done()
			var rg sync.WaitGroup
			rg.Add(1)
			go func() {
				defer rg.Done()
				in.read(rem, rr, mode)
			}()
			out.write(rem, idx, 2)
			if who != "stream" {
				if held {
					<-go2
				}
				rem.CloseWrite()
			}
			rg.Wait()
			_ = rem.Close()
		}()
		herr = rpcstream.HandleRawRpcStream(a, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
			lookups.Add(1)
			gotID = id
			switch fault {
			case "lookup":
				return nil, nil, errCall
			case "lookup-rel":
				return nil, rel, errCall
			case "unknown":
				return nil, nil, nil
			case "unknown-rel":
				return nil, rel, nil
			}
			return mc, rel, nil
		})
		running.Store(false)
		if fault != "" && fault != "ack" {
			_ = rem.Close() // was never connected
		}
		wg.Wait()
		_ = a.Close()
	})
	if !ok {
		_ = a.Close()
		_ = rem.Close()
		_ = loc.Close()
		return
	}
	bad := func(key, format string, args ...any) { x.Rep.Violate(key, idx, desc, format, args...) }
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(desc)), uint64(idx)))
	x.Rep.Count("fault:"+fault, 1)
	if idx%500 == 0 {
		x.Rep.Sample(desc)
	}
	if fault == "no-init" {
		if lookups.Load() != 0 || herr == nil {
			bad("no-init", "%d lookups without an init packet, result %v", lookups.Load(), herr)
		}
		return
	}
	if lookups.Load() != 1 || gotID != comp {
		bad("wrong-component", "%d lookups, of %q", lookups.Load(), gotID)
	}
	wantRel := int32(1)
	if fault == "lookup" || fault == "unknown" {
		wantRel = 0
	}
	if n := rels.Load(); n != wantRel {
		bad("release", "the connection was released %d times", n)
	}
	if fault == "" && loc.Closes() == 0 || fault == "ack" && loc.Closes() == 0 {
		bad("not-closed", "the connection was left open")
	}
	if fault == "ack" {
		if herr == nil {
			bad("wrong-outcome", "serving returned no error although the acknowledgment could not be sent")
		}
		return
	}
	p := &rpcstream.RpcStreamPacket{}
	if len(a.out) == 0 || p.UnmarshalVT(a.out[0]) != nil || p.GetAck() == nil {
		bad("no-ack", "the caller got no acknowledgment")
		return
	}
	if fault != "" {
		want := errCall.Error()
		if strings.HasPrefix(fault, "unknown") {
			want = rpcstream.ErrNoServerForComponent.Error()
		}
		if herr == nil || p.GetAck().GetError() != want {
			bad("wrong-outcome", "the caller got acknowledgment %q, serving returned %v", p.GetAck().GetError(), herr)
		}
		if len(a.out) > 1 {
			bad("extra-packet", "packets were sent after the error")
		}
		return
	}
	if e := p.GetAck().GetError(); e != "" {
		bad("wrong-outcome", "the caller got error %q", e)
	}
	var got []byte
	for _, b := range a.out[1:] {
		p := &rpcstream.RpcStreamPacket{}
		if p.UnmarshalVT(b) != nil || p.GetAck() != nil || p.GetInit() != nil {
			bad("extra-packet", "the caller got packet %x", b)
			return
		}
		got = append(got, p.GetData()...)
	}
	if in.bad != "" {
		bad("read-contract", "%s", in.bad)
	}
	// all bytes of a direction arrive unless the other side ended before
	if d := diffBytes(in.got, in.wrote, !a.failed && connCut == lib.CutNone && (who == "stream" || held)); d != "" {
		bad("wrong-bytes", "stream to connection: %s", d)
	}
	if d := diffBytes(got, out.wrote, !a.failed && (who == "conn" || held)); d != "" {
		bad("wrong-bytes", "connection to stream: %s", d)
	}
	if a.closes == 0 {
		bad("not-closed", "the stream was left open")
	}
	if who == "stream" && aEnd == errRead && herr == nil {
		bad("wrong-outcome", "the stream failed but serving it returned no error")
	}
	x.Rep.Count("bytes-read", len(got)+len(in.got))
}

// c14rawCalls: raw components over real transports, some through a proxy.
func (x *Ctx) c14rawCalls(idx int, r *lib.Rand) {
	kind := lib.PickOf(r, "sim", "yamux-sim", "pipe")
	n := r.Weighted(0, 4, 2, 1, 1)
	type one struct {
		comp     string
		waitAck  bool
		cl, rm   *byteSide
		closer   string // who ends: client-half, client-close, remote, remote-err, unknown
		loc, rem *lib.SimConn
		rels     atomic.Int32
		looked   atomic.Int32
		openErr  error
		mode     int
		rmode    int
		r1, r2   *lib.Rand
	}
	var l []*one
	var brief []any
	for i := range n {
		o := &one{comp: fmt.Sprintf("%s%d", lib.PickOf(r, "c", "x/y", "é ", ""), i), waitAck: r.OneIn(2), cl: &byteSide{name: "client", chunks: chunks(r)}, rm: &byteSide{name: "remote", chunks: chunks(r)},
			closer: lib.PickOf(r, "client-half", "remote", "remote", "client-close", "unknown"), r1: r.Fork(), r2: r.Fork()}
		o.mode, o.rmode = readMode(r, o.rm.chunks), readMode(r, o.cl.chunks)
		o.loc, o.rem = lib.NewSimPair(lib.ConnOpts{Rand: r.Fork(), MaxRead: r.Intn(2) * 3000}, lib.ConnOpts{Rand: r.Fork(), EOFWithData: r.OneIn(2)})
		l = append(l, o)
		brief = append(brief, fmt.Sprint(o.comp, " ", o.closer, " ", o.waitAck, o.cl.chunks, o.rm.chunks))
	}
	desc := map[string]any{"transport": kind, "streams": brief}
	inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		return true, rpcstream.HandleRawRpcStream(&lib.Rs{Stream: strm}, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
			for _, o := range l {
				if o.comp == id {
					o.looked.Add(1)
					if o.closer == "unknown" {
						return nil, nil, lib.ErrNoComp
					}
					return o.loc, func() { o.rels.Add(1) }, nil
				}
			}
			return nil, nil, nil
		})
	})
	tr, err := lib.NewTransport(kind, inv, r.Fork(), nil, false)
	if err != nil {
		x.Rep.Violate("transport", idx, desc, "%v", err)
		return
	}
	defer tr.Close()
	ctx := lib.NewCountCtx()
	s := x.Sched(r)
	ok := x.Do(idx, desc, "calling raw components over "+kind, s, r.Fork(), func() {
		var wg sync.WaitGroup
		for _, o := range l {
			if o.closer != "unknown" {
				wg.Add(1)
				go func() { // the remote
					defer wg.Done()
					var g sync.WaitGroup
					g.Add(1)
					go func() {
						defer g.Done()
						o.rm.read(o.rem, o.r2, o.rmode)
					}()
					o.rm.write(o.rem, idx, 2)
					if o.closer == "remote" {
						o.rem.CloseWrite()
					}
					g.Wait()
				}()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				st, err := rpcstream.OpenRpcStream(ctx, lib.RsCaller(tr.Client, lib.OuterSvc, lib.OuterMethod), o.comp, o.waitAck)
				if err != nil {
					o.openErr = err
					return
				}
				rw := rpcstream.NewRpcStreamReadWriter(st)
				var g sync.WaitGroup
				if o.closer == "client-half" || o.closer == "client-close" {
					g.Add(1)
					go func() {
						defer g.Done()
						o.cl.write(rw, idx, 1)
						if o.closer == "client-half" {
							_ = st.CloseSend()
							return
						}
						_ = rw.Close()
					}()
				} else {
					o.cl.chunks = nil
				}
				o.cl.read(rw, o.r1, o.mode)
				g.Wait()
				_ = rw.Close()
			}()
		}
		wg.Wait()
	})
	ctx.Cancel()
	if !ok {
		for _, o := range l {
			_ = o.rem.Close()
		}
		return
	}
	lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(desc)), uint64(idx)))
	if idx%300 == 0 {
		x.Rep.Sample(desc)
	}
	for i, o := range l {
		bad := func(key, format string, args ...any) {
			x.Rep.Violate(key, idx, desc, "stream %d: "+format, append([]any{i}, args...)...)
		}
		if o.looked.Load() != 1 {
			bad("wrong-component", "%d lookups", o.looked.Load())
		}
		if o.closer == "unknown" {
			if o.waitAck && (o.openErr == nil || !strings.Contains(o.openErr.Error(), lib.ErrNoComp.Error())) {
				bad("wrong-outcome", "opening an unknown component with acknowledgment returned %v", o.openErr)
			}
			if !o.waitAck && (o.openErr != nil || o.cl.end == nil || o.cl.end.Error() != lib.ErrNoComp.Error()) {
				bad("wrong-outcome", "an unknown component: opening returned %v, reading %v", o.openErr, o.cl.end)
			}
			if len(o.cl.got) != 0 {
				bad("wrong-bytes", "bytes from an unknown component")
			}
			continue
		}
		if o.openErr != nil {
			bad("wrong-outcome", "opening failed: %v", o.openErr)
			continue
		}
		if n := o.rels.Load(); n != 1 {
			bad("release", "the connection was released %d times", n)
		}
		if o.loc.Closes() == 0 {
			bad("not-closed", "the connection of the component was left open")
		}
		if o.cl.bad+o.rm.bad != "" {
			bad("read-contract", "%s%s", o.cl.bad, o.rm.bad)
		}
		if d := diffBytes(o.rm.got, o.cl.wrote, o.closer == "client-half"); d != "" {
			bad("wrong-bytes", "client to component: %s", d)
		}
		if d := diffBytes(o.cl.got, o.rm.wrote, o.closer == "remote"); d != "" {
			bad("wrong-bytes", "component to client: %s (ended with %v)", d, o.cl.end)
		}
		x.Rep.Count("bytes-read", len(o.cl.got)+len(o.rm.got))
		x.Rep.Count("raw:"+o.closer, 1)
	}
}
