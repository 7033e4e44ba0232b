package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	ymuxer "github.com/libp2p/go-libp2p/p2p/muxer/yamux"
	yamux "github.com/libp2p/go-yamux/v4"
	"verifharness/lib"
)

func init() { Props["C09"] = c09 }

// hframe is one frame of a hostile peer.
type hframe struct {
	b    []byte // content
	desc string
	// raw: the bytes as they are (not framed), which violate the framing.
	raw bool
}

// hscript is the behaviour of a hostile peer.
type hscript struct {
	Frames  []string `json:"frames"`
	End     string   `json:"end"`
	Handler string   `json:"handler,omitempty"`
	Conn    string   `json:"conn,omitempty"`
	Early   bool     `json:"early,omitempty"`
	Exec    bool     `json:"exec,omitempty"`
	First   bool     `json:"first,omitempty"`
	Sends   int      `json:"sends,omitempty"`
	frames  []hframe
}

// hmodel is what the protocol makes of a packet sequence.
type hmodel struct {
	started     bool
	svc, method string
	msgs        [][]byte
	// completed: the peer ended its side properly (with errText).
	completed bool
	errText   string
	// violated or cancelled by the peer.
	violated, cancelled bool
	// unspecified: what follows is unspecified.
	unspecified bool
	all         [][]byte // data of any valid packet
}

func (m *hmodel) String() string {
	s := fmt.Sprintf("%d messages", len(m.msgs))
	for _, x := range []struct {
		b bool
		s string
	}{{m.started, "started"}, {m.completed, "completed"}, {m.violated, "violated"}, {m.cancelled, "cancelled"}, {m.unspecified, "unspecified"}} {
		if x.b {
			s += " " + x.s
		}
	}
	return s
}

func (m *hmodel) msg(p *lib.WPacket) {
	if len(p.Data) != 0 || p.DataIsZero {
		m.msgs = append(m.msgs, p.Data)
	}
}

// model computes what a server (or client) makes of the frames.
func model(frames []hframe, client bool) *hmodel {
	m := &hmodel{}
	pre := false
	for _, f := range frames {
		if f.raw {
			m.violated = true
			return m
		}
		p, err := lib.Decode(f.b)
		if err == lib.ErrGrey {
			m.unspecified = true
			return m
		}
		if err != nil || !p.Valid() {
			m.violated = true
			return m
		}
		if p.IsMsg() {
			m.all = append(m.all, p.Data)
		}
		switch p.Kind {
		case lib.WStart:
			if client || m.started || m.cancelled {
				m.violated = true
				return m
			}
			if pre { // data before the start
				m.unspecified = true
			}
			m.started, m.svc, m.method = true, p.Service, p.Method
			m.msg(p)
		case lib.WData:
			if m.completed || m.cancelled {
				m.violated = true
				return m
			}
			if !client && !m.started {
				pre = true
			}
			m.msg(p)
			if p.Complete || p.Error != "" {
				m.completed, m.errText = true, p.Error
			}
		case lib.WCancel:
			if p.Cancel {
				m.cancelled = true
			}
		}
	}
	return m
}

// hostileFrames makes the frames of a hostile peer: mostly a valid sequence
// with something wrong.
func hostileFrames(r *lib.Rand, client bool) (out []hframe) {
	add := func(p *lib.WPacket) { out = append(out, hframe{b: encPacket(r, p), desc: p.String()}) }
	data := func() []byte {
		if r.OneIn(5) {
			return r.Bytes(lib.PickOf(r, 2040, 3000, 9000))
		}
		return r.Bytes(r.Range(1, 20))
	}
	start := func() *lib.WPacket {
		p := &lib.WPacket{Kind: lib.WStart, Service: "hostile", Method: fmt.Sprint("h", r.Intn(3))}
		if r.OneIn(2) {
			p.Data = data()
		} else if r.OneIn(3) {
			p.DataIsZero = true
		}
		return p
	}
	if !client && !r.OneIn(12) {
		if r.OneIn(20) { // too late
			add(&lib.WPacket{Kind: lib.WCancel, Cancel: true})
		}
		add(start())
	}
	n := r.Intn(7)
	for range n {
		switch r.Weighted(10, 2, 3, 2, 2, 1, 2, 1, 1) {
		case 0:
			add(&lib.WPacket{Kind: lib.WData, Data: data()})
		case 1:
			add(&lib.WPacket{Kind: lib.WData, DataIsZero: true})
		case 2:
			p := &lib.WPacket{Kind: lib.WData, Complete: !r.OneIn(4)}
			if r.OneIn(3) {
				p.Data = data()
			} else if r.OneIn(4) {
				p.DataIsZero = true
			}
			if !p.Complete || r.OneIn(3) {
				p.Error = "remote failed"
			}
			add(p)
		case 3:
			add(&lib.WPacket{Kind: lib.WCancel, Cancel: !r.OneIn(3)})
		case 4:
			add(start())
		case 5: // invalid packets
			add(lib.PickOf(r, &lib.WPacket{Kind: lib.WStart, Method: "h0"}, &lib.WPacket{Kind: lib.WStart, Service: "hostile"}, &lib.WPacket{Kind: lib.WStart, Data: []byte("x")}, &lib.WPacket{Kind: lib.WData}))
		case 6: // undecodable
			b := hostile(r, codecs[0])
			if len(b) == 0 {
				b = []byte{0}
			}
			out = append(out, hframe{b: b, desc: fmt.Sprintf("bytes %x", b)})
		case 7: // no body
			b := vunknown(r, 4)
			out = append(out, hframe{b: b, desc: fmt.Sprintf("unknown %x", b)})
		case 8: // broken framing
			b := []byte{0, 0, 0, 0}
			if r.OneIn(2) {
				b = binary.LittleEndian.AppendUint32(nil, uint32(frameLimit)+1+uint32(r.Intn(1<<30)))
			}
			b = append(b, r.Bytes(r.Intn(30))...)
			out = append(out, hframe{b: b, raw: true, desc: fmt.Sprintf("framing %x", b)})
		}
		if last := &out[len(out)-1]; len(last.b) == 0 { // an empty frame is broken framing
			*last = hframe{b: []byte{0, 0, 0, 0}, raw: true, desc: "empty frame"}
		}
	}
	return out
}

func (h *hscript) names() {
	h.Frames = h.Frames[:0]
	for _, f := range h.frames {
		h.Frames = append(h.Frames, f.desc)
	}
}

func (h *hscript) sig() uint64 {
	s := lib.Mix(lib.HashStr(h.End), lib.HashStr(h.Handler), uint64(h.Sends))
	for _, f := range h.frames {
		s = lib.Mix(s, lib.HashStr(string(f.b)))
	}
	return s
}

// feed writes the frames.
func (h *hscript) feed(w io.Writer) {
	for _, f := range h.frames {
		b := f.b
		if !f.raw {
			b = lib.Frame(b)
		}
		if _, err := w.Write(b); err != nil {
			return
		}
	}
}

// hhandler is the handler of hostile calls.
type hhandler struct {
	kind string
	// mustCancel: wait for the end of the context.
	mustCancel bool
	sends      int
	fail       bool

	invoked     atomic.Int32
	svc, method string
	got         [][]byte
	end         error
	sent        [][]byte
	ctxErr      error
	done        chan struct{}
}

func (h *hhandler) InvokeMethod(svc, method string, strm srpc.Stream) (bool, error) {
	if h.invoked.Add(1) != 1 {
		return true, nil
	}
	defer close(h.done)
	h.svc, h.method = svc, method
	for i := range h.sends {
		b := lib.Content(9, 1, i, 30)
		if strm.MsgSend(srpc.NewRawMessage(b, true)) == nil {
			h.sent = append(h.sent, b)
		}
	}
	switch h.kind {
	case "read":
		for {
			m := srpc.NewRawMessage(nil, true)
			if h.end = strm.MsgRecv(m); h.end != nil {
				break
			}
			h.got = append(h.got, m.GetData())
		}
	case "return":
		if h.fail {
			return true, errors.New("handler error")
		}
		return true, nil
	}
	if h.mustCancel {
		<-strm.Context().Done()
	}
	h.ctxErr = strm.Context().Err()
	if h.fail {
		return true, errors.New("handler error")
	}
	return true, nil
}

// checkHandler compares what the handler saw with the model.
func (x *Ctx) checkHandler(idx int, c any, m *hmodel, h *hhandler, end string) {
	n := int(h.invoked.Load())
	if n > 1 {
		x.Rep.Violate("invoked-twice", idx, c, "the handler was invoked %d times for one stream", n)
	}
	if !m.unspecified {
		if n != 0 && !m.started {
			x.Rep.Violate("invoked-without-start", idx, c, "the handler was invoked for %q %q without a valid call start", h.svc, h.method)
			return
		}
		if n == 0 && m.started {
			x.Rep.Violate("not-invoked", idx, c, "the handler was not invoked after a valid call start")
			return
		}
	}
	if n == 0 {
		return
	}
	if (!m.unspecified || m.started) && (h.svc != m.svc || h.method != m.method) {
		x.Rep.Violate("wrong-method", idx, c, "the handler was invoked with %q %q, the call start named %q %q", h.svc, h.method, m.svc, m.method)
	}
	if h.kind != "read" {
		return
	}
	if m.unspecified {
		for i, d := range h.got {
			ok := i >= len(m.all) // data after the unspecified packet
			for _, a := range m.all {
				ok = ok || bytes.Equal(a, d)
			}
			if !ok {
				x.Rep.Violate("wrong-message", idx, c, "the handler received message %d which was not in a packet", i)
			}
		}
		return
	}
	for i, d := range h.got {
		if i >= len(m.msgs) {
			x.Rep.Violate("extra-message", idx, c, "the handler received %d messages, %d were sent in valid packets before the end or violation (%v)", len(h.got), len(m.msgs), m)
			return
		}
		if !bytes.Equal(d, m.msgs[i]) {
			x.Rep.Violate("wrong-message", idx, c, "message %d differs from the one sent", i)
			return
		}
	}
	switch {
	case m.completed && !m.violated && !m.cancelled:
		if len(h.got) != len(m.msgs) {
			x.Rep.Violate("lost-message", idx, c, "the handler received %d of %d messages, then %v", len(h.got), len(m.msgs), h.end)
		}
		// the loss of the connection may replace the end on the server
		if end != "open" && end != "eof" {
			break
		}
		if m.errText == "" && h.end != io.EOF || m.errText != "" && (h.end == nil || h.end.Error() != m.errText) {
			x.Rep.Violate("wrong-end", idx, c, "the peer completed with error %q, the handler received %v", m.errText, h.end)
		}
		if end == "open" && h.ctxErr != nil {
			x.Rep.Violate("context-cancelled", idx, c, "the context of the handler was cancelled although the stream was neither violated nor cancelled nor closed")
		}
	case !m.completed:
		if h.end == io.EOF {
			x.Rep.Violate("violation-as-end", idx, c, "the stream was violated or cancelled (%v) before it was completed, the handler received io.EOF", m)
		}
	}
}

// checkOutput checks the bytes a server wrote.
func (x *Ctx) checkOutput(idx int, c any, ps []*lib.WPacket, h *hhandler) {
	done := false
	k := 0
	for _, p := range ps {
		switch {
		case p.Kind == lib.WNone || p.Kind == lib.WStart:
			x.Rep.Violate("bad-output", idx, c, "the server sent %v", p)
		case done:
			x.Rep.Violate("bad-output", idx, c, "the server sent %v after it completed the call", p)
		case p.Kind == lib.WData && p.IsMsg():
			if k >= len(h.sent) || !bytes.Equal(h.sent[k], p.Data) {
				x.Rep.Violate("bad-output", idx, c, "the server sent a message which the handler did not send")
			}
			k++
		}
		if p.Kind == lib.WData && (p.Complete || p.Error != "") {
			done = true
			if h.invoked.Load() == 1 && (p.Error != "") != h.fail {
				x.Rep.Violate("wrong-outcome", idx, c, "the handler returned an error: %v, the server completed with error %q", h.fail, p.Error)
			}
		}
	}
}

func c09(x *Ctx) {
	x.Each("server", 3000, x.c09server)
	x.Each("client", 3000, x.c09client)
	x.Each("server-bystanders", 500, x.c09serverBystanders)
	x.Each("client-bystanders", 400, x.c09clientBystanders)
	x.Each("nested", 1500, x.c09nested)
	x.Each("raw-muxed", 200, x.c09rawMuxed)
}

func (x *Ctx) c09server(idx int, r *lib.Rand) {
	sc := &hscript{frames: hostileFrames(r, false), End: lib.PickOf(r, "eof", "cut", "close", "open", "open"), Handler: lib.PickOf(r, "read", "read", "read", "wait", "return"), Sends: r.Weighted(3, 1, 1)}
	sc.names()
	m := model(sc.frames, false)
	if m.unspecified {
		sc.Handler = "read"
	}
	if sc.End == "open" && (m.unspecified || !m.completed && !m.violated && !m.cancelled || m.completed && !m.started) {
		sc.End = "cut"
	}
	h := &hhandler{kind: sc.Handler, sends: sc.Sends, fail: r.OneIn(3), done: make(chan struct{}), mustCancel: sc.End != "open" || m.violated || m.cancelled}
	ab, ba := lib.DefaultConn(r.Fork())(0)
	ba.Cap = 0 // the peer may not read
	a, b := lib.NewSimPair(ab, ba)
	b.Record()
	ctx := lib.NewCountCtx()
	ok := x.Do(idx, sc, fmt.Sprintf("serving a hostile stream (%v)", m), x.Sched(r), r.Fork(), func() {
		srv := srpc.NewServer(h)
		fed := make(chan struct{})
		go func() {
			defer close(fed)
			sc.feed(a)
			switch sc.End {
			case "eof":
				a.CloseWrite()
			case "cut":
				a.Cut(lib.CutErr)
			case "close":
				_ = a.Close()
			}
		}()
		srv.HandleStream(ctx, b)
		<-fed
		if m.started && !m.unspecified {
			<-h.done
		}
	})
	if !ok {
		_ = a.Close()
		_ = b.Close()
		ctx.Cancel()
		return
	}
	gs := lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
	if (!m.started || m.unspecified) && h.invoked.Load() != 0 && gs != nil {
		select {
		case <-h.done:
		default:
			x.Rep.Violate("stuck", idx, sc, "a handler is left:\n%s", Describe(gs))
			ctx.Cancel()
			return
		}
	}
	x.checkHandler(idx, sc, m, h, sc.End)
	if b.Closes() == 0 {
		x.Rep.Violate("not-closed", idx, sc, "the server did not close the stream after it ended (%v)", m)
	}
	ps, _, _, err := lib.DecodeStream(b.Recorded())
	if err != nil {
		x.Rep.Violate("bad-output", idx, sc, "the server sent an invalid packet")
	}
	x.checkOutput(idx, sc, ps, h)
	x.count09("server", sc, m)
	_ = a.Close()
	ctx.Cancel()
}

func (x *Ctx) count09(what string, sc *hscript, m *hmodel) {
	x.Rep.Eval(lib.Mix(lib.HashStr(what), sc.sig()))
	x.Rep.Count("frames", len(sc.frames))
	x.Rep.Count("end:"+sc.End, 1)
	for _, s := range strings.Fields(m.String())[2:] {
		x.Rep.Count("streams:"+s, 1)
	}
	if x.Rep.Evaluations%200 == 1 {
		x.Rep.Sample(sc)
	}
}

func (x *Ctx) c09client(idx int, r *lib.Rand) {
	sc := &hscript{frames: hostileFrames(r, true), End: lib.PickOf(r, "eof", "cut", "close", "open", "open"), Exec: r.OneIn(3), First: r.OneIn(2), Sends: r.Intn(3), Early: r.OneIn(6)}
	sc.names()
	m := model(sc.frames, true)
	if m.unspecified && sc.End == "open" {
		sc.End = "cut"
	}
	ab, ba := lib.DefaultConn(r.Fork())(0)
	ab.Cap = 0
	a, b := lib.NewSimPair(ab, ba)
	ctx := lib.NewCountCtx()
	var got [][]byte
	var more []error
	var openErr, end error
	cancelled := false
	ok := x.Do(idx, sc, fmt.Sprintf("a call to a hostile server (%v)", m), x.Sched(r), r.Fork(), func() {
		cl := srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
			prw := srpc.NewPacketReadWriter(a)
			go prw.ReadPump(mh, ch)
			return prw, nil
		})
		fed := make(chan struct{})
		go func() {
			defer close(fed)
			if !sc.Early { // wait for the call start
				var hd [4]byte
				if _, err := io.ReadFull(b, hd[:]); err != nil {
					return
				}
				if _, err := io.ReadFull(b, make([]byte, binary.LittleEndian.Uint32(hd[:]))); err != nil {
					return
				}
			}
			sc.feed(b)
			switch sc.End {
			case "eof":
				b.CloseWrite()
			case "cut":
				b.Cut(lib.CutErr)
			case "close":
				_ = b.Close()
			}
		}()
		endless := sc.End == "open" && !m.completed && !m.violated && !m.cancelled
		if sc.Exec {
			if endless && len(m.msgs) == 0 {
				cancelled = true
				go func() { <-fed; ctx.Cancel() }()
			}
			out := srpc.NewRawMessage(nil, true)
			end = cl.ExecCall(ctx, "hostile", "h", srpc.NewRawMessage([]byte("x"), true), out)
			if end == nil {
				got = append(got, out.GetData())
			}
			<-fed
			return
		}
		var first srpc.Message
		if sc.First {
			first = srpc.NewRawMessage([]byte("x"), true)
		}
		strm, err := cl.NewStream(ctx, "hostile", "h", first)
		if err != nil {
			openErr = err
			_ = a.Close()
			<-fed
			return
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range sc.Sends {
				_ = strm.MsgSend(srpc.NewRawMessage([]byte("y"), true))
			}
			_ = strm.CloseSend()
		}()
		for {
			if endless && len(got) == len(m.msgs) {
				cancelled = true
				go ctx.Cancel()
			}
			msg := srpc.NewRawMessage(nil, true)
			if end = strm.MsgRecv(msg); end != nil {
				break
			}
			got = append(got, msg.GetData())
			if len(got) > len(sc.frames)+1 {
				break
			}
		}
		wg.Wait()
		<-fed
		for range 2 {
			more = append(more, strm.MsgRecv(srpc.NewRawMessage(nil, true)))
		}
		_ = strm.Close()
	})
	defer func() {
		_ = a.Close()
		_ = b.Close()
		ctx.Cancel()
	}()
	if !ok {
		return
	}
	x.count09("client", sc, m)
	if openErr != nil {
		if !sc.Early {
			x.Rep.Violate("open-failed", idx, sc, "opening the stream failed: %v", openErr)
		}
		return
	}
	if m.unspecified {
		return
	}
	for i, d := range got {
		if i >= len(m.msgs) {
			x.Rep.Violate("extra-message", idx, sc, "the client received %d messages, %d were sent in valid packets before the end or violation (%v)", len(got), len(m.msgs), m)
			return
		}
		if !bytes.Equal(d, m.msgs[i]) {
			x.Rep.Violate("wrong-message", idx, sc, "message %d differs from the one sent", i)
			return
		}
	}
	if sc.Exec {
		if end == nil {
			return
		}
		if len(m.msgs) != 0 && !sc.Early {
			x.Rep.Violate("lost-message", idx, sc, "the response arrived but the call failed with %v", end)
		}
		if len(m.msgs) == 0 && m.completed && m.errText != "" && end.Error() != m.errText && !sc.Early {
			x.Rep.Violate("wrong-outcome", idx, sc, "the server completed with error %q, the call returned %v", m.errText, end)
		}
		return
	}
	switch {
	case m.completed:
		if len(got) != len(m.msgs) {
			x.Rep.Violate("lost-message", idx, sc, "the client received %d of %d messages, then %v", len(got), len(m.msgs), end)
		}
		if m.errText == "" && end != io.EOF || m.errText != "" && (end == nil || end.Error() != m.errText) {
			x.Rep.Violate("wrong-outcome", idx, sc, "the server completed with error %q, then (%v, %s), the client received %v", m.errText, m, sc.End, end)
		}
	default:
		if end == io.EOF {
			x.Rep.Violate("violation-as-end", idx, sc, "the call was not completed (%v, %s) but the client received io.EOF", m, sc.End)
		}
	}
	if !cancelled {
		for _, e := range more {
			if e == nil || e.Error() != end.Error() {
				x.Rep.Violate("outcome-changed", idx, sc, "the client received %v, and then %v", end, e)
				break
			}
		}
	}
}

// c09nested: a hostile client of a nested stream.
func (x *Ctx) c09nested(idx int, r *lib.Rand) {
	sc := &hscript{End: lib.PickOf(r, "eof", "err", "open"), Handler: lib.PickOf(r, "read", "read", "wait", "return"), Sends: r.Weighted(3, 1, 1)}
	st := newScriptStream()
	comp := lib.PickOf(r, "comp", "comp", "comp", "comp", "unknown", "broken", "")
	bad := r.OneIn(8)
	if bad {
		st.in = append(st.in, toR(lib.PickOf(r, &lib.RPacket{}, &lib.RPacket{Kind: lib.RAck}, &lib.RPacket{Kind: lib.RData, Data: []byte("x")}, &lib.RPacket{Kind: lib.RData})))
	}
	st.in = append(st.in, toR(&lib.RPacket{Kind: lib.RInit, Str: comp}))
	found := comp == "comp" && !bad
	for _, f := range hostileFrames(r, false) {
		if f.raw {
			continue
		}
		if r.OneIn(5) { // packets without data are skipped
			st.in = append(st.in, toR(lib.PickOf(r, &lib.RPacket{}, &lib.RPacket{Kind: lib.RAck}, &lib.RPacket{Kind: lib.RInit, Str: "comp"}, &lib.RPacket{Kind: lib.RData})))
		}
		st.in = append(st.in, toR(&lib.RPacket{Kind: lib.RData, Data: f.b}))
		sc.frames = append(sc.frames, f)
	}
	sc.names()
	sc.Conn = comp
	m := model(sc.frames, false)
	if sc.End == "open" && (m.unspecified || !m.completed && !m.violated && !m.cancelled || !m.started || !found) {
		sc.End = "err"
	}
	switch sc.End {
	case "eof":
		st.end = io.EOF
	case "err":
		st.end = errRead
	}
	h := &hhandler{kind: sc.Handler, sends: sc.Sends, fail: r.OneIn(3), done: make(chan struct{}), mustCancel: sc.End != "open" || m.violated || m.cancelled}
	if m.unspecified {
		h.kind = "read"
	}
	var lookups, rels atomic.Int32
	var gotID string
	relEarly := false
	var herr error
	desc := map[string]any{"script": sc, "component": comp, "bad_first": bad}
	ok := x.Do(idx, desc, fmt.Sprintf("serving a hostile nested stream (%v)", m), x.Sched(r), r.Fork(), func() {
		herr = rpcstream.HandleRpcStream(st, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
			lookups.Add(1)
			gotID = id
			switch id {
			case "comp":
				return srpc.InvokerFunc(func(s, me string, strm srpc.Stream) (bool, error) {
					relEarly = relEarly || rels.Load() != 0
					return h.InvokeMethod(s, me, strm)
				}), func() { rels.Add(1) }, nil
			case "broken":
				return nil, nil, errors.New("lookup failed")
			}
			return nil, nil, nil
		})
		if found && m.started && !m.unspecified {
			<-h.done
		}
	})
	if !ok {
		st.cancel()
		return
	}
	lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
	st.cancel()
	x.count09("nested", sc, m)
	if bad {
		if lookups.Load() != 0 || h.invoked.Load() != 0 {
			x.Rep.Violate("invoked-without-start", idx, desc, "a component was looked up although the first packet is not an init packet")
		}
		if herr == nil {
			x.Rep.Violate("wrong-outcome", idx, desc, "a nested stream without init packet was served without error")
		}
		return
	}
	if lookups.Load() != 1 || gotID != comp {
		x.Rep.Violate("lookup", idx, desc, "%d lookups, of %q, for component %q", lookups.Load(), gotID, comp)
	}
	out := st.output()
	if len(out) == 0 || out[0].GetAck() == nil && out[0].GetBody() == nil {
		x.Rep.Violate("no-ack", idx, desc, "the first packet sent is not an acknowledgment")
		return
	}
	ack := fromR(out[0])
	if !found {
		if h.invoked.Load() != 0 {
			x.Rep.Violate("invoked-without-start", idx, desc, "the handler was invoked for component %q", comp)
		}
		if ack.Kind != lib.RAck || ack.Str == "" || herr == nil {
			x.Rep.Violate("no-ack", idx, desc, "component %q: acknowledgment %+v, result %v", comp, ack, herr)
		}
		return
	}
	if ack.Kind != lib.RAck || ack.Str != "" {
		x.Rep.Violate("no-ack", idx, desc, "component found: acknowledgment %+v", ack)
	}
	x.checkHandler(idx, desc, m, h, sc.End)
	var ps []*lib.WPacket
	for _, o := range out[1:] {
		q := fromR(o)
		if q.Kind != lib.RData {
			x.Rep.Violate("bad-output", idx, desc, "nested stream packet %+v was sent", q)
			continue
		}
		p, err := lib.Decode(q.Data)
		if err != nil {
			x.Rep.Violate("bad-output", idx, desc, "an invalid packet was sent: %x", q.Data)
			continue
		}
		ps = append(ps, p)
	}
	x.checkOutput(idx, desc, ps, h)
	if rels.Load() != 1 {
		x.Rep.Violate("release", idx, desc, "the component was released %d times", rels.Load())
	}
	if relEarly && !m.violated && !m.cancelled && m.errText == "" && sc.End == "open" {
		x.Rep.Violate("release", idx, desc, "the component was released before the call was served")
	}
}

// scriptStream is a nested stream with scripted input.
type scriptStream struct {
	ctx    *lib.CountCtx
	mtx    sync.Mutex
	in     []*rpcstream.RpcStreamPacket
	end    error
	out    []*rpcstream.RpcStreamPacket
	closes int
	halfs  int
	closed chan struct{}
	// sendErr, if set, fails from the n-th send on.
	sendErr   error
	sendErrAt int
	nsend     int
	recvs     atomic.Int64
}

func newScriptStream() *scriptStream {
	return &scriptStream{ctx: lib.NewCountCtx(), closed: make(chan struct{})}
}

func (s *scriptStream) cancel() { s.ctx.Cancel() }
func (s *scriptStream) output() []*rpcstream.RpcStreamPacket {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	return append([]*rpcstream.RpcStreamPacket(nil), s.out...)
}
func (s *scriptStream) Context() context.Context { return s.ctx }
func (s *scriptStream) Send(p *rpcstream.RpcStreamPacket) error {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	if s.ctx.Err() != nil {
		return context.Canceled
	}
	if s.closes != 0 {
		return io.ErrClosedPipe
	}
	if s.nsend++; s.sendErr != nil && s.nsend > s.sendErrAt {
		return s.sendErr
	}
	b, err := p.MarshalVT()
	if err != nil {
		return err
	}
	q := &rpcstream.RpcStreamPacket{}
	if err := q.UnmarshalVT(b); err != nil {
		return err
	}
	s.out = append(s.out, q)
	return nil
}
func (s *scriptStream) Recv() (*rpcstream.RpcStreamPacket, error) {
	s.mtx.Lock()
	if len(s.in) != 0 && s.closes == 0 {
		p := s.in[0]
		s.in = s.in[1:]
		s.recvs.Add(1)
		s.mtx.Unlock()
		return p, nil
	}
	end, closed := s.end, s.closes != 0
	s.mtx.Unlock()
	if closed {
		return nil, context.Canceled
	}
	if end != nil {
		return nil, end
	}
	select {
	case <-s.ctx.Done():
	case <-s.closed:
	}
	return nil, context.Canceled
}
func (s *scriptStream) MsgSend(m srpc.Message) error {
	b, err := m.MarshalVT()
	if err != nil {
		return err
	}
	p := &rpcstream.RpcStreamPacket{}
	if err := p.UnmarshalVT(b); err != nil {
		return err
	}
	return s.Send(p)
}
func (s *scriptStream) MsgRecv(m srpc.Message) error {
	p, err := s.Recv()
	if err != nil {
		return err
	}
	b, err := p.MarshalVT()
	if err != nil {
		return err
	}
	return m.UnmarshalVT(b)
}
func (s *scriptStream) CloseSend() error {
	s.mtx.Lock()
	s.halfs++
	s.mtx.Unlock()
	return nil
}
func (s *scriptStream) Close() error {
	s.mtx.Lock()
	s.closes++
	first := s.closes == 1
	s.mtx.Unlock()
	if first {
		close(s.closed)
	}
	return nil
}

// yamuxPair connects two sessions.
func yamuxPair(r *lib.Rand) (cs, ss *yamux.Session, err error) {
	var ca, cb net.Conn
	if r.OneIn(2) {
		ca, cb = net.Pipe()
	} else {
		ab, ba := lib.DefaultConn(r.Fork())(0)
		ca, cb = lib.NewSimPair(ab, ba)
	}
	if cs, err = yamux.Client(ca, srpc.NewYamuxConfig(), nil); err != nil {
		return
	}
	ss, err = yamux.Server(cb, srpc.NewYamuxConfig(), nil)
	return
}

// bystanders makes well-behaved calls.
func (x *Ctx) bystanders(r *lib.Rand) *lib.World {
	var specs []*lib.CallSpec
	for i := range r.Range(1, 4) {
		specs = append(specs, lib.GenCall(r, i, lib.GenOpts{Mix: lib.PlainMix, MaxMsgs: 4}))
	}
	return lib.NewWorld(specs)
}

func (x *Ctx) checkWorld(idx int, c any, w *lib.World) {
	for _, e := range w.Check(lib.CheckOpts{}) {
		x.Rep.Violate("bystander:"+e[0], idx, c, "a call next to hostile streams: %s", e[1])
	}
	x.Rep.Count("bystander-calls", len(w.Calls))
}

// c09serverBystanders: hostile streams next to calls on one connection.
func (x *Ctx) c09serverBystanders(idx int, r *lib.Rand) {
	w := x.bystanders(r)
	var scs []*hscript
	for range r.Range(1, 5) {
		sc := &hscript{frames: hostileFrames(r, false), End: lib.PickOf(r, "close", "reset", "half", "open")}
		sc.names()
		scs = append(scs, sc)
	}
	cs, ss, err := yamuxPair(r)
	if err != nil {
		x.Rep.Violate("transport", idx, nil, "%v", err)
		return
	}
	inv := w.Invoker()
	srv := srpc.NewServer(srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		if strings.Contains(m, "-") {
			return inv.InvokeMethod(svc, m, strm)
		}
		for {
			if err := strm.MsgRecv(srpc.NewRawMessage(nil, true)); err != nil {
				return true, nil
			}
		}
	}))
	sctx := lib.NewCountCtx()
	defer func() {
		_ = cs.Close()
		_ = ss.Close()
		sctx.Cancel()
		w.ReleaseCtxs()
	}()
	ok := x.Do(idx, scs, "calls next to hostile streams", x.Sched(r), r.Fork(), func() {
		go func() { _ = srv.AcceptMuxedConn(sctx, ymuxer.NewMuxedConn(ss)) }()
		var wg sync.WaitGroup
		over := make(chan struct{})
		for _, sc := range scs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				s, err := cs.OpenStream(context.Background())
				if err != nil {
					return
				}
				// a server which closed the stream does not read on
				go func() { <-over; _ = s.Reset() }()
				sc.feed(s)
				switch sc.End {
				case "close":
					_ = s.Close()
				case "reset":
					_ = s.Reset()
				case "half":
					_ = s.CloseWrite()
				}
			}()
		}
		w.Run(srpc.NewClientWithMuxedConn(ymuxer.NewMuxedConn(cs)))
		close(over)
		wg.Wait()
	})
	if !ok {
		return
	}
	x.checkWorld(idx, scs, w)
	for _, sc := range scs {
		x.count09("server-bystanders", sc, model(sc.frames, false))
	}
}

type prefixed struct {
	io.ReadWriteCloser
	r io.Reader
}

func (p *prefixed) Read(b []byte) (int, error) { return p.r.Read(b) }

// c09clientBystanders: a server which misbehaves in some of the calls.
func (x *Ctx) c09clientBystanders(idx int, r *lib.Rand) {
	w := x.bystanders(r)
	var scs []*hscript
	for range r.Range(1, 5) {
		sc := &hscript{frames: hostileFrames(r, true), End: lib.PickOf(r, "close", "reset", "half", "open"), Exec: r.OneIn(2)}
		sc.names()
		scs = append(scs, sc)
	}
	cs, ss, err := yamuxPair(r)
	if err != nil {
		x.Rep.Violate("transport", idx, nil, "%v", err)
		return
	}
	sctx := lib.NewCountCtx()
	hctx := lib.NewCountCtx()
	defer func() {
		_ = cs.Close()
		_ = ss.Close()
		sctx.Cancel()
		hctx.Cancel()
		w.ReleaseCtxs()
	}()
	srv := srpc.NewServer(w.Invoker())
	ok := x.Do(idx, scs, "calls next to calls in which the server misbehaves", x.Sched(r), r.Fork(), func() {
		go func() {
			for {
				s, err := ss.AcceptStream()
				if err != nil {
					return
				}
				go func() {
					var hd [4]byte
					if _, err := io.ReadFull(s, hd[:]); err != nil {
						_ = s.Close()
						return
					}
					body := make([]byte, binary.LittleEndian.Uint32(hd[:]))
					if _, err := io.ReadFull(s, body); err != nil {
						_ = s.Close()
						return
					}
					p, err := lib.Decode(body)
					if err != nil || p.Service != "hostile" {
						srv.HandleStream(sctx, &prefixed{s, io.MultiReader(bytes.NewReader(hd[:]), bytes.NewReader(body), s)})
						return
					}
					k := 0
					_, _ = fmt.Sscan(p.Method, &k)
					scs[k].feed(s)
					switch scs[k].End {
					case "close":
						_ = s.Close()
					case "reset":
						_ = s.Reset()
					case "half":
						_ = s.CloseWrite()
					}
				}()
			}
		}()
		cl := srpc.NewClientWithMuxedConn(ymuxer.NewMuxedConn(cs))
		var wg sync.WaitGroup
		for k, sc := range scs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if sc.Exec {
					_ = cl.ExecCall(hctx, "hostile", fmt.Sprint(k), srpc.NewRawMessage([]byte("x"), true), srpc.NewRawMessage(nil, true))
					return
				}
				s, err := cl.NewStream(hctx, "hostile", fmt.Sprint(k), nil)
				if err != nil {
					return
				}
				for {
					if err := s.MsgRecv(srpc.NewRawMessage(nil, true)); err != nil {
						break
					}
				}
				_ = s.Close()
			}()
		}
		w.Run(cl)
		hctx.Cancel()
		wg.Wait()
	})
	if !ok {
		return
	}
	x.checkWorld(idx, scs, w)
	for _, sc := range scs {
		x.count09("client-bystanders", sc, model(sc.frames, true))
	}
}

// c09rawMuxed: a connection which does not follow the protocol of the muxer.
func (x *Ctx) c09rawMuxed(idx int, r *lib.Rand) {
	ab, ba := lib.DefaultConn(r.Fork())(0)
	ba.Cap = 0
	a, b := lib.NewSimPair(ab, ba)
	raw := r.Bytes(r.Intn(200))
	if r.OneIn(2) && len(raw) > 12 { // a valid header first
		copy(raw, []byte{0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0})
	}
	end := lib.PickOf(r, "eof", "cut", "close")
	desc := map[string]any{"bytes": raw, "end": end}
	ctx := lib.NewCountCtx()
	srv := srpc.NewServer(srpc.InvokerFunc(func(string, string, srpc.Stream) (bool, error) { return false, nil }))
	var aerr error
	ok := x.Do(idx, desc, "accepting streams of an invalid connection", x.Sched(r), r.Fork(), func() {
		mc, err := srpc.NewMuxedConn(b, false, nil)
		if err != nil {
			aerr = err
			return
		}
		go func() {
			_, _ = a.Write(raw)
			switch end {
			case "eof":
				a.CloseWrite()
			case "cut":
				a.Cut(lib.CutErr)
			case "close":
				_ = a.Close()
			}
		}()
		aerr = srv.AcceptMuxedConn(ctx, mc)
		_ = mc.Close()
	})
	_ = a.Close()
	_ = b.Close()
	ctx.Cancel()
	if ok && aerr == nil {
		x.Rep.Violate("wrong-outcome", idx, desc, "accepting streams of an invalid connection ended without error")
	}
	x.Rep.Eval(lib.Mix(9, lib.HashStr(string(raw))))
}
