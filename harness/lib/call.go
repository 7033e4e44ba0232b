package lib

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/aperturerobotics/starpc/srpc"
)

// Content is the content of a message: unique by call, direction and index.
func Content(call, dir, idx, size int) []byte {
	b := NewRand(uint64(call), uint64(dir), uint64(idx), uint64(size)).Bytes(size)
	return b
}

// Size picks a message size.
func Size(r *Rand, big int) int {
	switch r.Weighted(14, 30, 25, 16, 8, big) {
	case 0:
		return 0
	case 1:
		return r.Range(1, 24)
	case 2:
		return r.Range(25, 400)
	case 3:
		return PickOf(r, 126, 127, 128, 2030, 2040, 2044, 2048, 4090, 4096, 8192) + r.Range(-3, 3)
	case 4:
		return r.Range(1000, 20000)
	default:
		return PickOf(r, 65536, 200000, 262144, 300000, 700000) + r.Range(-2, 2)
	}
}

// Op kinds of scripts.
const (
	OpSend = iota
	OpCloseSend
	OpYield
	OpRecv     // receive one message (must not be the end)
	OpRecvEnd  // receive until the end
	OpRecvMore // receive again after the end
	OpWaitCtx  // wait for the context
	OpClose    // close the stream
	OpCancel   // cancel the call context (client)
	OpSignal   // signal Arg
	OpWaitSig  // wait for signal Arg (released too if the call ended)
	OpRecvSend // echo: receive one, send one
	OpHook     // call World.Hook
	OpOthers   // wait until all calls which do not wait for the others ended
)

// Op is one step of a script.
type Op struct {
	K   int `json:"k"`
	Arg int `json:"a,omitempty"`
}

// CallSpec is one call.
type CallSpec struct {
	ID       int      `json:"id"`
	Exec     bool     `json:"exec,omitempty"`
	Svc      string   `json:"svc"`
	Method   string   `json:"method"`
	HasFirst bool     `json:"first,omitempty"`
	FirstSz  int      `json:"fsz,omitempty"`
	C        [][]Op   `json:"c"` // client goroutines
	S        [][]Op   `json:"s"` // server goroutines (the last is run by the handler)
	SRet     string   `json:"sret,omitempty"`
	Ret      int      `json:"ret"` // RetNil...
	Cancels  bool     `json:"cancels,omitempty"`
	Early    bool     `json:"early,omitempty"` // the handler returns without waiting for the other server goroutines
	Reuse    bool     `json:"reuse,omitempty"` // receive into one reused message
	NoClose  bool     `json:"noclose,omitempty"`
	Waits    bool     `json:"waits,omitempty"` // waits for the other calls
	Arche    string   `json:"arche"`
	PreCancl bool     `json:"precancel,omitempty"`
	OutMsgs  []string `json:"-"`
}

// Handler return kinds.
const (
	RetNil = iota
	RetErr
	RetUnhandled
	RetErrUnhandled // (false, err)
	RetCtxErr       // returns context.Canceled
	RetRecvErr      // returns the error of the last receive if not EOF
)

// Event sequence clock.
type Clock struct {
	n atomic.Int64
	// Off: no event numbers (the race detector would see the counter as
	// synchronisation).
	Off bool
}

// Tick returns the next event number.
func (c *Clock) Tick() int64 {
	if c.Off {
		return 1
	}
	return c.n.Add(1)
}

// Events is the number of events so far.
func (c *Clock) Events() int { return int(c.n.Load()) }

// SendRec is one send.
type SendRec struct {
	Idx, Size int
	T0, T1    int64
	Err       error
}

// RecvRec is one message received.
type RecvRec struct {
	Data []byte // retained, not copied
	Hash uint64 // at the time of the receive
	T0   int64
	T1   int64
}

// Side is the log of one end of a call. Each list is written by one goroutine.
type Side struct {
	Sent      []SendRec
	CloseSend []SendRec // half-closes
	Recv      []RecvRec
	EndErr    error
	EndT0     int64
	EndT1     int64
	More      []error // results after the end
	Close     []SendRec
}

// Call is the record of a call.
type Call struct {
	Spec *CallSpec
	C, S Side

	OpenErr error
	Opened  bool
	// exec
	ExecErr  error
	ExecOut  []byte
	ExecHash uint64
	ExecDone int64

	started atomic.Int32
	sealMu  sync.Mutex
	sealed  bool // a handler which starts now is too late to be recorded

	CancelT atomic.Int64 // time of the first local cancel or close (0 = none)
	Invoked atomic.Int32
	InvSvc  string
	InvMeth string
	RetT0   int64 // handler about to return
	RetErr  error
	RetOk   bool
	CtxDone atomic.Bool // handler saw its context done
	DoneS   atomic.Bool // handler returned

	sigs        map[int]chan struct{}
	sigMu       sync.Mutex
	ended       chan struct{} // client side finished
	over        chan struct{} // the client saw the end
	overOnce    sync.Once
	ctx         *CountCtx
	strm        srpc.Stream
	handlerDone chan struct{}
	srvWG       sync.WaitGroup
}

func (c *Call) sig(i int) chan struct{} {
	c.sigMu.Lock()
	defer c.sigMu.Unlock()
	ch := c.sigs[i]
	if ch == nil {
		ch = make(chan struct{})
		c.sigs[i] = ch
	}
	return ch
}

func (c *Call) signal(i int) {
	ch := c.sig(i)
	c.sigMu.Lock()
	select {
	case <-ch:
	default:
		close(ch)
	}
	c.sigMu.Unlock()
}

// World runs calls over a transport.
type World struct {
	Clock Clock
	Calls []*Call
	// Extra errors seen by the monitor at run time.
	mtx    sync.Mutex
	Online []string
	// ParentCtx derives... nil = each call has its own root.
	// Hook is called by OpHook.
	Hook  func()
	Stray atomic.Int32 // invocations of unknown methods
	wg    sync.WaitGroup
}

func (w *World) online(format string, args ...any) {
	w.mtx.Lock()
	if len(w.Online) < 20 {
		w.Online = append(w.Online, fmt.Sprintf(format, args...))
	}
	w.mtx.Unlock()
}

// NewWorld makes a world with calls.
func NewWorld(specs []*CallSpec) *World {
	w := &World{}
	for _, s := range specs {
		w.Calls = append(w.Calls, &Call{Spec: s, sigs: map[int]chan struct{}{}, ended: make(chan struct{}), over: make(chan struct{}), ctx: NewCountCtx(), handlerDone: make(chan struct{})})
	}
	return w
}

func hashB(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return mix1(h ^ uint64(len(b)))
}

// Invoker returns the server side.
func (w *World) Invoker() srpc.Invoker {
	return srpc.InvokerFunc(func(svc, method string, strm srpc.Stream) (bool, error) {
		i := strings.LastIndexByte(method, '-')
		id := -1
		if i >= 0 {
			if n, err := strconv.Atoi(method[i+1:]); err == nil {
				id = n
			}
		}
		if id < 0 || id >= len(w.Calls) {
			w.Stray.Add(1)
			w.online("handler invoked for a call nobody made: service %q method %q", svc, method)
			return false, nil
		}
		return w.serve(w.Calls[id], svc, method, strm)
	})
}

func (w *World) serve(c *Call, svc, method string, strm srpc.Stream) (bool, error) {
	sp := c.Spec
	if n := c.started.Add(1); n != 1 {
		w.online("call %d: handler invoked %d times", sp.ID, n)
		return true, nil
	}
	c.sealMu.Lock()
	late := c.sealed
	if !late {
		c.Invoked.Add(1)
	}
	c.sealMu.Unlock()
	if late {
		// the client ended long ago: the records of the call are being checked
		c = &Call{Spec: sp, sigs: map[int]chan struct{}{}, ended: c.ended, over: c.ended, ctx: c.ctx, handlerDone: make(chan struct{})}
	}
	c.InvSvc, c.InvMeth = svc, method
	defer func() {
		c.DoneS.Store(true)
		close(c.handlerDone)
	}()
	if svc != sp.Svc || method != sp.Method {
		w.online("call %d: handler invoked with service %q method %q, called %q %q", sp.ID, svc, method, sp.Svc, sp.Method)
	}
	if sp.Ret == RetUnhandled {
		c.RetT0 = w.Clock.Tick()
		return false, nil
	}
	wg := &c.srvWG
	for i, script := range sp.S {
		if i == len(sp.S)-1 {
			w.runScript(c, &c.S, strm, script, true)
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.runScript(c, &c.S, strm, script, true)
		}()
	}
	if !sp.Early {
		wg.Wait()
	}
	ok := true
	switch sp.Ret {
	case RetErr:
		c.RetErr = retError(sp.SRet)
	case RetErrUnhandled:
		c.RetErr = retError(sp.SRet)
		ok = false
	case RetCtxErr:
		c.RetErr = context.Canceled
	case RetRecvErr:
		if e := c.S.EndErr; e != nil && e != io.EOF {
			c.RetErr = e
		}
	}
	c.RetOk = ok
	c.RetT0 = w.Clock.Tick()
	return ok, c.RetErr
}

func (w *World) runScript(c *Call, side *Side, strm srpc.Stream, script []Op, server bool) {
	sp := c.Spec
	dir := 0
	if server {
		dir = 1
	}
	reused := srpc.NewRawMessage(nil, true)
	scratch := []byte(nil)
	recv := func() (data []byte, t0, t1 int64, err error) {
		var m *srpc.RawMessage
		if sp.Reuse {
			m = reused
			if len(side.Recv)%2 == 0 { // receiving replaces the content anyhow
				m.Clear()
			}
		} else {
			m = srpc.NewRawMessage(nil, false)
		}
		t0 = w.Clock.Tick()
		err = strm.MsgRecv(m)
		t1 = w.Clock.Tick()
		if err == nil {
			data = m.GetData()
			if sp.Reuse {
				data = append([]byte(nil), data...)
			}
		}
		return
	}
	recvOne := func() bool {
		if side.EndErr != nil {
			return false
		}
		data, t0, t1, err := recv()
		if err != nil {
			side.EndErr, side.EndT0, side.EndT1 = err, t0, t1
			if !server {
				c.overOnce.Do(func() { close(c.over) })
			}
			return false
		}
		side.Recv = append(side.Recv, RecvRec{Data: data, Hash: hashB(data), T0: t0, T1: t1})
		return true
	}
	send := func(size int) bool {
		idx := len(side.Sent)
		if !server && sp.HasFirst {
			idx++
		}
		content := Content(sp.ID, dir, idx, size)
		if cap(scratch) < size {
			scratch = make([]byte, size)
		}
		buf := scratch[:size]
		copy(buf, content)
		rec := SendRec{Idx: idx, Size: size, T0: w.Clock.Tick()}
		rec.Err = strm.MsgSend(srpc.NewRawMessage(buf, idx%3 == 2))
		rec.T1 = w.Clock.Tick()
		for i := range buf {
			buf[i] = 0xEE
		}
		side.Sent = append(side.Sent, rec)
		return rec.Err == nil
	}
	for _, op := range script {
		switch op.K {
		case OpSend:
			if !send(op.Arg) {
				return
			}
		case OpCloseSend:
			rec := SendRec{T0: w.Clock.Tick()}
			rec.Err = strm.CloseSend()
			rec.T1 = w.Clock.Tick()
			side.CloseSend = append(side.CloseSend, rec)
		case OpYield:
			for range op.Arg {
				runtime.Gosched()
			}
		case OpRecv:
			for range op.Arg {
				if !recvOne() {
					return
				}
			}
		case OpRecvEnd:
			for recvOne() {
			}
		case OpRecvMore:
			if side.EndErr == nil {
				break
			}
			for range op.Arg {
				_, _, _, err := recv()
				side.More = append(side.More, err)
			}
		case OpWaitCtx:
			<-strm.Context().Done()
			c.CtxDone.Store(true)
		case OpClose:
			if !server {
				c.CancelT.CompareAndSwap(0, w.Clock.Tick())
			}
			rec := SendRec{T0: w.Clock.Tick()}
			rec.Err = strm.Close()
			rec.T1 = w.Clock.Tick()
			side.Close = append(side.Close, rec)
		case OpCancel:
			c.CancelT.CompareAndSwap(0, w.Clock.Tick())
			c.ctx.Cancel()
		case OpSignal:
			c.signal(op.Arg)
		case OpWaitSig:
			if server {
				select {
				case <-c.sig(op.Arg):
				case <-strm.Context().Done():
				}
			} else {
				select {
				case <-c.sig(op.Arg):
				case <-c.handlerDone:
				case <-c.over:
				}
			}
		case OpHook:
			if w.Hook != nil {
				w.Hook()
			}
		case OpOthers:
			for _, o := range w.Calls {
				if !o.Spec.Waits {
					<-o.ended
				}
			}
		case OpRecvSend:
			if !recvOne() {
				return
			}
			if !send(op.Arg) {
				return
			}
		}
	}
}

// Run runs all calls concurrently and returns when all client sides and all
// invoked handlers finished.
func (w *World) Run(client srpc.Client) {
	var wg sync.WaitGroup
	for _, c := range w.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.RunCall(client, c)
		}()
	}
	wg.Wait()
	for _, c := range w.Calls {
		c.sealMu.Lock()
		c.sealed = true
		c.sealMu.Unlock()
		if c.Invoked.Load() != 0 {
			<-c.handlerDone
			c.srvWG.Wait()
		}
	}
}

// RunCall runs the client side of one call.
func (w *World) RunCall(client srpc.Client, c *Call) {
	sp := c.Spec
	defer close(c.ended)
	var first srpc.Message
	if sp.HasFirst {
		first = srpc.NewRawMessage(Content(sp.ID, 0, 0, sp.FirstSz), false)
	}
	if sp.PreCancl {
		c.CancelT.CompareAndSwap(0, w.Clock.Tick())
		c.ctx.Cancel()
	}
	if sp.Exec {
		var side sync.WaitGroup
		for _, script := range sp.C {
			side.Add(1)
			go func() {
				defer side.Done()
				w.runScript(c, &c.C, nil, script, false)
			}()
		}
		out := srpc.NewRawMessage(nil, true)
		c.Opened = true
		err := client.ExecCall(c.ctx, sp.Svc, sp.Method, first, out)
		c.ExecDone = w.Clock.Tick()
		c.ExecErr = err
		c.overOnce.Do(func() { close(c.over) })
		if err == nil {
			c.ExecOut = out.GetData()
			c.ExecHash = hashB(c.ExecOut)
		}
		side.Wait()
		return
	}
	strm, err := client.NewStream(c.ctx, sp.Svc, sp.Method, first)
	if err != nil {
		c.OpenErr = err
		return
	}
	c.Opened = true
	c.strm = strm
	var wg sync.WaitGroup
	for _, script := range sp.C {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.runScript(c, &c.C, strm, script, false)
		}()
	}
	wg.Wait()
	if !sp.NoClose {
		c.CancelT.CompareAndSwap(0, w.Clock.Tick())
		_ = strm.Close()
	}
}

// ReleaseCtxs cancels the call contexts (cleanup).
func (w *World) ReleaseCtxs() {
	for _, c := range w.Calls {
		c.ctx.Cancel()
	}
}

// Registered is the number of registrations with the call contexts.
func (w *World) Registered() int {
	n := 0
	for _, c := range w.Calls {
		n += c.ctx.Registered()
	}
	return n
}

// expected client messages (attempted), including the first.
func (c *Call) clientAttempts() (sizes []int, okN int) {
	if c.Spec.HasFirst {
		sizes = append(sizes, c.Spec.FirstSz)
		if c.Opened {
			okN++
		}
	}
	for _, s := range c.C.Sent {
		sizes = append(sizes, s.Size)
		if s.Err == nil {
			okN++
		}
	}
	return
}

func (c *Call) serverAttempts() (sizes []int, okN int) {
	for _, s := range c.S.Sent {
		sizes = append(sizes, s.Size)
		if s.Err == nil {
			okN++
		}
	}
	return
}

// CheckOpts select what the run was subject to.
type CheckOpts struct {
	// Faulted: the transport failed during the run.
	Faulted bool
	// Nested: the calls run over a nested stream. A half-close may then fail if
	// the remote ended the call at the same time.
	Nested bool
}

// Check checks the logs of all calls. Returns (key, message) pairs.
func (w *World) Check(o CheckOpts) (out [][2]string) {
	bad := func(key, format string, args ...any) {
		if len(out) < 10 {
			out = append(out, [2]string{key, fmt.Sprintf(format, args...)})
		}
	}
	w.mtx.Lock()
	for _, m := range w.Online {
		bad("online", "%s", m)
	}
	w.mtx.Unlock()
	for _, c := range w.Calls {
		c.check(o, bad)
	}
	return
}

func errText(e error) string {
	if e == nil {
		return "<nil>"
	}
	return e.Error()
}

func (c *Call) check(o CheckOpts, bad func(key, format string, args ...any)) {
	sp := c.Spec
	cancelT := c.CancelT.Load()
	// before tells if the call was not disturbed (cancelled, closed, faulted) at
	// the time.
	before := func(t int64) bool { return !o.Faulted && (cancelT == 0 || t < cancelT) }
	id := fmt.Sprintf("call %d (%s)", sp.ID, sp.Arche)

	// integrity: what was received is a prefix of what was sent
	cSizes, cOk := c.clientAttempts()
	sSizes, sOk := c.serverAttempts()
	prefix := func(name string, dir int, recv []RecvRec, sizes []int) {
		for i, r := range recv {
			if i >= len(sizes) {
				bad("extra-message", "%s: %s received message #%d (%d bytes) which was never sent (%d sent)", id, name, i, len(r.Data), len(sizes))
				return
			}
			want := Content(sp.ID, dir, i, sizes[i])
			if hashB(r.Data) != r.Hash {
				bad("retained-message-changed", "%s: %s message #%d changed after it was received", id, name, i)
				return
			}
			if !bytes.Equal(r.Data, want) {
				bad("wrong-message", "%s: %s received as #%d a message of %d bytes which differs from the one sent (%d bytes)%s", id, name, i, len(r.Data), len(want), c.which(dir, r.Data, sizes))
				return
			}
		}
	}
	prefix("server", 0, c.S.Recv, cSizes)
	prefix("client", 1, c.C.Recv, sSizes)

	// causality: a message is not received before its send started
	for i, r := range c.C.Recv {
		if i < len(c.S.Sent) && r.T1 < c.S.Sent[i].T0 {
			bad("early-message", "%s: client received #%d before it was sent", id, i)
		}
	}

	inv := c.Invoked.Load()
	if inv == 0 && c.Opened && (c.C.EndErr != nil && before(c.C.EndT1) || sp.Exec && before(c.ExecDone)) {
		bad("not-invoked", "%s: the call was made but no handler ran", id)
	}
	if c.OpenErr != nil && !o.Faulted && cancelT == 0 {
		bad("open-failed", "%s: opening the call failed: %v", id, c.OpenErr)
	}

	// when did the server end its sending side (start of it)?
	serverEnd := int64(0)
	minEnd := func(t int64) {
		if t != 0 && (serverEnd == 0 || t < serverEnd) {
			serverEnd = t
		}
	}
	for _, r := range c.S.CloseSend {
		minEnd(r.T0)
	}
	for _, r := range c.S.Close {
		minEnd(r.T0)
	}
	retT := int64(0)
	if c.DoneS.Load() {
		retT = c.RetT0
		minEnd(c.RetT0)
	}
	serverClosedLocal := len(c.S.Close) != 0

	// over tells if the server had ended its side at the time
	over := func(t int64) bool { return serverEnd != 0 && serverEnd < t }
	// gone tells if the server had ended the whole call at the time (a half-close
	// of the server leaves the other direction open)
	goneT := retT
	for _, r := range c.S.Close {
		if goneT == 0 || r.T0 < goneT {
			goneT = r.T0
		}
	}
	gone := func(t int64) bool { return goneT != 0 && goneT < t }

	// server receiving side
	if e := c.S.EndErr; e == io.EOF {
		// a call which was cancelled or lost its connection never looks as if
		// the client had ended its side
		ended := sp.Exec
		for _, r := range c.C.CloseSend {
			ended = ended || r.T0 < c.S.EndT1
		}
		if !ended {
			bad("early-eof", "%s: the server got io.EOF but the client did not end its side", id)
		}
		n := cOk
		if !before(c.S.EndT1) || gone(c.S.EndT1) {
			n = 0
			for _, m := range c.C.Sent {
				if m.Err == nil && len(c.C.CloseSend) != 0 && m.T1 < c.C.CloseSend[0].T0 {
					n++
				}
			}
		}
		if len(c.S.Recv) < n {
			bad("lost-message", "%s: the server got io.EOF after %d of %d messages", id, len(c.S.Recv), n)
		}
	} else if e != nil && !(sp.Exec && len(c.S.Sent) != 0) && before(c.S.EndT1) && !gone(c.S.EndT1) {
		bad("server-recv-error", "%s: a server receive failed: %v", id, e)
	}
	for i, r := range c.S.Sent {
		if sp.Exec && i > 0 {
			break // the client got its response and closed the call
		}
		if r.Err != nil && before(r.T1) && !serverClosedLocal && (retT == 0 || r.T1 < retT) {
			bad("send-failed", "%s: server send #%d failed: %v", id, i, r.Err)
		}
	}
	for i, r := range c.C.Sent {
		if r.Err != nil && before(r.T1) && !gone(r.T1) {
			bad("send-failed", "%s: client send #%d failed: %v", id, i, r.Err)
		}
	}
	for i, r := range c.C.CloseSend {
		if r.Err != nil && before(r.T1) {
			bad("closesend-failed", "%s: client half-close #%d failed: %v", id, i, r.Err)
		}
	}
	if before(c.S.EndT1) && !gone(c.S.EndT1) && c.S.EndErr != nil {
		for i, e := range c.S.More {
			if e == nil {
				bad("message-after-end", "%s: the server received a message after the end (%v)", id, c.S.EndErr)
				break
			}
			if cancelT == 0 && c.S.EndErr == io.EOF && e != io.EOF {
				bad("eof-changed", "%s: receive #%d of the server after io.EOF returned %q", id, i+1, e)
				break
			}
		}
	}

	// outcome at the client
	wantErr, known := c.wantEnd()
	if sp.Exec {
		c.checkExec(bad, id, before(c.ExecDone), sSizes)
		return
	}
	e := c.C.EndErr
	if e == io.EOF && sp.Ret != RetUnhandled {
		// nor the other way round
		if len(c.S.CloseSend) == 0 && (retT == 0 || retT > c.C.EndT1 || known && wantErr != io.EOF) {
			bad("failure-as-success", "%s: the client got io.EOF but the server did not end its side (%v)", id, errText(wantErr))
			return
		}
		if n := c.okBeforeEnd(); len(c.C.Recv) < n {
			bad("lost-message", "%s: the client got io.EOF after %d of %d messages", id, len(c.C.Recv), n)
			return
		}
	}
	if e == nil || serverClosedLocal || !before(c.C.EndT1) {
		return
	}
	switch {
	case e == io.EOF:
		if !over(c.C.EndT1) && sp.Ret != RetUnhandled {
			bad("fabricated-eof", "%s: the client got io.EOF but the server did not end its side", id)
		}
		if n := c.okBeforeEnd(); len(c.C.Recv) < n {
			bad("lost-message", "%s: the client got io.EOF after %d of %d messages", id, len(c.C.Recv), n)
		}
		if known && wantErr != io.EOF && len(c.S.CloseSend) == 0 {
			bad("failure-as-success", "%s: the handler failed with %q but the client got io.EOF", id, errText(wantErr))
		}
	case !known || retT != 0 && c.C.EndT1 < retT:
		bad("client-recv-error", "%s: a client receive failed before the handler returned: %v", id, e)
	case wantErr != errEmpty && errText(wantErr) != e.Error():
		bad("wrong-outcome", "%s: the client got %q, the handler returned %q", id, e, errText(wantErr))
	case len(c.C.Recv) < c.okBeforeEnd():
		bad("lost-message", "%s: the client got the handler error after %d of %d messages", id, len(c.C.Recv), sOk)
	}
	for i, m := range c.C.More {
		if m == nil {
			bad("message-after-end", "%s: a message was received after the end (%v)", id, e)
			break
		}
		if m.Error() != e.Error() {
			bad("outcome-changed", "%s: receive #%d after the end returned %q, the end was %q", id, i+1, m, e)
			break
		}
	}
}

var errEmpty = errors.New("(any error)")

// okBeforeEnd counts the server messages sent before it half-closed.
func (c *Call) okBeforeEnd() int {
	n := 0
	for _, s := range c.S.Sent {
		if s.Err != nil {
			continue
		}
		after := c.RetT0 != 0 && s.T1 > c.RetT0
		for _, r := range c.S.CloseSend {
			if s.T1 > r.T0 {
				after = true
			}
		}
		if !after {
			n++
		}
	}
	return n
}

// errEOF is the failure of a handler which returned io.EOF.
var errEOF = errors.New("EOF")

// sentinels are well known errors: handlers return them as they got them.
var sentinels = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, srpc.ErrUnimplemented, srpc.ErrCompleted, net.ErrClosed, srpc.ErrNoAvailableClients}

// retError is the error with the text.
func retError(text string) error {
	for _, e := range sentinels {
		if e.Error() == text {
			return e
		}
		if strings.HasSuffix(text, ": "+e.Error()) {
			return fmt.Errorf("%s%w", strings.TrimSuffix(text, e.Error()), e)
		}
	}
	return errors.New(text)
}

// wantEnd is the end of the stream which the handler decided.
func (c *Call) wantEnd() (error, bool) {
	if c.Spec.Ret == RetUnhandled {
		return srpc.ErrUnimplemented, true
	}
	if !c.DoneS.Load() {
		return nil, false
	}
	if c.RetErr != nil {
		if c.RetErr.Error() == "" {
			return errEmpty, true
		}
		if c.RetErr == io.EOF {
			return errEOF, true // a failure: not the end of the messages
		}
		return c.RetErr, true
	}
	if !c.RetOk {
		return srpc.ErrUnimplemented, true
	}
	return io.EOF, true
}

func (c *Call) checkExec(bad func(key, format string, args ...any), id string, clean bool, sSizes []int) {
	sp := c.Spec
	if c.ExecErr == nil {
		if hashB(c.ExecOut) != c.ExecHash {
			bad("retained-message-changed", "%s: the response changed after the call", id)
		}
		if len(sSizes) == 0 {
			bad("fabricated-response", "%s: the call succeeded with %d bytes but the handler sent no response", id, len(c.ExecOut))
		} else if want := Content(sp.ID, 1, 0, sSizes[0]); !bytes.Equal(want, c.ExecOut) {
			bad("wrong-response", "%s: the response differs from the one sent (%d bytes, sent %d)%s", id, len(c.ExecOut), len(want), c.which(1, c.ExecOut, sSizes))
		}
		return
	}
	if !clean {
		return
	}
	want, known := c.wantEnd()
	_, sOk := c.serverAttempts()
	switch {
	case sOk != 0:
		bad("lost-response", "%s: the handler sent a response but the call failed: %v", id, c.ExecErr)
	case !known:
		bad("exec-failed", "%s: the call failed before the handler returned: %v", id, c.ExecErr)
	case want != errEmpty && c.ExecErr.Error() != errText(want):
		bad("wrong-outcome", "%s: the call failed with %q, the handler returned %q", id, c.ExecErr, errText(want))
	}
}

// which tells which message the data is, for diagnosis.
func (c *Call) which(dir int, data []byte, sizes []int) string {
	for i, n := range sizes {
		if n == len(data) && n > 0 && bytes.Equal(data, Content(c.Spec.ID, dir, i, n)) {
			return fmt.Sprintf(" (it is message #%d)", i)
		}
	}
	if len(data) > 32 {
		data = data[:32]
	}
	return fmt.Sprintf(" (%x)", data)
}

// Pending describes the calls which did not end.
func (w *World) Pending() string {
	var sb strings.Builder
	n := 0
	for _, c := range w.Calls {
		cl := false
		select {
		case <-c.ended:
			cl = true
		default:
		}
		sv := c.Invoked.Load() == 0 || c.DoneS.Load()
		if cl && sv {
			continue
		}
		if n++; n > 4 {
			break
		}
		fmt.Fprintf(&sb, " call %d (%s) client ended=%v handler invoked=%d returned=%v cancelled=%v;", c.Spec.ID, c.Spec.Arche, cl, c.Invoked.Load(), c.DoneS.Load(), c.CancelT.Load() != 0)
	}
	return sb.String()
}

// HistSig is a signature of the order in which the events of the run happened.
func (w *World) HistSig() uint64 {
	n := w.Clock.Events()
	ev := make([]uint32, n+2)
	put := func(t int64, call, kind int) {
		if t > 0 && int(t) < len(ev) {
			ev[t] = uint32(call<<8 | kind)
		}
	}
	for i, c := range w.Calls {
		for j, sd := range []*Side{&c.C, &c.S} {
			for k, l := range [][]SendRec{sd.Sent, sd.CloseSend, sd.Close} {
				for _, r := range l {
					put(r.T0, i, j*16+k*2)
					put(r.T1, i, j*16+k*2+1)
				}
			}
			for _, r := range sd.Recv {
				put(r.T0, i, j*16+8)
				put(r.T1, i, j*16+9)
			}
			put(sd.EndT0, i, j*16+10)
			put(sd.EndT1, i, j*16+11)
		}
		put(c.RetT0, i, 64)
		put(c.ExecDone, i, 65)
		put(c.CancelT.Load(), i, 66)
	}
	h := uint64(7)
	for _, e := range ev {
		h = mix1(h ^ uint64(e))
	}
	return h
}
