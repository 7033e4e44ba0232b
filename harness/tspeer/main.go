// Command tspeer is the Go end of the calls between TypeScript and Go.
//
// Frames on stdin and stdout carry JSON commands and results and the bytes of
// virtual connections: uint32 length, uint32 connection, operation, data.
package main

import (
	"bufio"
	"context"
	"encoding/binary"
	"encoding/json"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
)

type op struct {
	T string `json:"t"`
	// K is the index of the message to send.
	K int `json:"k"`
	// N is a number of yields.
	N    int    `json:"n"`
	Text string `json:"text"`
}

type script struct {
	Cmd    string   `json:"cmd"`
	ID     int      `json:"id"`
	Svc    string   `json:"svc"`
	Method string   `json:"method"`
	Kind   string   `json:"kind"`
	Msgs   [][]byte `json:"msgs"`
	// Ops is the script of the handler or of the sender of the client.
	Ops []op `json:"ops"`
	// Cancel: cancel the client after so many received messages, -1: never.
	Cancel int `json:"cancel"`
	// Nested are the component ids of the nested streams to use, outermost first.
	Nested  []string `json:"nested"`
	WaitAck bool     `json:"waitAck"`
	// Missing and Fail are component ids without a mux and with an error.
	Missing []string `json:"missing"`
	Fail    []string `json:"fail"`
	// Conn is the connection to use a muxer on, Outbound: as the one which made it.
	Conn     uint32 `json:"conn"`
	Outbound bool   `json:"outbound"`
}

type result struct {
	ID      int      `json:"id"`
	Role    string   `json:"role"`
	Recv    [][]byte `json:"recv"`
	RecvEnd string   `json:"recvEnd"`
	Sent    int      `json:"sent"`
	Done    string   `json:"done"`
	Start   int      `json:"start"`
}

const (
	opJSON  = 0
	opOpen  = 1
	opData  = 2
	opClose = 3 // no more data will come
	opGone  = 4 // the remote is gone, writes fail
)

var (
	outMtx sync.Mutex
	out    = bufio.NewWriter(os.Stdout)
)

func frame(id uint32, op byte, data []byte) {
	outMtx.Lock()
	defer outMtx.Unlock()
	var h [9]byte
	binary.LittleEndian.PutUint32(h[:], uint32(len(data)))
	binary.LittleEndian.PutUint32(h[4:], id)
	h[8] = op
	_, _ = out.Write(h[:])
	_, _ = out.Write(data)
	_ = out.Flush()
}

func emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	frame(0, opJSON, b)
}

// vconn is a virtual connection to the other process.
type vconn struct {
	id     uint32
	mtx    sync.Mutex
	wake   chan struct{}
	buf    []byte
	eof    bool
	gone   bool
	closed bool
	// wend: this side will write no more.
	wend bool
	rng  *rand.Rand
}

var (
	connMtx sync.Mutex
	conns   = map[uint32]*vconn{}
	nextID  = uint32(2)
)

func newConn(id uint32) *vconn {
	connMtx.Lock()
	defer connMtx.Unlock()
	if id == 0 {
		id = nextID
		nextID += 2
	}
	c := &vconn{id: id, wake: make(chan struct{}), rng: rand.New(rand.NewSource(int64(id)))}
	conns[id] = c
	return c
}

func (c *vconn) signal() {
	close(c.wake)
	c.wake = make(chan struct{})
}

func (c *vconn) Read(p []byte) (int, error) {
	for {
		c.mtx.Lock()
		if c.closed {
			c.mtx.Unlock()
			return 0, io.ErrClosedPipe
		}
		if len(c.buf) > 0 {
			n := len(p)
			if n > len(c.buf) {
				n = len(c.buf)
			}
			if n > 1 && c.rng.Intn(3) > 0 {
				n = 1 + c.rng.Intn(n)
			}
			copy(p, c.buf[:n])
			c.buf = c.buf[n:]
			var err error
			if len(c.buf) == 0 && c.eof && c.rng.Intn(2) == 0 {
				err = io.EOF
			}
			c.mtx.Unlock()
			return n, err
		}
		if c.eof {
			c.mtx.Unlock()
			return 0, io.EOF
		}
		wake := c.wake
		c.mtx.Unlock()
		<-wake
	}
}

func (c *vconn) Write(p []byte) (int, error) {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	if c.closed || c.gone || c.wend {
		return 0, io.ErrClosedPipe
	}
	frame(c.id, opData, p)
	return len(p), nil
}

func (c *vconn) Close() error {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	if c.closed {
		return nil
	}
	c.closed = true
	frame(c.id, opClose, nil)
	c.signal()
	connMtx.Lock()
	delete(conns, c.id)
	connMtx.Unlock()
	return nil
}

// endWrite ends this direction only.
func (c *vconn) endWrite() {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	if c.closed || c.wend {
		return
	}
	c.wend = true
	frame(c.id, opClose, nil)
	c.forget()
}

// forget drops the connection once both directions ended.
func (c *vconn) forget() {
	if c.wend && c.eof {
		connMtx.Lock()
		delete(conns, c.id)
		connMtx.Unlock()
	}
}

func (c *vconn) handle(op byte, data []byte) {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	switch op {
	case opData:
		c.buf = append(c.buf, data...)
	case opClose:
		c.eof = true
	case opGone:
		c.eof, c.gone = true, true
	}
	c.forget()
	c.signal()
}

func text(err error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + err.Error()
}

type peer struct {
	mtx sync.Mutex
	// scripts by service/method
	scripts map[string]*script
	starts  map[int]int
	comps   []string
	missing map[string]bool
	fail    map[string]bool
	cancels map[int]func()
	server  *srpc.Server
	// client is the client of the muxed connection, if any.
	client srpc.Client
	// cut cuts the connections of the HTTP server, stop ends it.
	cut, stop func()
}

func (p *peer) pause(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
	if n > 4 {
		time.Sleep(time.Duration(n) * 100 * time.Microsecond)
	}
}

// InvokeMethod serves the scripted methods and the nested streams.
func (p *peer) InvokeMethod(svc, method string, strm srpc.Stream) (bool, error) {
	if svc == "nested" && method == "RpcStream" {
		return true, rpcstream.HandleRpcStream(&nestedStream{strm}, func(ctx context.Context, componentID string) (srpc.Invoker, func(), error) {
			p.mtx.Lock()
			p.comps = append(p.comps, componentID)
			missing, fail := p.missing[componentID], p.fail[componentID]
			p.mtx.Unlock()
			if missing {
				return nil, nil, nil
			}
			if fail {
				return nil, nil, io.ErrNoProgress
			}
			return p, func() {}, nil
		})
	}
	p.mtx.Lock()
	s := p.scripts[svc+"\x00"+method]
	start := 0
	if s != nil {
		p.starts[s.ID]++
		start = p.starts[s.ID]
	}
	p.mtx.Unlock()
	if s == nil {
		return false, nil
	}
	r := &result{ID: s.ID, Role: "server", Start: start}
	err := p.serve(s, strm, r)
	r.Done = text(err)
	emit(r)
	return true, err
}

func (p *peer) serve(s *script, strm srpc.Stream, r *result) error {
	recv := func() (bool, error) {
		m := srpc.NewRawMessage(nil, true)
		if err := strm.MsgRecv(m); err != nil {
			if err == io.EOF {
				r.RecvEnd = "end"
				return false, nil
			}
			r.RecvEnd = text(err)
			return false, err
		}
		r.Recv = append(r.Recv, append([]byte{}, m.GetData()...))
		return true, nil
	}
	if s.Kind == "U" || s.Kind == "SS" {
		if ok, err := recv(); err != nil || !ok {
			return err
		}
	}
	for _, o := range s.Ops {
		switch o.T {
		case "pause":
			p.pause(o.N)
		case "recv":
			if _, err := recv(); err != nil {
				return err
			}
		case "recvAll":
			for {
				ok, err := recv()
				if err != nil {
					return err
				}
				if !ok {
					break
				}
			}
		case "send":
			r.Sent++
			if err := strm.MsgSend(srpc.NewRawMessage(s.Msgs[o.K], true)); err != nil {
				return err
			}
		case "hang":
			<-strm.Context().Done()
			return strm.Context().Err()
		case "throw":
			return errText(o.Text)
		}
	}
	if s.Kind == "U" || s.Kind == "CS" {
		r.Sent++
		return strm.MsgSend(srpc.NewRawMessage(s.Msgs[0], true))
	}
	return nil
}

type errText string

func (e errText) Error() string { return string(e) }

type nestedStream struct{ srpc.Stream }

func (s *nestedStream) Send(m *rpcstream.RpcStreamPacket) error { return s.MsgSend(m) }
func (s *nestedStream) Recv() (*rpcstream.RpcStreamPacket, error) {
	m := new(rpcstream.RpcStreamPacket)
	return m, s.MsgRecv(m)
}
func (s *nestedStream) RecvTo(m *rpcstream.RpcStreamPacket) error { return s.MsgRecv(m) }

func (p *peer) call(ctx context.Context, cancel context.CancelFunc, s *script) {
	r := &result{ID: s.ID, Role: "client"}
	defer func() {
		emit(r)
	}()
	defer cancel()
	open := func(ctx context.Context, msgHandler srpc.PacketDataHandler, closeHandler srpc.CloseHandler) (srpc.PacketWriter, error) {
		conn := newConn(0)
		frame(conn.id, opOpen, nil)
		prw := srpc.NewPacketReadWriter(conn)
		w := writerOf(conn, prw)
		go prw.ReadPump(msgHandler, closeHandler)
		return w, nil
	}
	p.mtx.Lock()
	client := p.client
	p.mtx.Unlock()
	if client == nil {
		client = srpc.NewClient(open)
	}
	for _, id := range s.Nested {
		outer := client
		client = rpcstream.NewRpcStreamClient(func(ctx context.Context) (*nestedStream, error) {
			strm, err := outer.NewStream(ctx, "nested", "RpcStream", nil)
			if err != nil {
				return nil, err
			}
			return &nestedStream{strm}, nil
		}, id, s.WaitAck)
	}
	if s.Cancel == 0 {
		go func() {
			p.pause(s.ID % 13)
			cancel()
		}()
	}
	if s.Kind == "U" {
		out := srpc.NewRawMessage(nil, true)
		err := client.ExecCall(ctx, s.Svc, s.Method, srpc.NewRawMessage(s.Msgs[0], true), out)
		r.Sent = 1
		if err == nil {
			r.Recv = append(r.Recv, append([]byte{}, out.GetData()...))
		}
		r.Done = text(err)
		return
	}
	var first srpc.Message
	if s.Kind == "SS" {
		first = srpc.NewRawMessage(s.Msgs[0], true)
		r.Sent = 1
	}
	strm, err := client.NewStream(ctx, s.Svc, s.Method, first)
	if err != nil {
		r.Done = text(err)
		return
	}
	defer strm.Close()
	var mtx sync.Mutex
	got := make(chan struct{}, 1000)
	sendDone := make(chan error, 1)
	go func() {
		sendDone <- func() error {
			if s.Kind == "SS" {
				return strm.CloseSend()
			}
			for _, o := range s.Ops {
				switch o.T {
				case "pause":
					p.pause(o.N)
				case "wait":
					select {
					case <-got:
					case <-ctx.Done():
						return ctx.Err()
					}
				case "hang":
					<-ctx.Done()
					return ctx.Err()
				case "send":
					mtx.Lock()
					r.Sent++
					mtx.Unlock()
					if err := strm.MsgSend(srpc.NewRawMessage(s.Msgs[o.K], true)); err != nil {
						return err
					}
				}
			}
			return strm.CloseSend()
		}()
	}()
	err = func() error {
		for {
			m := srpc.NewRawMessage(nil, true)
			if err := strm.MsgRecv(m); err != nil {
				if err == io.EOF && s.Kind != "CS" {
					return nil
				}
				return err
			}
			mtx.Lock()
			r.Recv = append(r.Recv, append([]byte{}, m.GetData()...))
			n := len(r.Recv)
			mtx.Unlock()
			got <- struct{}{}
			if s.Cancel > 0 && s.Cancel == n {
				cancel()
			}
			if s.Kind == "CS" {
				return nil
			}
		}
	}()
	cancelled := ctx.Err() != nil
	_ = cancelled
	mtx.Lock()
	r.Done = text(err)
	mtx.Unlock()
	_ = strm.Close()
	cancel()
	<-sendDone
}

func main() {
	p := &peer{scripts: map[string]*script{}, starts: map[int]int{}, missing: map[string]bool{}, fail: map[string]bool{}, cancels: map[int]func(){}}
	p.server = srpc.NewServer(p)
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	for {
		var h [9]byte
		if _, err := io.ReadFull(in, h[:]); err != nil {
			return
		}
		data := make([]byte, binary.LittleEndian.Uint32(h[:]))
		if _, err := io.ReadFull(in, data); err != nil {
			return
		}
		id, op := binary.LittleEndian.Uint32(h[4:]), h[8]
		if op == opOpen {
			go p.handleConn(newConn(id))
			continue
		}
		if op != opJSON {
			connMtx.Lock()
			c := conns[id]
			connMtx.Unlock()
			if c != nil {
				c.handle(op, data)
			}
			continue
		}
		s := new(script)
		if err := json.Unmarshal(data, s); err != nil {
			panic(err)
		}
		switch s.Cmd {
		case "serve":
			p.mtx.Lock()
			p.scripts[s.Svc+"\x00"+s.Method] = s
			p.mtx.Unlock()
		case "call":
			// registered before the next command, which may be its cancel, is read
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			p.mtx.Lock()
			p.cancels[s.ID] = cancel
			p.mtx.Unlock()
			go p.call(ctx, cancel, s)
		case "mux":
			p.muxed(newConn(s.Conn), s.Outbound)
		case "http":
			p.http(s)
		case "cut":
			p.mtx.Lock()
			if p.cut != nil {
				p.cut()
			}
			p.mtx.Unlock()
		case "sync":
			emit(map[string]any{"sync": s.ID})
		case "cancel":
			p.mtx.Lock()
			cancel := p.cancels[s.ID]
			p.mtx.Unlock()
			if cancel != nil {
				cancel()
			}
		case "reset":
			// wait until no call of the case is left
			go p.reset(s)
		}
	}
}

func (p *peer) reset(s *script) {
	p.mtx.Lock()
	if p.stop != nil {
		p.stop()
	}
	p.client, p.cut, p.stop = nil, nil, nil
	p.mtx.Unlock()
	end := time.Now().Add(20 * time.Second)
	n := runtime.NumGoroutine()
	for n > idle && time.Now().Before(end) {
		time.Sleep(200 * time.Microsecond)
		n = runtime.NumGoroutine()
	}
	stacks := ""
	if n > idle {
		buf := make([]byte, 1<<18)
		stacks = string(buf[:runtime.Stack(buf, true)])
	}
	p.mtx.Lock()
	connMtx.Lock()
	open := len(conns)
	connMtx.Unlock()
	r := map[string]any{"bad": takeBad(), "reset": s.ID, "goroutines": n - idle + 2, "open": open, "components": p.comps, "stacks": stacks}
	p.scripts, p.starts, p.comps = map[string]*script{}, map[int]int{}, nil
	p.missing, p.fail, p.cancels = map[string]bool{}, map[string]bool{}, map[int]func(){}
	for _, x := range s.Missing {
		p.missing[x] = true
	}
	for _, x := range s.Fail {
		p.fail[x] = true
	}
	p.mtx.Unlock()
	emit(r)
}
