package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/coder/websocket"
	"github.com/libp2p/go-libp2p/core/network"
	yamux "github.com/libp2p/go-yamux/v4"
	"verifharness/lib"
)

func init() {
	Props["C16"] = c16
	for _, k := range []string{"lis-mem", "ws-mem", "lis-tcp", "ws-tcp"} {
		lib.ExtraKinds[k] = func(t *lib.Transport, inv srpc.Invoker, r *lib.Rand, gen lib.ConnGen) (srpc.Client, error) {
			return c16transport(t, k, inv, r, gen)
		}
	}
}

func c16(x *Ctx) {
	mix := append(append([]int{}, lib.PlainMix...), lib.CancelMix...)
	mix = append(mix, lib.ASrvClose)
	run := func(kinds ...string) func(idx int, r *lib.Rand) {
		return func(idx int, r *lib.Rand) {
			cs := x.CallCase(r, kinds, lib.GenOpts{Mix: mix, MaxMsgs: 5, Big: 1}, r.Weighted(0, 2, 2, 2, 1, 1, 1))
			base := starpcGoroutines(lib.Snapshot())
			c16noise, c16served, c16dialed = nil, nil, false
			o := x.RunCalls(idx, cs, nil)
			x.record(cs, o)
			for _, n := range c16noise {
				x.Rep.Count("noise:"+n, 1)
			}
			if o.T == nil || o.Res != lib.WaitDone || c16dialed {
				return
			}
			// what the servers left behind
			gs := lib.Settle(lib.WaitOpts{Watchdog: 30 * time.Second, Net: strings.HasSuffix(cs.Kind, "tcp")})
			if gs == nil {
				x.Rep.Inconclusive(idx, "did not settle")
				return
			}
			for k, v := range starpcGoroutines(gs) {
				if v > base[k] {
					x.Rep.Violate("goroutine-leak", idx, cs, "goroutines are left after the server and all connections ended: %s", k)
				}
			}
			for _, s := range c16served {
				if d := s.Load(); d != 0 {
					x.Rep.Violate("handler-left", idx, cs, "%d handlers of lost connections were not cancelled", d)
				}
			}
		}
	}
	x.Each("listener", 1200, run("lis-mem"))
	x.Each("websocket", 800, run("ws-mem"))
	x.Each("tcp", 80, run("lis-tcp"))
	x.Each("websocket-tcp", 40, run("ws-tcp"))
	x.Each("crowd", 24, func(idx int, r *lib.Rand) {
		if x.Override != nil {
			return
		}
		c16crowd = lib.PickOf(r, 130, 300, 600)
		c16crowdStreams = lib.PickOf(r, 0, 70, 300, 700)
		x.Rep.Count("crowd-connections", c16crowd)
		x.Rep.Count("crowd-calls", c16crowdStreams)
		run("lis-mem", "ws-mem", "lis-mem", "ws-mem", "lis-tcp", "ws-tcp")(idx, r)
		c16crowd, c16crowdStreams = 0, 0
	})
	x.Each("accept-fails", 400, x.c16acceptFails)
	x.Each("stopped", 400, x.c16stopped)
	x.Each("paths", 1600, x.c16paths)
	x.Each("listen-ends", 64, x.c16listenEnds)
}

var (
	// idle connections and open calls of each client
	c16crowd, c16crowdStreams int

	c16noise  []string
	c16dialed bool // there is a client of Dial, which cannot be closed
	c16served []*atomic.Int64
)

// memListener is an in-memory listener.
type memListener struct {
	ch     chan net.Conn
	done   chan struct{}
	once   sync.Once
	err    error
	closes atomic.Int32
}

func newMemListener() *memListener {
	return &memListener{ch: make(chan net.Conn), done: make(chan struct{}), err: net.ErrClosed}
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, l.err
	}
}

func (l *memListener) fail(err error) {
	l.once.Do(func() {
		l.err = err
		close(l.done)
	})
}

func (l *memListener) Close() error {
	l.closes.Add(1)
	l.fail(net.ErrClosed)
	return nil
}
func (l *memListener) Addr() net.Addr { return c15addr("mem") }

// put hands a connection to the server.
func (l *memListener) put(c net.Conn) error {
	select {
	case l.ch <- c:
		return nil
	case <-l.done:
		return net.ErrClosed
	}
}

// loopAddr is a free address.
func loopAddr(r *lib.Rand) (string, error) {
	host := fmt.Sprintf("127.0.%d.%d", os.Getpid()%250+1, r.Range(2, 250))
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		if l, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
			return "", err
		}
	}
	defer l.Close()
	return l.Addr().String(), nil
}

// multiClient spreads calls over clients.
type multiClient struct {
	l []srpc.Client
	n atomic.Int64
}

func (m *multiClient) pick() srpc.Client { return m.l[int(m.n.Add(1))%len(m.l)] }
func (m *multiClient) ExecCall(ctx context.Context, service, method string, in, out srpc.Message) error {
	return m.pick().ExecCall(ctx, service, method, in, out)
}
func (m *multiClient) NewStream(ctx context.Context, service, method string, first srpc.Message) (srpc.Stream, error) {
	return m.pick().NewStream(ctx, service, method, first)
}

const noiseSvc = "verif.Noise"

// c16transport: a server, its clients and other connections.
func c16transport(t *lib.Transport, kind string, inv srpc.Invoker, r *lib.Rand, gen lib.ConnGen) (srpc.Client, error) {
	served := &atomic.Int64{}
	c16served = append(c16served, served)
	mx := srpc.NewMux(srpc.InvokerFunc(func(svc, method string, strm srpc.Stream) (bool, error) {
		if svc != noiseSvc {
			return inv.InvokeMethod(svc, method, strm)
		}
		served.Add(1)
		defer served.Add(-1)
		for strm.MsgRecv(srpc.NewRawMessage(nil, true)) == nil {
		}
		<-strm.Context().Done()
		return true, nil
	}))
	ws, tcp := strings.HasPrefix(kind, "ws"), strings.HasSuffix(kind, "tcp")
	path := lib.PickOf(r, "", "/", "/rpc", "/a/b.ws")
	reqPath := path
	if path == "" {
		reqPath = lib.PickOf(r, "", "/", "/any", "/any/rpc")
	}
	// the server
	mem := newMemListener()
	var addr string
	var err error
	if tcp {
		if addr, err = loopAddr(r); err != nil {
			return nil, err
		}
	}
	var lis net.Listener = mem
	if ws {
		if tcp {
			if lis, err = net.Listen("tcp", addr); err != nil {
				return nil, err
			}
		}
		hs, err := srpc.NewHTTPServer(mx, path, nil)
		if err != nil {
			return nil, err
		}
		hsrv := &http.Server{Handler: hs, ErrorLog: log.New(io.Discard, "", 0)}
		t.AddCloser(func() { _ = hsrv.Close() })
		t.Loops.Add(1)
		go func() {
			_ = hsrv.Serve(lis)
			t.Loops.Add(-1)
		}()
	} else {
		srv := srpc.NewServer(mx)
		t.AddCloser(func() { _ = mem.Close() })
		t.Loops.Add(1)
		go func() {
			if tcp {
				_ = srpc.Listen(t.SrvCtx, addr, srv, nil)
			} else {
				_ = srpc.AcceptMuxedListener(t.SrvCtx, mem, srv, nil)
			}
			t.Loops.Add(-1)
		}()
	}
	dial := func() (net.Conn, error) {
		if tcp {
			for i := 0; ; i++ {
				c, err := net.Dial("tcp", addr)
				if err == nil {
					t.AddCloser(func() { _ = c.Close() })
				}
				if err == nil || i > 4000 {
					return c, err
				}
				time.Sleep(2 * time.Millisecond)
			}
		}
		a, b := t.AddSim(gen)
		return a, mem.put(b)
	}
	wsDial := func() (*websocket.Conn, error) {
		u := "ws://" + addr + reqPath
		if addr == "" {
			u = "ws://mem.local" + reqPath
		}
		htr := &http.Transport{DialContext: func(context.Context, string, string) (net.Conn, error) { return dial() }}
		c, _, err := websocket.Dial(context.Background(), u, &websocket.DialOptions{HTTPClient: &http.Client{Transport: htr}})
		return c, err
	}
	client := func() (srpc.Client, func(), error) {
		switch {
		case ws:
			c, err := wsDial()
			if err != nil {
				return nil, nil, err
			}
			mc, err := c16wsConn(c, r.OneIn(4))
			if err != nil {
				return nil, nil, err
			}
			return srpc.NewClientWithMuxedConn(mc), func() { _ = c.CloseNow(); _ = mc.Close() }, nil
		case tcp && r.OneIn(2):
			for i := 0; ; i++ {
				c, err := srpc.Dial(addr)
				c16dialed = true
				if err == nil || i > 4000 {
					return c, func() {}, err
				}
				time.Sleep(2 * time.Millisecond)
			}
		default:
			c, err := dial()
			if err != nil {
				return nil, nil, err
			}
			cl, err := srpc.NewClientWithConn(c, true, nil)
			return cl, func() { _ = c.Close() }, err
		}
	}
	// other connections
	noise := func(when string) error {
		for range r.Weighted(2, 2, 1, 1) {
			names := []string{"idle", "garbage", "garbage-close", "partial-header", "close", "yamux-idle", "yamux-bad-streams", "lost", "lost-streams", "not-reading"}
			if ws {
				names = append(names, "http-partial", "http-other-path", "http-get", "ws-text", "ws-bad-frame", "ws-closed", "ws-garbage")
			}
			name := names[r.Intn(len(names))]
			c16noise = append(c16noise, name)
			if strings.HasPrefix(name, "ws-") {
				c, err := wsDial()
				if err != nil {
					return fmt.Errorf("%s: %w", name, err)
				}
				t.AddCloser(func() { _ = c.CloseNow() })
				g := r.Bytes(r.Intn(60))
				go func() { // may block: nothing is read
					switch name {
					case "ws-text":
						_ = c.Write(context.Background(), websocket.MessageText, []byte("hello"))
					case "ws-garbage":
						_ = c.Write(context.Background(), websocket.MessageBinary, g)
					case "ws-closed":
						_ = c.CloseNow()
					case "ws-bad-frame":
						_ = c.Write(context.Background(), websocket.MessageBinary, nil)
					}
				}()
				continue
			}
			if strings.HasPrefix(name, "lost") || strings.HasPrefix(name, "yamux") && ws {
				cl, cut, err := client()
				if err != nil {
					return fmt.Errorf("%s: %w", name, err)
				}
				t.AddCloser(cut)
				n := 0
				if name == "lost-streams" {
					n = r.Range(1, 4)
				}
				for range n {
					st, err := cl.NewStream(context.Background(), noiseSvc, "wait", nil)
					if err != nil {
						return fmt.Errorf("%s: %w", name, err)
					}
					t.AddCloser(func() { _ = st.Close() })
				}
				if strings.HasPrefix(name, "lost") {
					go cut()
				}
				continue
			}
			c, err := dial()
			if err != nil {
				return err
			}
			g := r.Bytes(100)
			// do not wait for the server to read
			go func() {
				switch name {
				case "garbage":
					_, _ = c.Write(g)
				case "garbage-close":
					_, _ = c.Write(g[:30])
					_ = c.Close()
				case "partial-header":
					_, _ = c.Write([]byte{0, 2, 0})
				case "close":
					_ = c.Close()
				case "http-partial":
					_, _ = io.WriteString(c, "GET / HTTP/1.1\r\nHost: x\r\nUpgr")
				case "http-other-path":
					_, _ = io.WriteString(c, "GET /other/path HTTP/1.1\r\nHost: x\r\n\r\n")
				case "http-get":
					_, _ = io.WriteString(c, "GET "+path+" HTTP/1.1\r\nHost: x\r\n\r\n")
				}
			}()
			if strings.HasPrefix(name, "yamux") {
				s, err := yamux.Client(c, srpc.NewYamuxConfig(), nil)
				if err != nil {
					return err
				}
				t.AddCloser(func() { _ = s.Close() })
				if name == "yamux-bad-streams" {
					for i := range r.Range(1, 8) {
						st, err := s.OpenStream(context.Background())
						if err != nil {
							break
						}
						var b []byte
						switch i % 4 {
						case 0:
							b = r.Bytes(40)
						case 1:
							b = []byte{5, 0, 0, 0, 1}
						case 2:
							b = []byte{0xff, 0xff, 0xff, 0xff}
						case 3:
							b = append([]byte{7, 0, 0, 0}, []byte("\x0a\x05\x0a\x01s\x12")...)
						}
						bb := b
						go func() { _, _ = st.Write(bb) }()
					}
				}
			} else if name == "not-reading" {
				// answers to pings are not read
				go func() {
					for i := range 2000 {
						if _, err := c.Write([]byte{0, 2, 0, 1, 0, 0, 0, 0, 0, 0, byte(i >> 8), byte(i)}); err != nil {
							return
						}
					}
				}()
			}
		}
		return nil
	}
	if err := noise("before"); err != nil {
		return nil, fmt.Errorf("connecting before the clients: %w", err)
	}
	m := &multiClient{}
	for i := range c16crowd {
		if ws && i%4 != 0 {
			_, cut, err := client()
			if err != nil {
				return nil, fmt.Errorf("connection %d of a crowd: %w", i, err)
			}
			t.AddCloser(cut)
		} else {
			c, err := dial()
			if err != nil {
				return nil, fmt.Errorf("connection %d of a crowd: %w", i, err)
			}
			t.AddCloser(func() { _ = c.Close() })
		}
	}
	for range r.Range(1, 4) {
		c, cut, err := client()
		if err != nil {
			return nil, err
		}
		t.AddCloser(cut)
		for i := range c16crowdStreams {
			st, err := c.NewStream(context.Background(), noiseSvc, "wait", nil)
			if err != nil {
				return nil, fmt.Errorf("call %d of a connection: %w", i, err)
			}
			t.AddCloser(func() { _ = st.Close() })
		}
		m.l = append(m.l, c)
		if err := noise("between"); err != nil {
			return nil, fmt.Errorf("connecting next to the clients: %w", err)
		}
	}
	c16noise = append(c16noise, fmt.Sprint("clients-", len(m.l)))
	return m, nil
}

// c16acceptFails: the listener fails, connections accepted before go on.
func (x *Ctx) c16acceptFails(idx int, r *lib.Rand) {
	lis := newMemListener()
	ctx := lib.NewCountCtx()
	lerr := errors.New("listener failed")
	n := r.Range(0, 4)
	hold := make(chan struct{})
	inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		msg := srpc.NewRawMessage(nil, true)
		if err := strm.MsgRecv(msg); err != nil {
			return true, err
		}
		<-hold
		return true, strm.MsgSend(msg)
	})
	desc := map[string]any{"connections": n}
	base := starpcGoroutines(lib.Snapshot())
	s := x.Sched(r)
	var ends []*lib.SimConn
	x.Do(idx, desc, "a server whose listener failed", s, r.Fork(), func() {
		res := make(chan error, 1)
		go func() { res <- srpc.AcceptMuxedListener(ctx, lis, srpc.NewServer(inv), nil) }()
		var wg sync.WaitGroup
		for i := range n {
			a, b := lib.NewSimPair(lib.ConnOpts{}, lib.ConnOpts{})
			ends = append(ends, a, b)
			if lis.put(b) != nil {
				x.Rep.Violate("ended-early", idx, desc, "the server ended before its listener failed")
				break
			}
			c, err := srpc.NewClientWithConn(a, true, nil)
			if err != nil {
				x.Rep.Violate("transport", idx, desc, "%v", err)
				break
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				out := srpc.NewRawMessage(nil, true)
				want := lib.Content(i, 0, 0, 20)
				if err := c.ExecCall(context.Background(), "s", "m", srpc.NewRawMessage(want, true), out); err != nil || string(out.GetData()) != string(want) {
					x.Rep.Violate("ended-early", idx, desc, "a call on a connection accepted before the listener failed: %v", err)
				}
			}()
		}
		lis.fail(lerr)
		if err := <-res; err != lerr {
			x.Rep.Violate("wrong-outcome", idx, desc, "serving a failed listener returned %v", err)
		}
		close(hold)
		wg.Wait()
	})
	for _, e := range ends {
		_ = e.Close()
	}
	ctx.Cancel()
	for k, v := range starpcGoroutines(lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})) {
		if v > base[k] {
			x.Rep.Violate("goroutine-leak", idx, desc, "goroutines are left after all connections ended: %s", k)
		}
	}
	x.Rep.Eval(lib.Mix(uint64(n), s.SchedSig(), 77))
}

// c16paths: which requests are served.
func (x *Ctx) c16paths(idx int, r *lib.Rand) {
	pick := func() string {
		p := ""
		for range r.Weighted(1, 3, 3, 1) {
			p += "/" + lib.PickOf(r, "rpc", "rp", "rpcx", "RPC", "a", "", "rpc.ws", "%20")
		}
		if p == "" || r.OneIn(8) {
			p += "/"
		}
		return p
	}
	path := ""
	if !r.OneIn(6) {
		path = pick()
		if strings.Contains(path, "%") {
			path = strings.ReplaceAll(path, "%20", " ")
		}
	}
	req := pick()
	if path != "" && r.OneIn(2) {
		req = lib.PickOf(r, path, path+"/", path+"x", path[:len(path)-1], path+path, "/x"+path, strings.ToUpper(path))
		if !strings.HasPrefix(req, "/") {
			req = "/" + req
		}
		req = strings.ReplaceAll(req, " ", "%20")
	}
	upath := strings.ReplaceAll(req, "%20", " ")
	query := lib.PickOf(r, "", "", "?", "?path="+strings.ReplaceAll(path, " ", ""), "?a=/rpc")
	upgrade := !r.OneIn(6)
	serves := upgrade && (path == "" || upath == path)
	desc := map[string]any{"configured": path, "requested": req + query, "upgrade": upgrade}
	lis := newMemListener()
	called := atomic.Int32{}
	hs, err := srpc.NewHTTPServer(srpc.NewMux(srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		called.Add(1)
		return true, strm.MsgSend(srpc.NewRawMessage([]byte("hi"), true))
	})), path, nil)
	if err != nil {
		x.Rep.Violate("new-server", idx, desc, "%v", err)
		return
	}
	hsrv := &http.Server{Handler: hs, ErrorLog: log.New(io.Discard, "", 0)}
	go func() { _ = hsrv.Serve(lis) }()
	a, b := lib.NewSimPair(lib.ConnOpts{}, lib.ConnOpts{})
	status, body := "", ""
	var rerr, cerr error
	var got string
	x.Do(idx, desc, "a HTTP request", nil, nil, func() {
		_ = lis.put(b)
		h := "GET " + req + query + " HTTP/1.1\r\nHost: mem.local\r\n"
		if upgrade {
			h += "Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n"
		} else {
			h += "Connection: close\r\n"
		}
		_, _ = io.WriteString(a, h+"\r\n")
		br := bufio.NewReader(a)
		res, err := http.ReadResponse(br, nil)
		if rerr = err; err != nil {
			return
		}
		status = res.Status
		if res.StatusCode != 101 {
			bb, _ := io.ReadAll(res.Body)
			body = string(bb)
			return
		}
		// a call works over the upgraded connection
		wc, _, err := websocket.Dial(context.Background(), "ws://mem.local"+req+query, &websocket.DialOptions{HTTPClient: &http.Client{Transport: &http.Transport{
			DialContext: func(context.Context, string, string) (net.Conn, error) {
				a, b := lib.NewSimPair(lib.ConnOpts{}, lib.ConnOpts{})
				return a, lis.put(b)
			}}}})
		if cerr = err; err != nil {
			return
		}
		defer wc.CloseNow()
		mc, err := c16wsConn(wc, idx%2 == 0)
		if cerr = err; err != nil {
			return
		}
		out := srpc.NewRawMessage(nil, true)
		cerr = srpc.NewClientWithMuxedConn(mc).ExecCall(context.Background(), "s", "m", srpc.NewRawMessage(nil, true), out)
		got = string(out.GetData())
		go mc.Close()
	})
	_ = a.Close()
	_ = hsrv.Close()
	x.Rep.Eval(lib.HashStr(fmt.Sprint(desc)))
	if idx%300 == 0 {
		x.Rep.Sample(desc)
	}
	up := strings.HasPrefix(status, "101")
	if rerr != nil || up != serves {
		x.Rep.Violate("wrong-path", idx, desc, "the request was answered with %q (%v), served %v", status, rerr, up)
		return
	}
	if serves {
		x.Rep.Count("served", 1)
		if cerr != nil || got != "hi" {
			x.Rep.Violate("call-failed", idx, desc, "a call over the connection returned %q, %v", got, cerr)
		}
	} else {
		x.Rep.Count("not-served", 1)
		if called.Load() != 0 {
			x.Rep.Violate("wrong-path", idx, desc, "a handler ran: %s", body)
		}
	}
}

// c16listenEnds: when and how Listen returns.
func (x *Ctx) c16listenEnds(idx int, r *lib.Rand) {
	how := lib.PickOf(r, "ctx", "ctx", "ctx-before", "errch", "errch", "in-use")
	useErrCh := r.OneIn(2) || how == "errch"
	clients := r.Intn(4)
	desc := map[string]any{"how": how, "error_channel": useErrCh, "clients": clients}
	fatal := errors.New("fatal")
	inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		if m == "wait" {
			<-strm.Context().Done()
			return true, nil
		}
		return true, strm.MsgSend(srpc.NewRawMessage([]byte("hi"), true))
	})
	addr, err := loopAddr(r)
	if err != nil {
		x.Rep.Inconclusive(idx, "no loopback: %v", err)
		return
	}
	ctx := lib.NewCountCtx()
	defer ctx.Cancel()
	var errCh chan error
	if useErrCh {
		errCh = make(chan error, 1)
	}
	x.DoOpt(idx, desc, "Listen after "+how, lib.WaitOpts{Net: true}, func() {
		if how == "in-use" {
			l, err := net.Listen("tcp", addr)
			if err != nil {
				return
			}
			defer l.Close()
			if err := srpc.Listen(ctx, addr, srpc.NewServer(inv), errCh); err == nil || err == context.Canceled {
				x.Rep.Violate("wrong-outcome", idx, desc, "listening on an address in use returned %v", err)
			}
			return
		}
		if how == "ctx-before" {
			ctx.Cancel()
		}
		res := make(chan error, 1)
		go func() { res <- srpc.Listen(ctx, addr, srpc.NewServer(inv), errCh) }()
		want := context.Canceled
		if how != "ctx-before" {
			var c srpc.Client
			for i := 0; ; i++ {
				if c, err = srpc.Dial(addr); err == nil {
					break
				}
				select {
				case err := <-res:
					if strings.Contains(err.Error(), "in use") {
						return // another process was faster
					}
					x.Rep.Violate("ended-early", idx, desc, "Listen returned %v without a reason", err)
					return
				default:
				}
				if i > 5000 {
					x.Rep.Violate("not-listening", idx, desc, "cannot connect: %v", err)
					return
				}
				time.Sleep(2 * time.Millisecond)
			}
			cl := []srpc.Client{c}
			for range clients {
				if c, err = srpc.Dial(addr); err != nil {
					x.Rep.Violate("dial-failed", idx, desc, "connecting to a listening server: %v", err)
					return
				}
				cl = append(cl, c)
			}
			for _, c := range cl {
				out := srpc.NewRawMessage(nil, true)
				if err := c.ExecCall(context.Background(), "s", "m", srpc.NewRawMessage(nil, true), out); err != nil || string(out.GetData()) != "hi" {
					x.Rep.Violate("call-failed", idx, desc, "a call over Dial returned %q, %v", out.GetData(), err)
				}
				if r.OneIn(2) {
					st, err := c.NewStream(context.Background(), "s", "wait", nil)
					if err != nil {
						x.Rep.Violate("call-failed", idx, desc, "%v", err)
						return
					}
					defer st.Close()
				}
			}
			select {
			case err := <-res:
				x.Rep.Violate("ended-early", idx, desc, "Listen returned %v without a reason", err)
				return
			default:
			}
			if how == "errch" {
				switch r.Intn(3) {
				case 0:
					want = nil
					errCh <- nil
				case 1:
					want = nil
					close(errCh)
				default:
					want = fatal
					errCh <- fatal
				}
			} else {
				ctx.Cancel()
			}
		}
		err := <-res
		if err != want && !(how == "ctx-before" && strings.Contains(err.Error(), "in use")) {
			x.Rep.Violate("wrong-outcome", idx, desc, "Listen returned %v instead of %v", err, want)
		}
		// the address is free again
		for i := 0; ; i++ {
			l, err := net.Listen("tcp", addr)
			if err == nil {
				_ = l.Close()
				break
			}
			if i > 1500 {
				x.Rep.Violate("not-released", idx, desc, "the address is still in use after Listen returned: %v", err)
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
	})
	x.Rep.Count("listen-ends:"+how, 1)
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(desc)), uint64(idx)))
}

// c16stopped: a listener whose muxer cannot be made, or whose context ends.
func (x *Ctx) c16stopped(idx int, r *lib.Rand) {
	badConf := r.OneIn(3)
	n := r.Range(1, 5)
	desc := map[string]any{"bad_config": badConf, "connections": n}
	conf := srpc.NewYamuxConfig()
	if badConf {
		switch r.Intn(2) {
		case 0:
			conf.AcceptBacklog = 0
		case 1:
			conf.EnableKeepAlive, conf.KeepAliveInterval = true, 0
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	mem := newMemListener()
	srv := srpc.NewServer(srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		return true, strm.MsgSend(srpc.NewRawMessage([]byte(m), true))
	}))
	ended := make(chan error, 1)
	lisErr := errors.New("no more connections")
	var ends []*lib.SimConn
	bad := ""
	f := func() {
		go func() { ended <- srpc.AcceptMuxedListener(ctx, mem, srv, conf) }()
		var cls []srpc.Client
		var rest []net.Conn
		for range n {
			a, b := lib.NewSimPair(lib.ConnOpts{Rand: r.Fork()}, lib.ConnOpts{Rand: r.Fork()})
			ends = append(ends, a)
			if err := mem.put(b); err != nil {
				bad = "the listener was left: " + err.Error()
				return
			}
			if badConf {
				rest = append(rest, a)
				continue
			}
			cl, err := srpc.NewClientWithConn(a, true, nil)
			if err != nil {
				bad = "connecting: " + err.Error()
				return
			}
			cls = append(cls, cl)
		}
		call := func(cl srpc.Client, m string) error {
			out := srpc.NewRawMessage(nil, true)
			err := cl.ExecCall(context.Background(), "s", m, srpc.NewRawMessage(nil, true), out)
			if err == nil && string(out.GetData()) != m {
				err = fmt.Errorf("the response is %q", out.GetData())
			}
			return err
		}
		for k, cl := range cls {
			if err := call(cl, fmt.Sprint("m", k)); err != nil {
				bad = "a call failed: " + err.Error()
				return
			}
		}
		cancel()
		for _, cl := range cls {
			// the loop of a connection ends at the next stream at the latest;
			// then the connection ends: no call is left without an answer
			for k := 0; call(cl, "after") == nil; k++ {
				if k == 50 {
					bad = "a connection is served although the context of the listener ended"
					return
				}
			}
			for range 2 {
				_ = call(cl, "after")
			}
		}
		for _, c := range rest {
			// what cannot be served is closed
			_, _ = io.Copy(io.Discard, c)
		}
		mem.fail(lisErr)
		if err := <-ended; err != lisErr {
			bad = fmt.Sprintf("the listener ended with %v", err)
		}
	}
	ok := x.Do(idx, desc, "connections of a listener", x.Sched(r), r.Fork(), f)
	for _, c := range ends {
		_ = c.Close()
	}
	mem.fail(lisErr)
	if !ok {
		return
	}
	if bad != "" {
		x.Rep.Violate("stopped", idx, desc, "%s", bad)
	}
	x.Rep.Count("stopped-listeners", 1)
	x.Rep.Eval(lib.Mix(uint64(idx), uint64(n)))
}

// c16wsConn makes a muxed connection over a WebSocket; own: as any peer of the
// protocol does, with binary messages only.
func c16wsConn(c *websocket.Conn, own bool) (network.MuxedConn, error) {
	if own {
		return srpc.NewMuxedConn(websocket.NetConn(context.Background(), c, websocket.MessageBinary), true, nil)
	}
	return srpc.NewWebSocketConn(context.Background(), c, false, nil)
}
