package lib

import (
	"context"
	"errors"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/libp2p/go-libp2p/core/network"
	ymuxer "github.com/libp2p/go-libp2p/p2p/muxer/yamux"
	yamux "github.com/libp2p/go-yamux/v4"
	"github.com/sirupsen/logrus"
)

// Transport connects a client to a server.
type Transport struct {
	Kind string
	// Client makes calls served by the invoker.
	Client srpc.Client
	// SrvCtx is the context of the server side.
	SrvCtx *CountCtx
	// Sims are the connections in use (client end, server end).
	mtx    sync.Mutex
	Sims   [][2]*SimConn
	Sess   []*yamux.Session
	closer []func()
	// Loops is the number of accept loops running.
	Loops atomic.Int64
	// Handles is the number of HandleStream calls running (sim transports).
	Handles atomic.Int64
	// OpenErrs is the number of streams the muxer failed to open.
	OpenErrs atomic.Int64
	// lookups of components.
	lookups []*Lookup
	// OpenHook is called when a sim connection is opened: may set cuts.
	OpenOpts func(i int) (ab, ba ConnOpts)
	nOpen    int
	// Rec: record the bytes of the connections.
	Rec bool
}

// ConnGen makes connection options.
type ConnGen func(i int) (ab, ba ConnOpts)

// DefaultConn makes random chunking options.
func DefaultConn(r *Rand) ConnGen {
	mode := r.Intn(4)
	return func(int) (ab, ba ConnOpts) {
		one := func() ConnOpts {
			o := ConnOpts{Rand: r.Fork()}
			switch mode {
			case 0:
			case 1:
				o.MaxRead = PickOf(r, 1, 3, 7, 64, 3000)
			case 2:
				o.Cap = PickOf(r, 1, 5, 64, 1024, 5000)
			case 3:
				o.MaxRead = PickOf(r, 5, 100, 2048)
				o.Cap = PickOf(r, 13, 300, 4096)
			}
			o.EOFWithData = r.OneIn(3)
			return o
		}
		return one(), one()
	}
}

// Rs wraps a srpc.Stream as a RpcStream.
type Rs struct{ srpc.Stream }

// Send implements RpcStream.
func (r *Rs) Send(p *rpcstream.RpcStreamPacket) error { return r.MsgSend(p) }

// Recv implements RpcStream.
func (r *Rs) Recv() (*rpcstream.RpcStreamPacket, error) {
	p := &rpcstream.RpcStreamPacket{}
	if err := r.MsgRecv(p); err != nil {
		return nil, err
	}
	return p, nil
}

// RsCaller makes a caller of the nested stream method.
func RsCaller(c srpc.Client, svc, method string) rpcstream.RpcStreamCaller[*Rs] {
	return func(ctx context.Context) (*Rs, error) {
		s, err := c.NewStream(ctx, svc, method, nil)
		if err != nil {
			return nil, err
		}
		return &Rs{s}, nil
	}
}

const (
	// OuterSvc and OuterMethod serve nested streams.
	OuterSvc, OuterMethod, ProxyMethod = "verif.Outer", "Nested", "Proxied"
)

// Kinds of transports.
var (
	BasicKinds  = []string{"pipe", "sim", "yamux-pipe", "yamux-sim"}
	NestedKinds = []string{"nested-sim", "nested-yamux", "nested2-sim"}
	ProxyKinds  = []string{"proxy-sim", "proxy-yamux", "proxy2-sim"}
)

// ExtraKinds are further kinds of transports.
var ExtraKinds = map[string]func(t *Transport, inv srpc.Invoker, r *Rand, gen ConnGen) (srpc.Client, error){}

// AddSim makes a connection which is closed with the transport.
func (t *Transport) AddSim(gen ConnGen) (a, b *SimConn) { return t.addSim(gen) }

// AddCloser adds a function called by Close.
func (t *Transport) AddCloser(f func()) {
	t.mtx.Lock()
	t.closer = append(t.closer, f)
	t.mtx.Unlock()
}

func (t *Transport) addSim(gen ConnGen) (a, b *SimConn) {
	t.mtx.Lock()
	i := t.nOpen
	t.nOpen++
	ab, ba := gen(i)
	a, b = NewSimPair(ab, ba)
	if t.Rec {
		a.Record()
		b.Record()
	}
	t.Sims = append(t.Sims, [2]*SimConn{a, b})
	t.mtx.Unlock()
	return a, b
}

// Conns returns the sim connections so far.
func (t *Transport) Conns() [][2]*SimConn {
	t.mtx.Lock()
	defer t.mtx.Unlock()
	return append([][2]*SimConn(nil), t.Sims...)
}

// simClient opens one sim connection per call.
func (t *Transport) simClient(srv *srpc.Server, gen ConnGen) srpc.Client {
	return srpc.NewClient(t.simOpen(srv, gen))
}

func (t *Transport) simOpen(srv *srpc.Server, gen ConnGen) srpc.OpenStreamFunc {
	return func(ctx context.Context, msgHandler srpc.PacketDataHandler, closeHandler srpc.CloseHandler) (srpc.PacketWriter, error) {
		if ctx.Err() != nil {
			return nil, context.Canceled
		}
		a, b := t.addSim(gen)
		t.Handles.Add(1)
		go func() {
			srv.HandleStream(t.SrvCtx, b)
			t.Handles.Add(-1)
		}()
		prw := srpc.NewPacketReadWriter(a)
		go prw.ReadPump(msgHandler, closeHandler)
		return prw, nil
	}
}

// yamuxClient opens one muxed connection.
func (t *Transport) yamuxClient(srv *srpc.Server, ca, cb net.Conn) (srpc.Client, error) {
	cs, err := yamux.Client(ca, srpc.NewYamuxConfig(), nil)
	if err != nil {
		return nil, err
	}
	ss, err := yamux.Server(cb, srpc.NewYamuxConfig(), nil)
	if err != nil {
		return nil, err
	}
	t.Sess = append(t.Sess, cs, ss)
	t.closer = append(t.closer, func() { _ = cs.Close(); _ = ss.Close() })
	t.Loops.Add(1)
	go func() {
		_ = srv.AcceptMuxedConn(t.SrvCtx, ymuxer.NewMuxedConn(ss))
		t.Loops.Add(-1)
	}()
	return srpc.NewClientWithMuxedConn(&trackConn{MuxedConn: ymuxer.NewMuxedConn(cs), failed: &t.OpenErrs}), nil
}

// trackConn counts the failures of the muxer to open a stream.
type trackConn struct {
	network.MuxedConn
	failed *atomic.Int64
}

// OpenStream opens a stream.
func (c *trackConn) OpenStream(ctx context.Context) (network.MuxedStream, error) {
	s, err := c.MuxedConn.OpenStream(ctx)
	if err != nil {
		c.failed.Add(1)
	}
	return s, err
}

// ErrNoComp is the lookup error.
var ErrNoComp = errors.New("lookup failed: no such component")

// Lookup is one lookup of a found component.
type Lookup struct {
	What string
	rels atomic.Int32
	// bad is an online violation.
	bad atomic.Pointer[string]
}

// Lookup registers a lookup.
func (t *Transport) Lookup(what string) *Lookup {
	l := &Lookup{What: what}
	t.mtx.Lock()
	t.lookups = append(t.lookups, l)
	t.mtx.Unlock()
	return l
}

// Release is the release function.
func (l *Lookup) Release() { l.rels.Add(1) }

// Wrap monitors the invocations.
func (l *Lookup) Wrap(inv srpc.Invoker) srpc.Invoker {
	check := func(when string, ctx context.Context) {
		if l.rels.Load() == 0 {
			return
		}
		for i := 0; ctx.Err() == nil; i++ {
			if i == 2000 {
				s := "the lookup was released " + when + " although the call was not cancelled"
				l.bad.Store(&s)
				return
			}
			time.Sleep(time.Millisecond)
		}
	}
	return srpc.InvokerFunc(func(svc, method string, strm srpc.Stream) (bool, error) {
		check("before the call was handled", strm.Context())
		done, err := inv.InvokeMethod(svc, method, strm)
		check("before the handler returned", strm.Context())
		return done, err
	})
}

// CheckLookups checks the lookups when all is over. Returns the number.
func (t *Transport) CheckLookups(bad func(key, format string, args ...any)) int {
	t.mtx.Lock()
	defer t.mtx.Unlock()
	for _, l := range t.lookups {
		if s := l.bad.Load(); s != nil {
			bad("release-early", "%s: %s", l.What, *s)
		}
		if n := l.rels.Load(); n != 1 {
			bad("release", "%s: the lookup was released %d times", l.What, n)
		}
	}
	return len(t.lookups)
}

func (t *Transport) nestedInvoker(inv srpc.Invoker) srpc.Invoker {
	return srpc.InvokerFunc(func(svc, method string, strm srpc.Stream) (bool, error) {
		if svc != OuterSvc || method != OuterMethod {
			return false, nil
		}
		return true, rpcstream.HandleRpcStream(&Rs{strm}, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
			if id != "comp" {
				return nil, nil, ErrNoComp
			}
			l := t.Lookup("nested " + id)
			return l.Wrap(inv), l.Release, nil
		})
	})
}

func (t *Transport) proxyInvoker(target srpc.Client, method string) srpc.Invoker {
	return srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		if svc != OuterSvc || m != ProxyMethod {
			return false, nil
		}
		return true, rpcstream.HandleProxyRpcStream(&Rs{strm}, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[*Rs], string, func(), error) {
			if id != "proxied" && id != "comp" {
				return nil, "", nil, ErrNoComp
			}
			return RsCaller(target, OuterSvc, method), "comp", t.Lookup("proxy " + id).Release, nil
		})
	})
}

// NewTransport makes a transport.
func NewTransport(kind string, inv srpc.Invoker, r *Rand, gen ConnGen, rec bool) (*Transport, error) {
	t := &Transport{Kind: kind, SrvCtx: NewCountCtx(), Rec: rec}
	if gen == nil {
		gen = DefaultConn(r)
	}
	var err error
	base := func(k string, inv srpc.Invoker) (srpc.Client, error) {
		srv := srpc.NewServer(inv)
		switch k {
		case "pipe":
			return srpc.NewClient(srpc.NewServerPipe(srv)), nil
		case "sim":
			return t.simClient(srv, gen), nil
		case "yamux-pipe":
			a, b := net.Pipe()
			return t.yamuxClient(srv, a, b)
		case "yamux-sim":
			a, b := t.addSim(gen)
			return t.yamuxClient(srv, a, b)
		case "yamux-rwc":
			a, b := t.addSim(gen)
			ra := srpc.NewRwcConn(context.Background(), a, nil, nil, r.Range(0, 12))
			rb := srpc.NewRwcConn(context.Background(), b, nil, nil, r.Range(0, 12))
			return t.yamuxClient(srv, ra, rb)
		case "yamux-mrwc":
			a, b := t.addSim(gen)
			// whose errors are not those of a net.Conn
			ma, err := srpc.NewMuxedConnWithRwc(t.SrvCtx, struct{ io.ReadWriteCloser }{a}, true, nil)
			if err != nil {
				return nil, err
			}
			mb, err := srpc.NewMuxedConnWithRwc(t.SrvCtx, struct{ io.ReadWriteCloser }{b}, false, nil)
			if err != nil {
				return nil, err
			}
			t.closer = append(t.closer, func() { _ = ma.Close(); _ = mb.Close() })
			t.Loops.Add(1)
			go func() {
				_ = srv.AcceptMuxedConn(t.SrvCtx, mb)
				t.Loops.Add(-1)
			}()
			return srpc.NewClientWithMuxedConn(ma), nil
		}
		return nil, errors.New("unknown transport " + k)
	}
	waitAck := r.OneIn(2)
	switch kind {
	case "nested-sim", "nested-yamux", "nested-pipe":
		var outer srpc.Client
		outer, err = base(map[string]string{"nested-sim": "sim", "nested-yamux": "yamux-sim", "nested-pipe": "pipe"}[kind], t.nestedInvoker(inv))
		if err == nil {
			t.Client = rpcstream.NewRpcStreamClient(RsCaller(outer, OuterSvc, OuterMethod), "comp", waitAck)
		}
	case "nested2-sim":
		var outer srpc.Client
		outer, err = base("sim", t.nestedInvoker(t.nestedInvoker(inv)))
		if err == nil {
			mid := rpcstream.NewRpcStreamClient(RsCaller(outer, OuterSvc, OuterMethod), "comp", r.OneIn(2))
			t.Client = rpcstream.NewRpcStreamClient(RsCaller(mid, OuterSvc, OuterMethod), "comp", waitAck)
		}
	case "proxy-sim", "proxy-yamux":
		k := map[string]string{"proxy-sim": "sim", "proxy-yamux": "yamux-sim"}[kind]
		var target, outer srpc.Client
		target, err = base(k, t.nestedInvoker(inv))
		if err == nil {
			outer, err = base(k, t.proxyInvoker(target, OuterMethod))
		}
		if err == nil {
			t.Client = rpcstream.NewRpcStreamClient(RsCaller(outer, OuterSvc, ProxyMethod), "proxied", waitAck)
		}
	case "proxy2-sim":
		var target, mid, outer srpc.Client
		target, err = base("sim", t.nestedInvoker(inv))
		if err == nil {
			mid, err = base("sim", t.proxyInvoker(target, OuterMethod))
		}
		if err == nil {
			outer, err = base("sim", t.proxyInvoker(mid, ProxyMethod))
		}
		if err == nil {
			t.Client = rpcstream.NewRpcStreamClient(RsCaller(outer, OuterSvc, ProxyMethod), "proxied", waitAck)
		}
	case "wrapped-pipe", "wrapped-sim", "wrapped-yamux":
		le := logrus.NewEntry(logrus.New())
		le.Logger.SetOutput(io.Discard)
		le.Logger.SetLevel(logrus.DebugLevel)
		inv = srpc.NewPrefixInvoker(srpc.NewVMux(srpc.NewMux(nil, srpc.InvokerSlice{nil, srpc.InvokerFunc(nil), srpc.NewPrefixInvoker(inv, []string{"other/"}), inv}), le, true), []string{"no/", "pre/", "p"})
		var c srpc.Client
		c, err = base(map[string]string{"wrapped-pipe": "pipe", "wrapped-sim": "sim", "wrapped-yamux": "yamux-sim"}[kind], inv)
		if err == nil {
			c = srpc.NewClientSet([]srpc.Client{nil, srpc.NewPrefixClient(c, []string{"never/"}), srpc.NewVClient(srpc.NewPrefixClient(c, []string{"q/", "up/"}), le)})
			t.Client = prefixAdder{c, "up/pre/"}
		}
	default:
		if f := ExtraKinds[kind]; f != nil {
			t.Client, err = f(t, inv, r, gen)
		} else {
			t.Client, err = base(kind, inv)
		}
	}
	if err != nil {
		t.Close()
		return nil, err
	}
	return t, nil
}

// prefixAdder adds a prefix to the service ids.
type prefixAdder struct {
	srpc.Client
	prefix string
}

// ExecCall executes a call.
func (p prefixAdder) ExecCall(ctx context.Context, service, method string, in, out srpc.Message) error {
	return p.Client.ExecCall(ctx, p.prefix+service, method, in, out)
}

// NewStream opens a stream.
func (p prefixAdder) NewStream(ctx context.Context, service, method string, firstMsg srpc.Message) (srpc.Stream, error) {
	return p.Client.NewStream(ctx, p.prefix+service, method, firstMsg)
}

// Close tears the transport down.
func (t *Transport) Close() {
	t.mtx.Lock()
	closer := t.closer
	t.mtx.Unlock()
	for _, f := range closer {
		f()
	}
	t.SrvCtx.Cancel()
	for _, p := range t.Conns() {
		_ = p[0].Close()
		_ = p[1].Close()
	}
}

// Streams is the number of open muxed streams on both ends.
func (t *Transport) Streams() (client, server int) {
	for i, s := range t.Sess {
		if i%2 == 0 {
			client += s.NumStreams()
		} else {
			server += s.NumStreams()
		}
	}
	return
}

var _ io.Closer = (*SimConn)(nil)
