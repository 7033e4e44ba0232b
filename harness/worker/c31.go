package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() { Props["C31"] = c31 }

func c31(x *Ctx) {
	x.Each("calls", 4000, func(idx int, r *lib.Rand) { x.c31calls(idx, r, false) })
	x.Each("ticking", 40, func(idx int, r *lib.Rand) { x.c31calls(idx, r, true) })
	x.Each("messages", 8000, x.c31msgs)
}

const hello = "hello from server"

type echoCall struct {
	Kind   string   `json:"kind"`
	Nested []string `json:"nested,omitempty"`
	Ack    bool     `json:"ack,omitempty"`
	Bodies []string `json:"bodies"`
	// Lock: each message waits for the echo of the one before.
	Lock bool `json:"lock,omitempty"`
	// Cancel after so many received messages (-1: never).
	Cancel int `json:"cancel"`
	// SvcID overrides the service id.
	SvcID string `json:"svcID,omitempty"`
	want  string
	got   []string
	end   error
	bad   string
}

func (c *echoCall) String() string {
	return fmt.Sprintf("%s nested %q of %d bodies (first %.20q) lock %v cancel %d: got %d (%.60q), end %v", c.Kind, c.Nested, len(c.Bodies), append(c.Bodies, "")[0], c.Lock, c.Cancel, len(c.got), c.got, c.end)
}

func (x *Ctx) c31calls(idx int, r *lib.Rand, ticking bool) {
	kind := PickKind(r, "pipe", "sim", "yamux-pipe", "yamux-sim")
	inner := srpc.NewMux()
	deep := r.OneIn(2)
	outerMux := srpc.NewMux()
	svc2 := "other/" + genStr(r)
	var nested srpc.Mux
	if r.OneIn(5) {
		inner = nil
	} else {
		nested = inner
		if deep {
			if err := echo.NewEchoServer(inner).Register(inner); err != nil {
				x.Rep.Violate("register", idx, nil, "%v", err)
			}
		} else if err := echo.NewEchoServer(nil).Register(inner); err != nil {
			x.Rep.Violate("register", idx, nil, "%v", err)
		}
	}
	srv := echo.NewEchoServer(nested)
	err := srv.Register(outerMux)
	if err == nil {
		err = outerMux.Register(echo.NewSRPCEchoerHandler(srv, svc2))
	}
	var mocked atomic.Int64
	ms := &mock.MockServer{}
	mode := r.Intn(4)
	if mode > 0 {
		ms.MockRequestCb = func(ctx context.Context, m *mock.MockMsg) (*mock.MockMsg, error) {
			mocked.Add(1)
			switch {
			case strings.HasPrefix(m.GetBody(), "fail"):
				return nil, errors.New("mock: " + m.GetBody())
			case m.GetBody() == "":
				return &mock.MockMsg{}, nil
			}
			return &mock.MockMsg{Body: m.GetBody() + "!"}, nil
		}
	}
	if err == nil {
		err = ms.Register(outerMux)
	}
	if err != nil {
		x.Rep.Violate("register", idx, nil, "registering: %v", err)
		return
	}
	n := r.Weighted(0, 4, 2, 2, 1, 1)
	if ticking {
		n = 24
	}
	calls := make([]*echoCall, n)
	for i := range calls {
		c := &echoCall{Kind: lib.PickOf(r, "echo", "client", "bidi", "bidi", "nothing", "mock"), Cancel: -1}
		if ticking {
			c.Kind = lib.PickOf(r, "server", "server", "server", "server", "bidi", "echo")
		}
		for k := r.Weighted(1, 3, 3, 2, 2, 1, 1, 1); k > 0; k-- {
			c.Bodies = append(c.Bodies, fmt.Sprintf("%d.%d:", i, k)+genStr(r))
		}
		if r.OneIn(8) && len(c.Bodies) > 0 {
			c.Bodies[r.Intn(len(c.Bodies))] = ""
		}
		if c.Kind == "mock" && r.OneIn(3) {
			c.Bodies = []string{lib.PickOf(r, "fail "+genStr(r), "")}
		}
		c.Lock = r.OneIn(3)
		if c.Kind == "server" && r.OneIn(3) {
			c.Cancel = r.Range(0, 5)
		}
		if c.Kind != "mock" && r.OneIn(4) {
			for k := r.Range(1, 2); k > 0; k-- {
				c.Nested = append(c.Nested, lib.PickOf(r, "test", "", "a/b", genStr(r)))
			}
			c.Ack = r.OneIn(2)
		} else if c.Kind != "mock" && r.OneIn(3) {
			c.SvcID = svc2
		}
		calls[i] = c
	}
	desc := map[string]any{"transport": kind, "calls": calls, "nested": inner != nil, "deep": deep, "mock": mode > 0}
	tr, err := lib.NewTransport(kind, outerMux, r.Fork(), nil, false)
	if err != nil {
		x.Rep.Violate("transport", idx, desc, "%v", err)
		return
	}
	defer tr.Close()
	o := lib.WaitOpts{Sched: x.Sched(r), Rand: r.Fork()}
	if ticking {
		// timers are pending
		o.Idle = func() bool { return true }
	}
	if !x.DoOpt(idx, desc, "a call of the echo service", o, func() {
		var wg sync.WaitGroup
		for _, c := range calls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.run(tr.Client)
			}()
		}
		wg.Wait()
	}) {
		return
	}
	for i, c := range calls {
		bad := c.check(inner != nil, deep, mode > 0)
		if bad != "" {
			x.Rep.Violate("echo", idx, desc, "call %d: %s\n%s", i, bad, c)
		}
		x.Rep.Count("calls:"+c.Kind, 1)
		x.Rep.Count("messages", len(c.got))
		x.Rep.Eval(lib.Mix(lib.HashStr(kind), lib.HashStr(fmt.Sprint(c.Kind, c.Nested, c.Bodies, c.Lock, c.Cancel, c.SvcID, c.Ack))))
	}
	x.Rep.Count("transport:"+kind, 1)
}

func (c *echoCall) run(cl srpc.Client) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if c.Kind == "mock" {
		m := ""
		if len(c.Bodies) > 0 {
			m = c.Bodies[0]
		}
		out, err := mock.NewSRPCMockClient(cl).MockRequest(ctx, &mock.MockMsg{Body: m})
		if c.end = err; err == nil {
			c.got = append(c.got, out.GetBody())
		}
		return
	}
	ec := echo.NewSRPCEchoerClientWithServiceID(cl, c.SvcID)
	for _, id := range c.Nested {
		prev := ec
		ec = echo.NewSRPCEchoerClient(rpcstream.NewRpcStreamClient(prev.RpcStream, id, c.Ack))
	}
	first := &echo.EchoMsg{}
	if len(c.Bodies) > 0 {
		first.Body = c.Bodies[0]
	}
	switch c.Kind {
	case "nothing":
		_, c.end = ec.DoNothing(ctx, &emptypb.Empty{})
	case "echo":
		out, err := ec.Echo(ctx, first)
		if c.end = err; err == nil {
			c.got = append(c.got, out.GetBody())
		}
	case "server":
		st, err := ec.EchoServerStream(ctx, first)
		if err != nil {
			c.end = err
			return
		}
		defer st.Close()
		for {
			if c.Cancel == len(c.got) {
				cancel()
			}
			m, err := st.Recv()
			if err != nil {
				c.end = err
				return
			}
			c.got = append(c.got, m.GetBody())
		}
	case "client":
		st, err := ec.EchoClientStream(ctx)
		if err != nil {
			c.end = err
			return
		}
		defer st.Close()
		for _, b := range c.Bodies {
			// the call may be over after the first
			if err := st.Send(&echo.EchoMsg{Body: b}); err != nil {
				break
			}
		}
		out, err := st.CloseAndRecv()
		if c.end = err; err == nil {
			c.got = append(c.got, out.GetBody())
		}
	case "bidi":
		st, err := ec.EchoBidiStream(ctx)
		if err != nil {
			c.end = err
			return
		}
		defer st.Close()
		next := make(chan struct{}, len(c.Bodies)+100)
		sent := make(chan struct{})
		go func() {
			defer close(sent)
			for _, b := range c.Bodies {
				if c.Lock {
					if _, ok := <-next; !ok {
						return
					}
				}
				if st.Send(&echo.EchoMsg{Body: b}) != nil {
					return
				}
			}
			if c.Lock {
				// all echoes first
				if _, ok := <-next; !ok {
					return
				}
			}
			_ = st.CloseSend()
		}()
		var m echo.EchoMsg
		for {
			m.Reset()
			err := st.RecvTo(&m)
			if err != nil {
				c.end = err
				break
			}
			if len(c.got) < cap(next) {
				next <- struct{}{}
			}
			c.got = append(c.got, m.GetBody())
		}
		close(next)
		runtime.Gosched()
		<-sent
	}
}

func (c *echoCall) check(nested, deep, mocked bool) string {
	is := func(want ...string) string {
		if len(c.got) != len(want) {
			return fmt.Sprintf("%d messages instead of %d", len(c.got), len(want))
		}
		for i, w := range want {
			if c.got[i] != w {
				return fmt.Sprintf("message %d is %.60q instead of %.60q", i, c.got[i], w)
			}
		}
		return ""
	}
	ends := func(want error) string {
		if want == nil && c.end != nil || want != nil && (c.end == nil || c.end.Error() != want.Error()) {
			return fmt.Sprintf("the call ends with %v instead of %v", c.end, want)
		}
		return ""
	}
	// nested calls which have nowhere to go
	if len(c.Nested) > 0 && !nested || len(c.Nested) > 1 && !deep {
		if len(c.got) > 0 || c.end == nil || c.end == io.EOF {
			return "a nested call without a mux does not fail"
		}
		if c.Ack && !strings.Contains(c.end.Error(), "not implemented") {
			return "a nested call without a mux fails with " + c.end.Error()
		}
		return ""
	}
	body := ""
	if len(c.Bodies) > 0 {
		body = c.Bodies[0]
	}
	switch c.Kind {
	case "mock":
		switch {
		case !mocked:
			return is() + ends(srpc.ErrUnimplemented)
		case strings.HasPrefix(body, "fail"):
			return is() + ends(errors.New("mock: "+body))
		case body == "":
			return is("") + ends(nil)
		}
		return is(body+"!") + ends(nil)
	case "nothing":
		return ends(nil)
	case "echo":
		return is(body) + ends(nil)
	case "client":
		if len(c.Bodies) == 0 {
			if c.end == nil || len(c.got) > 0 {
				return "a stream without a message does not fail"
			}
			return ""
		}
		return is(body) + ends(nil)
	case "server":
		for i, g := range c.got {
			if g != body {
				return fmt.Sprintf("message %d is %.60q instead of %.60q", i, g, body)
			}
		}
		if c.Cancel >= 0 {
			if len(c.got) > 5 || c.end == nil {
				return "a cancelled stream goes on"
			}
			if c.Cancel < 5 && len(c.got) < c.Cancel {
				return "the stream ended before it was cancelled"
			}
			return ""
		}
		return is(body, body, body, body, body) + ends(io.EOF)
	case "bidi":
		want := []string{hello}
		for _, b := range c.Bodies {
			if b == "" {
				return is(want...) + ends(errors.New("got message with empty body"))
			}
			want = append(want, b)
		}
		return is(want...) + ends(io.EOF)
	}
	return "?"
}

// c31msgs checks the messages of both services.
func (x *Ctx) c31msgs(idx int, r *lib.Rand) {
	body := genStr(r)
	other := genStr(r)
	enc := func(b string) []byte {
		if b == "" {
			return nil
		}
		return vlen(r, 1, []byte(b))
	}
	// any valid encoding: a field may come twice, unknown ones are kept out
	var raw []byte
	if r.OneIn(4) {
		raw = append(raw, vunknown(r, 2)...)
	}
	if r.OneIn(4) && body != "" {
		raw = append(raw, enc(other)...)
	}
	raw = append(raw, enc(body)...)
	if r.OneIn(4) {
		raw = append(raw, vunknown(r, 2)...)
	}
	type msg interface {
		MarshalVT() ([]byte, error)
		UnmarshalVT([]byte) error
		SizeVT() int
		MarshalJSON() ([]byte, error)
		UnmarshalJSON([]byte) error
		GetBody() string
		Reset()
	}
	clone := func(m msg) msg {
		if e, ok := m.(*echo.EchoMsg); ok {
			return e.CloneVT()
		}
		return m.(*mock.MockMsg).CloneVT()
	}
	equal := func(a, b msg) bool {
		if e, ok := a.(*echo.EchoMsg); ok {
			return e.EqualVT(b.(*echo.EchoMsg))
		}
		return a.(*mock.MockMsg).EqualVT(b.(*mock.MockMsg))
	}
	for k, mk := range []func() msg{func() msg { return &echo.EchoMsg{} }, func() msg { return &mock.MockMsg{} }} {
		bad := func(f string, a ...any) {
			x.Rep.Violate("echo-message", idx, map[string]any{"type": []string{"EchoMsg", "MockMsg"}[k], "body": body, "raw": raw}, f, a...)
		}
		m := mk()
		if err := m.UnmarshalVT(append([]byte(nil), raw...)); err != nil {
			bad("decode: %v", err)
			continue
		}
		if m.GetBody() != body {
			bad("decoded %q", m.GetBody())
		}
		b, err := m.MarshalVT()
		if err != nil || m.SizeVT() != len(b) {
			bad("encode: %v, %d bytes, size %d", err, len(b), m.SizeVT())
		}
		n := mk()
		if err := n.UnmarshalVT(b); err != nil || n.GetBody() != body || !equal(m, n) {
			bad("a copy by encoding is %q (%v)", n.GetBody(), err)
		}
		if c := clone(n); c.GetBody() != body || !equal(c, m) {
			bad("a clone is %q", c.GetBody())
		}
		o := mk()
		_ = o.UnmarshalVT(enc(other))
		s := mk() // without unknown fields
		_ = s.UnmarshalVT(enc(body))
		if equal(s, o) != (body == other) {
			bad("equality with %q is %v", other, equal(s, o))
		}
		if p := mk(); jsonUnsafe(body) {
			continue
		} else if p.Reset(); p.GetBody() != "" {
			bad("reset")
		}
		j, err := m.MarshalJSON()
		var v map[string]any
		if err != nil || json.Unmarshal(j, &v) != nil || fmt.Sprint(v["body"]) != body && (body != "" || v["body"] != nil) {
			bad("JSON is %s (%v)", j, err)
		}
		p := mk()
		if err := p.UnmarshalJSON(j); err != nil || p.GetBody() != body {
			bad("read from JSON: %q (%v)", p.GetBody(), err)
		}
		if p.Reset(); p.GetBody() != "" {
			bad("reset leaves %q", p.GetBody())
		}
	}
	x.Rep.Eval(lib.Mix(lib.HashStr(string(raw)), 31))
}

// jsonUnsafe tells if the JSON library of the message package cannot write s
// (it escapes control characters as Go does).
func jsonUnsafe(s string) bool {
	return strings.ContainsFunc(s, func(c rune) bool { return c < 0x20 || c >= 0x7f && c < 0xa0 })
}
