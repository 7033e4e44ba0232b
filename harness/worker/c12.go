package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"verifharness/lib"
)

func init() {
	Props["C12"] = c12
	Props["C13"] = c13
}

// nestedCalls runs calls and checks the lookups afterwards.
func (x *Ctx) nestedCalls(idx int, cs *Case) {
	o := x.RunCalls(idx, cs, nil)
	x.record(cs, o)
	if o.T == nil || o.Res != lib.WaitDone {
		return
	}
	if lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second}) == nil {
		x.Rep.Inconclusive(idx, "did not settle")
		return
	}
	n := o.T.CheckLookups(func(key, format string, args ...any) {
		x.Rep.Violate(key, idx, cs, format, args...)
	})
	x.Rep.Count("lookups", n)
}

func c12(x *Ctx) {
	mix := append(append([]int{}, lib.PlainMix...), lib.CancelMix...)
	x.Each("nested-calls", 2000, func(idx int, r *lib.Rand) {
		x.nestedCalls(idx, x.CallCase(r, append([]string{"nested-pipe"}, lib.NestedKinds...), lib.GenOpts{Mix: mix, MaxMsgs: 5, Big: 1}, r.Weighted(0, 5, 2, 1, 1)))
	})
	x.Each("open", 3000, x.c12open)
	x.Each("serve", 2000, x.c12serve)
	x.Each("components", 700, func(idx int, r *lib.Rand) { x.components(idx, r, 0) })
}

func c13(x *Ctx) {
	mix := append(append([]int{}, lib.PlainMix...), lib.CancelMix...)
	x.Each("proxied-calls", 2000, func(idx int, r *lib.Rand) {
		x.nestedCalls(idx, x.CallCase(r, lib.ProxyKinds, lib.GenOpts{Mix: mix, MaxMsgs: 5, Big: 1}, r.Weighted(0, 5, 2, 1, 1)))
	})
	x.Each("proxy", 5000, x.c13proxy)
	x.Each("components", 700, func(idx int, r *lib.Rand) { x.components(idx, r, r.Range(1, 2)) })
}

var errCall = errors.New("call failed")

// c12open: opening a nested stream to a scripted remote.
func (x *Ctx) c12open(idx int, r *lib.Rand) {
	st := newScriptStream()
	comp := lib.PickOf(r, "comp", "", "a/b", "é", " c ", "c\x00", strings.Repeat("c", 200), strings.Repeat("comp/", 6000))
	wait := !r.OneIn(3)
	first := lib.PickOf(r, "ack", "ack", "ack", "ack-error", "ack-error", "init", "data", "none", "eof", "error", "block")
	sendFail := r.OneIn(8)
	callFail := r.OneIn(10)
	viaClient := r.OneIn(2)
	errText := lib.PickOf(r, "no such component", "x", "remote: y", strings.Repeat("long ", 50), strings.Repeat("longer ", 8000))
	switch first {
	case "ack":
		st.in = append(st.in, toR(&lib.RPacket{Kind: lib.RAck}))
	case "ack-error":
		st.in = append(st.in, toR(&lib.RPacket{Kind: lib.RAck, Str: errText}))
	case "init":
		st.in = append(st.in, toR(&lib.RPacket{Kind: lib.RInit, Str: "comp"}))
	case "data":
		st.in = append(st.in, toR(&lib.RPacket{Kind: lib.RData, Data: (&lib.WPacket{Kind: lib.WData, Data: []byte("early")}).Encode()}))
	case "none":
		st.in = append(st.in, toR(&lib.RPacket{}))
	case "eof":
		st.end = io.EOF
	case "error":
		st.end = errRead
	}
	var follow [][]byte
	if first == "ack" {
		for i := range r.Intn(4) {
			b := lib.Content(1, 2, i, r.Range(1, 40))
			follow = append(follow, b)
			st.in = append(st.in, toR(&lib.RPacket{Kind: lib.RData, Data: b}))
		}
		st.end = io.EOF
	}
	if sendFail {
		st.sendErr = errCall
	}
	desc := map[string]any{"component": comp, "wait": wait, "first": first, "sendFail": sendFail, "callFail": callFail, "client": viaClient, "error": errText}
	caller := func(ctx context.Context) (*scriptStream, error) {
		if callFail {
			return nil, errCall
		}
		return st, nil
	}
	var err error
	var got [][]byte
	var end error
	ended := make(chan struct{})
	var read int32
	var mtx sync.Mutex
	f := func() {
		if viaClient {
			var w srpc.PacketWriter
			w, err = rpcstream.NewRpcStreamOpenStream(caller, comp, wait)(st.ctx, func(b []byte) error {
				mtx.Lock()
				got = append(got, append([]byte{}, b...))
				mtx.Unlock()
				return nil
			}, func(e error) { end = e; close(ended) })
			if (w == nil) != (err != nil) {
				x.Rep.Violate("wrong-outcome", idx, desc, "opening returned writer %v and error %v", w, err)
			}
		} else {
			_, err = rpcstream.OpenRpcStream(st.ctx, caller, comp, wait)
		}
		read = int32(st.recvs.Load())
	}
	blocks := wait && first == "block" && !sendFail && !callFail
	if blocks {
		done := make(chan struct{})
		go func() { defer close(done); f() }()
		res, _ := lib.Wait(done, lib.WaitOpts{Watchdog: 20 * time.Second})
		if res == lib.WaitDone {
			x.Rep.Violate("opened-unaccepted", idx, desc, "opening returned (%v) before the remote answered", err)
			return
		}
		st.cancel()
		<-done
		if err == nil {
			x.Rep.Violate("opened-unaccepted", idx, desc, "opening succeeded although it was cancelled before the remote answered")
		}
		x.Rep.Eval(lib.HashStr(fmt.Sprint(desc)))
		return
	}
	if !x.Do(idx, desc, "opening a nested stream", x.Sched(r), r.Fork(), f) {
		st.cancel()
		return
	}
	defer st.cancel()
	x.Rep.Eval(lib.HashStr(fmt.Sprint(desc, len(follow))))
	x.Rep.Count("first:"+first, 1)
	want := ""
	switch {
	case callFail, sendFail:
		want = errCall.Error()
	case wait && first == "ack-error":
		want = errText
	case wait && first != "ack":
		want = "*"
	}
	if (err != nil) != (want != "") || err != nil && want != "*" && !strings.Contains(err.Error(), want) {
		x.Rep.Violate("wrong-outcome", idx, desc, "opening a nested stream returned %v, expected %q", err, want)
		return
	}
	if callFail {
		return
	}
	out := st.output()
	if !sendFail {
		if len(out) != 1 || out[0].GetInit() == nil || out[0].GetInit().GetComponentId() != comp {
			x.Rep.Violate("wrong-component", idx, desc, "opening sent %v instead of the component id", out)
		}
	}
	if err != nil {
		if st.closes == 0 {
			x.Rep.Violate("not-closed", idx, desc, "opening failed but left the stream open")
		}
		return
	}
	if viaClient {
		if first == "block" || !wait && (first == "ack-error") {
			return
		}
		if first == "ack" {
			if !x.Do(idx, desc, "reading a nested stream", nil, r, func() { <-ended }) {
				return
			}
			if fmt.Sprint(got) != fmt.Sprint(follow) || end != io.EOF {
				x.Rep.Violate("lost-packet", idx, desc, "%d packets followed the acknowledgment, %d were received, then %v", len(follow), len(got), end)
			}
		}
		return
	}
	if st.closes != 0 {
		x.Rep.Violate("closed", idx, desc, "opening succeeded but closed the stream")
	}
	wr := int32(0)
	if wait {
		wr = 1
	}
	if read != wr {
		x.Rep.Violate("lost-packet", idx, desc, "opening read %d packets", read)
	}
}

// c12serve: the lookup results of a served nested stream.
func (x *Ctx) c12serve(idx int, r *lib.Rand) {
	st := newScriptStream()
	comp := lib.PickOf(r, "comp", "", "a/b", "é", " c ", "c\x00", strings.Repeat("comp/", 60), strings.Repeat("comp/", 6000))
	kind := lib.PickOf(r, "found", "found", "found-norel", "nil", "nil-rel", "error", "error-rel")
	sendFail := r.OneIn(6)
	if sendFail {
		st.sendErr = errCall
	}
	st.in = append(st.in, toR(&lib.RPacket{Kind: lib.RInit, Str: comp}),
		toR(&lib.RPacket{Kind: lib.RData, Data: (&lib.WPacket{Kind: lib.WStart, Service: "s", Method: "m", Data: []byte("x")}).Encode()}),
		toR(&lib.RPacket{Kind: lib.RData, Data: (&lib.WPacket{Kind: lib.WData, Complete: true}).Encode()}))
	var lookups, invoked, rels, early atomic.Int32
	var gotID string
	var gotCtx context.Context
	var gate = make(chan struct{})
	inv := srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
		invoked.Add(1)
		<-gate
		early.Add(rels.Load())
		return true, strm.MsgSend(srpc.NewRawMessage([]byte("y"), true))
	})
	desc := map[string]any{"component": comp, "lookup": kind, "sendFail": sendFail}
	var herr error
	ok := x.Do(idx, desc, "serving a nested stream", x.Sched(r), r.Fork(), func() {
		go func() {
			for range 100 {
				time.Sleep(0)
			}
			close(gate)
		}()
		herr = rpcstream.HandleRpcStream(st, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
			lookups.Add(1)
			gotID, gotCtx = id, ctx
			rel := func() { rels.Add(1) }
			switch kind {
			case "found":
				return inv, rel, nil
			case "found-norel":
				return inv, nil, nil
			case "nil":
				return nil, nil, nil
			case "nil-rel":
				return nil, rel, nil
			case "error-rel":
				return nil, rel, errCall
			}
			return nil, nil, errCall
		})
	})
	if !ok {
		st.cancel()
		return
	}
	lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
	defer st.cancel()
	x.Rep.Eval(lib.HashStr(fmt.Sprint(desc)))
	x.Rep.Count("lookup:"+kind, 1)
	if lookups.Load() != 1 || gotID != comp || gotCtx == nil {
		x.Rep.Violate("wrong-component", idx, desc, "%d lookups, of %q", lookups.Load(), gotID)
	}
	found := strings.HasPrefix(kind, "found")
	if want := found && !sendFail; (invoked.Load() == 1) != want || invoked.Load() > 1 {
		x.Rep.Violate("wrong-invocation", idx, desc, "the handler was invoked %d times", invoked.Load())
	}
	if n := rels.Load(); kind == "found" && n != 1 || n > 1 {
		x.Rep.Violate("release", idx, desc, "the lookup was released %d times", n)
	}
	if early.Load() != 0 {
		x.Rep.Violate("release-early", idx, desc, "the lookup was released before the handler returned")
	}
	if !found && herr == nil || sendFail && herr == nil {
		x.Rep.Violate("wrong-outcome", idx, desc, "serving returned no error")
	}
	if !sendFail {
		out := st.output()
		text := ""
		if !found {
			text = "*"
			if strings.HasPrefix(kind, "error") {
				text = errCall.Error()
			}
		}
		if len(out) == 0 || out[0].GetAck() == nil || (text == "") != (out[0].GetAck().GetError() == "") || text != "*" && !strings.Contains(out[0].GetAck().GetError(), text) {
			x.Rep.Violate("no-ack", idx, desc, "the first packet sent is %v", out)
		}
	}
}

var compErr = errors.New("component lookup failed")

// components: calls to several components over shared connections and proxies.
func (x *Ctx) components(idx int, r *lib.Rand, proxies int) {
	names := []string{"a", "ab", "a/b", "", "é", "comp", " a", "a ", "A", "a/", strings.Repeat("a", 300), strings.Repeat("a", 301), strings.Repeat("b/", 3000)}
	kind := lib.PickOf(r, "sim", "yamux-sim", "pipe")
	deep := r.OneIn(4) // a component within a component
	var mtx sync.Mutex
	counts := map[string]int{}
	lt := &lib.Transport{}
	compInv := func(name string) srpc.Invoker {
		return srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
			if svc != "svc" {
				return false, nil
			}
			mtx.Lock()
			counts[name]++
			mtx.Unlock()
			for {
				msg := srpc.NewRawMessage(nil, true)
				if err := strm.MsgRecv(msg); err != nil {
					if err == io.EOF {
						err = nil
					}
					return true, err
				}
				if err := strm.MsgSend(srpc.NewRawMessage([]byte(name+"|"+m+"|"+string(msg.GetData())), true)); err != nil {
					return true, err
				}
				if m == "unary" {
					return true, nil
				}
			}
		})
	}
	nested := func(inner func(id string) srpc.Invoker) srpc.Invoker {
		return srpc.InvokerFunc(func(svc, m string, strm srpc.Stream) (bool, error) {
			if svc != lib.OuterSvc || m != lib.OuterMethod {
				return false, nil
			}
			return true, rpcstream.HandleRpcStream(&lib.Rs{Stream: strm}, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
				if id == "broken" {
					return nil, nil, compErr
				}
				for _, n := range names {
					if n == id {
						l := lt.Lookup("component " + id)
						return l.Wrap(inner(id)), l.Release, nil
					}
				}
				return nil, nil, nil
			})
		})
	}
	inv := nested(compInv)
	if deep {
		inv = nested(func(id string) srpc.Invoker {
			return nested(func(id2 string) srpc.Invoker { return compInv(id + ">" + id2) })
		})
	}
	var ts []*lib.Transport
	defer func() {
		for _, t := range ts {
			t.Close()
		}
	}()
	base := func(inv srpc.Invoker) srpc.Client {
		t, err := lib.NewTransport(kind, inv, r.Fork(), nil, false)
		if err != nil {
			panic(err)
		}
		ts = append(ts, t)
		return t.Client
	}
	cl := base(inv)
	method := lib.OuterMethod
	for i := range proxies {
		target, m := cl, method
		cl = base(srpc.InvokerFunc(func(svc, mm string, strm srpc.Stream) (bool, error) {
			if svc != lib.OuterSvc || mm != lib.ProxyMethod {
				return false, nil
			}
			return true, rpcstream.HandleProxyRpcStream(&lib.Rs{Stream: strm}, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[*lib.Rs], string, func(), error) {
				rest, ok := strings.CutPrefix(id, fmt.Sprintf("p%d/", i))
				if !ok {
					return nil, "", nil, nil
				}
				switch rest {
				case "noproxy":
					return nil, "", nil, compErr
				case "nodial":
					l := lt.Lookup("proxy " + id)
					return func(context.Context) (*lib.Rs, error) { return nil, compErr }, "x", l.Release, nil
				}
				l := lt.Lookup("proxy " + id)
				return lib.RsCaller(target, lib.OuterSvc, m), rest, l.Release, nil
			})
		}))
		method = lib.ProxyMethod
	}
	type ccall struct {
		Comp   string `json:"component"`
		Comp2  string `json:"component2,omitempty"`
		Wait   bool   `json:"wait"`
		Method string `json:"method"`
		Svc    string `json:"svc"`
		N      int    `json:"n"`
		got    []string
		err    error
		// opened: the call was sent
		opened bool
	}
	var calls []*ccall
	for range r.Range(1, 6) {
		c := &ccall{Comp: lib.PickOf(r, append([]string{"unknown", "broken"}, names...)...), Wait: r.OneIn(2), Method: lib.PickOf(r, "unary", "stream"), Svc: "svc", N: r.Range(1, 3)}
		if r.OneIn(10) {
			c.Svc = "other"
		}
		if deep {
			c.Comp2 = lib.PickOf(r, append([]string{"unknown", "broken"}, names...)...)
		}
		if proxies > 0 && r.OneIn(8) {
			c.Comp = lib.PickOf(r, "noproxy", "nodial")
		}
		calls = append(calls, c)
	}
	ctx := lib.NewCountCtx()
	desc := map[string]any{"transport": kind, "proxies": proxies, "deep": deep, "calls": calls}
	ok := x.Do(idx, desc, "calls to components", x.Sched(r), r.Fork(), func() {
		var wg sync.WaitGroup
		for i, c := range calls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				id := c.Comp
				for k := range proxies {
					id = fmt.Sprintf("p%d/%s", k, id)
				}
				nc := rpcstream.NewRpcStreamClient(lib.RsCaller(cl, lib.OuterSvc, method), id, c.Wait)
				if deep {
					nc = rpcstream.NewRpcStreamClient(lib.RsCaller(nc, lib.OuterSvc, lib.OuterMethod), c.Comp2, c.Wait)
				}
				text := func(k int) string { return fmt.Sprintf("call%d-%d", i, k) }
				if c.Method == "unary" {
					out := srpc.NewRawMessage(nil, true)
					if c.err = nc.ExecCall(ctx, c.Svc, "unary", srpc.NewRawMessage([]byte(text(0)), true), out); c.err == nil {
						c.got = append(c.got, string(out.GetData()))
					}
					return
				}
				st, err := nc.NewStream(ctx, c.Svc, "stream", nil)
				if err != nil {
					c.err = err
					return
				}
				defer st.Close()
				c.opened = true
				for k := range c.N {
					if c.err = st.MsgSend(srpc.NewRawMessage([]byte(text(k)), true)); c.err != nil {
						break
					}
					out := srpc.NewRawMessage(nil, true)
					if c.err = st.MsgRecv(out); c.err != nil {
						return
					}
					c.got = append(c.got, string(out.GetData()))
				}
				if c.err != nil { // the call ended: why
					c.err = st.MsgRecv(srpc.NewRawMessage(nil, true))
					return
				}
				if err := st.CloseSend(); err != nil {
					c.err = err
					return
				}
				if c.err = st.MsgRecv(srpc.NewRawMessage(nil, true)); c.err == io.EOF {
					c.err = nil
				}
			}()
		}
		wg.Wait()
	})
	ctx.Cancel()
	if !ok {
		return
	}
	for _, t := range ts {
		t.Close()
	}
	lib.Settle(lib.WaitOpts{Watchdog: 20 * time.Second})
	want := map[string]int{}
	for i, c := range calls {
		name, fail := c.Comp, ""
		switch c.Comp {
		case "unknown":
			fail = rpcstream.ErrNoServerForComponent.Error()
		case "broken", "noproxy", "nodial":
			fail = compErr.Error()
		}
		if deep {
			name += ">" + c.Comp2
			if fail == "" {
				switch c.Comp2 {
				case "unknown":
					fail = rpcstream.ErrNoServerForComponent.Error()
				case "broken":
					fail = compErr.Error()
				}
			}
		}
		if fail == "" && c.Svc != "svc" {
			fail = srpc.ErrUnimplemented.Error()
		}
		if fail != "" {
			if c.err == nil || (c.Wait || c.opened) && !strings.Contains(c.err.Error(), fail) {
				x.Rep.Violate("wrong-outcome", idx, desc, "call %d to %q returned %v, expected error %q", i, name, c.err, fail)
			}
			continue
		}
		want[name]++
		n := c.N
		if c.Method == "unary" {
			n = 1
		}
		if c.err != nil || len(c.got) != n {
			x.Rep.Violate("wrong-outcome", idx, desc, "call %d to %q received %q, then %v", i, name, c.got, c.err)
			continue
		}
		for k, g := range c.got {
			if e := fmt.Sprintf("%s|%s|call%d-%d", name, c.Method, i, k); g != e {
				x.Rep.Violate("wrong-component", idx, desc, "call %d received %q, expected %q", i, g, e)
			}
		}
	}
	if fmt.Sprint(counts) != fmt.Sprint(want) {
		x.Rep.Violate("wrong-invocation", idx, desc, "handlers invoked: %v, expected %v", counts, want)
	}
	n := lt.CheckLookups(func(key, format string, args ...any) {
		x.Rep.Violate(key, idx, desc, format, args...)
	})
	x.Rep.Count("lookups", n)
	x.Rep.Count("component-calls", len(calls))
	x.Rep.Eval(lib.Mix(lib.HashStr(fmt.Sprint(kind, proxies, deep)), lib.HashStr(fmt.Sprint(want, len(calls)))))
}
