//go:build !js

package main

import (
	"context"
	"net"
	"net/http"
	"sync"

	"github.com/aperturerobotics/starpc/srpc"
)

// idle is the number of goroutines while nothing is done but a reset.
const idle = 2

func writerOf(_ *vconn, prw *srpc.PacketReadWriter) srpc.PacketWriter { return prw }

func (p *peer) handleConn(c *vconn) { p.server.HandleStream(context.Background(), c) }

func takeBad() []string { return nil }

// muxed makes a muxed connection.
func (p *peer) muxed(c *vconn, outbound bool) {
	ctx, cancel := context.WithCancel(context.Background())
	mc, err := srpc.NewMuxedConnWithRwc(ctx, c, outbound, nil)
	if err != nil {
		panic(err)
	}
	p.mtx.Lock()
	p.client = srpc.NewClientWithMuxedConn(mc)
	p.mtx.Unlock()
	go func() {
		_ = p.server.AcceptMuxedConn(ctx, mc)
		cancel()
		_ = mc.Close()
	}()
}

// http serves WebSockets.
func (p *peer) http(s *script) {
	hs, err := srpc.NewHTTPServer(srpc.NewMux(p), "/rpc", nil)
	if err != nil {
		panic(err)
	}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	var mtx sync.Mutex
	var raw []net.Conn
	srv := &http.Server{Handler: hs, ConnState: func(c net.Conn, st http.ConnState) {
		if st == http.StateHijacked {
			mtx.Lock()
			raw = append(raw, c)
			mtx.Unlock()
		}
	}}
	p.mtx.Lock()
	p.cut = func() {
		mtx.Lock()
		defer mtx.Unlock()
		for _, c := range raw {
			_ = c.Close()
		}
	}
	p.stop = func() { _ = srv.Close() }
	p.mtx.Unlock()
	go func() { _ = srv.Serve(lis) }()
	emit(map[string]any{"port": lis.Addr().(*net.TCPAddr).Port, "role": "http"})
}
