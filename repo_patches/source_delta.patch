From 92eb6dbc412d9fb862a5ce81f15150c9b196b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 01/37] fix: do not send a spurious empty message with
 CloseSend

commonRPC.WriteCallData flagged every nil payload as a zero-length message,
so a pure half-close delivered one extra empty message to the peer.
---
 srpc/common-rpc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 81afada..94fd78b 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -121,7 +121,9 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 
 // WriteCallData writes a call data packet.
 func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
-	outPkt := NewCallDataPacket(data, len(data) == 0, complete, err)
+	// data=nil with complete or an error is not a (zero-length) message.
+	isMsg := data != nil || (!complete && err == nil)
+	outPkt := NewCallDataPacket(data, isMsg && len(data) == 0, complete, err)
 	return c.writer.WritePacket(outPkt)
 }
 
-- 
2.43.0


From a305056932a015096ba3b1db90af60ca3f50a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:23 +0000
Subject: [PATCH 02/37] fix: do not panic if the remote cancels a call before
 Start

The client rpc writer is nil until Start: a call cancel packet arriving before
that dereferenced the nil writer in the read pump.
---
 srpc/common-rpc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 94fd78b..0fe4637 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -135,7 +135,9 @@ func (c *commonRPC) HandleStreamClose(closeErr error) {
 		}
 		c.dataClosed = true
 		c.ctxCancel()
-		_ = c.writer.Close()
+		if c.writer != nil {
+			_ = c.writer.Close()
+		}
 		broadcast()
 	})
 }
-- 
2.43.0


From b55f9439c133e8de6e44837975735b232e6ffbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:40 +0000
Subject: [PATCH 03/37] fix: keep the outcome of a completed call on the client

After the remote completed a call, a later transport error, stray packet or
call cancel overwrote the outcome, so receives that should have ended with
io.EOF reported an unrelated error.
---
 srpc/client-rpc.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 4271f70..4482f2a 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -70,7 +70,8 @@ func (r *ClientRPC) HandlePacketData(data []byte) error {
 // HandleStreamClose handles the stream closing optionally w/ an error.
 func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && r.remoteErr == nil {
+		// if the remote already completed the call, its outcome is final.
+		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
 			r.remoteErr = closeErr
 		}
 		r.dataClosed = true
@@ -100,6 +101,12 @@ func (r *ClientRPC) HandlePacket(msg *Packet) error {
 	}
 }
 
+// HandleCallCancel handles the call cancel packet.
+func (r *ClientRPC) HandleCallCancel() error {
+	r.HandleStreamClose(context.Canceled)
+	return nil
+}
+
 // HandleCallStart handles the call start packet.
 func (r *ClientRPC) HandleCallStart(pkt *CallStart) error {
 	// server-to-client calls not supported
-- 
2.43.0


From 13a7dcab565d84ef085f5928cca5b9e35686368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:37 +0000
Subject: [PATCH 04/37] fix: CloseSend and Close succeed if the remote already
 ended the call

A generated server-streaming client method calls CloseSend right after opening
the stream and failed the whole call with a closed pipe error if the server
finished first, losing the responses which were already delivered.
---
 srpc/client-rpc.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 4482f2a..68077ea 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -2,6 +2,7 @@ package srpc
 
 import (
 	"context"
+	"io"
 
 	"github.com/pkg/errors"
 )
@@ -113,12 +114,40 @@ func (r *ClientRPC) HandleCallStart(pkt *CallStart) error {
 	return errors.Wrap(ErrUnrecognizedPacket, "call start packet unexpected")
 }
 
+// WriteCallData writes a call data packet.
+func (r *ClientRPC) WriteCallData(data []byte, complete bool, err error) error {
+	werr := r.commonRPC.WriteCallData(data, complete, err)
+	if complete && data == nil && err == nil {
+		return r.ignoreRemoteClosed(werr)
+	}
+	return werr
+}
+
+// WriteCallCancel writes a call cancel packet.
+func (r *ClientRPC) WriteCallCancel() error {
+	return r.ignoreRemoteClosed(r.commonRPC.WriteCallCancel())
+}
+
+// ignoreRemoteClosed ignores an error writing a packet which ends our side of
+// the call if the remote ended the call already: ReadOne returns the outcome.
+func (r *ClientRPC) ignoreRemoteClosed(err error) error {
+	if err == nil || errors.Is(err, io.ErrClosedPipe) {
+		return nil
+	}
+	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+		if r.dataClosed {
+			err = nil
+		}
+	})
+	return err
+}
+
 // Close releases any resources held by the ClientRPC.
 func (r *ClientRPC) Close() {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 		// call did not start yet if writer is nil.
 		if r.writer != nil {
-			_ = r.WriteCallCancel()
+			_ = r.commonRPC.WriteCallCancel()
 			r.closeLocked(broadcast)
 		}
 	})
-- 
2.43.0


From 8c218c6a470b7da5c934301c8cf8c799b430e5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:40 +0000
Subject: [PATCH 05/37] fix: unblock client writes when the remote closes the
 stream

A client blocked writing (send window exhausted) to a stream which the remote
had closed hung forever, as did Close: close the writer when the stream ends
and do not hold the rpc lock while writing the start packet.
---
 srpc/client-rpc.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 68077ea..3a0d2ed 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -31,30 +31,32 @@ func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []by
 		return ErrNilWriter
 	}
 
-	if err := r.ctx.Err(); err != nil {
+	// if the remote closes the stream from here on, HandleStreamClose closes the
+	// writer. the lock is not held while writing so that it can do so.
+	var closed bool
+	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+		if closed = r.ctx.Err() != nil; !closed {
+			r.writer = writer
+		}
+		broadcast()
+	})
+	if closed {
 		r.ctxCancel()
 		_ = writer.Close()
 		return context.Canceled
 	}
 
 	var firstMsgEmpty bool
-	var err error
-	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		r.writer = writer
-
-		if writeFirstMsg {
-			firstMsgEmpty = len(firstMsg) == 0
-		}
-
-		pkt := NewCallStartPacket(r.service, r.method, firstMsg, firstMsgEmpty)
-		err = writer.WritePacket(pkt)
-		if err != nil {
-			r.ctxCancel()
-			_ = writer.Close()
-		}
+	if writeFirstMsg {
+		firstMsgEmpty = len(firstMsg) == 0
+	}
 
-		broadcast()
-	})
+	pkt := NewCallStartPacket(r.service, r.method, firstMsg, firstMsgEmpty)
+	err := writer.WritePacket(pkt)
+	if err != nil {
+		r.ctxCancel()
+		_ = writer.Close()
+	}
 
 	return err
 }
@@ -70,6 +72,7 @@ func (r *ClientRPC) HandlePacketData(data []byte) error {
 
 // HandleStreamClose handles the stream closing optionally w/ an error.
 func (r *ClientRPC) HandleStreamClose(closeErr error) {
+	var writer PacketWriter
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 		// if the remote already completed the call, its outcome is final.
 		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
@@ -77,8 +80,14 @@ func (r *ClientRPC) HandleStreamClose(closeErr error) {
 		}
 		r.dataClosed = true
 		r.ctxCancel()
+		writer = r.writer
 		broadcast()
 	})
+
+	// unblocks any pending write: the remote will not read it.
+	if writer != nil {
+		_ = writer.Close()
+	}
 }
 
 // HandlePacket handles an incoming parsed message packet.
-- 
2.43.0


From e429af3a41bb569de6c09f9a9162eda043743aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 06/37] fix: release the call context if the stream could not
 be opened

The context derived for the call stayed registered with the parent context for
as long as the parent lived.
---
 srpc/client-rpc.go | 1 +
 srpc/client.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 3a0d2ed..557c55e 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -159,5 +159,6 @@ func (r *ClientRPC) Close() {
 			_ = r.commonRPC.WriteCallCancel()
 			r.closeLocked(broadcast)
 		}
+		r.ctxCancel()
 	})
 }
diff --git a/srpc/client.go b/srpc/client.go
index 7d0262c..f0938ac 100644
--- a/srpc/client.go
+++ b/srpc/client.go
@@ -83,6 +83,7 @@ func (c *client) NewStream(ctx context.Context, service, method string, firstMsg
 	clientRPC := NewClientRPC(ctx, service, method)
 	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
 	if err != nil {
+		clientRPC.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 537a3a02cca850526a623efdd6333f12e8559c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 07/37] fix: Dial is the outbound side of the muxed connection

Dial and Listen both used the yamux server role, so every call made by a
dialed client failed with a stream reset.
---
 srpc/net.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 3bfc3f5..021a93e 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -11,7 +11,7 @@ func Dial(addr string) (Client, error) {
 	if err != nil {
 		return nil, err
 	}
-	muxedConn, err := NewMuxedConn(nconn, false, nil)
+	muxedConn, err := NewMuxedConn(nconn, true, nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 01204be0ef02f9275bb01c36aa91f3b2f7810c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:55 +0000
Subject: [PATCH 08/37] fix: serve accepted connections concurrently

AcceptMuxedListener served one connection at a time: a second client got no
response until the first one disconnected.
---
 srpc/accept.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/srpc/accept.go b/srpc/accept.go
index 9995073..588f7ee 100644
--- a/srpc/accept.go
+++ b/srpc/accept.go
@@ -24,9 +24,9 @@ func AcceptMuxedListener(ctx context.Context, lis net.Listener, srv *Server, yam
 			continue
 		}
 
-		if err := srv.AcceptMuxedConn(ctx, mc); err != nil {
+		go func() {
+			_ = srv.AcceptMuxedConn(ctx, mc)
 			_ = nc.Close()
-			continue
-		}
+		}()
 	}
 }
-- 
2.43.0


From f84a339b568a136e2ab1054f2740a15d5d9fb5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 09/37] fix: Listen closes the listener when it returns

The port stayed bound and kept accepting connections after ctx was canceled
or an error was received on errCh.
---
 srpc/net.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srpc/net.go b/srpc/net.go
index 021a93e..f9b13ab 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -27,6 +27,8 @@ func Listen(ctx context.Context, addr string, srv *Server, errCh <-chan error) e
 		return err
 	}
 
+	defer lis.Close()
+
 	listenErrCh := make(chan error, 1)
 	go func() {
 		listenErrCh <- AcceptMuxedListener(ctx, lis, srv, nil)
-- 
2.43.0


From e424c5c0a743f4e5d467fc0a75914351e00065f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 10/37] fix: continue after a short write of a packet

WritePacket started over from the beginning of the frame after a short write,
corrupting the stream.
---
 srpc/packet-rw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index c848891..670f78f 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -59,7 +59,7 @@ func (r *PacketReadWriter) WritePacket(p *Packet) error {
 
 	var written, n int
 	for written < len(data) {
-		n, err = r.rw.Write(data)
+		n, err = r.rw.Write(data[written:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 7d7264ac4f24bf021ab1ab1f7191946ffee76254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 11/37] fix: handle packets read together with an error

A Read may return n > 0 bytes with a non-EOF error: complete packets contained
in those bytes were dropped.
---
 srpc/packet-rw.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index 670f78f..2238c23 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -86,15 +86,16 @@ func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 	var currLen uint32
 	buf := make([]byte, 2048)
 	isOpen := true
+	var readErr error
 
 	for isOpen {
 		// read some data into the buffer
 		n, err := r.rw.Read(buf)
 		if err != nil {
-			if err == io.EOF || err == context.Canceled {
-				isOpen = false
-			} else {
-				return err
+			isOpen = false
+			if err != io.EOF && err != context.Canceled {
+				// returned after handling the data which was read, if any.
+				readErr = err
 			}
 		}
 
@@ -137,7 +138,7 @@ func (r *PacketReadWriter) ReadToHandler(cb PacketDataHandler) error {
 	}
 
 	// closed
-	return nil
+	return readErr
 }
 
 // Close closes the packet rw.
-- 
2.43.0


From 7c570262a8eaccad968f8366812f85bc48c78844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 12/37] fix: report handler errors which have an empty message

A call data packet with an empty error string is a successful completion, so a
handler error with an empty message was reported to the client as success.
---
 srpc/packet.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/packet.go b/srpc/packet.go
index 94344a7..1a7b960 100644
--- a/srpc/packet.go
+++ b/srpc/packet.go
@@ -67,6 +67,10 @@ func NewCallDataPacket(data []byte, dataIsZero bool, complete bool, err error) *
 	var errStr string
 	if err != nil {
 		errStr = err.Error()
+		if errStr == "" {
+			// an empty error string indicates success.
+			errStr = "unknown error"
+		}
 	}
 	return &Packet{Body: &Packet_CallData{
 		CallData: &CallData{
-- 
2.43.0


From 06330692392e8d7084185150043a5208b7c370ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 13/37] fix: proxy rpc streams if the getter has no release
 function

The lookup was treated as not found if the release function was nil, and a nil
caller with a release function panicked.
---
 rpcstream/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 7d1c82e..7e522a1 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -38,7 +38,8 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 	remoteCaller, remoteComponentID, remoteCallerRel, err := getter(ctx, componentID)
 	if remoteCallerRel != nil {
 		defer remoteCallerRel()
-	} else if err == nil {
+	}
+	if err == nil && remoteCaller == nil {
 		err = ErrNoServerForComponent
 	}
 
-- 
2.43.0


From e834ca8b0b07974c73e8652af8228829119a3e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:09 +0000
Subject: [PATCH 14/37] fix: sending on a closed pipe stream returns an error

MsgSend after (or concurrently with) CloseSend or Close panicked with a send on
a closed channel, and blocked forever if the remote had closed the stream.
---
 srpc/stream-pipe.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/srpc/stream-pipe.go b/srpc/stream-pipe.go
index 7f55969..104690f 100644
--- a/srpc/stream-pipe.go
+++ b/srpc/stream-pipe.go
@@ -15,15 +15,17 @@ type pipeStream struct {
 	other *pipeStream
 	// closeOnce ensures we close only once.
 	closeOnce sync.Once
+	// sendClosed is closed when no more messages will be sent to other.
+	sendClosed chan struct{}
 	// dataCh is the data channel
 	dataCh chan []byte
 }
 
 // NewPipeStream constructs a new in-memory stream.
 func NewPipeStream(ctx context.Context) (Stream, Stream) {
-	s1 := &pipeStream{dataCh: make(chan []byte, 5)}
+	s1 := &pipeStream{dataCh: make(chan []byte, 5), sendClosed: make(chan struct{})}
 	s1.ctx, s1.ctxCancel = context.WithCancel(ctx)
-	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5)}
+	s2 := &pipeStream{other: s1, dataCh: make(chan []byte, 5), sendClosed: make(chan struct{})}
 	s2.ctx, s2.ctxCancel = context.WithCancel(ctx)
 	s1.other = s2
 	return s1, s2
@@ -40,9 +42,23 @@ func (p *pipeStream) MsgSend(msg Message) error {
 	if err != nil {
 		return err
 	}
+	if p.ctx.Err() != nil {
+		return context.Canceled
+	}
+	select {
+	case <-p.sendClosed:
+		return io.ErrClosedPipe
+	case <-p.other.ctx.Done():
+		return io.ErrClosedPipe
+	default:
+	}
 	select {
 	case <-p.ctx.Done():
 		return context.Canceled
+	case <-p.sendClosed:
+		return io.ErrClosedPipe
+	case <-p.other.ctx.Done():
+		return io.ErrClosedPipe
 	case p.other.dataCh <- data:
 		return nil
 	}
@@ -54,11 +70,16 @@ func (p *pipeStream) MsgRecv(msg Message) error {
 	select {
 	case <-p.ctx.Done():
 		return context.Canceled
-	case data, ok := <-p.dataCh:
-		if !ok {
+	case data := <-p.dataCh:
+		return msg.UnmarshalVT(data)
+	case <-p.other.sendClosed:
+		// return any messages sent before the remote closed.
+		select {
+		case data := <-p.dataCh:
+			return msg.UnmarshalVT(data)
+		default:
 			return io.EOF
 		}
-		return msg.UnmarshalVT(data)
 	}
 }
 
@@ -75,10 +96,10 @@ func (p *pipeStream) Close() error {
 	return nil
 }
 
-// closeRemote closes the remote data channel.
+// closeRemote signals to the remote that no more messages will be sent.
 func (p *pipeStream) closeRemote() {
 	p.closeOnce.Do(func() {
-		close(p.other.dataCh)
+		close(p.sendClosed)
 	})
 }
 
-- 
2.43.0


From d6fc9bc22924d41b4a5e66ce1ec5f14b2ee20ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 15/37] fix: RwcConn keeps the data which did not fit in the
 read buffer

Read dropped the rest of a packet and returned io.ErrShortBuffer, which broke
every muxed connection over a ReadWriteCloser: yamux reads 12 byte headers.
---
 srpc/rwc-conn.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 6737d4c..76ba39f 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -30,6 +30,10 @@ type RwcConn struct {
 	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
 	closeErr error
+
+	readMtx sync.Mutex // held while reading, guards below fields
+	readPkt []byte     // packet which was not fully read yet
+	readPos int        // number of bytes of readPkt which were read
 }
 
 // NewRwcConn constructs a new packet conn and starts the rx pump.
@@ -72,6 +76,14 @@ func (p *RwcConn) RemoteAddr() net.Addr {
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (p *RwcConn) Read(b []byte) (n int, err error) {
+	p.readMtx.Lock()
+	defer p.readMtx.Unlock()
+
+	// return the rest of the previous packet, if any.
+	if p.readPkt != nil || len(b) == 0 {
+		return p.readRemaining(b), nil
+	}
+
 	deadline := p.rd
 	ctx := p.ctx
 	if !deadline.IsZero() {
@@ -98,13 +110,21 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		}
 	}
 
-	pl := len(pkt)
-	copy(b, pkt)
-	p.ar.Put(&pkt)
-	if len(b) < pl {
-		return len(b), io.ErrShortBuffer
+	p.readPkt, p.readPos = pkt, 0
+	return p.readRemaining(b), nil
+}
+
+// readRemaining reads the remaining data from readPkt.
+// readMtx must be locked
+func (p *RwcConn) readRemaining(b []byte) int {
+	n := copy(b, p.readPkt[p.readPos:])
+	p.readPos += n
+	if p.readPkt != nil && p.readPos == len(p.readPkt) {
+		pkt := p.readPkt
+		p.readPkt, p.readPos = nil, 0
+		p.ar.Put(&pkt)
 	}
-	return pl, nil
+	return n
 }
 
 // Write writes data to the connection.
-- 
2.43.0


From 3323c498d6890bb6da8f9645e778e40947a15fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 16/37] fix: RwcConn.Close releases the receive pump and the
 context

The pump goroutine was blocked forever if the packet queue was full, and the
context was never canceled.
---
 srpc/rwc-conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 76ba39f..02a89b6 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -192,6 +192,7 @@ func (p *RwcConn) SetWriteDeadline(t time.Time) error {
 // Close closes the connection.
 // Any blocked ReadFrom or WriteTo operations will be unblocked and return errors.
 func (p *RwcConn) Close() error {
+	p.ctxCancel()
 	return p.rwc.Close()
 }
 
-- 
2.43.0


From 0e7475f6debc1d607f221e9d0f1f89e6449ed1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 17/37] fix: RwcConn read deadline is synchronized and applies
 to pending reads

SetReadDeadline raced with Read and had no effect on a blocked Read. A canceled
context was reported as an exceeded deadline if any deadline was set.
---
 srpc/rwc-conn.go | 80 ++++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 33 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 02a89b6..eb6f1cb 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -26,14 +26,16 @@ type RwcConn struct {
 	raddr net.Addr
 
 	ar       sync.Pool   // packet arena
-	rd       time.Time   // read deadline
-	wd       time.Time   // write deadline
 	packetCh chan []byte // packet ch
 	closeErr error
 
 	readMtx sync.Mutex // held while reading, guards below fields
 	readPkt []byte     // packet which was not fully read yet
 	readPos int        // number of bytes of readPkt which were read
+
+	rdMtx sync.Mutex    // guards below fields
+	rd    time.Time     // read deadline
+	rdCh  chan struct{} // closed when rd changes
 }
 
 // NewRwcConn constructs a new packet conn and starts the rx pump.
@@ -55,6 +57,7 @@ func NewRwcConn(
 		laddr:     laddr,
 		raddr:     raddr,
 		packetCh:  make(chan []byte, bufferPacketN),
+		rdCh:      make(chan struct{}),
 	}
 	go func() {
 		_ = c.rxPump()
@@ -79,39 +82,46 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 	p.readMtx.Lock()
 	defer p.readMtx.Unlock()
 
-	// return the rest of the previous packet, if any.
-	if p.readPkt != nil || len(b) == 0 {
-		return p.readRemaining(b), nil
-	}
-
-	deadline := p.rd
-	ctx := p.ctx
-	if !deadline.IsZero() {
-		var ctxCancel context.CancelFunc
-		ctx, ctxCancel = context.WithDeadline(ctx, deadline)
-		defer ctxCancel()
-	}
+	for {
+		p.rdMtx.Lock()
+		deadline, deadlineCh := p.rd, p.rdCh
+		p.rdMtx.Unlock()
 
-	var pkt []byte
-	var ok bool
-	select {
-	case <-ctx.Done():
+		var timeout <-chan time.Time
 		if !deadline.IsZero() {
-			return 0, os.ErrDeadlineExceeded
+			dur := time.Until(deadline)
+			if dur <= 0 {
+				return 0, os.ErrDeadlineExceeded
+			}
+			timer := time.NewTimer(dur)
+			defer timer.Stop()
+			timeout = timer.C
+		}
+
+		// return the rest of the previous packet, if any.
+		if p.readPkt != nil || len(b) == 0 {
+			return p.readRemaining(b), nil
 		}
-		return 0, context.Canceled
-	case pkt, ok = <-p.packetCh:
-		if !ok {
-			err = p.closeErr
-			if err == nil {
-				err = io.EOF
+
+		select {
+		case <-p.ctx.Done():
+			return 0, context.Canceled
+		case <-timeout:
+			return 0, os.ErrDeadlineExceeded
+		case <-deadlineCh:
+			// the deadline changed
+		case pkt, ok := <-p.packetCh:
+			if !ok {
+				err = p.closeErr
+				if err == nil {
+					err = io.EOF
+				}
+				return 0, err
 			}
-			return 0, err
+			p.readPkt, p.readPos = pkt, 0
+			return p.readRemaining(b), nil
 		}
 	}
-
-	p.readPkt, p.readPos = pkt, 0
-	return p.readRemaining(b), nil
 }
 
 // readRemaining reads the remaining data from readPkt.
@@ -166,16 +176,19 @@ func (p *RwcConn) Write(pkt []byte) (n int, err error) {
 //
 // A zero value for t means I/O operations will not time out.
 func (p *RwcConn) SetDeadline(t time.Time) error {
-	p.rd = t
-	p.wd = t
-	return nil
+	_ = p.SetReadDeadline(t)
+	return p.SetWriteDeadline(t)
 }
 
 // SetReadDeadline sets the deadline for future ReadFrom calls
 // and any currently-blocked ReadFrom call.
 // A zero value for t means ReadFrom will not time out.
 func (p *RwcConn) SetReadDeadline(t time.Time) error {
+	p.rdMtx.Lock()
+	defer p.rdMtx.Unlock()
 	p.rd = t
+	close(p.rdCh)
+	p.rdCh = make(chan struct{})
 	return nil
 }
 
@@ -184,8 +197,9 @@ func (p *RwcConn) SetReadDeadline(t time.Time) error {
 // Even if write times out, it may return n > 0, indicating that
 // some of the data was successfully written.
 // A zero value for t means WriteTo will not time out.
+//
+// note: the write deadline is not enforced by RwcConn.
 func (p *RwcConn) SetWriteDeadline(t time.Time) error {
-	p.wd = t
 	return nil
 }
 
-- 
2.43.0


From 4ec47714ca9449b0dce1ed438a3f470b830a6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 18/37] fix: do not panic if a proxy cannot open the remote
 stream

The caller may return a nil pointer with the error, which is not a nil RpcStream.
---
 rpcstream/proxy.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 7e522a1..fa70d46 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -46,11 +46,16 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 	// call the remote caller
 	var remoteStrm RpcStream
 	if err == nil {
-		remoteStrm, err = remoteCaller(ctx)
-		if remoteStrm != nil {
-			defer remoteStrm.Close()
-		} else if err == nil {
-			err = ErrNoServerForComponent
+		var strm T
+		strm, err = remoteCaller(ctx)
+		if err == nil {
+			// note: strm may be a nil pointer if err is set.
+			remoteStrm = strm
+			if remoteStrm != nil {
+				defer remoteStrm.Close()
+			} else {
+				err = ErrNoServerForComponent
+			}
 		}
 	}
 
-- 
2.43.0


From a91d26e6c69facfda67f18964ad05fdeccedfd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 19/37] fix: do not open a muxed stream if the context is
 already canceled

yamux registers the stream and does not remove it if the context is canceled.
---
 srpc/muxed-conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/muxed-conn.go b/srpc/muxed-conn.go
index 0968e3c..ba5e336 100644
--- a/srpc/muxed-conn.go
+++ b/srpc/muxed-conn.go
@@ -73,6 +73,10 @@ func NewClientWithMuxedConn(conn network.MuxedConn) Client {
 // NewOpenStreamWithMuxedConn constructs a OpenStream func with a MuxedConn.
 func NewOpenStreamWithMuxedConn(conn network.MuxedConn) OpenStreamFunc {
 	return func(ctx context.Context, msgHandler PacketDataHandler, closeHandler CloseHandler) (PacketWriter, error) {
+		// yamux leaks the stream if the context is canceled when opening it.
+		if ctx.Err() != nil {
+			return nil, context.Canceled
+		}
 		mstrm, err := conn.OpenStream(ctx)
 		if err != nil {
 			// If the error is a timeout, context may be canceled.
-- 
2.43.0


From 63d28473348d730fcb90d2a75b742e9d05d96bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 20/37] fix: release the call context if the transport returns
 no writer

---
 srpc/client-rpc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 557c55e..577a74b 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -28,6 +28,7 @@ func NewClientRPC(ctx context.Context, service, method string) *ClientRPC {
 // must only be called once!
 func (r *ClientRPC) Start(writer PacketWriter, writeFirstMsg bool, firstMsg []byte) error {
 	if writer == nil {
+		r.ctxCancel()
 		return ErrNilWriter
 	}
 
-- 
2.43.0


From 94826ea8184af70ff839fdec7b6a84189777e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 21/37] fix: proxied rpc streams keep the packets sent before
 the target ended

A failed send to a stream which already ended closed the other direction
before it forwarded the remaining packets, losing the outcome of the call.
---
 rpcstream/proxy.go | 52 ++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index fa70d46..7d24e1b 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -98,38 +98,30 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 
 // copies s1 to s2
 func copyRpcStreamTo(s1, s2 RpcStream, errCh chan error) {
-	rerr := func() error {
-		pkt := srpc.NewRawMessage(nil, true)
-		for {
-			err := s1.MsgRecv(pkt)
-			if err != nil {
-				return err
-			}
-			if len(pkt.GetData()) == 0 {
-				continue
-			}
-			err = s2.MsgSend(pkt)
-			pkt.Clear()
-			if err != nil {
-				return err
+	pkt := srpc.NewRawMessage(nil, true)
+	for {
+		rerr := s1.MsgRecv(pkt)
+		if rerr != nil {
+			// s1 ended and everything it sent was forwarded: end both.
+			_ = s1.Close()
+			if errCh != nil {
+				errCh <- rerr
 			}
+			_ = s2.Close()
+			return
 		}
-	}()
-
-	s1Err := s1.Close()
-	if rerr == nil && s1Err != nil {
-		rerr = s1Err
-	}
-	if rerr != nil {
-		if errCh != nil {
-			errCh <- rerr
+		if len(pkt.GetData()) == 0 {
+			continue
+		}
+		werr := s2.MsgSend(pkt)
+		pkt.Clear()
+		if werr != nil {
+			// s2 ended: the other direction closes both as soon as it forwarded
+			// what s2 sent before.
+			if errCh != nil {
+				errCh <- werr
+			}
+			return
 		}
-		_ = s2.Close()
-		return
-	}
-
-	rerr = s2.CloseSend()
-	if errCh != nil {
-		errCh <- rerr
 	}
 }
-- 
2.43.0


From 72da9cbcc75bc6f68ea38534d1bed6fdaa78456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:00 +0000
Subject: [PATCH 22/37] fix: report the lookup error of a nested stream which
 did not wait for the acknowledgment

A caller of a nested stream which did not wait for the acknowledgment
ignored the error in it, and behind a proxy ended with context canceled
instead of the lookup error.
---
 rpcstream/read-writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rpcstream/read-writer.go b/rpcstream/read-writer.go
index df1016f..93e6b34 100644
--- a/rpcstream/read-writer.go
+++ b/rpcstream/read-writer.go
@@ -42,6 +42,11 @@ func ReadToHandler(strm RpcStream, cb srpc.PacketDataHandler) error {
 			return err
 		}
 
+		// the remote may report that it could not find the component
+		if errStr := pkt.GetAck().GetError(); errStr != "" {
+			return errors.New(errStr)
+		}
+
 		data := pkt.GetData()
 		if len(data) == 0 {
 			continue
-- 
2.43.0


From 5b30e30a81d6ab53d8e64dd69f38b68aec676366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:17 +0000
Subject: [PATCH 23/37] fix: RwcConn read does not time out if the deadline was
 moved before it passed

---
 srpc/rwc-conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index eb6f1cb..39a5497 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -85,11 +85,11 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 	for {
 		p.rdMtx.Lock()
 		deadline, deadlineCh := p.rd, p.rdCh
+		dur := time.Until(deadline)
 		p.rdMtx.Unlock()
 
 		var timeout <-chan time.Time
 		if !deadline.IsZero() {
-			dur := time.Until(deadline)
 			if dur <= 0 {
 				return 0, os.ErrDeadlineExceeded
 			}
@@ -107,7 +107,7 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		case <-p.ctx.Done():
 			return 0, context.Canceled
 		case <-timeout:
-			return 0, os.ErrDeadlineExceeded
+			// check again: the deadline may have been moved in the meantime
 		case <-deadlineCh:
 			// the deadline changed
 		case pkt, ok := <-p.packetCh:
-- 
2.43.0


From 87bd46023e49a97afa17ba9641faa0e7f8ce2e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 24/37] fix: VMux: log the service id instead of the fields of
 a registered handler

The handler was formatted with %v after it was registered, which reads its
fields by reflection while it may already serve calls: a data race.
---
 srpc/mux-verbose.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/mux-verbose.go b/srpc/mux-verbose.go
index ab776fb..ac9db3f 100644
--- a/srpc/mux-verbose.go
+++ b/srpc/mux-verbose.go
@@ -49,8 +49,8 @@ func (v *VMux) Register(handler Handler) (err error) {
 		t1 := time.Now()
 		defer func() {
 			v.le.Debugf(
-				"Register(handler(%v)) => dur(%v) err(%v)",
-				handler,
+				"Register(serviceID(%s)) => dur(%v) err(%v)",
+				handler.GetServiceID(),
 				time.Since(t1).String(),
 				err,
 			)
-- 
2.43.0


From 1b703e2ede1251de60ac4f79551f59856e9f7c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 25/37] fix: close the TypeScript client call after a failure
 and after a server stream ended

---
 srpc/client.ts | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/srpc/client.ts b/srpc/client.ts
index 7972b60..b753d08 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -5,7 +5,6 @@ import { ERR_RPC_ABORT } from './errors.js'
 import type { ProtoRpc } from './proto-rpc.js'
 import type { OpenStreamFunc } from './stream.js'
 import { ClientRPC } from './client-rpc.js'
-import { writeToPushable } from './pushable.js'
 import { decodePacketSource, encodePacketSource } from './packet.js'
 import { OpenStreamCtr } from './open-stream-ctr.js'
 
@@ -31,13 +30,16 @@ export class Client implements ProtoRpc {
     abortSignal?: AbortSignal,
   ): Promise<Uint8Array> {
     const call = await this.startRpc(service, method, data, abortSignal)
-    for await (const data of call.rpcDataSource) {
-      call.close()
-      return data
+    try {
+      for await (const data of call.rpcDataSource) {
+        call.close()
+        return data
+      }
+      throw new Error('empty response')
+    } catch (err) {
+      call.close(err as Error)
+      throw err
     }
-    const err = new Error('empty response')
-    call.close(err)
-    throw err
   }
 
   // clientStreamingRequest starts a client side streaming request.
@@ -49,13 +51,16 @@ export class Client implements ProtoRpc {
   ): Promise<Uint8Array> {
     const call = await this.startRpc(service, method, null, abortSignal)
     call.writeCallDataFromSource(data).catch((err) => call.close(err))
-    for await (const data of call.rpcDataSource) {
-      call.close()
-      return data
+    try {
+      for await (const data of call.rpcDataSource) {
+        call.close()
+        return data
+      }
+      throw new Error('empty response')
+    } catch (err) {
+      call.close(err as Error)
+      throw err
     }
-    const err = new Error('empty response')
-    call.close(err)
-    throw err
   }
 
   // serverStreamingRequest starts a server-side streaming request.
@@ -67,7 +72,18 @@ export class Client implements ProtoRpc {
   ): AsyncIterable<Uint8Array> {
     const serverData: Pushable<Uint8Array> = pushable({ objectMode: true })
     this.startRpc(service, method, data, abortSignal)
-      .then(async (call) => writeToPushable(call.rpcDataSource, serverData))
+      .then(async (call) => {
+        try {
+          for await (const message of call.rpcDataSource) {
+            serverData.push(message)
+          }
+          serverData.end()
+          call.close()
+        } catch (err) {
+          serverData.end(err as Error)
+          call.close(err as Error)
+        }
+      })
       .catch((err) => serverData.end(err))
     return serverData
   }
-- 
2.43.0


From 1b2c5c50b63a7de1ad27dd55c05dce46f24172d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 26/37] fix: end a TypeScript call which is aborted while its
 stream is opened

---
 srpc/client.ts | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/srpc/client.ts b/srpc/client.ts
index b753d08..13257e6 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -129,16 +129,26 @@ export class Client implements ProtoRpc {
     if (abortSignal?.aborted) {
       throw new Error(ERR_RPC_ABORT)
     }
-    const openStreamFn = await this.openStreamCtr.wait()
-    const stream = await openStreamFn()
     const call = new ClientRPC(rpcService, rpcMethod)
-    abortSignal?.addEventListener('abort', () => {
-      call.writeCallCancel()
-      call.close(new Error(ERR_RPC_ABORT))
+    const aborted = new Promise<never>((_, reject) => {
+      abortSignal?.addEventListener('abort', () => {
+        call.writeCallCancel()
+        call.close(new Error(ERR_RPC_ABORT))
+        reject(new Error(ERR_RPC_ABORT))
+      })
     })
-    pipe(stream, decodePacketSource, call, encodePacketSource, stream)
-      .catch((err) => call.close(err))
-      .then(() => call.close())
+    // the promise is not awaited if the call is aborted after it was started
+    aborted.catch(() => {})
+    const opened = this.openStreamCtr
+      .wait()
+      .then((openStreamFn) => openStreamFn())
+      .then((stream) => {
+        // note: if the call was aborted meanwhile this closes the stream.
+        pipe(stream, decodePacketSource, call, encodePacketSource, stream)
+          .catch((err) => call.close(err))
+          .then(() => call.close())
+      })
+    await Promise.race([opened, aborted])
     await call.writeCallStart(data ?? undefined)
     return call
   }
-- 
2.43.0


From f82bb481070d820415ef4a053f1490d687718c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 27/37] fix: end a TypeScript call whose stream was closed by
 the remote

---
 srpc/common-rpc.ts | 10 +++++++++-
 srpc/errors.ts     |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index 05607b1..b229508 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -4,7 +4,7 @@ import { CompleteMessage } from '@aptre/protobuf-es-lite'
 
 import type { CallData, CallStart } from './rpcproto.pb.js'
 import { Packet } from './rpcproto.pb.js'
-import { ERR_RPC_ABORT } from './errors.js'
+import { ERR_RPC_ABORT, ERR_STREAM_CLOSED } from './errors.js'
 
 // CommonRPC is common logic between server and client RPCs.
 export class CommonRPC {
@@ -200,6 +200,14 @@ export class CommonRPC {
             await this.handlePacket(msg)
           }
         }
+        // no more packets will arrive from the remote.
+        // note: this does nothing if the remote completed the call already.
+        const err = new Error(ERR_STREAM_CLOSED)
+        this._rpcDataSource.end(err)
+        if (!this.service) {
+          // the call was not started
+          this.close(err)
+        }
       } catch (err) {
         this.close(err as Error)
       }
diff --git a/srpc/errors.ts b/srpc/errors.ts
index 150b306..0cfb1ee 100644
--- a/srpc/errors.ts
+++ b/srpc/errors.ts
@@ -22,6 +22,9 @@ export function isStreamIdleError(err: unknown): boolean {
   return message === ERR_STREAM_IDLE
 }
 
+// ERR_STREAM_CLOSED is returned if the stream was closed before the RPC completed.
+export const ERR_STREAM_CLOSED = 'ERR_STREAM_CLOSED'
+
 // castToError casts an object to an Error.
 // if err is a string, uses it as the message.
 // if err is undefined, returns new Error(defaultMsg)
-- 
2.43.0


From d1d34dabf548151e5b3e70082ebc8ab571fe4e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 28/37] fix: TypeScript mux and handler do not confuse ids with
 properties of Object.prototype

---
 srpc/handler.ts | 5 ++++-
 srpc/mux.ts     | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/srpc/handler.ts b/srpc/handler.ts
index a5fda2a..c6a837e 100644
--- a/srpc/handler.ts
+++ b/srpc/handler.ts
@@ -53,6 +53,9 @@ export class StaticHandler implements Handler {
     if (serviceID && serviceID !== this.service) {
       return null
     }
+    if (!Object.prototype.hasOwnProperty.call(this.methods, methodID)) {
+      return null
+    }
     return this.methods[methodID] || null
   }
 }
@@ -66,7 +69,7 @@ export function createHandler<
   serviceID = serviceID || definition.typeName
 
   // build map of method ID -> method prototype.
-  const methodMap: MethodMap = {}
+  const methodMap: MethodMap = Object.create(null)
   for (const methodInfo of Object.values(definition.methods)) {
     const methodName = methodInfo.name
     let methodProto = impl[methodName]
diff --git a/srpc/mux.ts b/srpc/mux.ts
index 5dc76ad..492a54f 100644
--- a/srpc/mux.ts
+++ b/srpc/mux.ts
@@ -25,7 +25,7 @@ type staticMuxMethods = { [methodID: string]: Handler }
 // implements Mux
 export class StaticMux implements Mux {
   // services contains a mapping from service id to handlers.
-  private services: { [id: string]: staticMuxMethods } = {}
+  private services: { [id: string]: staticMuxMethods } = Object.create(null)
   // lookups is the list of lookup methods to call.
   // called if the method is not resolved by the services list.
   private lookups: LookupMethod[] = []
@@ -40,7 +40,7 @@ export class StaticMux implements Mux {
     if (!serviceID) {
       throw new Error('service id cannot be empty')
     }
-    const serviceMethods = this.services[serviceID] || {}
+    const serviceMethods = this.services[serviceID] || Object.create(null)
     const methodIDs = handler.getMethodIDs()
     for (const methodID of methodIDs) {
       serviceMethods[methodID] = handler
-- 
2.43.0


From b4712b87fa343f1c01401c364d379597f80bf1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 29/37] fix: closing a TypeScript BroadcastChannel connection
 or stream again does not throw

---
 srpc/broadcast-channel.ts | 6 ++++++
 srpc/channel.ts           | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/srpc/broadcast-channel.ts b/srpc/broadcast-channel.ts
index 0384972..c398895 100644
--- a/srpc/broadcast-channel.ts
+++ b/srpc/broadcast-channel.ts
@@ -22,6 +22,8 @@ export class BroadcastChannelDuplex<T>
   public sink: (source: Source<T>) => Promise<void>
   // source is the source for outgoing messages.
   public source: AsyncGenerator<T>
+  // closed indicates the channels were closed already.
+  private closed = false
 
   constructor(read: BroadcastChannel, write: BroadcastChannel) {
     this.read = read
@@ -32,6 +34,10 @@ export class BroadcastChannelDuplex<T>
 
   // close closes the message port.
   public close() {
+    if (this.closed) {
+      return
+    }
+    this.closed = true
     this.write.postMessage(null)
     this.write.close()
     this.read.close()
diff --git a/srpc/channel.ts b/srpc/channel.ts
index 99bf8dd..a2270cb 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -78,6 +78,8 @@ export class ChannelStream<T = Uint8Array>
   private keepAlive?: Watchdog
   // idleWatchdog is the receive timeout watchdog.
   private idleWatchdog?: Watchdog
+  // closed indicates close was called already.
+  private closed = false
 
   // isAcked checks if the stream is acknowledged by the remote.
   public get isAcked() {
@@ -190,6 +192,11 @@ export class ChannelStream<T = Uint8Array>
 
   // close closes the broadcast channels.
   public close(error?: Error) {
+    // posting to a closed BroadcastChannel throws an error.
+    if (this.closed) {
+      return
+    }
+    this.closed = true
     // write a message to indicate the stream is now closed.
     this.postMessage({ closed: true, error })
     // close channels
-- 
2.43.0


From a4ad8455fbe4788846d008469ebd88d764a9858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 30/37] fix: closing a TypeScript MessagePort connection tells
 the remote

---
 srpc/message-port.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srpc/message-port.ts b/srpc/message-port.ts
index 0c51df3..dc3ab62 100644
--- a/srpc/message-port.ts
+++ b/srpc/message-port.ts
@@ -136,6 +136,7 @@ export class MessagePortConn extends StreamConn {
   // close closes the message port.
   public override close(err?: Error) {
     super.close(err)
-    this.messagePort.close()
+    // note: this tells the remote that the port is closed.
+    this._messagePort.close()
   }
 }
-- 
2.43.0


From 8566bb1ad65dc951caea04cbabde9dbdea69bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 31/37] fix: TypeScript error checks accept null

---
 srpc/errors.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/errors.ts b/srpc/errors.ts
index 0cfb1ee..97faa54 100644
--- a/srpc/errors.ts
+++ b/srpc/errors.ts
@@ -3,7 +3,7 @@ export const ERR_RPC_ABORT = 'ERR_RPC_ABORT'
 
 // isAbortError checks if the error object is ERR_RPC_ABORT.
 export function isAbortError(err: unknown): boolean {
-  if (typeof err !== 'object') {
+  if (typeof err !== 'object' || err === null) {
     return false
   }
   const message = (err as Error).message
@@ -15,7 +15,7 @@ export const ERR_STREAM_IDLE = 'ERR_STREAM_IDLE'
 
 // isStreamIdleError checks if the error object is ERR_STREAM_IDLE.
 export function isStreamIdleError(err: unknown): boolean {
-  if (typeof err !== 'object') {
+  if (typeof err !== 'object' || err === null) {
     return false
   }
   const message = (err as Error).message
-- 
2.43.0


From 4a45510a3912eff094ebb2c03ef7dfed9a03df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 32/37] fix: TypeScript ChannelStream and ValueCtr keep falsy
 values

---
 srpc/channel.ts   | 2 +-
 srpc/value-ctr.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index a2270cb..b40013b 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -282,7 +282,7 @@ export class ChannelStream<T = Uint8Array>
       this.onRemoteOpened()
     }
     const { data, closed, error: err } = msg
-    if (data) {
+    if (data !== undefined) {
       this._source.push(data)
     }
     if (err) {
diff --git a/srpc/value-ctr.ts b/srpc/value-ctr.ts
index 68843c4..1ec9e91 100644
--- a/srpc/value-ctr.ts
+++ b/srpc/value-ctr.ts
@@ -7,7 +7,7 @@ export class ValueCtr<T> {
   private _waiters: ((fn: T) => void)[]
 
   constructor(initialValue?: T) {
-    this._value = initialValue || undefined
+    this._value = initialValue
     this._waiters = []
   }
 
-- 
2.43.0


From 3715b919ced57d1856726d799274b322a9f05c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 33/37] fix: RwcConn read after close with an expired deadline
 is not a timeout

---
 srpc/rwc-conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 39a5497..95841c7 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -91,6 +91,10 @@ func (p *RwcConn) Read(b []byte) (n int, err error) {
 		var timeout <-chan time.Time
 		if !deadline.IsZero() {
 			if dur <= 0 {
+				// a closed connection never becomes readable again
+				if p.ctx.Err() != nil {
+					return 0, context.Canceled
+				}
 				return 0, os.ErrDeadlineExceeded
 			}
 			timer := time.NewTimer(dur)
-- 
2.43.0


From a0b64413fd21e4262e43f549805b133c058eb997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 34/37] fix: ignore packets of a call which was closed already

A server which rejected the packets of a stream kept handling the following
ones: a call start after a rejected packet ran the handler of a failed call.
---
 srpc/common-rpc.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index b229508..c91bca4 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -103,6 +103,10 @@ export class CommonRPC {
   // note: closes the stream if any error is thrown.
   public async handlePacket(packet: Packet) {
     // console.log('handlePacket', packet)
+    if (this.closed) {
+      // ignore packets which arrive after the call was closed.
+      return
+    }
     try {
       switch (packet?.body?.case) {
         case 'callStart':
-- 
2.43.0


From 91640d12e6e7574cdd31a25dfb04d74fa925c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 35/37] fix: half-close of a nested call does not fail when the
 outer call just ended

The error of a stream closed by the remote depends on the transport (yamux:
stream closed). A nested client only ignores the errors of a closed stream it
knows, so CloseSend of the nested call failed with it.
---
 srpc/client-rpc.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 577a74b..c9227b7 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -130,6 +130,11 @@ func (r *ClientRPC) WriteCallData(data []byte, complete bool, err error) error {
 	if complete && data == nil && err == nil {
 		return r.ignoreRemoteClosed(werr)
 	}
+	if werr != nil && r.ignoreRemoteClosed(werr) == nil {
+		// the same error for all transports: a call nested in this one knows
+		// by it that the remote ended the stream.
+		return io.ErrClosedPipe
+	}
 	return werr
 }
 
-- 
2.43.0


From 148f2aa32b5384a02a1682608616a6644188b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 36/37] fix: a call which was cut off does not look as if it
 had ended regularly

When the stream of a call ended before the remote completed the call, the
other end got io.EOF: a client saw success although the handler had failed
(context of the server cancelled, connection closed), and a handler saw the
end of the client's messages although the client had cancelled the call.
---
 srpc/client-rpc.go | 9 ++++++++-
 srpc/common-rpc.go | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index c9227b7..1e1c76b 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -76,7 +76,14 @@ func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	var writer PacketWriter
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
 		// if the remote already completed the call, its outcome is final.
-		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
+		if r.remoteErr == nil && !r.dataClosed {
+			if closeErr == nil || closeErr == io.EOF {
+				// the stream ended without an outcome.
+				closeErr = io.ErrUnexpectedEOF
+				if r.ctx.Err() != nil {
+					closeErr = context.Canceled
+				}
+			}
 			r.remoteErr = closeErr
 		}
 		r.dataClosed = true
diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 0fe4637..7a7852d 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -130,6 +130,10 @@ func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
 // HandleStreamClose handles the incoming stream closing w/ optional error.
 func (c *commonRPC) HandleStreamClose(closeErr error) {
 	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
+		if (closeErr == nil || closeErr == io.EOF) && !c.dataClosed {
+			// the stream ended but the remote did not end its messages.
+			closeErr = context.Canceled
+		}
 		if closeErr != nil && c.remoteErr == nil {
 			c.remoteErr = closeErr
 		}
-- 
2.43.0


From 9e1281a37c1541165652904ae6e1b2ae8bd06de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 37/37] fix: opening a nested stream which the remote refuses
 ends the stream

---
 rpcstream/rpcstream.ts | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/rpcstream/rpcstream.ts b/rpcstream/rpcstream.ts
index c15ff29..75210a2 100644
--- a/rpcstream/rpcstream.ts
+++ b/rpcstream/rpcstream.ts
@@ -40,19 +40,25 @@ export async function openRpcStream(
 
   // wait for ack, if set.
   if (waitAck) {
-    const ackPacketIt = await packetIt.next()
-    if (ackPacketIt.done) {
-      throw new Error(`rpcstream: closed before ack packet`)
-    }
-    const ackPacket = ackPacketIt.value
-    const ackBody = ackPacket?.body
-    if (!ackBody || ackBody.case !== 'ack') {
-      const msgType = ackBody?.case || 'none'
-      throw new Error(`rpcstream: expected ack packet but got ${msgType}`)
-    }
-    const errStr = ackBody.value?.error
-    if (errStr) {
-      throw new Error(`rpcstream: remote: ${errStr}`)
+    try {
+      const ackPacketIt = await packetIt.next()
+      if (ackPacketIt.done) {
+        throw new Error(`rpcstream: closed before ack packet`)
+      }
+      const ackPacket = ackPacketIt.value
+      const ackBody = ackPacket?.body
+      if (!ackBody || ackBody.case !== 'ack') {
+        const msgType = ackBody?.case || 'none'
+        throw new Error(`rpcstream: expected ack packet but got ${msgType}`)
+      }
+      const errStr = ackBody.value?.error
+      if (errStr) {
+        throw new Error(`rpcstream: remote: ${errStr}`)
+      }
+    } catch (err) {
+      // the caller gets no stream to close.
+      packetTx.end(err as Error)
+      throw err
     }
   }
 
-- 
2.43.0

