From 1861d766c46cc11337edefba13977ea43ef78e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 01/22] fix: write only the unwritten rest of a packet after a
 short write

---
 srpc/packet-rw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/packet-rw.go b/srpc/packet-rw.go
index c848891..670f78f 100644
--- a/srpc/packet-rw.go
+++ b/srpc/packet-rw.go
@@ -59,7 +59,7 @@ func (r *PacketReadWriter) WritePacket(p *Packet) error {
 
 	var written, n int
 	for written < len(data) {
-		n, err = r.rw.Write(data)
+		n, err = r.rw.Write(data[written:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 08ac12211c499d86f4a86881b7c3c9a17bb73a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 02/22] fix: closing the send direction does not send an empty
 message

---
 srpc/common-rpc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 81afada..abe2992 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -121,7 +121,9 @@ func (c *commonRPC) ReadOne() ([]byte, error) {
 
 // WriteCallData writes a call data packet.
 func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
-	outPkt := NewCallDataPacket(data, len(data) == 0, complete, err)
+	// a completion or error without data does not carry an (empty) message
+	dataIsZero := len(data) == 0 && !complete && err == nil
+	outPkt := NewCallDataPacket(data, dataIsZero, complete, err)
 	return c.writer.WritePacket(outPkt)
 }
 
-- 
2.43.0


From b227c9e2c1fb88f82ef90ed9e17fa0897a274f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 03/22] fix: do not panic if a call is cancelled before it was
 started

---
 srpc/common-rpc.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index abe2992..943f6ff 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -135,7 +135,10 @@ func (c *commonRPC) HandleStreamClose(closeErr error) {
 		}
 		c.dataClosed = true
 		c.ctxCancel()
-		_ = c.writer.Close()
+		// the client has no writer before the call was started
+		if c.writer != nil {
+			_ = c.writer.Close()
+		}
 		broadcast()
 	})
 }
@@ -186,7 +189,9 @@ func (c *commonRPC) closeLocked(broadcast func()) {
 	if c.remoteErr == nil {
 		c.remoteErr = context.Canceled
 	}
-	_ = c.writer.Close()
+	if c.writer != nil {
+		_ = c.writer.Close()
+	}
 	broadcast()
 	c.ctxCancel()
 }
-- 
2.43.0


From e994454b3d3387115ec33ab7bc3f550655dfed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 04/22] fix: keep the outcome of a completed call if the stream
 fails later

---
 srpc/client-rpc.go | 3 ++-
 srpc/common-rpc.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 4271f70..4befca4 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -70,7 +70,8 @@ func (r *ClientRPC) HandlePacketData(data []byte) error {
 // HandleStreamClose handles the stream closing optionally w/ an error.
 func (r *ClientRPC) HandleStreamClose(closeErr error) {
 	r.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && r.remoteErr == nil {
+		// keep the outcome if the remote completed the call already
+		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
 			r.remoteErr = closeErr
 		}
 		r.dataClosed = true
diff --git a/srpc/common-rpc.go b/srpc/common-rpc.go
index 943f6ff..1ed71c0 100644
--- a/srpc/common-rpc.go
+++ b/srpc/common-rpc.go
@@ -130,7 +130,8 @@ func (c *commonRPC) WriteCallData(data []byte, complete bool, err error) error {
 // HandleStreamClose handles the incoming stream closing w/ optional error.
 func (c *commonRPC) HandleStreamClose(closeErr error) {
 	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
-		if closeErr != nil && c.remoteErr == nil {
+		// keep the outcome if the remote completed the call already
+		if closeErr != nil && c.remoteErr == nil && !c.dataClosed {
 			c.remoteErr = closeErr
 		}
 		c.dataClosed = true
-- 
2.43.0


From 2eb30265dc56bf2d5a5e9b63455570e225be23df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 05/22] fix: release the call context if the stream could not
 be opened

---
 srpc/client-rpc.go | 2 ++
 srpc/client.go     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/srpc/client-rpc.go b/srpc/client-rpc.go
index 4befca4..549c7fa 100644
--- a/srpc/client-rpc.go
+++ b/srpc/client-rpc.go
@@ -114,6 +114,8 @@ func (r *ClientRPC) Close() {
 		if r.writer != nil {
 			_ = r.WriteCallCancel()
 			r.closeLocked(broadcast)
+		} else {
+			r.ctxCancel()
 		}
 	})
 }
diff --git a/srpc/client.go b/srpc/client.go
index 7d0262c..f0938ac 100644
--- a/srpc/client.go
+++ b/srpc/client.go
@@ -83,6 +83,7 @@ func (c *client) NewStream(ctx context.Context, service, method string, firstMsg
 	clientRPC := NewClientRPC(ctx, service, method)
 	writer, err := c.openStream(ctx, clientRPC.HandlePacketData, clientRPC.HandleStreamClose)
 	if err != nil {
+		clientRPC.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From db67aa1d09d5260b82f90298adc48b1d65138e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 06/22] fix: the dialing side is the outbound side of the muxed
 connection

---
 srpc/net.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 3bfc3f5..021a93e 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -11,7 +11,7 @@ func Dial(addr string) (Client, error) {
 	if err != nil {
 		return nil, err
 	}
-	muxedConn, err := NewMuxedConn(nconn, false, nil)
+	muxedConn, err := NewMuxedConn(nconn, true, nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c70338a55632d83a09f1f23f4f6979a4a4025e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 07/22] fix: accept further connections while earlier ones are
 served

---
 srpc/accept.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/srpc/accept.go b/srpc/accept.go
index 9995073..10583ec 100644
--- a/srpc/accept.go
+++ b/srpc/accept.go
@@ -24,9 +24,10 @@ func AcceptMuxedListener(ctx context.Context, lis net.Listener, srv *Server, yam
 			continue
 		}
 
-		if err := srv.AcceptMuxedConn(ctx, mc); err != nil {
-			_ = nc.Close()
-			continue
-		}
+		// serve the connection without blocking the accept loop
+		go func() {
+			_ = srv.AcceptMuxedConn(ctx, mc)
+			_ = mc.Close()
+		}()
 	}
 }
-- 
2.43.0


From 248f9ef339622f0d758d10f6957a437ee62c042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 08/22] fix: release the listener when listening ends

---
 srpc/net.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srpc/net.go b/srpc/net.go
index 021a93e..5fbcb82 100644
--- a/srpc/net.go
+++ b/srpc/net.go
@@ -27,10 +27,12 @@ func Listen(ctx context.Context, addr string, srv *Server, errCh <-chan error) e
 		return err
 	}
 
+	// release the listener when returning (also stops the accept loop)
+	defer lis.Close()
+
 	listenErrCh := make(chan error, 1)
 	go func() {
 		listenErrCh <- AcceptMuxedListener(ctx, lis, srv, nil)
-		_ = lis.Close()
 	}()
 
 	select {
-- 
2.43.0


From d2d9d43dcf0b847053bd42cea959b30675afb0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 09/22] fix: close accepted connections when the context is
 canceled

---
 srpc/accept.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srpc/accept.go b/srpc/accept.go
index 10583ec..a368b79 100644
--- a/srpc/accept.go
+++ b/srpc/accept.go
@@ -26,6 +26,9 @@ func AcceptMuxedListener(ctx context.Context, lis net.Listener, srv *Server, yam
 
 		// serve the connection without blocking the accept loop
 		go func() {
+			// close the connection if the context is canceled
+			stop := context.AfterFunc(ctx, func() { _ = mc.Close() })
+			defer stop()
 			_ = srv.AcceptMuxedConn(ctx, mc)
 			_ = mc.Close()
 		}()
-- 
2.43.0


From c5774c717f7d29f56c7fa101dda8d6d63d34ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 10/22] fix: sending on a closed in-memory stream returns an
 error instead of panicking

---
 srpc/stream-pipe.go | 46 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/srpc/stream-pipe.go b/srpc/stream-pipe.go
index 7f55969..d3e0bce 100644
--- a/srpc/stream-pipe.go
+++ b/srpc/stream-pipe.go
@@ -13,8 +13,13 @@ type pipeStream struct {
 	ctxCancel context.CancelFunc
 	// other is the other end of the stream.
 	other *pipeStream
-	// closeOnce ensures we close only once.
-	closeOnce sync.Once
+	// sendMtx guards below fields
+	sendMtx sync.Mutex
+	// sendClosed is set when no more messages can be sent.
+	sendClosed bool
+	// sending is the number of MsgSend calls in progress.
+	// the remote data channel is closed after the last of them returned.
+	sending int
 	// dataCh is the data channel
 	dataCh chan []byte
 }
@@ -40,6 +45,10 @@ func (p *pipeStream) MsgSend(msg Message) error {
 	if err != nil {
 		return err
 	}
+	if !p.beginSend() {
+		return io.ErrClosedPipe
+	}
+	defer p.endSend()
 	select {
 	case <-p.ctx.Done():
 		return context.Canceled
@@ -75,11 +84,38 @@ func (p *pipeStream) Close() error {
 	return nil
 }
 
-// closeRemote closes the remote data channel.
+// beginSend starts sending a message, returns false if sending was closed.
+func (p *pipeStream) beginSend() bool {
+	p.sendMtx.Lock()
+	defer p.sendMtx.Unlock()
+	if p.sendClosed {
+		return false
+	}
+	p.sending++
+	return true
+}
+
+// endSend ends sending a message.
+func (p *pipeStream) endSend() {
+	p.sendMtx.Lock()
+	defer p.sendMtx.Unlock()
+	p.sending--
+	if p.sendClosed && p.sending == 0 {
+		close(p.other.dataCh)
+	}
+}
+
+// closeRemote closes the remote data channel once no MsgSend is in progress.
 func (p *pipeStream) closeRemote() {
-	p.closeOnce.Do(func() {
+	p.sendMtx.Lock()
+	defer p.sendMtx.Unlock()
+	if p.sendClosed {
+		return
+	}
+	p.sendClosed = true
+	if p.sending == 0 {
 		close(p.other.dataCh)
-	})
+	}
 }
 
 // _ is a type assertion
-- 
2.43.0


From 5a20195320fccef4f5bd7088cadac3ed1ee692d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:28 +0000
Subject: [PATCH 11/22] fix: closing the RwcConn unblocks readers and ends the
 receive loop

---
 srpc/rwc-conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srpc/rwc-conn.go b/srpc/rwc-conn.go
index 6737d4c..4d6744d 100644
--- a/srpc/rwc-conn.go
+++ b/srpc/rwc-conn.go
@@ -172,6 +172,7 @@ func (p *RwcConn) SetWriteDeadline(t time.Time) error {
 // Close closes the connection.
 // Any blocked ReadFrom or WriteTo operations will be unblocked and return errors.
 func (p *RwcConn) Close() error {
+	p.ctxCancel()
 	return p.rwc.Close()
 }
 
-- 
2.43.0


From b8d853ceecb87d6f36a174b58ce4adaf9d10c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:30 +0000
Subject: [PATCH 12/22] fix: a proxied component without a caller is not found,
 the release function is optional

---
 rpcstream/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcstream/proxy.go b/rpcstream/proxy.go
index 7d1c82e..7e522a1 100644
--- a/rpcstream/proxy.go
+++ b/rpcstream/proxy.go
@@ -38,7 +38,8 @@ func HandleProxyRpcStream[T RpcStream](stream RpcStream, getter RpcProxyGetter[T
 	remoteCaller, remoteComponentID, remoteCallerRel, err := getter(ctx, componentID)
 	if remoteCallerRel != nil {
 		defer remoteCallerRel()
-	} else if err == nil {
+	}
+	if err == nil && remoteCaller == nil {
 		err = ErrNoServerForComponent
 	}
 
-- 
2.43.0


From c616a33c0bb4e4afcbd188da23b93658fb5b8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 13/22] fix: client.ts: abort a call whose signal was aborted
 while its stream was being opened

---
 srpc/client.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/srpc/client.ts b/srpc/client.ts
index 7972b60..84a8ad2 100644
--- a/srpc/client.ts
+++ b/srpc/client.ts
@@ -123,6 +123,12 @@ export class Client implements ProtoRpc {
     pipe(stream, decodePacketSource, call, encodePacketSource, stream)
       .catch((err) => call.close(err))
       .then(() => call.close())
+    // the signal may have been aborted while the stream was being opened.
+    if (abortSignal?.aborted) {
+      const err = new Error(ERR_RPC_ABORT)
+      call.close(err)
+      throw err
+    }
     await call.writeCallStart(data ?? undefined)
     return call
   }
-- 
2.43.0


From 2ea601577e4efa66df3b3db0f9655be35ff1b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 14/22] fix: common-rpc.ts: end the call when the packet stream
 ends

---
 srpc/common-rpc.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srpc/common-rpc.ts b/srpc/common-rpc.ts
index 05607b1..1163ef0 100644
--- a/srpc/common-rpc.ts
+++ b/srpc/common-rpc.ts
@@ -200,6 +200,8 @@ export class CommonRPC {
             await this.handlePacket(msg)
           }
         }
+        // no further packets can arrive.
+        this.close()
       } catch (err) {
         this.close(err as Error)
       }
-- 
2.43.0


From c0048fd64be25a703e7e6cf9d2410f9a87753f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 15/22] fix: mux.ts, handler.ts: names inherited from
 Object.prototype were looked up as services and methods

---
 srpc/handler.ts | 4 ++++
 srpc/mux.ts     | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/srpc/handler.ts b/srpc/handler.ts
index a5fda2a..3208b33 100644
--- a/srpc/handler.ts
+++ b/srpc/handler.ts
@@ -53,6 +53,10 @@ export class StaticHandler implements Handler {
     if (serviceID && serviceID !== this.service) {
       return null
     }
+    // ignore inherited names (e.g. "constructor")
+    if (!Object.prototype.hasOwnProperty.call(this.methods, methodID)) {
+      return null
+    }
     return this.methods[methodID] || null
   }
 }
diff --git a/srpc/mux.ts b/srpc/mux.ts
index 5dc76ad..95e8401 100644
--- a/srpc/mux.ts
+++ b/srpc/mux.ts
@@ -25,7 +25,8 @@ type staticMuxMethods = { [methodID: string]: Handler }
 // implements Mux
 export class StaticMux implements Mux {
   // services contains a mapping from service id to handlers.
-  private services: { [id: string]: staticMuxMethods } = {}
+  // note: has no prototype, so that inherited names (e.g. "constructor") are not found.
+  private services: { [id: string]: staticMuxMethods } = Object.create(null)
   // lookups is the list of lookup methods to call.
   // called if the method is not resolved by the services list.
   private lookups: LookupMethod[] = []
@@ -40,7 +41,8 @@ export class StaticMux implements Mux {
     if (!serviceID) {
       throw new Error('service id cannot be empty')
     }
-    const serviceMethods = this.services[serviceID] || {}
+    const serviceMethods: staticMuxMethods =
+      this.services[serviceID] || Object.create(null)
     const methodIDs = handler.getMethodIDs()
     for (const methodID of methodIDs) {
       serviceMethods[methodID] = handler
-- 
2.43.0


From 4e020556a4e86c618999d91db631df2196e0eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 16/22] fix: channel.ts: closing a stream again threw an error
 with a BroadcastChannel

---
 srpc/channel.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index 99bf8dd..6beb5f8 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -74,6 +74,8 @@ export class ChannelStream<T = Uint8Array>
   public readonly waitRemoteAck: Promise<void>
   // _remoteAck fulfills the waitRemoteAck promise.
   private _remoteAck?: (err?: Error) => void
+  // closed indicates close was called.
+  private closed?: true
   // keepAliveWatchdog is the transmission timeout watchdog.
   private keepAlive?: Watchdog
   // idleWatchdog is the receive timeout watchdog.
@@ -190,6 +192,11 @@ export class ChannelStream<T = Uint8Array>
 
   // close closes the broadcast channels.
   public close(error?: Error) {
+    // writing to a closed BroadcastChannel throws an error.
+    if (this.closed) {
+      return
+    }
+    this.closed = true
     // write a message to indicate the stream is now closed.
     this.postMessage({ closed: true, error })
     // close channels
-- 
2.43.0


From 0acc3bea1ec2d11314cb5a6f166f2c7a0b06e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 17/22] fix: channel.ts: messages such as 0 and the empty
 string were dropped

---
 srpc/channel.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/channel.ts b/srpc/channel.ts
index 6beb5f8..e8bfc0c 100644
--- a/srpc/channel.ts
+++ b/srpc/channel.ts
@@ -282,7 +282,7 @@ export class ChannelStream<T = Uint8Array>
       this.onRemoteOpened()
     }
     const { data, closed, error: err } = msg
-    if (data) {
+    if (data !== undefined && data !== null) {
       this._source.push(data)
     }
     if (err) {
-- 
2.43.0


From 8b2146e867f197b61668cfc58a6642f1bba9578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 18/22] fix: broadcast-channel.ts: ending or closing a duplex
 or connection twice threw an error

---
 srpc/broadcast-channel.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/srpc/broadcast-channel.ts b/srpc/broadcast-channel.ts
index 0384972..15c251d 100644
--- a/srpc/broadcast-channel.ts
+++ b/srpc/broadcast-channel.ts
@@ -22,6 +22,8 @@ export class BroadcastChannelDuplex<T>
   public sink: (source: Source<T>) => Promise<void>
   // source is the source for outgoing messages.
   public source: AsyncGenerator<T>
+  // closed indicates close was called.
+  private closed?: true
 
   constructor(read: BroadcastChannel, write: BroadcastChannel) {
     this.read = read
@@ -32,6 +34,11 @@ export class BroadcastChannelDuplex<T>
 
   // close closes the message port.
   public close() {
+    // writing to a closed BroadcastChannel throws an error.
+    if (this.closed) {
+      return
+    }
+    this.closed = true
     this.write.postMessage(null)
     this.write.close()
     this.read.close()
-- 
2.43.0


From 2ecbac24f52af0218e3e1b0a730400ade463f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 19/22] fix: value-ctr.ts: initial values such as 0 and the
 empty string were dropped

---
 srpc/value-ctr.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srpc/value-ctr.ts b/srpc/value-ctr.ts
index 68843c4..1c2a2b5 100644
--- a/srpc/value-ctr.ts
+++ b/srpc/value-ctr.ts
@@ -7,7 +7,7 @@ export class ValueCtr<T> {
   private _waiters: ((fn: T) => void)[]
 
   constructor(initialValue?: T) {
-    this._value = initialValue || undefined
+    this._value = initialValue ?? undefined
     this._waiters = []
   }
 
-- 
2.43.0


From cb2ba97dd97ab094f0a3b5de7c8fc8e33f601991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 20/22] fix: errors.ts: isAbortError and isStreamIdleError
 crashed on null

---
 srpc/errors.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srpc/errors.ts b/srpc/errors.ts
index 150b306..7989a48 100644
--- a/srpc/errors.ts
+++ b/srpc/errors.ts
@@ -3,7 +3,7 @@ export const ERR_RPC_ABORT = 'ERR_RPC_ABORT'
 
 // isAbortError checks if the error object is ERR_RPC_ABORT.
 export function isAbortError(err: unknown): boolean {
-  if (typeof err !== 'object') {
+  if (typeof err !== 'object' || err === null) {
     return false
   }
   const message = (err as Error).message
@@ -15,7 +15,7 @@ export const ERR_STREAM_IDLE = 'ERR_STREAM_IDLE'
 
 // isStreamIdleError checks if the error object is ERR_STREAM_IDLE.
 export function isStreamIdleError(err: unknown): boolean {
-  if (typeof err !== 'object') {
+  if (typeof err !== 'object' || err === null) {
     return false
   }
   const message = (err as Error).message
-- 
2.43.0


From 75cb19776c7d81d94e00b6f81b481ad2de578853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 21/22] fix: message-port.ts: closing a connection did not tell
 the remote

---
 srpc/message-port.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srpc/message-port.ts b/srpc/message-port.ts
index 0c51df3..738d766 100644
--- a/srpc/message-port.ts
+++ b/srpc/message-port.ts
@@ -136,6 +136,7 @@ export class MessagePortConn extends StreamConn {
   // close closes the message port.
   public override close(err?: Error) {
     super.close(err)
-    this.messagePort.close()
+    // writes null to the port first so that the remote sees the close.
+    this._messagePort.close()
   }
 }
-- 
2.43.0


From 00dcfd1a09411a9756ababee20a6df4f5340564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:12 +0000
Subject: [PATCH 22/22] fix: do not report a failed call as completed when the
 invoker is wrapped

---
 srpc/invoker.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srpc/invoker.ts b/srpc/invoker.ts
index c148006..a4c2122 100644
--- a/srpc/invoker.ts
+++ b/srpc/invoker.ts
@@ -94,7 +94,8 @@ export function createInvokeFn<R extends Message<R>, O extends Message<O>>(
         asError = new Error('error calling implementation: ' + err)
       }
       // mux will return the error to the rpc caller.
-      responseSink.end()
+      // note: the response must not end without error before the caller sees the error.
+      responseSink.end(asError)
       throw asError
     }
   }
-- 
2.43.0

