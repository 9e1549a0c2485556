From bcfbf1edea16fa35e4a44f3decaa4ed4aa477688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 01/47] fix: report a lost connection to every pending
 asynchronous call, not only the last

clearAsyncHandler captured the loop variable in the function it hands to the
async executor, so with several calls pending one callback ran repeatedly (on a
recycled handler) and the others never.
---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index d44bdb1..26a650b 100644
--- a/client.go
+++ b/client.go
@@ -732,7 +732,8 @@ func (c *Client) clearAsyncHandler() {
 	handlers := c.asyncHandlerMap
 	c.asyncHandlerMap = make(map[uint64]*asyncHandler)
 	c.mux.Unlock()
-	for _, ah := range handlers {
+	for _, v := range handlers {
+		ah := v
 		if ah.timer != nil {
 			ah.timer.Stop()
 		}
-- 
2.43.0


From 104145b9e7f92cebaa116dfd697d99564aee463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 02/47] fix: run the callback of an accepted asynchronous call
 that is dropped while reconnecting

The send loop discarded the queued request and its handler, so the callback
never ran although CallAsync had returned nil.
---
 client.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 26a650b..23e1be0 100644
--- a/client.go
+++ b/client.go
@@ -311,6 +311,8 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
+			// the error is returned, it must not be reported by the callback as well
+			c.deleteAsyncHandler(seq)
 			c.dropMessage(msg)
 			err = ErrClientReconnecting
 		}
@@ -691,7 +693,16 @@ func (c *Client) dropMessage(msg *Message) {
 		}
 		c.Handler.OnMessageDropped(c, msg)
 	} else {
-		c.deleteAsyncHandler(msg.Seq())
+		ah, ok := c.getAndDeleteAsyncHandler(msg.Seq())
+		if ok {
+			if ah.timer != nil {
+				ah.timer.Stop()
+			}
+			c.Handler.AsyncExecute(func() {
+				ah.handler(nil, ErrClientReconnecting)
+				putAsyncHandler(ah)
+			})
+		}
 		c.Handler.OnMessageDropped(c, msg)
 	}
 }
-- 
2.43.0


From a0b50728bcff6181640b81b4d259a5a2a60eb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 03/47] fix: a panic in the timeout callback of CallAsync no
 longer ends the process

Callbacks run from the timer's goroutine were the only ones not recovered.
---
 client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 23e1be0..f8f9e9b 100644
--- a/client.go
+++ b/client.go
@@ -289,7 +289,9 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			if ah.timer != nil {
 				ah.timer.Stop()
 			}
-			ah.handler(nil, ErrTimeout)
+			util.Safe(func() {
+				ah.handler(nil, ErrTimeout)
+			})
 			putAsyncHandler(ah)
 		}
 		chTimer <- time.Now()
-- 
2.43.0


From 5dee4eee5f9ebbe6f8de21fa17f7c7e438379452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 04/47] fix: CallAsync reports ErrClientStopped when the client
 stops while the call is being submitted

The handler was silently not registered, CallAsync returned nil and the
callback never ran.
---
 client.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index f8f9e9b..658f986 100644
--- a/client.go
+++ b/client.go
@@ -297,7 +297,11 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 		chTimer <- time.Now()
 	})
 	ah := getAsyncHandler(timerCallback, handler)
-	c.addAsyncHandler(seq, ah)
+	if !c.addAsyncHandler(seq, ah) {
+		timerCallback.Stop()
+		c.Handler.OnMessageDone(c, msg)
+		return ErrClientStopped
+	}
 
 	if c.Handler.AsyncWrite() {
 		err = c.pushMessage(msg, timer)
@@ -709,12 +713,13 @@ func (c *Client) dropMessage(msg *Message) {
 	}
 }
 
-func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) {
+func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) bool {
 	c.mux.Lock()
+	defer c.mux.Unlock()
 	if c.running {
 		c.asyncHandlerMap[seq] = ah
 	}
-	c.mux.Unlock()
+	return c.running
 }
 
 func (c *Client) deleteAsyncHandler(seq uint64) {
-- 
2.43.0


From b17012f1da1873f39b14be9db29ea3d6baa7b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 05/47] fix: clean up when a client is stopped outside of a
 blocking read

If Stop came between two messages (server side) or before the receive loop
started (client side), the loop ended without closeAndClean: the send loop
leaked, pending calls were not ended, OnDisconnected did not run and the server
kept the client.
---
 client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 658f986..ae5956c 100644
--- a/client.go
+++ b/client.go
@@ -847,15 +847,15 @@ func (c *Client) recvLoop() {
 			msg, err = c.Handler.Recv(c)
 			if err != nil {
 				log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
-				c.closeAndClean()
-				return
+				break
 			}
 			c.Handler.OnMessage(c, msg)
 		}
+		c.closeAndClean()
 	} else {
 		go c.Handler.OnConnected(c)
 
-		for c.running {
+		for {
 		RECV:
 			for {
 				msg, err = c.Handler.Recv(c)
@@ -897,6 +897,7 @@ func (c *Client) recvLoop() {
 				time.Sleep(time.Second)
 			}
 			c.closeAndClean()
+			return
 		}
 	}
 }
-- 
2.43.0


From 210d9ae6cb477bb5fefb9a9ccf655818d13e40cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 06/47] fix: Stop during a reconnect dial closes the connection
 which the dial returns

Stop closed the old connection only; the receive loop went on with the new one
and the stopped client stayed connected.
---
 client.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index ae5956c..9f4f08d 100644
--- a/client.go
+++ b/client.go
@@ -517,9 +517,10 @@ func (c *Client) Restart() error {
 func (c *Client) Stop() {
 	c.mux.Lock()
 	c.running = false
+	conn := c.Conn
 	c.mux.Unlock()
 
-	c.Conn.Close()
+	conn.Close()
 }
 
 func (c *Client) closeAndClean() {
@@ -881,7 +882,15 @@ func (c *Client) recvLoop() {
 				log.Info("%v\t%v\tReconnect Trying %v", c.Handler.LogTag(), addr, i)
 				conn, err := c.Dialer()
 				if err == nil {
+					c.mux.Lock()
 					c.Conn = conn
+					stopped := !c.running
+					c.mux.Unlock()
+					if stopped {
+						// stopped while dialing, Stop closed the previous conn
+						conn.Close()
+						break
+					}
 
 					c.initReader()
 
-- 
2.43.0


From d317d7aead9f7631c29e9990bf22159d52f90333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 07/47] fix: end pending calls of a closed client which writes
 directly

Without AsyncWrite chClose was never closed, so calls pending on an accepted
connection waited for their timeout after the connection was gone.
---
 client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 9f4f08d..fd65271 100644
--- a/client.go
+++ b/client.go
@@ -529,9 +529,7 @@ func (c *Client) closeAndClean() {
 	c.mux.Unlock()
 
 	c.Conn.Close()
-	if c.chSend != nil {
-		close(c.chClose)
-	}
+	close(c.chClose)
 	if c.onStop != nil {
 		c.onStop(c)
 	}
-- 
2.43.0


From d3ccaaf3c701592c7834e5e0761b2e0085b34bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:23 +0000
Subject: [PATCH 08/47] fix: a duplicate response no longer blocks the receive
 loop

The second response for a call that had not yet picked up the first blocked
on the session's channel (capacity 1), and with it everything received later
on the connection.
---
 handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 7fd41e3..245b415 100644
--- a/handler.go
+++ b/handler.go
@@ -760,7 +760,12 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 			seq := msg.Seq()
 			session, ok := c.getSession(seq)
 			if ok {
-				session.done <- msg
+				select {
+				case session.done <- msg:
+				default:
+					// a second response for the same call must not block the receive loop
+					h.OnMessageDone(c, msg)
+				}
 			} else {
 				h.OnSessionMiss(c, msg)
 				log.Warn("%v OnMessage: session not exist or expired", h.LogTag())
-- 
2.43.0


From 270b9335eab76c13019e991ceff9186dffcddba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:23 +0000
Subject: [PATCH 09/47] fix: a failed write closes the connection it failed on

When the write failed because the connection had just been replaced by a
reconnect, the new, healthy connection was closed.
---
 client.go | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/client.go b/client.go
index fd65271..30e693c 100644
--- a/client.go
+++ b/client.go
@@ -181,10 +181,11 @@ func (c *Client) Call(method string, req interface{}, rsp interface{}, timeout t
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 				return err
 			}
 		} else {
@@ -243,10 +244,11 @@ func (c *Client) CallContext(ctx context.Context, method string, req interface{}
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			c.Handler.OnMessageDone(c, msg)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 				return err
 			}
 		} else {
@@ -311,9 +313,10 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err = c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err = c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
@@ -357,9 +360,10 @@ func (c *Client) Notify(method string, data interface{}, timeout time.Duration,
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err = c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err = c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
@@ -404,9 +408,10 @@ func (c *Client) NotifyContext(ctx context.Context, method string, data interfac
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
@@ -433,9 +438,10 @@ func (c *Client) PushMsg(msg *Message, timeout time.Duration) error {
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
@@ -932,8 +938,9 @@ func (c *Client) normalSendLoop() {
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
-				if _, err := c.Handler.Send(c.Conn, msg.Buffer); err != nil {
-					c.Conn.Close()
+				conn := c.Conn
+				if _, err := c.Handler.Send(conn, msg.Buffer); err != nil {
+					conn.Close()
 				}
 				c.Handler.OnMessageDone(c, msg)
 			} else {
@@ -997,14 +1004,16 @@ func (c *Client) batchSendLoop() {
 				for j := 0; j < len(coders); j++ {
 					msg = coders[j].Encode(c, msg)
 				}
-				_, err := c.Handler.Send(c.Conn, msg.Buffer)
+				conn := c.Conn
+				_, err := c.Handler.Send(conn, msg.Buffer)
 				if err != nil {
-					c.Conn.Close()
+					conn.Close()
 				}
 				c.Handler.OnMessageDone(c, msg)
 			} else {
-				if _, err := c.Handler.Send(c.Conn, buffer); err != nil {
-					c.Conn.Close()
+				conn := c.Conn
+				if _, err := c.Handler.Send(conn, buffer); err != nil {
+					conn.Close()
 				}
 				buffer = buffer[0:0]
 			}
-- 
2.43.0


From 05ae586623ed91c988c0120a93b44c672f4d2997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:23 +0000
Subject: [PATCH 10/47] fix: free the batch send buffer which is current when
 the send loop ends

The deferred Free was bound to the initial buffer, which Append may already
have returned to the pool: it was freed twice, and the grown one never.
---
 client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 30e693c..4db4aac 100644
--- a/client.go
+++ b/client.go
@@ -966,7 +966,9 @@ func (c *Client) batchSendLoop() {
 	var coders []MessageCoder
 	var buffer = c.Handler.Malloc(2048)[0:0]
 	var sendBufferSize = c.Handler.SendBufferSize()
-	defer c.Handler.Free(buffer)
+	defer func() {
+		c.Handler.Free(buffer)
+	}()
 
 	for {
 		select {
-- 
2.43.0


From 9038db4ff1ac32a445688ff2971a8a806d6d9b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:21 +0000
Subject: [PATCH 11/47] fix: Call reports ErrClientStopped when the client
 stops while the call is being submitted

The session was silently not registered, so the call waited for a response it
could not get until the receive loop had noticed the stop (a pending reconnect
dial) or the timeout.
---
 client.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 4db4aac..b4ee03a 100644
--- a/client.go
+++ b/client.go
@@ -157,11 +157,15 @@ func (c *Client) Call(method string, req interface{}, rsp interface{}, timeout t
 	msg := c.newRequestMessage(CmdRequest, method, req, false, false, args...)
 	seq := msg.Seq()
 	sess := newSession(seq)
-	c.addSession(seq, sess)
+	added := c.addSession(seq, sess)
 	defer func() {
 		timer.Stop()
 		c.deleteSession(seq)
 	}()
+	if !added {
+		c.Handler.OnMessageDone(c, msg)
+		return ErrClientStopped
+	}
 
 	if c.Handler.AsyncWrite() {
 		select {
@@ -223,7 +227,10 @@ func (c *Client) CallContext(ctx context.Context, method string, req interface{}
 	msg := c.newRequestMessage(CmdRequest, method, req, false, false, args...)
 	seq := msg.Seq()
 	sess := newSession(seq)
-	c.addSession(seq, sess)
+	if !c.addSession(seq, sess) {
+		c.Handler.OnMessageDone(c, msg)
+		return ErrClientStopped
+	}
 	defer c.deleteSession(seq)
 
 	if c.Handler.AsyncWrite() {
@@ -664,12 +671,13 @@ func (c *Client) parseResponse(msg *Message, rsp interface{}) error {
 	return nil
 }
 
-func (c *Client) addSession(seq uint64, session *rpcSession) {
+func (c *Client) addSession(seq uint64, session *rpcSession) bool {
 	c.mux.Lock()
+	defer c.mux.Unlock()
 	if c.running {
 		c.sessionMap[seq] = session
 	}
-	c.mux.Unlock()
+	return c.running
 }
 
 func (c *Client) deleteSession(seq uint64) *rpcSession {
-- 
2.43.0


From ab896028fd694ef39b09778a2a03af8c99054252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:21 +0000
Subject: [PATCH 12/47] fix: a failed direct write of a response or stream
 frame closes the connection it failed on

As for requests: not the connection a reconnect has put in its place.
---
 context.go | 5 +++--
 stream.go  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/context.go b/context.go
index 0f46bab..cacc0c1 100644
--- a/context.go
+++ b/context.go
@@ -181,9 +181,10 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 		for j := 0; j < len(coders); j++ {
 			rsp = coders[j].Encode(cli, rsp)
 		}
-		_, err := cli.Handler.Send(cli.Conn, rsp.Buffer)
+		conn := cli.Conn
+		_, err := cli.Handler.Send(conn, rsp.Buffer)
 		if err != nil {
-			cli.Conn.Close()
+			conn.Close()
 		}
 		return err
 	}
diff --git a/stream.go b/stream.go
index f1af279..c3146ce 100644
--- a/stream.go
+++ b/stream.go
@@ -171,9 +171,10 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 			for j := 0; j < len(coders); j++ {
 				msg = coders[j].Encode(c, msg)
 			}
-			_, err := c.Handler.Send(c.Conn, msg.Buffer)
+			conn := c.Conn
+			_, err := c.Handler.Send(conn, msg.Buffer)
 			if err != nil {
-				c.Conn.Close()
+				conn.Close()
 			}
 			c.Handler.OnMessageDone(c, msg)
 			return err
-- 
2.43.0


From 5a46d7c86163e72a9bccc095b800d13e849749cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:13 +0000
Subject: [PATCH 13/47] fix: CallAsync waiting for a full send queue keeps its
 timeout when the connection is lost

---
 client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client.go b/client.go
index b4ee03a..a3598a2 100644
--- a/client.go
+++ b/client.go
@@ -765,9 +765,7 @@ func (c *Client) clearAsyncHandler() {
 	c.mux.Unlock()
 	for _, v := range handlers {
 		ah := v
-		if ah.timer != nil {
-			ah.timer.Stop()
-		}
+		// the timer goes on, it also ends a CallAsync that is still waiting for the send queue
 		c.Handler.AsyncExecute(func() {
 			ah.handler(nil, ErrClientReconnecting)
 			putAsyncHandler(ah)
-- 
2.43.0


From 139c93734090dbdbc45bd6d2b1c0732ce8725357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:40 +0000
Subject: [PATCH 14/47] fix: a client which disconnects while it is being
 accepted is not kept in the server's client set

---
 server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 77627e8..c7908f6 100644
--- a/server.go
+++ b/server.go
@@ -153,7 +153,12 @@ func (s *Server) subLoad() int64 {
 
 func (s *Server) addClient(c *Client) {
 	s.mux.Lock()
-	s.clients[c] = util.Empty{}
+	c.mux.Lock()
+	// the client may have been disconnected and deleted already
+	if c.running {
+		s.clients[c] = util.Empty{}
+	}
+	c.mux.Unlock()
 	s.mux.Unlock()
 }
 
-- 
2.43.0


From 777ebd64bb1070838a35ea6baab3181066f7ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:04 +0000
Subject: [PATCH 15/47] fix: broadcast gives each client its own message when
 coders may modify it

---
 server.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index c7908f6..9f84ebb 100644
--- a/server.go
+++ b/server.go
@@ -69,8 +69,7 @@ func (s *Server) Broadcast(method string, v interface{}, args ...interface{}) {
 	}()
 
 	for c := range s.clients {
-		msg.Retain()
-		c.PushMsg(msg, TimeZero)
+		s.pushTo(c, msg)
 	}
 }
 
@@ -84,12 +83,29 @@ func (s *Server) BroadcastWithFilter(method string, v interface{}, filter func(*
 
 	for c := range s.clients {
 		if filter == nil || filter(c) {
-			msg.Retain()
-			c.PushMsg(msg, TimeZero)
+			s.pushTo(c, msg)
 		}
 	}
 }
 
+// pushTo pushes a message which is shared by several clients to one of them.
+func (s *Server) pushTo(c *Client, msg *Message) {
+	if len(s.Handler.Coders()) == 0 {
+		msg.Retain()
+		c.PushMsg(msg, TimeZero)
+		return
+	}
+
+	// coders may modify the message, each client needs its own
+	buffer := s.Handler.Malloc(len(msg.Buffer))
+	copy(buffer, msg.Buffer)
+	m := s.Handler.NewMessageWithBuffer(buffer)
+	for k, v := range msg.values {
+		m.Set(k, v)
+	}
+	c.PushMsg(m, TimeZero)
+}
+
 func (s *Server) ForEach(h func(*Client)) {
 	s.mux.Lock()
 	defer s.mux.Unlock()
-- 
2.43.0


From 906363a8bee29dfdb68f23c6e87eb8befdbfd254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:06 +0000
Subject: [PATCH 16/47] fix: Abort ends chains of more than 127 elements

---
 context.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/context.go b/context.go
index cacc0c1..a6c62c4 100644
--- a/context.go
+++ b/context.go
@@ -5,7 +5,6 @@
 package arpc
 
 import (
-	"math"
 	"sync"
 	"time"
 )
@@ -122,7 +121,7 @@ func (ctx *Context) Next() {
 
 // Abort stops the one-by-one-calling of middlewares and method/router handler.
 func (ctx *Context) Abort() {
-	ctx.index = int(math.MaxInt8)
+	ctx.index = len(ctx.handlers)
 }
 
 // Deadline implements stdlib's Context.
-- 
2.43.0


From 15e6fe6cc3dab990becc88e7771684801fd5172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:15 +0000
Subject: [PATCH 17/47] fix: RecvContext of a closed stream returns io.EOF
 instead of dereferencing a nil message

---
 stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index c3146ce..510b31b 100644
--- a/stream.go
+++ b/stream.go
@@ -83,7 +83,10 @@ func (s *Stream) Recv(v interface{}) error {
 
 func (s *Stream) RecvContext(ctx context.Context, v interface{}) error {
 	select {
-	case msg := <-s.chData:
+	case msg, ok := <-s.chData:
+		if !ok {
+			return io.EOF
+		}
 		data := msg.Data()
 		err := util.BytesToValue(s.cli.Codec, data, v)
 		s.cli.Handler.OnMessageDone(s.cli, msg)
-- 
2.43.0


From 2f80e0d404c076606af05db2dbc770445964f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:57 +0000
Subject: [PATCH 18/47] fix: streams deliver empty values

---
 stream.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index 510b31b..ecab5b2 100644
--- a/stream.go
+++ b/stream.go
@@ -25,7 +25,7 @@ func (s *Stream) Id() uint64 {
 }
 
 func (s *Stream) onMessage(msg *Message) {
-	if len(msg.Data()) == 0 {
+	if len(msg.Data()) == 0 && msg.IsStreamEOF() {
 		return
 	}
 	if atomic.LoadInt32(&s.stateRecv) == 1 {
@@ -139,6 +139,13 @@ func (s *Stream) checkStateAndSend(ctx context.Context, v interface{}, eof bool,
 	if atomic.LoadInt32(&s.stateSend) == 1 {
 		return ErrStreamClosedSend
 	}
+	if eof && len(util.ValueToBytes(s.cli.Codec, v)) == 0 {
+		// an EOF frame without data carries no value, send the empty value by a frame of its own
+		err := s.send(ctx, v, false, args...)
+		if err != nil {
+			return err
+		}
+	}
 	return s.send(ctx, v, eof, args...)
 }
 
-- 
2.43.0


From 9cde084e25f120c071afe8b3d3551cf4b4bf769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:57 +0000
Subject: [PATCH 19/47] fix: a stream refuses sends once CloseSend has returned

---
 stream.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stream.go b/stream.go
index ecab5b2..5a8753b 100644
--- a/stream.go
+++ b/stream.go
@@ -52,17 +52,23 @@ func (s *Stream) CloseRecvContext(ctx context.Context) {
 }
 
 func (s *Stream) CloseSend() {
-	go s.CloseSendContext(context.Background())
+	if atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
+		go s.sendEOF(context.Background())
+	}
 }
 
 func (s *Stream) CloseSendContext(ctx context.Context) {
 	if atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
-		eof := true
-		s.send(ctx, []byte{}, eof)
-		s.halfClose()
+		s.sendEOF(ctx)
 	}
 }
 
+func (s *Stream) sendEOF(ctx context.Context) {
+	eof := true
+	s.send(ctx, []byte{}, eof)
+	s.halfClose()
+}
+
 func (s *Stream) Recv(v interface{}) error {
 	if atomic.LoadInt32(&s.stateRecv) == 1 && len(s.chData) == 0 {
 		return io.EOF
-- 
2.43.0


From 7bfa53ea8becbf1940dd16789bd6e5c624a8bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 20/47] fix: Stop ends a receive loop which waits for the
 reader of a stream

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index a3598a2..74c695c 100644
--- a/client.go
+++ b/client.go
@@ -534,6 +534,9 @@ func (c *Client) Stop() {
 	c.mux.Unlock()
 
 	conn.Close()
+
+	// the receive loop may be waiting for the reader of a stream
+	c.clearStream()
 }
 
 func (c *Client) closeAndClean() {
-- 
2.43.0


From dbba4162c5d4ccadc6b76555694a0b993d7394f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:43 +0000
Subject: [PATCH 21/47] fix: streams of a lost connection do not send EOF on
 the next connection

---
 client.go | 6 ++----
 stream.go | 7 +++++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 74c695c..5078f55 100644
--- a/client.go
+++ b/client.go
@@ -816,12 +816,10 @@ func (c *Client) clearStream() {
 	c.streamRemoteMap = make(map[uint64]*Stream)
 	c.mux.Unlock()
 	for _, stream := range streamLocalMap {
-		stream.CloseSend()
-		stream.CloseRecv()
+		stream.abandon()
 	}
 	for _, stream := range streamRemoteMap {
-		stream.CloseSend()
-		stream.CloseRecv()
+		stream.abandon()
 	}
 }
 
diff --git a/stream.go b/stream.go
index 5a8753b..161a8fd 100644
--- a/stream.go
+++ b/stream.go
@@ -69,6 +69,13 @@ func (s *Stream) sendEOF(ctx context.Context) {
 	s.halfClose()
 }
 
+// abandon closes both directions of a stream which has lost its connection,
+// without sending EOF: it would go to the next connection and open a stream there.
+func (s *Stream) abandon() {
+	atomic.StoreInt32(&s.stateSend, 1)
+	s.CloseRecv()
+}
+
 func (s *Stream) Recv(v interface{}) error {
 	if atomic.LoadInt32(&s.stateRecv) == 1 && len(s.chData) == 0 {
 		return io.EOF
-- 
2.43.0


From e3cb942dc1112e1591642eda4e0fcd5fd16917b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:03 +0000
Subject: [PATCH 22/47] fix: Stop ends a receive loop which waits for the
 reader of a stream to take its last value

---
 handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 245b415..a1360e7 100644
--- a/handler.go
+++ b/handler.go
@@ -790,7 +790,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 		local := !msg.IsStreamLocal()
 		eof := msg.IsStreamEOF()
 		method := msg.method()
-		stream, ok := c.getStreamAndPushMsg(id, local, eof)
+		stream, ok := c.getStreamAndPushMsg(id, local, false)
 		if !ok {
 			sh, ok := h.streams[method]
 			if ok && !local {
@@ -812,6 +812,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 			stream.onMessage(msg)
 			if eof {
 				stream.CloseRecv()
+				c.deleteStream(id, local)
 			}
 		}
 	default:
-- 
2.43.0


From e810258a1edf9ca8521691b7f5a1547f7a10ae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:26 +0000
Subject: [PATCH 23/47] fix: a stopped client does not start handlers for the
 remaining frames of its streams

---
 handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index a1360e7..6c35fe8 100644
--- a/handler.go
+++ b/handler.go
@@ -793,7 +793,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 		stream, ok := c.getStreamAndPushMsg(id, local, false)
 		if !ok {
 			sh, ok := h.streams[method]
-			if ok && !local {
+			if ok && !local && c.running {
 				stream = c.newStream(msg.method(), id, false)
 				stream.onMessage(msg)
 				if eof {
@@ -805,7 +805,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 					h.AsyncExecute(func() { sh.handler(stream) })
 				}
 			} else {
-				h.onMessageDone(c, msg)
+				h.OnMessageDone(c, msg)
 				log.Warn("%v OnMessage: invalid Stream with method: [%v], no handler", h.LogTag(), method)
 			}
 		} else {
-- 
2.43.0


From eaefd21b43df134eb52273427722be659baa746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 24/47] fix: pubsub: subscribers do not share one message

---
 extension/pubsub/topic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 7050f7a..af9095d 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -93,10 +93,10 @@ func (t *TopicAgent) Delete(c *arpc.Client) {
 
 // Publish .
 func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
-	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
 	t.mux.RLock()
 	for to := range t.clients {
-		err := to.PushMsg(msg, arpc.TimeZero)
+		// a message belongs to the connection it is pushed to, so each subscriber gets its own
+		err := to.PushMsg(s.NewMessage(arpc.CmdNotify, routePublish, topic.raw), arpc.TimeZero)
 		if err != nil {
 			if from != nil {
 				log.Error("[Publish] [topic: '%v'] failed %v, from\t%v\tto\t%v", topic.Name, err, from.Conn.RemoteAddr(), to.Conn.RemoteAddr())
@@ -115,10 +115,10 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 
 // PublishToOne .
 func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
-	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
 	t.mux.RLock()
 	for to := range t.clients {
-		err := to.PushMsg(msg, arpc.TimeZero)
+		// a message belongs to the connection it is pushed to, so each subscriber gets its own
+		err := to.PushMsg(s.NewMessage(arpc.CmdNotify, routePublish, topic.raw), arpc.TimeZero)
 		if err != nil {
 			if from != nil {
 				log.Error("[PublishToOne] [topic: '%v'] failed %v, from\t%v\tto\t%v", topic.Name, err, from.Conn.RemoteAddr(), to.Conn.RemoteAddr())
-- 
2.43.0


From f60ec94d5ffb0527c2d1d1cf84bbcdd6e128fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 25/47] fix: pubsub: authenticating again does not lose track
 of the subscriptions

---
 extension/pubsub/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index 94a2717..05fc140 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -250,6 +250,10 @@ func (s *Server) getOrMakeTopic(topic string) *TopicAgent {
 
 // addClient .
 func (s *Server) addClient(c *arpc.Client) {
+	// authenticating again keeps the subscriptions
+	if _, ok := c.Get(userTopicKey); ok {
+		return
+	}
 	c.Set(userTopicKey, &clientTopics{
 		topicAgents: map[string]*TopicAgent{},
 	})
-- 
2.43.0


From a21aaf1d71125dae814f667801b701a29d42fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 26/47] fix: pubsub: publishing a slice does not overwrite what
 follows it

---
 extension/pubsub/topic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index af9095d..4943d5f 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -37,8 +37,10 @@ func (tp *Topic) toBytes() ([]byte, error) {
 	binary.LittleEndian.PutUint16(tail[nameLen:], nameLen)
 	binary.LittleEndian.PutUint64(tail[nameLen+2:], uint64(tp.Timestamp))
 	dataLen := len(tp.Data)
-	tp.Data = append(tp.Data, tail...)
-	tp.raw = tp.Data
+	// the data may be a part of a bigger slice of the user's: never append in place
+	tp.raw = make([]byte, dataLen+len(tail))
+	copy(tp.raw, tp.Data)
+	copy(tp.raw[dataLen:], tail)
 	tp.Data = tp.raw[:dataLen]
 	return tp.raw, nil
 }
-- 
2.43.0


From 039c0cd2e4e16e5d5ccf8c91ac3607b5715ba53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 27/47] fix: pubsub: call topic handlers without holding the
 client's lock

---
 extension/pubsub/client.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index 400d781..b969c54 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -181,11 +181,10 @@ func (c *Client) onPublish(ctx *arpc.Context) {
 
 	if c.onPublishHandler == nil {
 		c.psmux.Lock()
-		if h, ok := c.topicHandlerMap[topic.Name]; ok {
+		h, ok := c.topicHandlerMap[topic.Name]
+		c.psmux.Unlock()
+		if ok {
 			h(topic)
-			c.psmux.Unlock()
-		} else {
-			c.psmux.Unlock()
 		}
 	} else {
 		c.onPublishHandler(topic)
-- 
2.43.0


From 08a4bc1e4c45ffb1befd9cbdc08a5e3adcb7ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 28/47] fix: pubsub: do not re-subscribe a topic which was
 unsubscribed meanwhile

---
 extension/pubsub/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index b969c54..adbb93e 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -148,6 +148,12 @@ func (c *Client) initTopics() {
 		topicName := name
 		go util.Safe(func() {
 			for i := 0; i < 10; i++ {
+				c.psmux.Lock()
+				_, ok := c.topicHandlerMap[topicName]
+				c.psmux.Unlock()
+				if !ok {
+					break
+				}
 				topic, _ := newTopic(topicName, util.ValueToBytes(c.Codec, nil))
 				bs, _ := topic.toBytes()
 				err := c.Call(routeSubscribe, bs, nil, time.Second*10)
-- 
2.43.0


From 659dcda3530df4f9b67e61e825224a9e1348bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:34 +0000
Subject: [PATCH 29/47] fix: ClientPool.Next looks at every client while others
 choose

---
 client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 5078f55..8bf5edc 100644
--- a/client.go
+++ b/client.go
@@ -1117,12 +1117,14 @@ func (pool *ClientPool) Get(index int) *Client {
 
 // Next returns a Client by round robin.
 func (pool *ClientPool) Next() *Client {
-	var client = pool.clients[atomic.AddUint64(&pool.round, 1)%pool.size]
+	// the round is shared with other choosers: look at every client from here on, not at every round
+	var round = atomic.AddUint64(&pool.round, 1)
+	var client = pool.clients[round%pool.size]
 	if client.running && !client.reconnecting {
 		return client
 	}
 	for i := uint64(1); i < pool.size; i++ {
-		client = pool.clients[atomic.AddUint64(&pool.round, 1)%pool.size]
+		client = pool.clients[(round+i)%pool.size]
 		if client.running && !client.reconnecting {
 			return client
 		}
-- 
2.43.0


From 04422b703289d43df9b799474927eb57dd3ee952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:01 +0000
Subject: [PATCH 30/47] fix: micro: adding a registered node again does not
 leak a client

---
 extension/micro/service.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index cfd0cc8..bfa9d03 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -42,19 +42,20 @@ type serviceNodeList struct {
 	nodes []*ServiceNode
 }
 
-func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) {
+func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) bool {
 	list.mux.Lock()
 	defer list.mux.Unlock()
 	for _, v := range list.nodes {
 		// addr already added
 		if v.addr == addr {
-			return
+			return false
 		}
 	}
 	list.nodes = append(list.nodes, nodes...)
+	return true
 }
 
-func (list *serviceNodeList) update(node *ServiceNode) {
+func (list *serviceNodeList) update(node *ServiceNode, client *arpc.Client) {
 	var found = false
 	list.mux.Lock()
 	defer list.mux.Unlock()
@@ -64,6 +65,7 @@ func (list *serviceNodeList) update(node *ServiceNode) {
 			found = true
 		}
 	}
+	node.client = client
 	if !found {
 		node.client.Stop()
 	}
@@ -108,7 +110,7 @@ type serviceManager struct {
 	serviceList map[string]*serviceNodeList
 }
 
-func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) {
+func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) bool {
 	s.mux.Lock()
 	list, ok := s.serviceList[name]
 	if !ok {
@@ -116,17 +118,17 @@ func (s *serviceManager) setServiceNode(name string, addr string, nodes []*Servi
 		s.serviceList[name] = list
 	}
 	s.mux.Unlock()
-	list.addByAddr(addr, nodes)
+	return list.addByAddr(addr, nodes)
 }
 
-func (s *serviceManager) updateServiceNode(name string, node *ServiceNode) {
+func (s *serviceManager) updateServiceNode(name string, node *ServiceNode, client *arpc.Client) {
 	s.mux.Lock()
 	list, ok := s.serviceList[name]
 	s.mux.Unlock()
 	if ok {
-		list.update(node)
+		list.update(node, client)
 	} else {
-		node.client.Stop()
+		client.Stop()
 	}
 }
 
@@ -149,14 +151,18 @@ func (s *serviceManager) AddServiceNodes(path string, value string) {
 		nodes[i] = &ServiceNode{name: name, addr: addr}
 	}
 
+	// a node which is registered already keeps its client
+	if !s.setServiceNode(name, addr, nodes) {
+		return
+	}
+
 	client, err := arpc.NewClient(func() (net.Conn, error) {
 		return s.dialer(addr)
 	})
-	for i := 0; i < weight; i++ {
-		nodes[i].client = client
-		s.setServiceNode(name, addr, nodes)
-	}
 	if err == nil {
+		for i := 0; i < weight; i++ {
+			s.updateServiceNode(name, nodes[i], client)
+		}
 		log.Info("AddServiceNodes: [%v, %v, %v, %v]", app, name, addr, weight)
 	} else {
 		log.Info("AddServiceNodes failed, retrying later: [%v, %v, %v, %v], %v", app, name, addr, weight, err)
@@ -173,8 +179,7 @@ func (s *serviceManager) AddServiceNodes(path string, value string) {
 				if err == nil {
 					time.Sleep(time.Second / 100)
 					for i := 0; i < weight; i++ {
-						nodes[i].client = client
-						s.updateServiceNode(name, nodes[i])
+						s.updateServiceNode(name, nodes[i], client)
 					}
 
 					return
-- 
2.43.0


From 94593edc12f70ba926d18704cde9fed5a2535049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 31/47] fix: micro: lookups find the usable node while others
 choose

---
 extension/micro/service.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index bfa9d03..3ae5e7d 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -6,6 +6,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/lesismal/arpc"
@@ -94,9 +95,10 @@ func (list *serviceNodeList) next() (*arpc.Client, error) {
 	if l == 0 {
 		return nil, ErrServiceNotFound
 	}
+	// the index is shared with other choosers: look at every node from here on
+	index := atomic.AddUint64(&list.index, 1)
 	for i := 0; i < l; i++ {
-		list.index++
-		node := list.nodes[list.index%uint64(len(list.nodes))]
+		node := list.nodes[(index+uint64(i))%uint64(l)]
 		if node.client != nil && node.client.CheckState() == nil {
 			return node.client, nil
 		}
-- 
2.43.0


From b43c27bc4868730aa90996ee565ff22182493c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:47 +0000
Subject: [PATCH 32/47] fix: graceful: a request is admitted and counted in one
 step

---
 extension/middleware/router/graceful.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/extension/middleware/router/graceful.go b/extension/middleware/router/graceful.go
index 4276dbd..e4c2f38 100644
--- a/extension/middleware/router/graceful.go
+++ b/extension/middleware/router/graceful.go
@@ -13,15 +13,26 @@ var ErrShutdown = errors.New("shutting down")
 
 // Graceful represents a graceful middleware instance.
 type Graceful struct {
+	mux        sync.Mutex
 	shutdown   bool
 	gracefulWg sync.WaitGroup
 }
 
+// enter admits a request, unless shutting down.
+func (g *Graceful) enter() bool {
+	g.mux.Lock()
+	defer g.mux.Unlock()
+	if g.shutdown {
+		return false
+	}
+	g.gracefulWg.Add(1)
+	return true
+}
+
 // Handler returns the graceful middleware handler.
 func (g *Graceful) Handler() arpc.HandlerFunc {
 	return func(ctx *arpc.Context) {
-		if !g.shutdown {
-			g.gracefulWg.Add(1)
+		if g.enter() {
 			defer g.gracefulWg.Done()
 			ctx.Next()
 		} else {
@@ -32,7 +43,9 @@ func (g *Graceful) Handler() arpc.HandlerFunc {
 
 // Shutdown stops handling new requests and waits for all current requests to be processed.
 func (g *Graceful) Shutdown() {
+	g.mux.Lock()
 	g.shutdown = true
+	g.mux.Unlock()
 	g.gracefulWg.Wait()
 	time.Sleep(time.Second / 10)
 }
-- 
2.43.0


From 90072b1701f2dc329f2a150438087c815fe89c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:47 +0000
Subject: [PATCH 33/47] fix: graceful: the handler of a refused request does
 not run

---
 extension/middleware/router/graceful.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/middleware/router/graceful.go b/extension/middleware/router/graceful.go
index e4c2f38..391ab61 100644
--- a/extension/middleware/router/graceful.go
+++ b/extension/middleware/router/graceful.go
@@ -37,6 +37,7 @@ func (g *Graceful) Handler() arpc.HandlerFunc {
 			ctx.Next()
 		} else {
 			ctx.Error(ErrShutdown)
+			ctx.Abort()
 		}
 	}
 }
-- 
2.43.0


From 31ca0673e22acdf2c0f2b02d223dc0a921850d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:37 +0000
Subject: [PATCH 34/47] fix: appender: a value which cannot be appended leaves
 the message as it is

---
 extension/middleware/coder/appender.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index 5f94bc1..11cc6ce 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -1,6 +1,8 @@
 package coder
 
 import (
+	"math"
+
 	"github.com/lesismal/arpc"
 	"github.com/lesismal/arpc/util"
 )
@@ -23,13 +25,16 @@ func (ap *Appender) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 	if !ok {
 		return msg
 	}
-	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
-		return msg
-	}
 	valueData, err := ap.valueToBytes(value)
 	if err != nil {
 		return msg
 	}
+	if len(key)+len(valueData)+2 > math.MaxUint16 {
+		return msg
+	}
+	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
+		return msg
+	}
 	msg.Buffer = append(msg.Buffer, make([]byte, len(key)+len(valueData)+2)...)
 	appendData := msg.Buffer[len(msg.Buffer)-len(key)-len(valueData)-2:]
 	copy(appendData, key)
-- 
2.43.0


From e376831caec8ae91843d9898f45fab24fe172ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:24 +0000
Subject: [PATCH 35/47] fix: a stream opened by the peer keeps its own copy of
 the method name

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 6c35fe8..82c0283 100644
--- a/handler.go
+++ b/handler.go
@@ -794,7 +794,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 		if !ok {
 			sh, ok := h.streams[method]
 			if ok && !local && c.running {
-				stream = c.newStream(msg.method(), id, false)
+				stream = c.newStream(msg.Method(), id, false)
 				stream.onMessage(msg)
 				if eof {
 					stream.CloseRecv()
-- 
2.43.0


From 6ad3c4f5f58aeb24c559f301bb5ec668074d6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:28 +0000
Subject: [PATCH 36/47] fix: jsclient: a call which times out settles

---
 extension/jsclient/arpc.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 46b28c0..3787ff9 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -103,7 +103,8 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
         if (typeof (cb) == 'function') {
             session.resolve = cb;
         }
-        this.sessionMap[this.seqNum] = session;
+        var seq = this.seqNum;
+        this.sessionMap[seq] = session;
 
         if (timeout > 0) {
             session.timer = setTimeout(function () {
-- 
2.43.0


From f24939e3667f369c867e2652ee64026ca3b2c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:28 +0000
Subject: [PATCH 37/47] fix: jsclient: sequence numbers above 255 and packets
 of several messages are decoded

---
 extension/jsclient/arpc.js | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 3787ff9..4314266 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -238,26 +238,27 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 var isAsync = headArr[_HeaderIndexFlag] & _HeaderFlagMaskAsync;
                 var methodLen = headArr[_HeaderIndexMethodLen];
                 var method = new TextDecoder("utf-8").decode(event.data.slice(offset + 16, offset + 16 + methodLen));
-                var bodyArr;
+                var bodyArr = undefined;
                 if (bodyLen > methodLen) {
-                    bodyArr = event.data.slice(offset + 16 + methodLen, offset + 16 + methodLen + bodyLen);
+                    bodyArr = event.data.slice(offset + 16 + methodLen, offset + 16 + bodyLen);
                 }
                 var seq = 0;
-                for (var i = offset + _HeaderIndexSeqBegin; i < offset + _HeaderIndexSeqBegin + 4; i++) {
-                    seq |= headArr[i] << (i - offset - _HeaderIndexSeqBegin);
+                for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
+                    seq |= headArr[i] << ((i - _HeaderIndexSeqBegin) * 8);
                 }
+                offset += 16 + bodyLen;
 
                 switch (cmd) {
                     case _CmdPing:
                         client.pong();
-                        return;
+                        continue;
                     case _CmdPong:
-                        return;
+                        continue;
                 }
 
                 if (methodLen == 0) {
                     console.log("[ArpcClient] onMessage: invalid request message with 0 method length, dropped");
-                    return
+                    continue;
                 }
 
                 switch (cmd) {
@@ -269,7 +270,6 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                             handler.h(new Context(client, headArr, bodyArr, method, data));
                         } else {
                             console.log("[ArpcClient] onMessage: invalid method: [%s], no handler", method);
-                            return
                         }
                         break;
                     case _CmdResponse:
@@ -282,18 +282,16 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                             var data = client.codec.Unmarshal(bodyArr);
                             if (isError) {
                                 session.resolve({ data: null, err: data });
-                                return;
+                                break;
                             }
                             session.resolve({ data: data, err: null });
                         } else {
                             console.log("[ArpcClient] onMessage: session [%d] missing", seq);
-                            return;
                         }
                         break;
                     default:
                         break;
                 }
-                offset += 16 + bodyLen;
             }
         } catch (e) {
             console.log("[ArpcClient] onMessage: panic:", e);
-- 
2.43.0


From cb23fae72dcccfe41dd6150674294c66135f6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:28 +0000
Subject: [PATCH 38/47] fix: jsclient: a disconnect ends each pending call once

---
 extension/jsclient/arpc.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 4314266..348e444 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -327,8 +327,10 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
             }
             client.ws.close();
 
-            for (var k in client.sessionMap) {
-                var session = client.sessionMap[k];
+            var sessions = client.sessionMap;
+            client.sessionMap = {};
+            for (var k in sessions) {
+                var session = sessions[k];
                 if (session) {
                     if (session.timer) {
                         clearTimeout(session.timer);
-- 
2.43.0


From 5e5a92120f401fce9fd256bd55f2ec282177deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:28 +0000
Subject: [PATCH 39/47] fix: jsclient: method names which are not ASCII and
 falsy arguments are encoded

---
 extension/jsclient/arpc.js | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 348e444..05aa8a7 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -155,16 +155,14 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
 
     this.write = function (cmd, method, arg, cb, isHttp) {
         var buffer;
-        if (arg) {
-            var data = this.codec.Marshal(arg);
-            if (data) {
-                buffer = new Uint8Array(16 + method.length + data.length);
-                for (var i = 0; i < data.length; i++) {
-                    buffer[16 + method.length + i] = data[i];
-                }
-            }
-        } else {
-            buffer = new Uint8Array(16 + method.length);
+        var methodBuffer = new TextEncoder("utf-8").encode(method);
+        var data = [];
+        if (arg !== undefined && arg !== null) {
+            data = this.codec.Marshal(arg) || [];
+        }
+        buffer = new Uint8Array(16 + methodBuffer.length + data.length);
+        for (var i = 0; i < data.length; i++) {
+            buffer[16 + methodBuffer.length + i] = data[i];
         }
 
         var bodyLen = buffer.length - 16;
@@ -172,12 +170,11 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
             buffer[i] = (bodyLen >> ((i - _HeaderIndexBodyLenBegin) * 8)) & 0xFF;
         }
         buffer[_HeaderIndexCmd] = cmd & 0xFF;
-        buffer[_HeaderIndexMethodLen] = method.length & 0xFF;
+        buffer[_HeaderIndexMethodLen] = methodBuffer.length & 0xFF;
         for (var i = _HeaderIndexSeqBegin; i < _HeaderIndexSeqBegin + 4; i++) {
             buffer[i] = (this.seqNum >> ((i - _HeaderIndexSeqBegin) * 8)) & 0xFF;
         }
         this.seqNum++;
-        var methodBuffer = new TextEncoder("utf-8").encode(method);
         for (var i = 0; i < methodBuffer.length; i++) {
             buffer[16 + i] = methodBuffer[i];
         }
-- 
2.43.0


From 29ce5a757d7234c72f3208b58c0eafeda0ede699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:28 +0000
Subject: [PATCH 40/47] fix: jsclient: the promise of a call with a callback
 settles

---
 extension/jsclient/arpc.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 05aa8a7..1ac8298 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -101,7 +101,11 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
             session.resolve = resolve;
         });
         if (typeof (cb) == 'function') {
-            session.resolve = cb;
+            var resolvePromise = session.resolve;
+            session.resolve = function (ret) {
+                resolvePromise(ret);
+                cb(ret);
+            };
         }
         var seq = this.seqNum;
         this.sessionMap[seq] = session;
-- 
2.43.0


From 53b4c48ae9983775e7e6a3dda5d3370b3ffd48f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:28 +0000
Subject: [PATCH 41/47] fix: jsclient: calls over http

---
 extension/jsclient/arpc.js | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 1ac8298..932d670 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -77,7 +77,7 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
     }
 
     this.callHttp = function (method, request, timeout, cb) {
-        this.call(method, request, timeout, cb, true);
+        return this.call(method, request, timeout, cb, true);
     }
     this.call = function (method, request, timeout, cb, isHttp) {
         if (this.state == _SOCK_STATE_CLOSED) {
@@ -116,7 +116,17 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 session.resolve({ data: null, err: "timeout" });
             }, timeout);
         }
-        this.write(_CmdRequest, method, request, this._onMessage, isHttp);
+        this.write(_CmdRequest, method, request, function (ret) {
+            if (!ret.err) {
+                client._onMessage(ret);
+            } else if (client.sessionMap[seq] == session) {
+                if (session.timer) {
+                    clearTimeout(session.timer);
+                }
+                delete (client.sessionMap[seq]);
+                session.resolve({ data: null, err: ret.err });
+            }
+        }, isHttp);
         return p;
     }
 
@@ -208,13 +218,15 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                 }
             }
             let r = new XMLHttpRequest();
-            r.open(this.httpMethod, this.httpUrl, true);
+            r.open(client.httpMethod, client.httpUrl, true);
+            // the default would be 'text'.
+            r.responseType = 'arraybuffer';
             r.onreadystatechange = function () {
                 if (r.readyState != 4) {
                     return;
                 }
                 if (r.status != 200) {
-                    resolve({ code: r.status, data: null, err: `request "${this.httpUrl}" failed with status code ${r.status} ` });
+                    resolve({ code: r.status, data: null, err: `request "${client.httpUrl}" failed with status code ${r.status} ` });
                     return;
                 }
                 // r.responseText
-- 
2.43.0


From 3d683e277004541e4045064754dd45da500e27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:28 +0000
Subject: [PATCH 42/47] fix: jsclient: a handler which throws does not lose the
 other messages of the packet

---
 extension/jsclient/arpc.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extension/jsclient/arpc.js b/extension/jsclient/arpc.js
index 932d670..9053e85 100644
--- a/extension/jsclient/arpc.js
+++ b/extension/jsclient/arpc.js
@@ -280,7 +280,11 @@ function ArpcClient(url, codec, httpUrl, httpMethod) {
                         var handler = client.handlers[method]
                         if (handler) {
                             var data = client.codec.Unmarshal(bodyArr);
-                            handler.h(new Context(client, headArr, bodyArr, method, data));
+                            try {
+                                handler.h(new Context(client, headArr, bodyArr, method, data));
+                            } catch (e) {
+                                console.log("[ArpcClient] onMessage: handler panic:", e);
+                            }
                         } else {
                             console.log("[ArpcClient] onMessage: invalid method: [%s], no handler", method);
                         }
-- 
2.43.0


From a9ed73fc73f2618e39310a76fcfd779493eb985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:34 +0000
Subject: [PATCH 43/47] fix: the overstock and dropped hooks of a cloned
 handler end the message on the clone

---
 handler.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/handler.go b/handler.go
index 82c0283..63023e5 100644
--- a/handler.go
+++ b/handler.go
@@ -370,32 +370,30 @@ func (h *handler) SetMaxReconnectTimes(n int) {
 }
 
 func (h *handler) HandleOverstock(onOverstock func(c *Client, m *Message)) {
-	h.onOverstock = func(c *Client, m *Message) {
-		if onOverstock != nil {
-			onOverstock(c, m)
-		}
-		h.OnMessageDone(c, m)
+	if onOverstock == nil {
+		onOverstock = func(*Client, *Message) {}
 	}
+	h.onOverstock = onOverstock
 }
 
 func (h *handler) OnOverstock(c *Client, m *Message) {
 	if h.onOverstock != nil {
 		h.onOverstock(c, m)
+		h.OnMessageDone(c, m)
 	}
 }
 
 func (h *handler) HandleMessageDropped(onMessageDropped func(c *Client, m *Message)) {
-	h.onMessageDropped = func(c *Client, m *Message) {
-		if onMessageDropped != nil {
-			onMessageDropped(c, m)
-		}
-		h.OnMessageDone(c, m)
+	if onMessageDropped == nil {
+		onMessageDropped = func(*Client, *Message) {}
 	}
+	h.onMessageDropped = onMessageDropped
 }
 
 func (h *handler) OnMessageDropped(c *Client, m *Message) {
 	if h.onMessageDropped != nil {
 		h.onMessageDropped(c, m)
+		h.OnMessageDone(c, m)
 	}
 }
 
-- 
2.43.0


From 85a9129ccac9653afb44841981cfd73211ee6d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:34 +0000
Subject: [PATCH 44/47] fix: a cloned handler buffers its connections with its
 own receive buffer size

---
 handler.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/handler.go b/handler.go
index 63023e5..ffa5a4b 100644
--- a/handler.go
+++ b/handler.go
@@ -285,7 +285,9 @@ type handler struct {
 	append     func([]byte, ...byte) []byte
 	free       func([]byte)
 
-	wrapReader func(conn net.Conn) io.Reader
+	// set by SetReaderWrapper; without it the connection is buffered if bufferReader is set
+	wrapReader   func(conn net.Conn) io.Reader
+	bufferReader bool
 
 	routes  map[string]*routerHandler
 	streams map[string]*streamHandler
@@ -472,11 +474,15 @@ func (h *handler) WrapReader(conn net.Conn) io.Reader {
 	if h.wrapReader != nil {
 		return h.wrapReader(conn)
 	}
+	if h.bufferReader {
+		return bufio.NewReaderSize(conn, h.recvBufferSize)
+	}
 	return conn
 }
 
 func (h *handler) SetReaderWrapper(wrapper func(conn net.Conn) io.Reader) {
 	h.wrapReader = wrapper
+	h.bufferReader = false
 }
 
 func (h *handler) RecvBufferSize() int {
@@ -928,9 +934,7 @@ func NewHandler() Handler {
 		streamQueueSize: 4,
 		maxBodyLen:      DefaultMaxBodyLen,
 	}
-	h.wrapReader = func(conn net.Conn) io.Reader {
-		return bufio.NewReaderSize(conn, h.recvBufferSize)
-	}
+	h.bufferReader = true
 	h.HandleConnected(func(cli *Client) {
 		if tcpConn, ok := cli.Conn.(*net.TCPConn); ok {
 			tcpConn.SetNoDelay(false)
-- 
2.43.0


From 8fe6e5d822b20a4001f4d162e3f52708c8577061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:51 +0000
Subject: [PATCH 45/47] fix: arpchttp: a body which is not exactly one frame is
 refused

---
 extension/arpchttp/handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/arpchttp/handler.go b/extension/arpchttp/handler.go
index c51afb6..7c2a687 100644
--- a/extension/arpchttp/handler.go
+++ b/extension/arpchttp/handler.go
@@ -55,8 +55,8 @@ func Handler(nh arpc.Handler, codec codec.Codec) http.HandlerFunc {
 		}
 
 		defer r.Body.Close()
-		body, err := io.ReadAll(r.Body)
-		if err != nil {
+		body, err := io.ReadAll(http.MaxBytesReader(w, r.Body, int64(arpc.HeadLen+nh.MaxBodyLen())))
+		if err != nil || len(body) < arpc.HeadLen || arpc.Header(body).BodyLen() != len(body)-arpc.HeadLen {
 			w.WriteHeader(http.StatusBadRequest)
 			return
 		}
-- 
2.43.0


From f2dfc3e9e2283bc868cda80192c243c0d1805b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:51 +0000
Subject: [PATCH 46/47] fix: arpchttp: the response of an asynchronous handler
 is part of the http response

---
 extension/arpchttp/handler.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/extension/arpchttp/handler.go b/extension/arpchttp/handler.go
index 7c2a687..b61776b 100644
--- a/extension/arpchttp/handler.go
+++ b/extension/arpchttp/handler.go
@@ -61,8 +61,13 @@ func Handler(nh arpc.Handler, codec codec.Codec) http.HandlerFunc {
 			return
 		}
 
-		client := &arpc.Client{Conn: &Conn{w}, Codec: codec, Handler: nh}
-		msg := nh.NewMessageWithBuffer(body)
-		nh.OnMessage(client, msg)
+		// the response has to be written before this function returns
+		h := nh.Clone()
+		h.SetAsyncWrite(false)
+		h.SetAsyncExecutor(func(f func()) { f() })
+
+		client := &arpc.Client{Conn: &Conn{w}, Codec: codec, Handler: h}
+		msg := h.NewMessageWithBuffer(body)
+		h.OnMessage(client, msg)
 	}
 }
-- 
2.43.0


From 96f8d77bbb7d1f5e7e59afefbb8518492a0aa14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:39 +0000
Subject: [PATCH 47/47] fix: websocket: concurrent writers of a connection are
 serialised

---
 extension/protocol/websocket/websocket.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/protocol/websocket/websocket.go b/extension/protocol/websocket/websocket.go
index 31a9ee4..f822079 100644
--- a/extension/protocol/websocket/websocket.go
+++ b/extension/protocol/websocket/websocket.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"net"
 	"net/http"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -76,6 +77,7 @@ type Conn struct {
 	*websocket.Conn
 	chHandler chan func()
 	buffer    []byte
+	muxWrite  sync.Mutex
 }
 
 // HandleWebsocket .
@@ -111,6 +113,9 @@ func (c *Conn) Read(b []byte) (int, error) {
 
 // Write .
 func (c *Conn) Write(b []byte) (int, error) {
+	// websocket.Conn supports one concurrent writer only
+	c.muxWrite.Lock()
+	defer c.muxWrite.Unlock()
 	err := c.WriteMessage(websocket.BinaryMessage, b)
 	if err == nil {
 		return len(b), nil
-- 
2.43.0

