From b42528a70c0488fd14943cf91797f568de949160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 01/26] fix: close every connection when an event loop is
 stopped

Stop queues a task that closes all sockets, and closing a connection only
queues the actual cleanup. The poller usually returned before running those
queued tasks, so connections kept their descriptors and never got OnClose.
Reset the connection count only after the loop has finished.
---
 eventloop/eventloop.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index e5d7ee6..c8f3a94 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -123,8 +123,9 @@ func (l *EventLoop) Stop() error {
 		l.sockets = nil
 	})
 
+	err := l.poll.Close()
 	_ = l.ConnCunt.Swap(0)
-	return l.poll.Close()
+	return err
 }
 
 // QueueInLoop 添加 func 到事件循环中执行
@@ -149,6 +150,11 @@ func (l *EventLoop) handlerEvent(fd int, events poller.Event) {
 	} else {
 		l.needWake.Set(true)
 		l.doPendingFunc()
+		if l.sockets == nil {
+			// stopped: closing the sockets queued their cleanup, and
+			// polling may end before another wake up is handled
+			l.doPendingFunc()
+		}
 	}
 }
 
-- 
2.43.0


From 0eea5b3a4d56ec5848df0238d4ddfc090d8ec65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 02/26] fix: release the listening socket when the server stops

The listener polls a duplicate of the listening descriptor; Close only closed
the original, so the port stayed bound (and kept accepting into the backlog)
after Stop.
---
 listener.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/listener.go b/listener.go
index 20d78a4..a392a73 100644
--- a/listener.go
+++ b/listener.go
@@ -97,6 +97,9 @@ func (l *listener) HandleEvent(fd int, events poller.Event) {
 }
 
 func (l *listener) Close() error {
+	// file holds a duplicate of the descriptor: the socket keeps listening
+	// until both are closed
+	_ = l.file.Close()
 	return l.listener.Close()
 }
 
-- 
2.43.0


From 4619ff92d1539a01071933ecdf5b11652232cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 03/26] fix: keep a websocket header that has not fully arrived
 in the buffer

---
 plugins/websocket/ws/read.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plugins/websocket/ws/read.go b/plugins/websocket/ws/read.go
index 1556026..268fd06 100644
--- a/plugins/websocket/ws/read.go
+++ b/plugins/websocket/ws/read.go
@@ -57,6 +57,14 @@ func VirtualReadHeader(bts []byte, in *ringbuffer.RingBuffer) (h Header, err err
 		return
 	}
 
+	// The rest of the header may not have been received yet. VirtualRead must
+	// not run into the end of the buffer while a payload is still expected.
+	if n := in.VirtualLength(); n < extra || (n == extra && length != 0) {
+		in.VirtualRevert()
+		err = ErrHeaderNotReady
+		return
+	}
+
 	// Increase len of bts to extra bytes need to read.
 	// Overwrite first 2 bytes that was read before.
 	bts = bts[:extra]
-- 
2.43.0


From 11c0e273124b554f5d1a1a577532a2c0589d969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 04/26] fix: find the end of an upgrade request that wraps
 around the buffer

---
 plugins/websocket/ws/ws.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 4f5f23b..46d51c3 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -176,19 +176,17 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 	)
 
 	first, end := in.PeekAll()
+	request := first
+	if len(end) > 0 {
+		// the buffered bytes wrap around the end of the ring
+		request = append(append(make([]byte, 0, len(first)+len(end)), first...), end...)
+	}
 	var data []byte
-	if index := bytes.Index(first, []byte("\r\n\r\n")); index != -1 {
+	if index := bytes.Index(request, []byte("\r\n\r\n")); index != -1 {
 		data = make([]byte, index+4)
 		if _, err = in.Read(data); err != nil {
 			return
 		}
-	} else if len(end) > 0 {
-		if index := bytes.Index(end, []byte("\r\n\r\n")); index != -1 {
-			data = make([]byte, index+4)
-			if _, err = in.Read(data); err != nil {
-				return
-			}
-		}
 	}
 
 	lines := bytes.Split(data, []byte("\r\n"))
-- 
2.43.0


From 2cc63a3f7b3081473b0930397fc97a7bd70647d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 05/26] fix: answer rejected websocket handshakes with an HTTP
 error

---
 plugins/websocket/ws/ws.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 46d51c3..d22a319 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -197,7 +197,8 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 
 	// Parse request line data like HTTP version, uri and method.
 	req, err := httpParseRequestLine(lines[0])
-	if err != nil {
+	if err != nil && len(data) == 0 {
+		// The request has not been completely received yet.
 		return
 	}
 
@@ -211,6 +212,8 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 	// Even if RFC says "1.1 or higher" without mentioning the part of the
 	// version, we apply it only to minor part.
 	switch {
+	case err != nil:
+		// Malformed request line.
 	case req.major != 1 || req.minor < 1:
 		// Abort processing the whole request because we do not even know how
 		// to actually parse it.
@@ -222,9 +225,6 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			err = onRequest(c, req.uri)
 		}
 	}
-	if err != nil {
-		return
-	}
 
 	// Start headers read/parse loop.
 	var (
-- 
2.43.0


From e0798bcde3d4524eb2f71daa34a30d114dfe88ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 06/26] fix: accept Connection token lists and ignore case in
 upgrade headers

---
 plugins/websocket/ws/http.go | 17 +++++++++++++----
 plugins/websocket/ws/ws.go   |  4 ++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/plugins/websocket/ws/http.go b/plugins/websocket/ws/http.go
index 91d3a1e..86b6fcc 100644
--- a/plugins/websocket/ws/http.go
+++ b/plugins/websocket/ws/http.go
@@ -56,10 +56,9 @@ var (
 )
 
 var (
-	specHeaderValueUpgrade         = []byte("websocket")
-	specHeaderValueConnection      = []byte("Upgrade")
-	specHeaderValueConnectionLower = []byte("upgrade")
-	specHeaderValueSecVersion      = []byte("13")
+	specHeaderValueUpgrade    = []byte("websocket")
+	specHeaderValueConnection = []byte("Upgrade")
+	specHeaderValueSecVersion = []byte("13")
 )
 
 var (
@@ -137,6 +136,16 @@ func httpParseHeaderLine(line []byte) (k, v []byte, ok bool) {
 	return k, v, true
 }
 
+// btsHasToken reports whether the comma separated list h contains token,
+// ignoring case.
+func btsHasToken(h, token []byte) (has bool) {
+	httphead.ScanTokens(h, func(v []byte) bool {
+		has = bytes.EqualFold(v, token)
+		return !has
+	})
+	return
+}
+
 func btsSelectProtocol(h []byte, check func([]byte) bool) (ret string, ok bool) {
 	var selected []byte
 	ok = httphead.ScanTokens(h, func(v []byte) bool {
diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index d22a319..9c13511 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -253,12 +253,12 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			}
 		case headerUpgradeCanonical:
 			headerSeen |= headerSeenUpgrade
-			if !bytes.Equal(v, specHeaderValueUpgrade) {
+			if !bytes.EqualFold(v, specHeaderValueUpgrade) {
 				err = ErrHandshakeBadUpgrade
 			}
 		case headerConnectionCanonical:
 			headerSeen |= headerSeenConnection
-			if !bytes.Equal(v, specHeaderValueConnection) && !bytes.Equal(v, specHeaderValueConnectionLower) {
+			if !btsHasToken(v, specHeaderValueConnection) {
 				err = ErrHandshakeBadConnection
 			}
 		case headerSecVersionCanonical:
-- 
2.43.0


From 0bb484ba1b42877dfe87ed2a7193a75116e6809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 07/26] fix: deliver protobuf messages whose type and body are
 both empty

---
 plugins/protobuf/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 83961c6..45d3f6c 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -25,7 +25,7 @@ func New() *Protocol {
 
 // UnPacket ...
 func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
-	if buffer.Length() > 6 {
+	if buffer.Length() >= 6 {
 		length := int(buffer.PeekUint32())
 		if buffer.Length() >= length+4 {
 			buffer.Retrieve(4)
-- 
2.43.0


From 132928dade831d28a56b474ae0c647e94ac6e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 08/26] fix: close connections that send malformed protobuf
 lengths instead of panicking

---
 plugins/protobuf/protocol.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 45d3f6c..f962169 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -2,6 +2,7 @@ package protobuf
 
 import (
 	"github.com/Allenxuxu/gev"
+	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/ringbuffer"
 	"github.com/gobwas/pool/pbytes"
 )
@@ -27,10 +28,18 @@ func New() *Protocol {
 func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
 	if buffer.Length() >= 6 {
 		length := int(buffer.PeekUint32())
+		if length < 2 {
+			p.reject(c, buffer)
+			return
+		}
 		if buffer.Length() >= length+4 {
 			buffer.Retrieve(4)
 
 			typeLen := int(buffer.PeekUint16())
+			if typeLen > length-2 {
+				p.reject(c, buffer)
+				return
+			}
 			buffer.Retrieve(2)
 
 			typeByte := pbytes.GetLen(typeLen)
@@ -49,6 +58,13 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 	return
 }
 
+// reject drops a stream whose message boundaries cannot be trusted any more.
+func (p *Protocol) reject(c *gev.Connection, buffer *ringbuffer.RingBuffer) {
+	log.Error("protobuf: malformed message length, closing connection")
+	buffer.RetrieveAll()
+	_ = c.Close()
+}
+
 // Packet ...
 func (p *Protocol) Packet(c *gev.Connection, data interface{}) []byte {
 	return data.([]byte)
-- 
2.43.0


From 77c4f4af829518bb1335603c41365327251593dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 09/26] fix: measure connection activity in nanoseconds so
 active connections are not closed as idle

---
 connection.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/connection.go b/connection.go
index e986a62..a876963 100644
--- a/connection.go
+++ b/connection.go
@@ -71,7 +71,7 @@ func NewConnection(fd int,
 	conn.connected.Set(true)
 
 	if conn.idleTime > 0 {
-		_ = conn.activeTime.Swap(time.Now().Unix())
+		_ = conn.activeTime.Swap(time.Now().UnixNano())
 		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
 		conn.timer.Store(timer)
 	}
@@ -86,12 +86,13 @@ func (c *Connection) UserBuffer() *[]byte {
 func (c *Connection) closeTimeoutConn() func() {
 	return func() {
 		now := time.Now()
-		intervals := now.Sub(time.Unix(c.activeTime.Get(), 0))
+		intervals := now.Sub(time.Unix(0, c.activeTime.Get()))
 		if intervals >= c.idleTime {
 			_ = c.Close()
 		} else {
 			if c.connected.Get() {
-				timer := c.timingWheel.AfterFunc(c.idleTime-intervals, c.closeTimeoutConn())
+				// the timing wheel truncates to milliseconds
+				timer := c.timingWheel.AfterFunc(c.idleTime-intervals+time.Millisecond, c.closeTimeoutConn())
 				c.timer.Store(timer)
 			}
 		}
@@ -171,7 +172,7 @@ func (c *Connection) WriteBufferLength() int64 {
 // HandleEvent 内部使用，event loop 回调
 func (c *Connection) HandleEvent(fd int, events poller.Event) {
 	if c.idleTime > 0 {
-		_ = c.activeTime.Swap(time.Now().Unix())
+		_ = c.activeTime.Swap(time.Now().UnixNano())
 	}
 
 	if events&poller.EventErr != 0 {
-- 
2.43.0


From 1823a6ab46d6798263ebe2b5e7f3285a21f5df4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 10/26] fix: account data queued by Send in WriteBufferLength

---
 connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/connection.go b/connection.go
index a876963..196aed6 100644
--- a/connection.go
+++ b/connection.go
@@ -325,6 +325,7 @@ func (c *Connection) sendInLoop(data []byte) (closed bool) {
 		}
 	}
 
+	c.outBufferLen.Swap(int64(c.outBuffer.Length()))
 	return
 }
 
-- 
2.43.0


From 31e2d9e1d4d6a139b30af69582867d3542ea79da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 11/26] fix: wait for writability only while output is pending
 instead of spinning on unread input

---
 connection.go          | 4 +++-
 eventloop/eventloop.go | 5 +++++
 poller/kqueue.go       | 5 +++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 196aed6..0fc7757 100644
--- a/connection.go
+++ b/connection.go
@@ -321,7 +321,9 @@ func (c *Connection) sendInLoop(data []byte) (closed bool) {
 		}
 
 		if !c.outBuffer.IsEmpty() {
-			_ = c.loop.EnableReadWrite(c.fd)
+			// input is not read while output is pending: waiting for it as
+			// well would keep waking up the loop in vain
+			_ = c.loop.EnableWrite(c.fd)
 		}
 	}
 
diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index c8f3a94..1e2aa71 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -102,6 +102,11 @@ func (l *EventLoop) EnableReadWrite(fd int) error {
 	return l.poll.EnableReadWrite(fd)
 }
 
+// EnableWrite 只注册可写事件
+func (l *EventLoop) EnableWrite(fd int) error {
+	return l.poll.EnableWrite(fd)
+}
+
 // EnableRead 只注册可读事件
 func (l *EventLoop) EnableRead(fd int) error {
 	return l.poll.EnableRead(fd)
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 1a47e4c..0a5d1e9 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -107,6 +107,11 @@ func (p *Poller) EnableReadWrite(fd int) error {
 	return err
 }
 
+// EnableWrite 修改fd注册事件为可写事件（kqueue 同时保留可读事件）
+func (p *Poller) EnableWrite(fd int) error {
+	return p.EnableReadWrite(fd)
+}
+
 // EnableRead 修改fd注册事件为可读事件
 func (p *Poller) EnableRead(fd int) error {
 	oldEvents, ok := p.sockets.Load(fd)
-- 
2.43.0


From a3964abbb8390738488bec1a84bb9a6af255840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 12/26] fix: shut the write side down after pending output and
 never on a closed connection's descriptor

---
 connection.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 0fc7757..a810ddf 100644
--- a/connection.go
+++ b/connection.go
@@ -34,6 +34,7 @@ type Connection struct {
 	buffer       *ringbuffer.RingBuffer
 	outBuffer    *ringbuffer.RingBuffer // write buffer
 	inBuffer     *ringbuffer.RingBuffer // read buffer
+	writeShut    bool                   // write side is to be shut down once outBuffer is empty
 	callBack     CallBack
 	loop         *eventloop.EventLoop
 	peerAddr     string
@@ -155,8 +156,28 @@ func (c *Connection) Close() error {
 }
 
 // ShutdownWrite 关闭可写端，等待读取完接收缓冲区所有数据
+//
+// 已经提交发送的数据（包括当前 OnMessage 的返回值）发送完之后才会关闭可写端
 func (c *Connection) ShutdownWrite() error {
-	return unix.Shutdown(c.fd, unix.SHUT_WR)
+	if !c.connected.Get() {
+		return ErrConnectionClosed
+	}
+
+	c.loop.QueueInLoop(func() {
+		if c.connected.Get() {
+			c.writeShut = true
+			if c.outBuffer.IsEmpty() {
+				c.shutdownWriteInLoop()
+			}
+		}
+	})
+	return nil
+}
+
+func (c *Connection) shutdownWriteInLoop() {
+	if err := unix.Shutdown(c.fd, unix.SHUT_WR); err != nil {
+		log.Error("[shutdown write]", err)
+	}
 }
 
 // ReadBufferLength read buffer 当前积压的数据长度
@@ -281,6 +302,9 @@ func (c *Connection) handleWrite(fd int) (closed bool) {
 		if err := c.loop.EnableRead(fd); err != nil {
 			log.Error("[enableRead]", err)
 		}
+		if c.writeShut {
+			c.shutdownWriteInLoop()
+		}
 	}
 
 	return
-- 
2.43.0


From e266a4bcdab4663e03fc3c4adf56e6fb4e928754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 13/26] fix: never write to a closed poller's descriptors and
 close them once

---
 poller/epoll.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/poller/epoll.go b/poller/epoll.go
index d233bd8..b2d1a5b 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -4,6 +4,7 @@ package poller
 
 import (
 	"runtime"
+	"sync"
 
 	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/toolkit/sync/atomic"
@@ -18,6 +19,8 @@ type Poller struct {
 	fd       int
 	eventFd  int
 	buf      []byte
+	mu       sync.RWMutex // 保护 fd 与 eventFd：关闭后不可再使用
+	closed   bool
 	running  atomic.Bool
 	waitDone chan struct{}
 }
@@ -58,6 +61,12 @@ var wakeBytes = []byte{1, 0, 0, 0, 0, 0, 0, 0}
 
 // Wake 唤醒 epoll
 func (ep *Poller) Wake() error {
+	ep.mu.RLock()
+	defer ep.mu.RUnlock()
+	if ep.closed {
+		return ErrClosed
+	}
+
 	_, err := unix.Write(ep.eventFd, wakeBytes)
 	return err
 }
@@ -71,21 +80,29 @@ func (ep *Poller) wakeHandlerRead() {
 
 // Close 关闭 epoll
 func (ep *Poller) Close() (err error) {
-	if !ep.running.Get() {
+	if !ep.running.CompareAndSwap(true, false) {
 		return ErrClosed
 	}
 
-	ep.running.Set(false)
 	if err = ep.Wake(); err != nil {
 		return
 	}
 
 	<-ep.waitDone
-	_ = unix.Close(ep.fd)
-	_ = unix.Close(ep.eventFd)
+	ep.release()
 	return
 }
 
+func (ep *Poller) release() {
+	ep.mu.Lock()
+	defer ep.mu.Unlock()
+	if !ep.closed {
+		ep.closed = true
+		_ = unix.Close(ep.fd)
+		_ = unix.Close(ep.eventFd)
+	}
+}
+
 func (ep *Poller) add(fd int, events uint32) error {
 	return unix.EpollCtl(ep.fd, unix.EPOLL_CTL_ADD, fd, &unix.EpollEvent{
 		Events: events,
-- 
2.43.0


From cad29d1213de62ffe53d6f602c13cb69602181de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 14/26] fix: handle work queued right before a poller is closed

---
 poller/epoll.go  | 2 ++
 poller/kqueue.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/poller/epoll.go b/poller/epoll.go
index b2d1a5b..27e3c5a 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -197,6 +197,8 @@ func (ep *Poller) Poll(handler func(fd int, event Event)) {
 			handler(-1, 0)
 			wake = false
 			if !ep.running.Get() {
+				// what was queued before Close may have missed the last call
+				handler(-1, 0)
 				return
 			}
 		}
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 0a5d1e9..0ba7954 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -201,6 +201,8 @@ func (p *Poller) Poll(handler func(fd int, event Event)) {
 			handler(-1, 0)
 			wake = false
 			if !p.running.Get() {
+				// what was queued before Close may have missed the last call
+				handler(-1, 0)
 				return
 			}
 		}
-- 
2.43.0


From 949f359c436c50ed732957b14a64fa4d32679cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 15/26] fix: make Server.Stop safe to call concurrently and
 while the server is starting

---
 server.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/server.go b/server.go
index ce117d2..9fd0ae7 100644
--- a/server.go
+++ b/server.go
@@ -94,6 +94,7 @@ func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 func (s *Server) Start() {
 	sw := sync.WaitGroupWrapper{}
 	s.timingWheel.Start()
+	s.running.Set(true)
 
 	length := len(s.workLoops)
 	for i := 0; i < length; i++ {
@@ -101,27 +102,34 @@ func (s *Server) Start() {
 	}
 
 	sw.AddAndRun(s.listener.Run)
-	s.running.Set(true)
 	sw.Wait()
 }
 
 // Stop 关闭 Server
 func (s *Server) Stop() {
-	if s.running.Get() {
-		s.running.Set(false)
-
-		s.timingWheel.Stop()
-		if err := s.listener.Stop(); err != nil {
+	if s.running.CompareAndSwap(true, false) {
+		if err := stopLoop(s.listener.loop, s.listener.Stop); err != nil {
 			log.Error(err)
 		}
 
-		for k := range s.workLoops {
-			if err := s.workLoops[k].Stop(); err != nil {
+		for _, l := range s.workLoops {
+			if err := stopLoop(l, l.Stop); err != nil {
 				log.Error(err)
 			}
 		}
+
+		// last, because arming a timer blocks once the wheel has stopped
+		s.timingWheel.Stop()
 	}
+}
 
+// stopLoop stops a loop that may still be starting: a loop can only be stopped
+// while it is polling, so wait until it has executed a task.
+func stopLoop(l *eventloop.EventLoop, stop func() error) error {
+	polling := make(chan struct{})
+	l.QueueInLoop(func() { close(polling) })
+	<-polling
+	return stop()
 }
 
 // Options 返回 options
-- 
2.43.0


From 6128f145c13f38766786b8cd2e1d34683ccdb3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 16/26] fix: release the listener and pollers when creating a
 server fails

---
 eventloop/eventloop.go | 5 +++++
 listener.go            | 8 ++++++++
 poller/epoll.go        | 5 +++--
 poller/kqueue.go       | 5 +++++
 server.go              | 4 +++-
 5 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index 1e2aa71..fbced12 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -133,6 +133,11 @@ func (l *EventLoop) Stop() error {
 	return err
 }
 
+// Release 释放从未 Run 过的事件循环所占用的资源
+func (l *EventLoop) Release() {
+	l.poll.Release()
+}
+
 // QueueInLoop 添加 func 到事件循环中执行
 func (l *EventLoop) QueueInLoop(f func()) {
 	l.mu.Lock()
diff --git a/listener.go b/listener.go
index a392a73..d41ad12 100644
--- a/listener.go
+++ b/listener.go
@@ -41,20 +41,26 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 
 	l, ok := ls.(*net.TCPListener)
 	if !ok {
+		_ = ls.Close()
 		return nil, errors.New("could not get file descriptor")
 	}
 
 	file, err := l.File()
 	if err != nil {
+		_ = ls.Close()
 		return nil, err
 	}
 	fd := int(file.Fd())
 	if err = unix.SetNonblock(fd, true); err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
 	loop, err := eventloop.New()
 	if err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
@@ -66,6 +72,8 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 		loop:     loop,
 	}
 	if err = loop.AddSocketAndEnableRead(fd, listener); err != nil {
+		_ = listener.Close()
+		loop.Release()
 		return nil, err
 	}
 
diff --git a/poller/epoll.go b/poller/epoll.go
index 27e3c5a..482aaf0 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -89,11 +89,12 @@ func (ep *Poller) Close() (err error) {
 	}
 
 	<-ep.waitDone
-	ep.release()
+	ep.Release()
 	return
 }
 
-func (ep *Poller) release() {
+// Release 释放描述符，只能用于从未 Poll 过的 Poller
+func (ep *Poller) Release() {
 	ep.mu.Lock()
 	defer ep.mu.Unlock()
 	if !ep.closed {
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 0ba7954..fb302ce 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -67,6 +67,11 @@ func (p *Poller) Close() (err error) {
 	return
 }
 
+// Release 释放描述符，只能用于从未 Poll 过的 Poller
+func (p *Poller) Release() {
+	_ = unix.Close(p.fd)
+}
+
 // AddRead 注册fd到kqueue并注册可读事件
 func (p *Poller) AddRead(fd int) error {
 	p.sockets.Store(fd, EventRead)
diff --git a/server.go b/server.go
index 9fd0ae7..dbfe56f 100644
--- a/server.go
+++ b/server.go
@@ -56,8 +56,10 @@ func NewServer(handler Handler, opts ...Option) (server *Server, err error) {
 		l, err := eventloop.New()
 		if err != nil {
 			for j := 0; j < i; j++ {
-				_ = wloops[j].Stop()
+				wloops[j].Release()
 			}
+			_ = server.listener.Close()
+			server.listener.loop.Release()
 			return nil, err
 		}
 		wloops[i] = l
-- 
2.43.0


From 2a365a620bc254fc1ce49a90ca299f34680de4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 17/26] verif: mark scheduling-sensitive points (empty without
 the build tag verif)

---
 connection.go          |  6 ++++++
 eventloop/eventloop.go |  4 ++++
 listener.go            |  2 ++
 poller/epoll.go        |  3 +++
 server.go              |  3 +++
 vhook/off.go           |  8 ++++++++
 vhook/on.go            | 19 +++++++++++++++++++
 vhook/points.go        | 19 +++++++++++++++++++
 8 files changed, 64 insertions(+)
 create mode 100644 vhook/off.go
 create mode 100644 vhook/on.go
 create mode 100644 vhook/points.go

diff --git a/connection.go b/connection.go
index a810ddf..a6fe828 100644
--- a/connection.go
+++ b/connection.go
@@ -13,6 +13,7 @@ import (
 	"github.com/Allenxuxu/gev/eventloop"
 	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/gev/poller"
+	"github.com/Allenxuxu/gev/vhook"
 	"github.com/Allenxuxu/ringbuffer"
 	"github.com/Allenxuxu/toolkit/sync/atomic"
 	"github.com/RussellLuo/timingwheel"
@@ -86,6 +87,7 @@ func (c *Connection) UserBuffer() *[]byte {
 
 func (c *Connection) closeTimeoutConn() func() {
 	return func() {
+		vhook.Point(vhook.IdleFired)
 		now := time.Now()
 		intervals := now.Sub(time.Unix(0, c.activeTime.Get()))
 		if intervals >= c.idleTime {
@@ -131,6 +133,7 @@ func (c *Connection) Send(data interface{}, opts ...ConnectionOption) error {
 		o(&opt)
 	}
 
+	vhook.Point(vhook.SendChecked)
 	c.loop.QueueInLoop(func() {
 		if c.connected.Get() {
 			c.sendInLoop(c.protocol.Packet(c, data))
@@ -149,6 +152,7 @@ func (c *Connection) Close() error {
 		return ErrConnectionClosed
 	}
 
+	vhook.Point(vhook.CloseChecked)
 	c.loop.QueueInLoop(func() {
 		c.handleClose(c.fd)
 	})
@@ -163,6 +167,7 @@ func (c *Connection) ShutdownWrite() error {
 		return ErrConnectionClosed
 	}
 
+	vhook.Point(vhook.ShutChecked)
 	c.loop.QueueInLoop(func() {
 		if c.connected.Get() {
 			c.writeShut = true
@@ -315,6 +320,7 @@ func (c *Connection) handleClose(fd int) {
 		c.connected.Set(false)
 		c.loop.DeleteFdInLoop(fd)
 		c.callBack.OnClose(c)
+		vhook.Point(vhook.ClosingFd)
 		if err := unix.Close(fd); err != nil {
 			log.Error("[close fd]", err)
 		}
diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index fbced12..391f8fe 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/gev/poller"
+	"github.com/Allenxuxu/gev/vhook"
 	"github.com/Allenxuxu/toolkit/sync/atomic"
 	"github.com/Allenxuxu/toolkit/sync/spinlock"
 )
@@ -144,6 +145,7 @@ func (l *EventLoop) QueueInLoop(f func()) {
 	l.taskQueueW = append(l.taskQueueW, f)
 	l.mu.Unlock()
 
+	vhook.Point(vhook.QueueAppended)
 	if l.needWake.CompareAndSwap(true, false) {
 		if err := l.poll.Wake(); err != nil {
 			log.Error("QueueInLoop Wake loop, ", err)
@@ -159,6 +161,7 @@ func (l *EventLoop) handlerEvent(fd int, events poller.Event) {
 		}
 	} else {
 		l.needWake.Set(true)
+		vhook.Point(vhook.LoopWoken)
 		l.doPendingFunc()
 		if l.sockets == nil {
 			// stopped: closing the sockets queued their cleanup, and
@@ -173,6 +176,7 @@ func (l *EventLoop) doPendingFunc() {
 	l.taskQueueW, l.taskQueueR = l.taskQueueR, l.taskQueueW
 	l.mu.Unlock()
 
+	vhook.Point(vhook.LoopTaken)
 	length := len(l.taskQueueR)
 	for i := 0; i < length; i++ {
 		l.taskQueueR[i]()
diff --git a/listener.go b/listener.go
index d41ad12..7dbd334 100644
--- a/listener.go
+++ b/listener.go
@@ -10,6 +10,7 @@ import (
 	"github.com/Allenxuxu/gev/eventloop"
 	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/gev/poller"
+	"github.com/Allenxuxu/gev/vhook"
 	"github.com/libp2p/go-reuseport"
 	"golang.org/x/sys/unix"
 )
@@ -100,6 +101,7 @@ func (l *listener) HandleEvent(fd int, events poller.Event) {
 			return
 		}
 
+		vhook.Point(vhook.Accepted)
 		l.handleC(nfd, sa)
 	}
 }
diff --git a/poller/epoll.go b/poller/epoll.go
index 482aaf0..e691cf8 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 
 	"github.com/Allenxuxu/gev/log"
+	"github.com/Allenxuxu/gev/vhook"
 	"github.com/Allenxuxu/toolkit/sync/atomic"
 	"golang.org/x/sys/unix"
 )
@@ -84,6 +85,7 @@ func (ep *Poller) Close() (err error) {
 		return ErrClosed
 	}
 
+	vhook.Point(vhook.PollClosing)
 	if err = ep.Wake(); err != nil {
 		return
 	}
@@ -195,6 +197,7 @@ func (ep *Poller) Poll(handler func(fd int, event Event)) {
 		}
 
 		if wake {
+			vhook.Point(vhook.PollWoken)
 			handler(-1, 0)
 			wake = false
 			if !ep.running.Get() {
diff --git a/server.go b/server.go
index dbfe56f..d7c51ed 100644
--- a/server.go
+++ b/server.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/Allenxuxu/gev/eventloop"
 	"github.com/Allenxuxu/gev/log"
+	"github.com/Allenxuxu/gev/vhook"
 	"github.com/Allenxuxu/toolkit/sync"
 	"github.com/Allenxuxu/toolkit/sync/atomic"
 	"github.com/RussellLuo/timingwheel"
@@ -110,10 +111,12 @@ func (s *Server) Start() {
 // Stop 关闭 Server
 func (s *Server) Stop() {
 	if s.running.CompareAndSwap(true, false) {
+		vhook.Point(vhook.StopBegun)
 		if err := stopLoop(s.listener.loop, s.listener.Stop); err != nil {
 			log.Error(err)
 		}
 
+		vhook.Point(vhook.StopListener)
 		for _, l := range s.workLoops {
 			if err := stopLoop(l, l.Stop); err != nil {
 				log.Error(err)
diff --git a/vhook/off.go b/vhook/off.go
new file mode 100644
index 0000000..5491673
--- /dev/null
+++ b/vhook/off.go
@@ -0,0 +1,8 @@
+// +build !verif
+
+// Package vhook marks scheduling-sensitive points for runtime verification.
+// Without the build tag verif every mark is empty.
+package vhook
+
+// Point does nothing.
+func Point(id int) {}
diff --git a/vhook/on.go b/vhook/on.go
new file mode 100644
index 0000000..c1ee133
--- /dev/null
+++ b/vhook/on.go
@@ -0,0 +1,19 @@
+// +build verif
+
+// Package vhook marks scheduling-sensitive points for runtime verification.
+// Without the build tag verif every mark is empty.
+package vhook
+
+import "sync/atomic"
+
+var hook atomic.Value // func(id int)
+
+// Set installs the function called at every marked point.
+func Set(f func(id int)) { hook.Store(f) }
+
+// Point calls the installed function, if any.
+func Point(id int) {
+	if f, ok := hook.Load().(func(id int)); ok {
+		f(id)
+	}
+}
diff --git a/vhook/points.go b/vhook/points.go
new file mode 100644
index 0000000..3368ef5
--- /dev/null
+++ b/vhook/points.go
@@ -0,0 +1,19 @@
+package vhook
+
+// Marked points.
+const (
+	QueueAppended = iota // QueueInLoop: task appended, loop not yet woken
+	LoopWoken            // event loop: wake flag re-armed, tasks not yet taken
+	LoopTaken            // event loop: tasks taken, none executed yet
+	SendChecked          // Connection.Send: connection seen open, task not yet queued
+	CloseChecked         // Connection.Close: connection seen open, task not yet queued
+	ShutChecked          // Connection.ShutdownWrite: connection seen open, task not yet queued
+	ClosingFd            // connection: OnClose done, descriptor still open
+	Accepted             // listener: connection accepted, not yet handed to a loop
+	StopBegun            // Server.Stop: decided to stop, nothing stopped yet
+	StopListener         // Server.Stop: listener stopped, loops still running
+	PollClosing          // Poller.Close: marked as not running, not yet woken
+	PollWoken            // poller: wake-up consumed, handler not yet called
+	IdleFired            // idle timer fired, nothing decided yet
+	NumPoints
+)
-- 
2.43.0


From 335499a65488168797b76c9adf55f1a1d3d33184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 18/26] fix: keep periodic tasks on schedule when the interval
 is not a whole number of milliseconds

---
 everyscheduler.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/everyscheduler.go b/everyscheduler.go
index fc2cafc..8728114 100644
--- a/everyscheduler.go
+++ b/everyscheduler.go
@@ -4,8 +4,16 @@ import "time"
 
 type everyScheduler struct {
 	Interval time.Duration
+
+	next time.Time
 }
 
+// Next is called with the previous time truncated to the milliseconds the
+// timing wheel counts in, so the exact time is kept here.
 func (s *everyScheduler) Next(prev time.Time) time.Time {
-	return prev.Add(s.Interval)
+	if s.next.IsZero() {
+		s.next = prev
+	}
+	s.next = s.next.Add(s.Interval)
+	return s.next
 }
-- 
2.43.0


From 665cc60b435081d5b139846cbd38a28b420a9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 19/26] fix: accept websocket anywhere in the Upgrade header's
 list of protocols

---
 plugins/websocket/ws/ws.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 9c13511..304c698 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -253,7 +253,7 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			}
 		case headerUpgradeCanonical:
 			headerSeen |= headerSeenUpgrade
-			if !bytes.EqualFold(v, specHeaderValueUpgrade) {
+			if !btsHasToken(v, specHeaderValueUpgrade) {
 				err = ErrHandshakeBadUpgrade
 			}
 		case headerConnectionCanonical:
-- 
2.43.0


From 3af1cd99dcc8cd07f6452c26b18c981dffa24684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 20/26] fix: print a log prefix that contains a percent sign as
 it is

---
 log/log.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 8f22508..1c6ede6 100644
--- a/log/log.go
+++ b/log/log.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	stdlog "log"
 	"os"
+	"strings"
 )
 
 // Logger is a generic logging interface
@@ -73,7 +74,8 @@ func Log(v ...interface{}) {
 // Logf makes use of Logger
 func Logf(format string, v ...interface{}) {
 	if len(prefix) > 0 {
-		format = prefix + " " + format
+		// the prefix is text, not part of the format
+		format = strings.ReplaceAll(prefix, "%", "%%") + " " + format
 	}
 	logger.Logf(format, v...)
 }
-- 
2.43.0


From c36a7a68cdecb6625cc10d74be9ddd4fae8a7d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 21/26] fix: do not let the idle timer close a connection
 before it is announced

---
 server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index d7c51ed..e85f089 100644
--- a/server.go
+++ b/server.go
@@ -83,9 +83,10 @@ func (s *Server) RunEvery(d time.Duration, f func()) *timingwheel.Timer {
 func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 	loop := s.opts.Strategy(s.workLoops)
 
-	c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
-
 	loop.QueueInLoop(func() {
+		// created here and not earlier, because its idle timer must not
+		// fire before the connection has been announced
+		c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
-- 
2.43.0


From 36daee33be2f162a5b3e4a12f6566b657f4ce519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 22/26] verif: mark the creation of a connection

---
 connection.go   | 1 +
 vhook/points.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/connection.go b/connection.go
index a6fe828..46bea5e 100644
--- a/connection.go
+++ b/connection.go
@@ -78,6 +78,7 @@ func NewConnection(fd int,
 		conn.timer.Store(timer)
 	}
 
+	vhook.Point(vhook.ConnCreated)
 	return conn
 }
 
diff --git a/vhook/points.go b/vhook/points.go
index 3368ef5..90a8670 100644
--- a/vhook/points.go
+++ b/vhook/points.go
@@ -15,5 +15,6 @@ const (
 	PollClosing          // Poller.Close: marked as not running, not yet woken
 	PollWoken            // poller: wake-up consumed, handler not yet called
 	IdleFired            // idle timer fired, nothing decided yet
+	ConnCreated          // connection created, not yet used
 	NumPoints
 )
-- 
2.43.0


From 204f5eefb16edf019b6f4d40ba4c38f7f7d88bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 23/26] fix: arm the idle timer after queueing the connection
 instead of creating it in the loop

Arming the first timers from several loops at once makes each of them
allocate an overflow wheel.
---
 connection.go | 24 ++++++++++++++++++++++--
 server.go     |  8 +++++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/connection.go b/connection.go
index 46bea5e..1d6e7d7 100644
--- a/connection.go
+++ b/connection.go
@@ -52,6 +52,18 @@ var ErrConnectionClosed = errors.New("connection closed")
 
 // NewConnection 创建 Connection
 func NewConnection(fd int,
+	loop *eventloop.EventLoop,
+	sa unix.Sockaddr,
+	protocol Protocol,
+	tw *timingwheel.TimingWheel,
+	idleTime time.Duration,
+	callBack CallBack) *Connection {
+	conn := newConnection(fd, loop, sa, protocol, tw, idleTime, callBack)
+	conn.startIdleTimer()
+	return conn
+}
+
+func newConnection(fd int,
 	loop *eventloop.EventLoop,
 	sa unix.Sockaddr,
 	protocol Protocol,
@@ -74,14 +86,22 @@ func NewConnection(fd int,
 
 	if conn.idleTime > 0 {
 		_ = conn.activeTime.Swap(time.Now().UnixNano())
-		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
-		conn.timer.Store(timer)
 	}
 
 	vhook.Point(vhook.ConnCreated)
 	return conn
 }
 
+func (c *Connection) startIdleTimer() {
+	if c.idleTime > 0 {
+		timer := c.timingWheel.AfterFunc(c.idleTime, c.closeTimeoutConn())
+		c.timer.Store(timer)
+		if !c.connected.Get() {
+			timer.Stop()
+		}
+	}
+}
+
 func (c *Connection) UserBuffer() *[]byte {
 	return c.loop.UserBuffer
 }
diff --git a/server.go b/server.go
index e85f089..c6e5653 100644
--- a/server.go
+++ b/server.go
@@ -82,16 +82,18 @@ func (s *Server) RunEvery(d time.Duration, f func()) *timingwheel.Timer {
 
 func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 	loop := s.opts.Strategy(s.workLoops)
+	c := newConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
 
 	loop.QueueInLoop(func() {
-		// created here and not earlier, because its idle timer must not
-		// fire before the connection has been announced
-		c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
 		}
 	})
+
+	// armed only now, so that a close it queues runs after the connection
+	// has been announced
+	c.startIdleTimer()
 }
 
 // Start 启动 Server
-- 
2.43.0


From 210f138b2a436335107322349214b52c52274de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 24/26] verif: mark the hand-over of a new connection to its
 loop

---
 connection.go | 1 -
 server.go     | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 1d6e7d7..a672fb6 100644
--- a/connection.go
+++ b/connection.go
@@ -88,7 +88,6 @@ func newConnection(fd int,
 		_ = conn.activeTime.Swap(time.Now().UnixNano())
 	}
 
-	vhook.Point(vhook.ConnCreated)
 	return conn
 }
 
diff --git a/server.go b/server.go
index c6e5653..bb64da3 100644
--- a/server.go
+++ b/server.go
@@ -84,6 +84,7 @@ func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 	loop := s.opts.Strategy(s.workLoops)
 	c := newConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
 
+	vhook.Point(vhook.ConnCreated)
 	loop.QueueInLoop(func() {
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
-- 
2.43.0


From d6924e4ed055519347f698db08a1b63185780e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:48 +0000
Subject: [PATCH 25/26] fix: release executed tasks instead of keeping them in
 the reused queue

---
 eventloop/eventloop.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index 391f8fe..af9e856 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -180,6 +180,7 @@ func (l *EventLoop) doPendingFunc() {
 	length := len(l.taskQueueR)
 	for i := 0; i < length; i++ {
 		l.taskQueueR[i]()
+		l.taskQueueR[i] = nil // the queue is reused and must not keep the task
 	}
 
 	l.taskQueueR = l.taskQueueR[:0]
-- 
2.43.0


From 554b5a4ceccc4c9c079f36efadfa11ce0bbf68ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:48 +0000
Subject: [PATCH 26/26] fix: reject HTTP versions that contain something other
 than digits

---
 plugins/websocket/ws/util.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/plugins/websocket/ws/util.go b/plugins/websocket/ws/util.go
index 5892314..722d46b 100644
--- a/plugins/websocket/ws/util.go
+++ b/plugins/websocket/ws/util.go
@@ -7,15 +7,14 @@ import (
 
 // asciiToInt converts bytes to int.
 func asciiToInt(bts []byte) (ret int, err error) {
-	// ASCII numbers all start with the high-order bits 0011.
-	// If you see that, and the next bits are 0-9 (0000 - 1001) you can grab those
-	// bits and interpret them directly as an integer.
+	// ASCII numbers all start with the high-order bits 0011, and the next bits
+	// are 0-9 (0000 - 1001), which can be grabbed directly as an integer.
 	var n int
 	if n = len(bts); n < 1 {
 		return 0, fmt.Errorf("converting empty bytes to int")
 	}
 	for i := 0; i < n; i++ {
-		if bts[i]&0xf0 != 0x30 {
+		if bts[i] < '0' || bts[i] > '9' {
 			return 0, fmt.Errorf("%s is not a numeric character", string(bts[i]))
 		}
 		ret += int(bts[i]&0xf) * pow(10, n-i-1)
-- 
2.43.0

