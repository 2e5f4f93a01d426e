From 7fcb2e37f9878f9ce9fcf1576a7da9ef472fe24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:01 +0000
Subject: [PATCH 01/40] fix: a message not addressed to a connection no longer
 drops the rest of the broadcast for it

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 19363e3..d7c9edd 100644
--- a/server.go
+++ b/server.go
@@ -437,12 +437,12 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	for _, msg := range msgs {
 		if msg.from == c.ID() {
 			// if the message is not supposed to return back to any connection with this ID.
-			return true
+			continue
 		}
 
 		// if "To" field is given then send to a specific connection.
 		if msg.To != "" && msg.To != c.ID() {
-			return true
+			continue
 		}
 
 		// c.Write may fail if the message is not supposed to end to this client
-- 
2.43.0


From 9f192a7e8c8c7513085e781f6fe1914553d2101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:32 +0000
Subject: [PATCH 02/40] fix: a connection with an empty id is not treated as
 the excluded sender of every broadcast

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index d7c9edd..7dc128e 100644
--- a/server.go
+++ b/server.go
@@ -435,7 +435,7 @@ func (s *Server) Do(fn func(*Conn), async bool) {
 
 func publishMessages(c *Conn, msgs []Message) bool {
 	for _, msg := range msgs {
-		if msg.from == c.ID() {
+		if msg.from != "" && msg.from == c.ID() {
 			// if the message is not supposed to return back to any connection with this ID.
 			continue
 		}
-- 
2.43.0


From c5102f7a8b40e6d68aeb253de96bf76e9c8779bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:33 +0000
Subject: [PATCH 03/40] fix: Conn.Ask always removes its pending entry and
 returns when the connection closes

---
 conn.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 0f2d86f..b6e67f4 100644
--- a/conn.go
+++ b/conn.go
@@ -978,6 +978,12 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 		c.waitingMessagesMutex.Lock()
 		c.waitingMessages[msg.wait] = ch
 		c.waitingMessagesMutex.Unlock()
+
+		defer func() {
+			c.waitingMessagesMutex.Lock()
+			delete(c.waitingMessages, msg.wait)
+			c.waitingMessagesMutex.Unlock()
+		}()
 	}
 
 	if !c.Write(msg) {
@@ -991,13 +997,14 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 		}
 		return Message{}, ctx.Err()
 	case receive := <-ch:
-		if !mustWaitOnlyTheNextMessage {
-			c.waitingMessagesMutex.Lock()
-			delete(c.waitingMessages, msg.wait)
-			c.waitingMessagesMutex.Unlock()
-		}
-
 		return receive, receive.Err
+	case <-c.closeCh:
+		select {
+		case receive := <-ch: // it was answered right before the close.
+			return receive, receive.Err
+		default:
+			return Message{}, ErrWrite
+		}
 	}
 }
 
-- 
2.43.0


From a266f9c79a4fdf31dff7b7054ec35e66c6fe27e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:33 +0000
Subject: [PATCH 04/40] fix: a late or duplicate reply to an Ask no longer
 blocks the connection's reader

---
 conn.go   | 14 +++++++++++---
 server.go | 12 +++++++-----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index b6e67f4..040aa7a 100644
--- a/conn.go
+++ b/conn.go
@@ -413,6 +413,15 @@ func (c *Conn) handleQueue() {
 // In the future it may be exposed by an error listener.
 var ErrInvalidPayload = errors.New("invalid payload")
 
+// deliverReply gives the "msg" to the pending `Ask` behind "ch",
+// it never blocks the reader: any reply but the first one is dropped.
+func deliverReply(ch chan<- Message, msg Message) {
+	select {
+	case ch <- msg:
+	default:
+	}
+}
+
 func (c *Conn) handleMessage(msg Message) error {
 	if msg.isInvalid {
 		return ErrInvalidPayload
@@ -434,7 +443,7 @@ func (c *Conn) handleMessage(msg Message) error {
 			ch, ok := c.server.waitingMessages[msg.wait]
 			c.server.waitingMessagesMutex.RUnlock()
 			if ok {
-				ch <- msg
+				deliverReply(ch, msg)
 				return nil
 			}
 		}
@@ -443,10 +452,9 @@ func (c *Conn) handleMessage(msg Message) error {
 		ch, ok := c.waitingMessages[msg.wait]
 		c.waitingMessagesMutex.RUnlock()
 		if ok {
-			ch <- msg
+			deliverReply(ch, msg)
 			return nil
 		}
-
 	}
 
 	switch msg.Event {
diff --git a/server.go b/server.go
index 7dc128e..126f138 100644
--- a/server.go
+++ b/server.go
@@ -557,21 +557,23 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 		return s.StackExchange.Ask(ctx, msg, msg.wait)
 	}
 
-	ch := make(chan Message)
+	ch := make(chan Message, 1)
 	s.waitingMessagesMutex.Lock()
 	s.waitingMessages[msg.wait] = ch
 	s.waitingMessagesMutex.Unlock()
 
+	defer func() {
+		s.waitingMessagesMutex.Lock()
+		delete(s.waitingMessages, msg.wait)
+		s.waitingMessagesMutex.Unlock()
+	}()
+
 	s.Broadcast(nil, msg)
 
 	select {
 	case <-ctx.Done():
 		return Message{}, ctx.Err()
 	case receive := <-ch:
-		s.waitingMessagesMutex.Lock()
-		delete(s.waitingMessages, msg.wait)
-		s.waitingMessagesMutex.Unlock()
-
 		return receive, receive.Err
 	}
 }
-- 
2.43.0


From 361864361108c0931bcb8fffa347a9edd88af11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:33 +0000
Subject: [PATCH 05/40] fix: a reply whose Ask is gone is dropped instead of
 being fired as an event

---
 conn.go    | 5 +++++
 message.go | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/conn.go b/conn.go
index 040aa7a..5b1acae 100644
--- a/conn.go
+++ b/conn.go
@@ -455,6 +455,11 @@ func (c *Conn) handleMessage(msg Message) error {
 			deliverReply(ch, msg)
 			return nil
 		}
+
+		if msg.isReply(isClient) {
+			// its `Ask` is gone (timed out or already answered), it's not an event.
+			return nil
+		}
 	}
 
 	switch msg.Event {
diff --git a/message.go b/message.go
index 7967b85..e4292ea 100644
--- a/message.go
+++ b/message.go
@@ -209,6 +209,12 @@ func (m *Message) IsWait(isClientConn bool) bool {
 	return true
 }
 
+// isReply reports whether this message is the answer to a request of this side,
+// the tokens of the client-side requests, and only them, have the client prefix.
+func (m *Message) isReply(isClientConn bool) bool {
+	return m.wait != "" && (m.wait[0] == waitComesFromClientPrefix) == isClientConn
+}
+
 // ClearWait clears the wait token, rarely used.
 func (m *Message) ClearWait() bool {
 	if m.FromExplicit == "" && m.wait != "" {
-- 
2.43.0


From c602f5a1abc3b199d09b36a9e5d34f4ce79d58e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:34 +0000
Subject: [PATCH 06/40] fix: concurrent requests never share a wait token

---
 message.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/message.go b/message.go
index e4292ea..c0b67bc 100644
--- a/message.go
+++ b/message.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -225,9 +226,12 @@ func (m *Message) ClearWait() bool {
 	return false
 }
 
+// the last generated wait token of this process, it starts from the current time
+// so tokens are not repeated after a restart.
+var lastWait = uint64(time.Now().UnixNano())
+
 func genWait(isClientConn bool) string {
-	now := time.Now().UnixNano()
-	wait := strconv.FormatInt(now, 10)
+	wait := strconv.FormatUint(atomic.AddUint64(&lastWait, 1), 10)
 
 	if isClientConn {
 		wait = string(waitComesFromClientPrefix) + wait
-- 
2.43.0


From 5fcf6591838f2ba2e83205a00d21c2ae67dea6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:34 +0000
Subject: [PATCH 07/40] fix: Server.Ask through a StackExchange marks its token
 and gets its reply

---
 message.go | 5 ++++-
 server.go  | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/message.go b/message.go
index c0b67bc..7fc76e1 100644
--- a/message.go
+++ b/message.go
@@ -252,7 +252,7 @@ func genWaitStackExchange(wait string) string {
 	// This is the second special character.
 	// If found, it is removed on the deserialization
 	// and Message.FromStackExchange is set to true.
-	return string(wait[0]+waitComesFromStackExchange) + wait[1:]
+	return wait[:1] + string(waitComesFromStackExchange) + wait[1:]
 }
 
 var (
@@ -295,6 +295,9 @@ func serializeMessage(msg Message) (out []byte) {
 			}
 
 			msg.wait = msg.FromExplicit
+		} else if msg.FromStackExchange {
+			// the mark was removed on deserialization, the other side needs it too.
+			msg.wait = genWaitStackExchange(msg.wait)
 		}
 		out = serializeOutput(msg.wait, escape(msg.Namespace), escape(msg.Room), escape(msg.Event), msg.Body, msg.Err, msg.isNoOp)
 	}
diff --git a/server.go b/server.go
index 126f138..fe777b6 100644
--- a/server.go
+++ b/server.go
@@ -553,8 +553,10 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 	msg.wait = genWait(false)
 
 	if s.usesStackExchange() {
-		msg.wait = genWaitStackExchange(msg.wait)
-		return s.StackExchange.Ask(ctx, msg, msg.wait)
+		// the reply is notified by its token without the stackexchange mark, see `Conn#handleMessage`.
+		token := msg.wait
+		msg.wait = genWaitStackExchange(token)
+		return s.StackExchange.Ask(ctx, msg, token)
 	}
 
 	ch := make(chan Message, 1)
-- 
2.43.0


From 9c4bb891f37ac28eff489565eeda6d263c64028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:35 +0000
Subject: [PATCH 08/40] fix: a connection id with a semicolon does not corrupt
 the exchanged messages

---
 message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/message.go b/message.go
index 7fc76e1..bfd5ef9 100644
--- a/message.go
+++ b/message.go
@@ -294,7 +294,7 @@ func serializeMessage(msg Message) (out []byte) {
 				panic("msg.wait and msg.FromExplicit cannot work together")
 			}
 
-			msg.wait = msg.FromExplicit
+			msg.wait = escape(msg.FromExplicit)
 		} else if msg.FromStackExchange {
 			// the mark was removed on deserialization, the other side needs it too.
 			msg.wait = genWaitStackExchange(msg.wait)
@@ -355,7 +355,7 @@ func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shoul
 
 	fromExplicit := ""
 	if isServerConnID(wait) {
-		fromExplicit = wait
+		fromExplicit = unescape(wait)
 		wait = ""
 	}
 
-- 
2.43.0


From 02d75bd5cff6c8c49aa535e4f0300dc2c78a47af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:50 +0000
Subject: [PATCH 09/40] fix: a client cannot acknowledge a server-side
 connection by itself or change its id

---
 conn.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 5b1acae..06b1d41 100644
--- a/conn.go
+++ b/conn.go
@@ -346,8 +346,10 @@ func (c *Conn) startReader() {
 }
 
 func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
-	switch typ := b[0]; typ {
-	case ackBinary:
+	// each side accepts only the acks that the other side is supposed to send,
+	// i.e a client cannot set the ID or mark as ready a server-side connection.
+	switch typ, isClient := b[0], c.IsClient(); {
+	case typ == ackBinary && !isClient:
 		// from client startup to server.
 		err := c.readiness.wait()
 		if err != nil {
@@ -367,7 +369,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 	// 	atomic.StoreUint32(c.acknowledged, 1)
 	// 	c.handleQueue()
 
-	case ackIDBinary:
+	case typ == ackIDBinary && isClient:
 		// from server to client.
 		id := string(b[1:])
 		c.id = id
@@ -377,7 +379,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		// c.write([]byte{ackOKBinary})
 		// println("ackIDBinary: pass with nil")
 		// c.handleQueue()
-	case ackNotOKBinary:
+	case typ == ackNotOKBinary && isClient:
 		// from server to client.
 		errText := string(b[1:])
 		err := errors.New(errText)
-- 
2.43.0


From 91e6be9ddd45231342a0283c3f352d5e23da648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:50 +0000
Subject: [PATCH 10/40] fix: the server sends nothing to the client before the
 handshake's answer

---
 conn.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index 06b1d41..43ee7b1 100644
--- a/conn.go
+++ b/conn.go
@@ -357,12 +357,16 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 			c.write(append(ackNotOKBinaryB, []byte(err.Error())...), false)
 			return false
 		}
+
+		// it's ok send ID, before anything else:
+		// the client keeps waiting for it and it does not handle any message until then.
+		if !c.write(append(ackIDBinaryB, []byte(c.id)...), false) {
+			return false
+		}
+
 		atomic.StoreUint32(c.acknowledged, 1)
 		c.handleQueue()
 
-		// it's ok send ID.
-		return c.write(append(ackIDBinaryB, []byte(c.id)...), false)
-
 	// case ackOKBinary:
 	// 	// from client to server.
 
-- 
2.43.0


From 48bc1168f339d4acaad929ee656f39ee748fbd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:51 +0000
Subject: [PATCH 11/40] fix: waiterOnce is decided once and never misses or
 releases early a waiter

---
 waiter_once.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/waiter_once.go b/waiter_once.go
index 8a2767c..5e7d2e2 100644
--- a/waiter_once.go
+++ b/waiter_once.go
@@ -44,28 +44,17 @@ func (w *waiterOnce) wait() error {
 		return nil
 	}
 
-	if w.isReady() {
-		// println("waiter: wait() is Ready")
-		return w.err // no need to wait.
-	}
-
-	if atomic.CompareAndSwapUint32(w.locked, 0, 1) {
-		// println("waiter: lock")
-		<-w.ch
-	}
-
+	<-w.ch
 	return w.err
 }
 
 func (w *waiterOnce) unwait(err error) {
-	if w == nil || w.isReady() {
+	if w == nil || !atomic.CompareAndSwapUint32(w.locked, 0, 1) { // only the first one decides.
 		return
 	}
 
 	w.err = err
-	// at any case mark it as ready for future `wait` call to exit immediately.
 	atomic.StoreUint32(w.ready, 1)
-	if atomic.CompareAndSwapUint32(w.locked, 1, 0) { // unlock once.
-		close(w.ch)
-	}
+	// release any current and future `wait` call.
+	close(w.ch)
 }
-- 
2.43.0


From 3a4f046eb6349b0352b8fd14943b0276223c2c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:51 +0000
Subject: [PATCH 12/40] fix: the StackExchange is notified about the
 disconnection of a refused connection too

---
 server.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index fe777b6..ad5e9f5 100644
--- a/server.go
+++ b/server.go
@@ -180,10 +180,9 @@ func (s *Server) start() {
 				// println("disconnect...")
 				if s.OnDisconnect != nil {
 					// don't fire disconnect if was immediately closed on the `OnConnect` server event.
-					if !s.FireDisconnectAlways && (!c.readiness.isReady() || (c.readiness.err != nil)) {
-						continue
+					if s.FireDisconnectAlways || (c.readiness.isReady() && c.readiness.err == nil) {
+						s.OnDisconnect(c)
 					}
-					s.OnDisconnect(c)
 				}
 
 				if s.usesStackExchange() {
-- 
2.43.0


From a62b0e368dd90418bec2100fc7c088d8764cd5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:51 +0000
Subject: [PATCH 13/40] fix: Conn.Increment and Conn.Decrement are atomic

---
 conn.go | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/conn.go b/conn.go
index 43ee7b1..38b3c2f 100644
--- a/conn.go
+++ b/conn.go
@@ -217,23 +217,7 @@ func (c *Conn) Get(key string) interface{} {
 //
 // Returns the incremented value.
 func (c *Conn) Increment(key string) int {
-	value := c.Get(key)
-
-	if value == nil {
-		c.Set(key, 1)
-		return 1
-	}
-
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, 1)
-		return 1
-	}
-
-	intValue++
-	c.Set(key, intValue)
-	return intValue
+	return c.addInt(key, 1)
 }
 
 // Decrement works like `Set` method.
@@ -250,21 +234,20 @@ func (c *Conn) Increment(key string) int {
 //
 // Returns the decremented value.
 func (c *Conn) Decrement(key string) int {
-	value := c.Get(key)
+	return c.addInt(key, -1)
+}
 
-	if value == nil {
-		c.Set(key, -1)
-		return -1
-	}
+func (c *Conn) addInt(key string, n int) int {
+	c.storeMutex.Lock()
+	defer c.storeMutex.Unlock()
 
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, -1)
-		return -1
+	if c.store == nil {
+		c.store = make(map[string]interface{})
 	}
-	intValue--
-	c.Set(key, intValue)
+
+	intValue, _ := c.store[key].(int) // if not an integer then override.
+	intValue += n
+	c.store[key] = intValue
 	return intValue
 }
 
-- 
2.43.0


From b0521d0e438a487f58f247999549686a92555524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 14/40] fix: successive broadcasts are not lost and are not
 published under the broadcaster's lock

---
 broadcaster.go | 60 ++++++++++++++++++++++++++++++--------------------
 server.go      | 20 +++++++----------
 2 files changed, 44 insertions(+), 36 deletions(-)

diff --git a/broadcaster.go b/broadcaster.go
index 047a187..87ff0fc 100644
--- a/broadcaster.go
+++ b/broadcaster.go
@@ -2,52 +2,64 @@ package neffos
 
 import (
 	"sync"
-	"sync/atomic"
-	"unsafe"
 )
 
 // async broadcaster, doesn't wait for a publish to complete to all clients before any
 // next broadcast call.
+//
+// Each broadcast is an entry of a linked list, each connection follows that list
+// on its own pace, so a slow one does not miss a broadcast and does not delay the rest.
 type broadcaster struct {
+	mu *sync.Mutex
+	// the entry that the next broadcast will fill.
+	next *broadcastEntry
+}
+
+type broadcastEntry struct {
+	// closed when the entry is filled, after that point it's read-only.
+	filled   chan struct{}
 	messages []Message
-	mu       *sync.Mutex
-	awaiter  unsafe.Pointer
+	next     *broadcastEntry
+}
+
+func newBroadcastEntry() *broadcastEntry {
+	return &broadcastEntry{filled: make(chan struct{})}
 }
 
 func newBroadcaster() *broadcaster {
-	ch := make(chan struct{})
-	awaiter := unsafe.Pointer(&ch)
 	return &broadcaster{
-		mu:      new(sync.Mutex),
-		awaiter: awaiter,
+		mu:   new(sync.Mutex),
+		next: newBroadcastEntry(),
 	}
 }
 
-func (b *broadcaster) getAwaiter() <-chan struct{} {
-	ptr := atomic.LoadPointer(&b.awaiter)
-	return *((*chan struct{})(ptr))
+// subscribe returns the entry of the first broadcast after this call.
+func (b *broadcaster) subscribe() *broadcastEntry {
+	b.mu.Lock()
+	entry := b.next
+	b.mu.Unlock()
+
+	return entry
 }
 
 func (b *broadcaster) broadcast(msgs []Message) {
 	b.mu.Lock()
-	b.messages = msgs
+	entry := b.next
+	entry.messages = msgs
+	entry.next = newBroadcastEntry()
+	b.next = entry.next
 	b.mu.Unlock()
 
-	ch := make(chan struct{})
-	old := atomic.SwapPointer(&b.awaiter, unsafe.Pointer(&ch))
-	close(*(*chan struct{})(old))
+	close(entry.filled)
 }
 
-func (b *broadcaster) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, ok bool) {
-	ch := b.getAwaiter()
-	b.mu.Unlock()
+// waitUntilClosed waits for the broadcast of this entry and
+// returns its messages and the entry of the broadcast after that one.
+func (e *broadcastEntry) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, next *broadcastEntry, ok bool) {
 	select {
-	case <-ch:
-		msgs = b.messages[:]
-		ok = true
+	case <-e.filled:
+		return e.messages, e.next, true
 	case <-closeCh:
+		return nil, nil, false
 	}
-
-	b.mu.Lock()
-	return
 }
diff --git a/server.go b/server.go
index ad5e9f5..a206827 100644
--- a/server.go
+++ b/server.go
@@ -335,10 +335,7 @@ func (s *Server) Upgrade(
 	}
 
 	if !s.usesStackExchange() && !s.SyncBroadcaster {
-		go func(c *Conn) {
-			for s.waitMessages(c) {
-			}
-		}(c)
+		go s.waitMessages(c, s.broadcaster.subscribe())
 	}
 
 	s.connect <- c
@@ -454,16 +451,15 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	return true
 }
 
-func (s *Server) waitMessages(c *Conn) bool {
-	s.broadcaster.mu.Lock()
-	defer s.broadcaster.mu.Unlock()
+func (s *Server) waitMessages(c *Conn, entry *broadcastEntry) {
+	for {
+		msgs, next, ok := entry.waitUntilClosed(c.closeCh)
+		if !ok || !publishMessages(c, msgs) {
+			return
+		}
 
-	msgs, ok := s.broadcaster.waitUntilClosed(c.closeCh)
-	if !ok {
-		return false
+		entry = next
 	}
-
-	return publishMessages(c, msgs)
 }
 
 type stringerValue struct{ v string }
-- 
2.43.0


From 01684885d726c0811bc69787fc13b98b9f326b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 15/40] fix: event callbacks and requests do not run under the
 namespaces and rooms locks

---
 conn.go           | 69 +++++++++++++++++------------------------------
 conn_namespace.go | 44 +++++++++++-------------------
 conn_room.go      |  2 +-
 message.go        |  5 ----
 4 files changed, 41 insertions(+), 79 deletions(-)

diff --git a/conn.go b/conn.go
index 38b3c2f..e94c9e9 100644
--- a/conn.go
+++ b/conn.go
@@ -722,13 +722,10 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 		return nil
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	defer c.connectedNamespacesMutex.Unlock()
-
-	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true, locked: true}
-	for namespace := range c.connectedNamespaces {
-		disconnectMsg.Namespace = namespace
-		if err := c.askDisconnect(ctx, disconnectMsg, false); err != nil {
+	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true}
+	for _, ns := range c.connected() {
+		disconnectMsg.Namespace = ns.namespace
+		if err := c.askDisconnect(ctx, disconnectMsg); err != nil {
 			return err
 		}
 	}
@@ -736,16 +733,20 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 	return nil
 }
 
-func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error {
-	if lock {
-		c.connectedNamespacesMutex.RLock()
+// connected returns a slice copy of the connected namespaces.
+func (c *Conn) connected() []*NSConn {
+	c.connectedNamespacesMutex.RLock()
+	nss := make([]*NSConn, 0, len(c.connectedNamespaces))
+	for _, ns := range c.connectedNamespaces {
+		nss = append(nss, ns)
 	}
+	c.connectedNamespacesMutex.RUnlock()
 
-	ns := c.connectedNamespaces[msg.Namespace]
+	return nss
+}
 
-	if lock {
-		c.connectedNamespacesMutex.RUnlock()
-	}
+func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
+	ns := c.Namespace(msg.Namespace)
 
 	if ns == nil {
 		return ErrBadNamespace
@@ -760,15 +761,9 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error
 	// before namespace's deletion.
 	ns.forceLeaveAll(true)
 
-	if lock {
-		c.connectedNamespacesMutex.Lock()
-	}
-
+	c.connectedNamespacesMutex.Lock()
 	delete(c.connectedNamespaces, msg.Namespace)
-
-	if lock {
-		c.connectedNamespacesMutex.Unlock()
-	}
+	c.connectedNamespacesMutex.Unlock()
 
 	msg.IsLocal = true
 	ns.events.fireEvent(ns, msg)
@@ -852,30 +847,15 @@ func (c *Conn) canWrite(msg Message) bool {
 	}
 
 	if !msg.isConnect() && !msg.isDisconnect() {
-		if !msg.locked {
-			c.connectedNamespacesMutex.RLock()
-		}
-
-		ns := c.connectedNamespaces[msg.Namespace]
-
-		if !msg.locked {
-			c.connectedNamespacesMutex.RUnlock()
-		}
-
+		ns := c.Namespace(msg.Namespace)
 		if ns == nil {
 			return false
 		}
 
 		if msg.Room != "" && !msg.isRoomJoin() && !msg.isRoomLeft() {
-			if !msg.locked {
-				ns.roomsMutex.RLock()
-			}
-
+			ns.roomsMutex.RLock()
 			_, ok := ns.rooms[msg.Room]
-
-			if !msg.locked {
-				ns.roomsMutex.RUnlock()
-			}
+			ns.roomsMutex.RUnlock()
 
 			if !ok {
 				// tried to send to a not joined room.
@@ -1017,16 +997,17 @@ func (c *Conn) Close() {
 	if atomic.CompareAndSwapUint32(c.closed, 0, 1) {
 		if !c.shouldHandleOnlyNativeMessages {
 			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
-			c.connectedNamespacesMutex.Lock()
-			for namespace, ns := range c.connectedNamespaces {
+			for _, ns := range c.connected() {
 				// leave rooms first with force and local property before remove the namespace completely.
 				ns.forceLeaveAll(true)
 
 				disconnectMsg.Namespace = ns.namespace
 				ns.events.fireEvent(ns, disconnectMsg)
-				delete(c.connectedNamespaces, namespace)
+
+				c.connectedNamespacesMutex.Lock()
+				delete(c.connectedNamespaces, ns.namespace)
+				c.connectedNamespacesMutex.Unlock()
 			}
-			c.connectedNamespacesMutex.Unlock()
 
 			c.waitingMessagesMutex.Lock()
 			for wait := range c.waitingMessages {
diff --git a/conn_namespace.go b/conn_namespace.go
index 5645bfa..82ec020 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -129,13 +129,10 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 		return nil
 	}
 
-	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
-
-	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true, locked: true}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
-		if err := ns.askRoomLeave(ctx, leaveMsg, false); err != nil {
+	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true}
+	for _, room := range ns.Rooms() {
+		leaveMsg.Room = room.Name
+		if err := ns.askRoomLeave(ctx, leaveMsg); err != nil {
 			return err
 		}
 	}
@@ -144,15 +141,14 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 }
 
 func (ns *NSConn) forceLeaveAll(isLocal bool) {
-	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
-
 	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsForced: true, IsLocal: isLocal}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
+	for _, room := range ns.Rooms() {
+		leaveMsg.Room = room.Name
 		ns.events.fireEvent(ns, leaveMsg)
 
-		delete(ns.rooms, room)
+		ns.roomsMutex.Lock()
+		delete(ns.rooms, room.Name)
+		ns.roomsMutex.Unlock()
 
 		leaveMsg.Event = OnRoomLeft
 		ns.events.fireEvent(ns, leaveMsg)
@@ -170,7 +166,7 @@ func (ns *NSConn) Disconnect(ctx context.Context) error {
 	return ns.Conn.askDisconnect(ctx, Message{
 		Namespace: ns.namespace,
 		Event:     OnNamespaceDisconnect,
-	}, true)
+	})
 }
 
 func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, error) {
@@ -234,18 +230,14 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 	ns.Conn.writeEmptyReply(msg.wait)
 }
 
-func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) error {
+func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 	if ns == nil {
 		return nil
 	}
 
-	if lock {
-		ns.roomsMutex.RLock()
-	}
+	ns.roomsMutex.RLock()
 	_, ok := ns.rooms[msg.Room]
-	if lock {
-		ns.roomsMutex.RUnlock()
-	}
+	ns.roomsMutex.RUnlock()
 
 	if !ok {
 		return ErrBadRoom
@@ -262,15 +254,9 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) erro
 		return err
 	}
 
-	if lock {
-		ns.roomsMutex.Lock()
-	}
-
+	ns.roomsMutex.Lock()
 	delete(ns.rooms, msg.Room)
-
-	if lock {
-		ns.roomsMutex.Unlock()
-	}
+	ns.roomsMutex.Unlock()
 
 	msg.Event = OnRoomLeft
 	ns.events.fireEvent(ns, msg)
diff --git a/conn_room.go b/conn_room.go
index ee40486..a882b3e 100644
--- a/conn_room.go
+++ b/conn_room.go
@@ -46,5 +46,5 @@ func (r *Room) Leave(ctx context.Context) error {
 		Namespace: r.NSConn.namespace,
 		Room:      r.Name,
 		Event:     OnRoomLeave,
-	}, true)
+	})
 }
diff --git a/message.go b/message.go
index bfd5ef9..36a2e43 100644
--- a/message.go
+++ b/message.go
@@ -93,10 +93,6 @@ type Message struct {
 	// This field is not filled on sending/receiving.
 	IsNative bool
 
-	// Useful rarely internally on `Conn#Write` namespace and rooms checks, i.e `Conn#DisconnectAll` and `NSConn#RemoveAll`.
-	// If true then the writer's checks will not lock connectedNamespacesMutex or roomsMutex again. May be useful in the future, keep that solution.
-	locked bool
-
 	// if server or client should write using Binary message or if the incoming message was readen as binary.
 	SetBinary bool
 }
@@ -383,7 +379,6 @@ func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shoul
 		IsForced:          false,
 		IsLocal:           false,
 		IsNative:          allowNativeMessages && event == OnNativeMessage,
-		locked:            false,
 		SetBinary:         msgTyp == BinaryMessage,
 	}
 }
-- 
2.43.0


From 7362a8d62a04030de912fb0f9e123b76a7bb60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:50 +0000
Subject: [PATCH 16/40] fix: messages queued before the ack are handled by
 order, without lock and as part of the reader

---
 conn.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/conn.go b/conn.go
index e94c9e9..6d1b5f0 100644
--- a/conn.go
+++ b/conn.go
@@ -93,7 +93,7 @@ type Conn struct {
 	allowNativeMessages            bool
 	shouldHandleOnlyNativeMessages bool
 
-	queue      map[MessageType][][]byte
+	queue      []queuedPayload
 	queueMutex sync.Mutex
 
 	// used to fire `conn#Close` once.
@@ -374,10 +374,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		return false
 	default:
 		c.queueMutex.Lock()
-		if c.queue == nil {
-			c.queue = make(map[MessageType][][]byte)
-		}
-		c.queue[msgTyp] = append(c.queue[msgTyp], b)
+		c.queue = append(c.queue, queuedPayload{msgTyp, b})
 		c.queueMutex.Unlock()
 	}
 
@@ -385,17 +382,24 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 
 }
 
+// queuedPayload is a payload that came before the ack.
+type queuedPayload struct {
+	msgTyp MessageType
+	b      []byte
+}
+
 func (c *Conn) handleQueue() {
 	c.queueMutex.Lock()
-	defer c.queueMutex.Unlock()
-
-	for msgTyp, q := range c.queue {
-		for _, b := range q {
-			c.HandlePayload(msgTyp, b)
-		}
-
-		delete(c.queue, msgTyp)
+	queue := c.queue
+	c.queue = nil
+	c.queueMutex.Unlock()
+
+	// it runs on the reader, see `startReader`.
+	atomic.StoreUint32(c.isInsideHandler, 1)
+	for _, p := range queue {
+		c.HandlePayload(p.msgTyp, p.b)
 	}
+	atomic.StoreUint32(c.isInsideHandler, 0)
 }
 
 // ErrInvalidPayload can be returned by the internal `handleMessage`.
-- 
2.43.0


From ca0e24e25ea13abd7fbcef9a99d35b2bffcd9e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:51 +0000
Subject: [PATCH 17/40] fix: a request to a not connected namespace is answered

---
 conn.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 6d1b5f0..bfa22e8 100644
--- a/conn.go
+++ b/conn.go
@@ -594,8 +594,12 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 		// if _, canConnect := c.namespaces[msg.Namespace]; !canConnect {
 		// 	msg.Err = ErrForbiddenNamespace
 		// }
-		in.Err = ErrBadNamespace
-		c.Write(in)
+		if in.wait != "" {
+			// a `Write` is not allowed on a not connected namespace but the other side waits for an answer.
+			in.Err = ErrBadNamespace
+			in.FromExplicit = ""
+			c.write(serializeMessage(in), in.SetBinary)
+		}
 		return nil, false
 	}
 
-- 
2.43.0


From f775dd105746978533c341d21922e0d2444fc907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:51 +0000
Subject: [PATCH 18/40] fix: a native message does not panic after a disconnect
 from the empty namespace

---
 conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conn.go b/conn.go
index bfa22e8..0afbce3 100644
--- a/conn.go
+++ b/conn.go
@@ -422,6 +422,9 @@ func (c *Conn) handleMessage(msg Message) error {
 
 	if msg.IsNative && c.shouldHandleOnlyNativeMessages {
 		ns := c.Namespace("")
+		if ns == nil {
+			return ErrBadNamespace
+		}
 		return ns.events.fireEvent(ns, msg)
 	}
 
-- 
2.43.0


From d576e7798d4c32b0471f4f3c7a76b0c15af46611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:52 +0000
Subject: [PATCH 19/40] fix: a broadcast during Server.OnConnect does not
 accept a connection that is about to be refused

---
 conn.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 0afbce3..a19c1c7 100644
--- a/conn.go
+++ b/conn.go
@@ -852,11 +852,6 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
-	if !c.IsClient() {
-		// for server-side if tries to send, then error will be not ignored but events should continue.
-		c.readiness.unwait(nil)
-	}
-
 	if !msg.isConnect() && !msg.isDisconnect() {
 		ns := c.Namespace(msg.Namespace)
 		if ns == nil {
@@ -890,6 +885,11 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
+	if !c.IsClient() {
+		// for server-side if tries to send, then error will be not ignored but events should continue.
+		c.readiness.unwait(nil)
+	}
+
 	return true
 }
 
-- 
2.43.0


From 1687ae655000e4aadb1c333d4a2621a1c1d69ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:52 +0000
Subject: [PATCH 20/40] fix: a refused connection that handles only native
 messages is closed

---
 conn.go   | 10 ++++++++++
 server.go |  7 ++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index a19c1c7..02da8f0 100644
--- a/conn.go
+++ b/conn.go
@@ -296,6 +296,16 @@ func (c *Conn) sendClientACK() error {
 	return err
 }
 
+// refuse is called when the server does not accept this connection.
+func (c *Conn) refuse(err error) {
+	c.readiness.unwait(err)
+	// No need to disconnect here, connection's .Close will be called on readiness ch errored
+	// except when the connection does not pass through the ack process at all.
+	if c.shouldHandleOnlyNativeMessages {
+		c.Close()
+	}
+}
+
 func (c *Conn) startReader() {
 	if c.IsClosed() {
 		return
diff --git a/server.go b/server.go
index a206827..e7daff1 100644
--- a/server.go
+++ b/server.go
@@ -346,7 +346,7 @@ func (s *Server) Upgrade(
 	// to Broadcast inside the `OnConnect` custom func.
 	if s.usesStackExchange() {
 		if err := s.StackExchange.OnConnect(c); err != nil {
-			c.readiness.unwait(err)
+			c.refuse(err)
 			return nil, err
 		}
 	}
@@ -379,10 +379,7 @@ func (s *Server) Upgrade(
 			// Think more later today.
 			// Done but with a lot of code.... will try to cleanup some things.
 			//println("OnConnect error: " + err.Error())
-			c.readiness.unwait(err)
-			// No need to disconnect here, connection's .Close will be called on readiness ch errored.
-
-			// c.Close()
+			c.refuse(err)
 			return nil, err
 		}
 	}
-- 
2.43.0


From 8c7ff0aa46707d67265e4d8831a87d5116d9561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:52 +0000
Subject: [PATCH 21/40] fix: gorilla socket sets the write deadline under its
 write lock

---
 gorilla/socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorilla/socket.go b/gorilla/socket.go
index 11f7b1f..d28d9e3 100644
--- a/gorilla/socket.go
+++ b/gorilla/socket.go
@@ -72,11 +72,11 @@ func (s *Socket) WriteText(body []byte, timeout time.Duration) error {
 }
 
 func (s *Socket) write(body []byte, opCode int, timeout time.Duration) error {
+	s.mu.Lock()
 	if timeout > 0 {
 		s.UnderlyingConn.SetWriteDeadline(time.Now().Add(timeout))
 	}
 
-	s.mu.Lock()
 	err := s.UnderlyingConn.WriteMessage(opCode, body)
 	s.mu.Unlock()
 
-- 
2.43.0


From 6c473266e6d3a9106b0e60b9e1f6eeb6f67e4393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:27 +0000
Subject: [PATCH 22/40] fix: gobwas socket does not write control frames in the
 middle of a message

---
 gobwas/socket.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/gobwas/socket.go b/gobwas/socket.go
index a6b303a..7291025 100644
--- a/gobwas/socket.go
+++ b/gobwas/socket.go
@@ -33,9 +33,15 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		state = gobwas.StateClientSide
 	}
 
-	controlHandler := wsutil.ControlFrameHandler(underline, state)
+	s := &Socket{
+		UnderlyingConn: underline,
+		request:        request,
+		state:          state,
+	}
 
-	reader := &wsutil.Reader{
+	s.controlHandler = wsutil.ControlFrameHandler(controlWriter{s}, state)
+
+	s.reader = &wsutil.Reader{
 		Source:          underline,
 		State:           state,
 		CheckUTF8:       true,
@@ -44,16 +50,21 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		// be received between text/binary continuation frames.
 		// Read `gobwas/wsutil/reader#NextReader`.
 		//
-		OnIntermediate: controlHandler,
+		OnIntermediate: s.controlHandler,
 	}
 
-	return &Socket{
-		UnderlyingConn: underline,
-		request:        request,
-		state:          state,
-		reader:         reader,
-		controlHandler: controlHandler,
-	}
+	return s
+}
+
+// controlWriter writes the replies to the control frames,
+// those should not be written in the middle of a message of the `Socket#write`.
+type controlWriter struct{ s *Socket }
+
+func (w controlWriter) Write(p []byte) (int, error) {
+	w.s.mu.Lock()
+	defer w.s.mu.Unlock()
+
+	return w.s.UnderlyingConn.Write(p)
 }
 
 // NetConn returns the underline net connection.
-- 
2.43.0


From 8bbb2d17be4b369858d7ffebe6562e02b41a3cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:28 +0000
Subject: [PATCH 23/40] fix: processes.get returns the same process to all of
 its concurrent callers

---
 process.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/process.go b/process.go
index e36b1ed..b9c3df8 100644
--- a/process.go
+++ b/process.go
@@ -24,12 +24,14 @@ func (p *processes) get(name string) *process {
 	p.locker.RUnlock()
 
 	if entry == nil {
-		entry = &process{
-			finished: make(chan struct{}),
-		}
-
 		p.locker.Lock()
-		p.entries[name] = entry
+		// re-check, it may be created so far.
+		if entry = p.entries[name]; entry == nil {
+			entry = &process{
+				finished: make(chan struct{}),
+			}
+			p.entries[name] = entry
+		}
 		p.locker.Unlock()
 	}
 
-- 
2.43.0


From 5ebfe0c5f8c26730de143d60c7b0b39f04d042e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:28 +0000
Subject: [PATCH 24/40] fix: repeated and concurrent connects to a namespace
 are waited and never hang the reader

---
 process.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/process.go b/process.go
index b9c3df8..0df213b 100644
--- a/process.go
+++ b/process.go
@@ -44,7 +44,10 @@ type process struct {
 	done uint32
 
 	finished chan struct{}
-	waiting  sync.WaitGroup
+
+	mu      sync.Mutex
+	running int           // `Start` calls without their `Done` yet.
+	idle    chan struct{} // closed when "running" is back to zero.
 }
 
 // Signal closes the channel.
@@ -62,26 +65,43 @@ func (p *process) Finished() <-chan struct{} {
 	return p.finished
 }
 
-// Done calls the internal WaitGroup's `Done` method.
+// Done ends a `Start`, the last one releases the `Wait` calls.
 func (p *process) Done() {
-	if !atomic.CompareAndSwapUint32(&p.done, 0, 1) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.running == 0 {
 		return
 	}
 
-	p.waiting.Done()
+	p.running--
+	if p.running == 0 {
+		atomic.StoreUint32(&p.done, 1)
+		close(p.idle)
+	}
 }
 
-// Wait waits on the internal `WaitGroup`. See `Done` too.
+// Wait waits until all `Start` calls are done, if any. See `Done` too.
 func (p *process) Wait() {
-	if atomic.LoadUint32(&p.done) == 1 {
-		return
+	p.mu.Lock()
+	running, idle := p.running, p.idle
+	p.mu.Unlock()
+
+	if running > 0 {
+		<-idle
 	}
-	p.waiting.Wait()
 }
 
 // Start makes future `Wait` calls to hold until `Done`.
 func (p *process) Start() {
-	p.waiting.Add(1)
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.running == 0 {
+		atomic.StoreUint32(&p.done, 0)
+		p.idle = make(chan struct{})
+	}
+	p.running++
 }
 
 // isDone reports whether process is finished.
-- 
2.43.0


From e1990503fb095cbaef8567574d89d57abfd9a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:02 +0000
Subject: [PATCH 25/40] fix: a connection is always counted before its
 disconnect is, so it is never left in the server's connections

---
 server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index e7daff1..e66ae7d 100644
--- a/server.go
+++ b/server.go
@@ -120,7 +120,7 @@ func New(upgrader Upgrader, connHandler ConnHandler) *Server {
 		readTimeout:       readTimeout,
 		writeTimeout:      writeTimeout,
 		connections:       make(map[*Conn]struct{}),
-		connect:           make(chan *Conn, 1),
+		connect:           make(chan *Conn), // not buffered, a connection is counted before it can be disconnected.
 		disconnect:        make(chan *Conn),
 		actions:           make(chan action),
 		broadcastMessages: make(chan []Message),
@@ -334,12 +334,19 @@ func (s *Server) Upgrade(
 		c.ReconnectTries, _ = strconv.Atoi(retriesHeaderValue)
 	}
 
+	// don't miss any message that is broadcasted after the connection is counted
+	// but don't touch the connection before that, it may be closed by a failed write.
+	var entry *broadcastEntry
 	if !s.usesStackExchange() && !s.SyncBroadcaster {
-		go s.waitMessages(c, s.broadcaster.subscribe())
+		entry = s.broadcaster.subscribe()
 	}
 
 	s.connect <- c
 
+	if entry != nil {
+		go s.waitMessages(c, entry)
+	}
+
 	go c.startReader()
 
 	// Before `OnConnect` in order to be able
-- 
2.43.0


From 50045d2a734b425d567de257f5c87ef3b3f0b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 26/40] fix: simultaneous connects to a namespace end up with
 one connection to it and one connected event

---
 conn.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/conn.go b/conn.go
index 02da8f0..06ca14f 100644
--- a/conn.go
+++ b/conn.go
@@ -661,17 +661,11 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 		return nil, err
 	}
 	// println("got connect")
-	// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client, which is not the standard way)
-	// c.connectedNamespacesMutex.RLock()
-	// ns, ok = c.connectedNamespaces[namespace]
-	// c.connectedNamespacesMutex.RUnlock()
-	// if ok {
-	// 	return ns, nil
-	// }
 
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
+	// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client, which is not the standard way)
+	if connected := c.connectNamespace(ns); connected != ns {
+		return connected, nil
+	}
 
 	// println("we're connected")
 
@@ -711,15 +705,31 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[msg.Namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
+	connected := c.connectNamespace(ns)
 
 	c.writeEmptyReply(msg.wait)
 
+	if connected != ns {
+		return
+	}
+
 	c.notifyNamespaceConnected(ns, msg)
 }
 
+// connectNamespace marks the "ns" as connected and returns it,
+// if its namespace is connected meanwhile then it returns the connected one instead.
+func (c *Conn) connectNamespace(ns *NSConn) *NSConn {
+	c.connectedNamespacesMutex.Lock()
+	defer c.connectedNamespacesMutex.Unlock()
+
+	if connected, ok := c.connectedNamespaces[ns.namespace]; ok {
+		return connected
+	}
+
+	c.connectedNamespaces[ns.namespace] = ns
+	return ns
+}
+
 func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
 	connectMsg.Event = OnNamespaceConnected
 	ns.events.fireEvent(ns, connectMsg) // omit error, it's connected.
-- 
2.43.0


From 03b92ab97e9964d5fda7799217a07747a7783ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:08 +0000
Subject: [PATCH 27/40] fix: the next stack exchange is asked with the request
 itself, not with the failed one's answer

---
 stackexchange.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stackexchange.go b/stackexchange.go
index c355e91..dd5667d 100644
--- a/stackexchange.go
+++ b/stackexchange.go
@@ -101,12 +101,12 @@ func (s *stackExchangeWrapper) Publish(msgs []Message) bool {
 
 func (s *stackExchangeWrapper) Ask(ctx context.Context, msg Message, token string) (Message, error) {
 	// we run Ask and if one is failing then we keep trying for all stackexchanges.
-	msg, err := s.parent.Ask(ctx, msg, token)
+	reply, err := s.parent.Ask(ctx, msg, token)
 	if err != nil {
-		msg, err = s.current.Ask(ctx, msg, token)
+		return s.current.Ask(ctx, msg, token)
 	}
 
-	return msg, err
+	return reply, nil
 }
 
 func (s *stackExchangeWrapper) NotifyAsk(msg Message, token string) error {
-- 
2.43.0


From 53a8437b55bbc3311c2ac8eaa95281bb07d4a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:48 +0000
Subject: [PATCH 28/40] fix: a server closed right after its creation stays
 closed

---
 server.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/server.go b/server.go
index e66ae7d..9a94c45 100644
--- a/server.go
+++ b/server.go
@@ -165,8 +165,6 @@ func (s *Server) usesStackExchange() bool {
 }
 
 func (s *Server) start() {
-	atomic.StoreUint32(&s.closed, 0)
-
 	for {
 		select {
 		case c := <-s.connect:
-- 
2.43.0


From ae0ff9b8492b7961196ebe0efb6e366fa5026b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:49 +0000
Subject: [PATCH 29/40] fix: Broadcast leaves the caller's messages unmarked
 and can't be affected by their reuse

---
 server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server.go b/server.go
index 9a94c45..373f960 100644
--- a/server.go
+++ b/server.go
@@ -499,6 +499,8 @@ func Exclude(connID string) fmt.Stringer { return stringerValue{connID} }
 // next broadcast call. To change that behavior set the `Server.SyncBroadcaster` to true
 // before server start.
 func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
+	// the caller's messages are not marked and can be reused after this call.
+	msgs = append([]Message(nil), msgs...)
 
 	if exceptSender != nil {
 		var fromExplicit, from string
-- 
2.43.0


From a4b702de202e3fcaaea4da0aa4c77bcace47cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:47 +0000
Subject: [PATCH 30/40] fix: Connect's wait for the handshake had no end

The remaining time is never exactly zero (10s is not a multiple of 15ms)
so a server-side Connect to a client that never acknowledges blocked forever.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 06ca14f..2133f67 100644
--- a/conn.go
+++ b/conn.go
@@ -540,7 +540,7 @@ func (c *Conn) Connect(ctx context.Context, namespace string) (*NSConn, error) {
 				}
 			}
 
-			if t == 0 {
+			if t <= 0 {
 				// when maxSyncWaitDur passed,
 				// we could use the context's deadline but it will make things slower (extracting its value slower than the sleep time).
 				if c.IsClosed() {
-- 
2.43.0


From a10e344192efd6c985fc14b2fff12e7ae7be60d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:55 +0000
Subject: [PATCH 31/40] fix: a client handles the messages that came before its
 acknowledgement

They were kept in the queue but never handled.
---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 2133f67..a7a709f 100644
--- a/conn.go
+++ b/conn.go
@@ -375,7 +375,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		c.readiness.unwait(nil)
 		// c.write([]byte{ackOKBinary})
 		// println("ackIDBinary: pass with nil")
-		// c.handleQueue()
+		c.handleQueue()
 	case typ == ackNotOKBinary && isClient:
 		// from server to client.
 		errText := string(b[1:])
-- 
2.43.0


From f5082c4319b4cee59a58aba2d37367f718b9277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:48 +0000
Subject: [PATCH 32/40] fix: struct handlers may have unexported fields

---
 reflect.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index 153a5dc..7980008 100644
--- a/reflect.go
+++ b/reflect.go
@@ -33,7 +33,7 @@ func isZero(v reflect.Value) bool {
 
 			method := v.Method(f.Index)
 			// no needed check but:
-			if method.IsValid() && !method.IsNil() {
+			if method.IsValid() && method.CanInterface() && !method.IsNil() {
 				// it shouldn't panic here.
 				zero = method.Call(nil)[0].Interface().(bool)
 			}
@@ -81,6 +81,10 @@ func getNonZeroFields(v reflect.Value) (fields map[int]reflect.Value) {
 	v = reflect.Indirect(v)
 
 	visitFields(v.Type(), func(f reflect.StructField) bool {
+		if f.PkgPath != "" {
+			return false // unexported, it can't be set through reflection.
+		}
+
 		fieldIndex := f.Index[0]
 		fieldValue := v.Field(fieldIndex)
 		if !isZero(fieldValue) {
@@ -276,7 +280,9 @@ func makeEventsFromStruct(v reflect.Value, eventMatcher EventMatcherFunc, inject
 			})
 
 			injector = func(typ reflect.Type, nsConn *NSConn) reflect.Value {
-				return reflect.New(typ)
+				ptr := reflect.New(typ)
+				ptr.Elem().Set(reflect.Indirect(v)) // keep the unexported fields too.
+				return ptr
 			}
 		}
 
-- 
2.43.0


From e20e9e8b3baddfe2f8563a9791bb0efafc852411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:01 +0000
Subject: [PATCH 33/40] fix: a struct handler's instance always holds its own
 connection

---
 reflect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reflect.go b/reflect.go
index 7980008..389a3b7 100644
--- a/reflect.go
+++ b/reflect.go
@@ -292,14 +292,14 @@ func makeEventsFromStruct(v reflect.Value, eventMatcher EventMatcherFunc, inject
 			cachePtr := injector(typ, c)
 			cacheElem := cachePtr.Elem()
 
-			// set the NSConn dynamic field.
-			cacheElem.Field(nsConnFieldIndex).Set(reflect.ValueOf(c))
-
 			// set any static fields if default injector (see above).
 			for findex, fvalue := range staticFields {
 				cacheElem.Field(findex).Set(fvalue)
 			}
 
+			// set the NSConn dynamic field.
+			cacheElem.Field(nsConnFieldIndex).Set(reflect.ValueOf(c))
+
 			// Store it for the rest of the events inside
 			// this namespace of that specific connection.
 			c.value = cachePtr
-- 
2.43.0


From 29b8c81ae9e49779024011a2280aca0a00cf002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:19 +0000
Subject: [PATCH 34/40] fix: gobwas dialer lost the frames that came with the
 handshake response

---
 gobwas/dialer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gobwas/dialer.go b/gobwas/dialer.go
index 60b38ff..8f34485 100644
--- a/gobwas/dialer.go
+++ b/gobwas/dialer.go
@@ -16,11 +16,17 @@ var DefaultDialer = Dialer(gobwas.DefaultDialer)
 // To send headers to the server set the dialer's `Header` field to a `gobwas.HandshakeHeaderHTTP`.
 func Dialer(dialer gobwas.Dialer) neffos.Dialer {
 	return func(ctx context.Context, url string) (neffos.Socket, error) {
-		underline, _, _, err := dialer.Dial(ctx, url)
+		underline, br, _, err := dialer.Dial(ctx, url)
 		if err != nil {
 			return nil, err
 		}
 
-		return newSocket(underline, nil, true), nil
+		s := newSocket(underline, nil, true)
+		if br != nil {
+			// it holds the frames that came along with the server's handshake response.
+			s.reader.Source = br
+		}
+
+		return s, nil
 	}
 }
-- 
2.43.0


From e3099623dca55433e1eee26b2a76be96091ef6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:13 +0000
Subject: [PATCH 35/40] fix: redis exchange subscribed by pattern, a connection
 could receive what is published for others

---
 stackexchange/redis/stackexchange_redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index c19c6d3..e489041 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -157,7 +157,7 @@ func (exc *StackExchange) run() {
 		case m := <-exc.subscribe:
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				channel := exc.getChannel(m.namespace, "", "")
-				sub.pubSub.PSubscribe(sub.msgCh, channel)
+				sub.pubSub.Subscribe(sub.msgCh, channel)
 				// neffos.Debugf("[%s] subscribed to [%s] for namespace [%s]", m.conn.ID(), channel, m.namespace)
 				//	} else {
 				// neffos.Debugf("[%s] tried to subscribe to [%s] namespace before 'OnConnect.addSubscriber'!", m.conn.ID(), m.namespace)
@@ -166,7 +166,7 @@ func (exc *StackExchange) run() {
 			if sub, ok := exc.subscribers[m.conn]; ok {
 				channel := exc.getChannel(m.namespace, "", "")
 				// neffos.Debugf("[%s] unsubscribed from [%s]", channel)
-				sub.pubSub.PUnsubscribe(sub.msgCh, channel)
+				sub.pubSub.Unsubscribe(sub.msgCh, channel)
 			}
 		case m := <-exc.delSubscriber:
 			if sub, ok := exc.subscribers[m.conn]; ok {
@@ -217,7 +217,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 		msgCh:  redisMsgCh,
 	}
 	selfChannel := exc.getChannel("", "", c.ID())
-	pubSub.PSubscribe(redisMsgCh, selfChannel)
+	pubSub.Subscribe(redisMsgCh, selfChannel)
 
 	exc.addSubscriber <- s
 
-- 
2.43.0


From 6479cf1ca9d01437021a5ca4ba5d943ad32c9a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:13 +0000
Subject: [PATCH 36/40] fix: nats request was published before its reply's
 subscription reached the broker

---
 stackexchange/nats/stackexchange_nats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 659800d..b91debb 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -327,6 +327,11 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 	defer sub.Unsubscribe()
 	defer subConn.Close()
 
+	// the publisher is another connection, the reply should not come before the subscription.
+	if err = subConn.Flush(); err != nil {
+		return response, err
+	}
+
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
 	}
-- 
2.43.0


From ccdd418fe34fffc1eecd878d22a5f030807740d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:13 +0000
Subject: [PATCH 37/40] fix: a broadcasted request kept the token of its sender

---
 server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 373f960..3b399d3 100644
--- a/server.go
+++ b/server.go
@@ -502,6 +502,11 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 	// the caller's messages are not marked and can be reused after this call.
 	msgs = append([]Message(nil), msgs...)
 
+	for i := range msgs {
+		// the token of a received request belongs to its sender, the receivers should not answer or await for it.
+		msgs[i].wait = ""
+	}
+
 	if exceptSender != nil {
 		var fromExplicit, from string
 
@@ -523,6 +528,10 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 		}
 	}
 
+	s.publish(msgs)
+}
+
+func (s *Server) publish(msgs []Message) {
 	if s.usesStackExchange() {
 		s.StackExchange.Publish(msgs)
 		return
@@ -569,7 +578,7 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 		s.waitingMessagesMutex.Unlock()
 	}()
 
-	s.Broadcast(nil, msg)
+	s.publish([]Message{msg})
 
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From 938c965a41f44d883eb8dbb73554ed71db4ee820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:21 +0000
Subject: [PATCH 38/40] fix: do not connect a namespace or join a room on a
 connection closed meanwhile

A handler that closes the connection and then allows the connect or the join
(or a Close from another goroutine at that point) left a namespace connected or
a room joined that the teardown never disconnects or leaves.
---
 conn.go           | 16 ++++++++++++++--
 conn_namespace.go | 27 +++++++++++++++++++++------
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index a7a709f..d99955c 100644
--- a/conn.go
+++ b/conn.go
@@ -663,7 +663,11 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	// println("got connect")
 
 	// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client, which is not the standard way)
-	if connected := c.connectNamespace(ns); connected != ns {
+	connected := c.connectNamespace(ns)
+	if connected == nil {
+		return nil, ErrWrite
+	}
+	if connected != ns {
 		return connected, nil
 	}
 
@@ -706,6 +710,9 @@ func (c *Conn) replyConnect(msg Message) {
 	}
 
 	connected := c.connectNamespace(ns)
+	if connected == nil {
+		return
+	}
 
 	c.writeEmptyReply(msg.wait)
 
@@ -717,11 +724,16 @@ func (c *Conn) replyConnect(msg Message) {
 }
 
 // connectNamespace marks the "ns" as connected and returns it,
-// if its namespace is connected meanwhile then it returns the connected one instead.
+// if its namespace is connected meanwhile then it returns the connected one instead and
+// if the connection is closed meanwhile then it returns nil, `Close` would not disconnect it.
 func (c *Conn) connectNamespace(ns *NSConn) *NSConn {
 	c.connectedNamespacesMutex.Lock()
 	defer c.connectedNamespacesMutex.Unlock()
 
+	if c.IsClosed() {
+		return nil
+	}
+
 	if connected, ok := c.connectedNamespaces[ns.namespace]; ok {
 		return connected
 	}
diff --git a/conn_namespace.go b/conn_namespace.go
index 82ec020..111221d 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -195,9 +195,9 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 	}
 
 	room = newRoom(ns, roomName)
-	ns.roomsMutex.Lock()
-	ns.rooms[roomName] = room
-	ns.roomsMutex.Unlock()
+	if !ns.addRoom(room) {
+		return nil, ErrWrite
+	}
 
 	joinMsg.Event = OnRoomJoined
 	ns.events.fireEvent(ns, joinMsg)
@@ -219,9 +219,10 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 			ns.Conn.Write(msg)
 			return
 		}
-		ns.roomsMutex.Lock()
-		ns.rooms[msg.Room] = newRoom(ns, msg.Room)
-		ns.roomsMutex.Unlock()
+
+		if !ns.addRoom(newRoom(ns, msg.Room)) {
+			return
+		}
 
 		msg.Event = OnRoomJoined
 		ns.events.fireEvent(ns, msg)
@@ -230,6 +231,20 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 	ns.Conn.writeEmptyReply(msg.wait)
 }
 
+// addRoom marks the "room" as joined, unless the connection is closed meanwhile:
+// `Conn#Close` would not leave it.
+func (ns *NSConn) addRoom(room *Room) bool {
+	ns.roomsMutex.Lock()
+	defer ns.roomsMutex.Unlock()
+
+	if ns.Conn.IsClosed() {
+		return false
+	}
+
+	ns.rooms[room.Name] = room
+	return true
+}
+
 func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 	if ns == nil {
 		return nil
-- 
2.43.0


From c49e8f01313b1670ab1ad9033f56a4d5dfda56dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:21 +0000
Subject: [PATCH 39/40] fix: the namespace of a struct handler from a field of
 an embedded struct

---
 reflect.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/reflect.go b/reflect.go
index 389a3b7..d80ecc3 100644
--- a/reflect.go
+++ b/reflect.go
@@ -127,11 +127,14 @@ func resolveStructNamespace(v reflect.Value) (string, bool) {
 	v = reflect.Indirect(v)
 	if f, ok := typ.FieldByNameFunc(func(s string) bool { return s == "Namespace" }); ok {
 		if f.Type.Kind() == reflect.String {
-			namespace := v.Field(f.Index[0]).String()
-			Debugf("Set namespace [\"%s\"] from field [%s.%s]", func() dargs {
-				return dargs{namespace, nameOf(typ), f.Name}
-			})
-			return namespace, true
+			// the field may be promoted from an embedded struct (or an embedded nil pointer to a struct).
+			if fieldValue, err := v.FieldByIndexErr(f.Index); err == nil {
+				namespace := fieldValue.String()
+				Debugf("Set namespace [\"%s\"] from field [%s.%s]", func() dargs {
+					return dargs{namespace, nameOf(typ), f.Name}
+				})
+				return namespace, true
+			}
 		}
 	}
 
-- 
2.43.0


From 836259532f58a99a4be86906e329843f8c382f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:04 +0000
Subject: [PATCH 40/40] fix: a struct handler's field with an IsZero method of
 another signature panicked

---
 reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index d80ecc3..66f7fe4 100644
--- a/reflect.go
+++ b/reflect.go
@@ -27,7 +27,7 @@ func isZero(v reflect.Value) bool {
 			// if has input arguments (1 is for the value receiver, so > 1 for the actual input args)
 			// if output argument is not boolean
 			// then skip this IsZero user-defined function.
-			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 && f.Type.Out(0).Kind() != reflect.Bool {
+			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 || f.Type.Out(0).Kind() != reflect.Bool {
 				return zero
 			}
 
@@ -35,7 +35,7 @@ func isZero(v reflect.Value) bool {
 			// no needed check but:
 			if method.IsValid() && method.CanInterface() && !method.IsNil() {
 				// it shouldn't panic here.
-				zero = method.Call(nil)[0].Interface().(bool)
+				zero = method.Call(nil)[0].Bool()
 			}
 		}
 
-- 
2.43.0

