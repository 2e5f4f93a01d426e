P='package neffos\n\nimport (\n%s)\n\n'
def imp(*a): return P % ''.join('\t"%s"\n'%x for x in a)
SEEDS=[
dict(id="C01-escape-first-only",prop="C01",needs="a namespace, room or event with two or more ';'",breaks="only the first ';' of a field is escaped, so the message splits at the second one",
 edits=[("message.go","return strings.Replace(s, messageSeparatorString, messageFieldSeparatorReplacement, -1)","return strings.Replace(s, messageSeparatorString, messageFieldSeparatorReplacement, 1)")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	for _, f := range []string{"a", "a;b", "a;b;c", ";;;"} {
		m := DeserializeMessage(TextMessage, Message{Namespace: f, Room: f, Event: f, Body: []byte("x;y")}.Serialize(), false, false)
		if m.Namespace != f || m.Room != f || m.Event != f || string(m.Body) != "x;y" {
			t.Fatalf("%q arrived as %#v", f, m)
		}
	}
}
'''),
dict(id="C02-known-error-contained",prop="C02",needs="an error whose text contains the text of a known error",breaks="the error arrives as the known error instead of an error with its own text",
 edits=[("message.go","if knownErr.Error() == errorText {","if strings.Contains(errorText, knownErr.Error()) {")],
 demo=imp("errors","testing")+'''func TestDemo(t *testing.T) {
	for _, s := range []string{"bad namespace", "oops", "bad room number 5", "very bad namespace"} {
		m := DeserializeMessage(TextMessage, Message{Event: "e", Err: errors.New(s)}.Serialize(), false, false)
		if m.Err == nil || m.Err.Error() != s {
			t.Fatalf("%q arrived as %v", s, m.Err)
		}
	}
}
'''),
dict(id="C03-short-token",prop="C03",needs="a message with a token of exactly one character",breaks="decoding panics and takes the process down",
 edits=[("message.go","fromStackExchange := len(wait) > 2 && wait[1]","fromStackExchange := wait != \"\" && wait[1]")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	for _, tok := range []string{"", "1", "$", "!", "12", "$!", "1!2"} {
		DeserializeMessage(TextMessage, []byte(tok+";ns;;e;0;0;"), false, false)
	}
}
'''),
dict(id="C05-request-out-of-room",prop="C05",needs="a request (with a token) that names a room which is not joined",breaks="a request is sent to a room this side has not joined",
 edits=[("conn.go","if msg.Room != \"\" && !msg.isRoomJoin() && !msg.isRoomLeft() {","if msg.Room != \"\" && msg.wait == \"\" && !msg.isRoomJoin() && !msg.isRoomLeft() {")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	c, p := newRig(t, Namespaces{"ns": h.events("e")}).rawClient("me")
	nsUp(t, p, "ns")
	if c.Write(Message{Namespace: "ns", Room: "r", Event: "e"}) {
		t.Fatal("emit to a room not joined")
	}
	if _, err := c.Ask(tctx(), Message{Namespace: "ns", Room: "r", Event: "e"}); err != ErrWrite {
		t.Fatalf("request to a room not joined: %v", err)
	}
	p.none()
}
'''),
dict(id="C06-refused-ends-broadcast",prop="C06",needs="a broadcast of several messages, one of them for a namespace or room this connection has not joined",breaks="the other messages of the broadcast, and all later broadcasts, are not delivered to that connection",
 edits=[("server.go","if !c.Write(msg) && c.IsClosed() {","if !c.Write(msg) {")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e"), "two": h.events("e")})
	_, p := g.rawClient("me")
	nsUp(t, p, "ns")
	g.s.Broadcast(nil, Message{Namespace: "two", Event: "e", Body: []byte("1")}, Message{Namespace: "ns", Event: "e", Body: []byte("2")})
	p.expect(";ns;;e;0;0;2")
	g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("3")})
	p.expect(";ns;;e;0;0;3")
}
'''),
dict(id="C10-register-after-send",prop="C10",needs="the reply arrives before the asking goroutine goes on",breaks="the reply finds no pending request, is dropped, and Ask waits until its context ends",
 edits=[("conn.go","""	} else {
		c.waitingMessagesMutex.Lock()
		c.waitingMessages[msg.wait] = ch
		c.waitingMessagesMutex.Unlock()

		defer""","""	} else {
		defer"""),("conn.go","""	if !c.Write(msg) {
		return Message{}, ErrWrite
	}

	select {
	case <-ctx.Done():
		if c""","""	if !c.Write(msg) {
		return Message{}, ErrWrite
	}

	if !mustWaitOnlyTheNextMessage {
		c.waitingMessagesMutex.Lock()
		c.waitingMessages[msg.wait] = ch
		c.waitingMessagesMutex.Unlock()
	}

	select {
	case <-ctx.Done():
		if c""")],
 demo=imp("context","strings","testing","time")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	c, p := newRig(t, Namespaces{"ns": h.events("e")}).rawClient("me")
	nsUp(t, p, "ns")
	s := c.socket.(*memSocket)
	s.mu.Lock()
	s.onWrite = func(f frame) { // the answer is there before the write returns
		b := string(f.b)
		if i := strings.Index(b, ";"); i > 0 {
			s.put(TextMessage, b[:i]+";ns;;e;0;0;answer")
			time.Sleep(30 * time.Millisecond)
		}
	}
	s.mu.Unlock()
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	m, err := c.Ask(ctx, Message{Namespace: "ns", Event: "e"})
	if err != nil || string(m.Body) != "answer" {
		t.Fatalf("Ask returned %q %v", m.Body, err)
	}
}
'''),
dict(id="C13-refused-disconnect-leaves-rooms",prop="C13",needs="a client asks to disconnect from a namespace in which it joined a room and the server's handler refuses",breaks="the refused disconnect has left the rooms of the namespace",
 edits=[("conn.go","""	// server-side, check for error on the local event first.
	err := ns.events.fireEvent(ns, msg)
	if err != nil {
		msg.Err = err
		c.Write(msg)
		return
	}

	ns.forceLeaveAll(false)
""","""	ns.forceLeaveAll(false)

	// server-side, check for error on the local event first.
	err := ns.events.fireEvent(ns, msg)
	if err != nil {
		msg.Err = err
		c.Write(msg)
		return
	}
""")],
 demo=imp("errors","testing")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	c, p := newRig(t, Namespaces{"ns": h.events("e")}).rawClient("me")
	nsUp(t, p, "ns")
	roomUp(t, p, "ns", "r")
	h.fail(OnNamespaceDisconnect, errors.New("stay"))
	p.send("$9;ns;;_OnNamespaceDisconnect;0;0;")
	p.expect("$9;ns;;_OnNamespaceDisconnect;1;0;stay")
	if n := c.Namespace("ns"); n == nil || n.Room("r") == nil {
		t.Fatal("membership changed by a refused disconnect")
	}
}
'''),
dict(id="C14-refused-join-answered",prop="C14",needs="the join handler of this side refuses a join requested by the peer",breaks="the peer is told that the refused join succeeded, and is answered twice",
 edits=[("conn_namespace.go","""	if !ok {
		err := ns.events.fireEvent(ns, msg)
		if err != nil {
			msg.Err = err
			ns.Conn.Write(msg)
			return
		}
""","""	if !ok {
		err := ns.events.fireEvent(ns, msg)
		if err != nil && !ns.Conn.Write(Message{wait: msg.wait, Namespace: msg.Namespace, Room: msg.Room, Event: msg.Event, Err: err}) {
			return
		}
""")],
 demo=imp("errors","testing")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	c, p := newRig(t, Namespaces{"ns": h.events("e")}).rawClient("me")
	nsUp(t, p, "ns")
	h.fail(OnRoomJoin, errors.New("full"))
	p.send("$9;ns;r;_OnRoomJoin;0;0;")
	p.expect("$9;ns;r;_OnRoomJoin;1;0;full")
	p.none()
	if c.Namespace("ns").Room("r") != nil || len(h.got(OnRoomJoined)) != 0 {
		t.Fatal("joined a refused room")
	}
}
'''),
dict(id="C15-left-before-removal",prop="C15",needs="the left handler of a server-side connection looks at its rooms",breaks="the left event fires while the room still counts as joined",
 edits=[("conn_namespace.go","""	ns.roomsMutex.Lock()
	delete(ns.rooms, msg.Room)
	ns.roomsMutex.Unlock()

	msg.Event = OnRoomLeft
	ns.events.fireEvent(ns, msg)

	ns.Conn.writeEmptyReply(msg.wait)""","""	defer func(roomName string) {
		ns.roomsMutex.Lock()
		delete(ns.rooms, roomName)
		ns.roomsMutex.Unlock()
	}(msg.Room)

	msg.Event = OnRoomLeft
	ns.events.fireEvent(ns, msg)

	ns.Conn.writeEmptyReply(msg.wait)""")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	still := false
	h := &recorder{hook: func(n *NSConn, m Message) error {
		if m.Event == OnRoomLeft && n.Room(m.Room) != nil {
			still = true
		}
		return nil
	}}
	_, p := newRig(t, Namespaces{"ns": h.events("e")}).rawClient("me")
	nsUp(t, p, "ns")
	roomUp(t, p, "ns", "r")
	p.send("$9;ns;r;_OnRoomLeave;0;0;")
	p.expect("$9;;;;;;")
	if still {
		t.Fatal("the room is joined when its left event fires")
	}
}
'''),
dict(id="C17-exchange-not-told",prop="C17",needs="an exchange is in use and the connect callback refuses a connection",breaks="the exchange is never told that the refused connection is gone and keeps its subscriber",
 edits=[("server.go","""						s.OnDisconnect(c)
					}
				}

				if s.usesStackExchange() {
					s.StackExchange.OnDisconnect(c)
				}
""","""						s.OnDisconnect(c)
					}
				}

				if s.usesStackExchange() && c.readiness.isReady() && c.readiness.err == nil {
					s.StackExchange.OnDisconnect(c)
				}
""")],
 demo=imp("context","errors","sync/atomic","testing")+'''type ex struct{ in, out int32 }

func (x *ex) OnConnect(c *Conn) error                                  { atomic.AddInt32(&x.in, 1); return nil }
func (x *ex) OnDisconnect(c *Conn)                                     { atomic.AddInt32(&x.out, 1) }
func (x *ex) Publish([]Message) bool                                   { return true }
func (x *ex) Subscribe(*Conn, string)                                  {}
func (x *ex) Unsubscribe(*Conn, string)                                {}
func (x *ex) Ask(context.Context, Message, string) (m Message, e error) { return }
func (x *ex) NotifyAsk(Message, string) error                          { return nil }

func TestDemo(t *testing.T) {
	for _, refuse := range []bool{false, true} {
		g := newRig(t, Namespaces{"ns": Events{}})
		x := &ex{}
		g.s.UseStackExchange(x)
		g.s.OnConnect = func(c *Conn) error {
			if refuse {
				return errors.New("no")
			}
			return nil
		}
		a, b := socketPair()
		p := &raw{t, b}
		p.send("M")
		if c, err := g.upgrade(a, ""); err == nil {
			c.Close()
		}
		eventually(t, "disconnect", func() bool { return g.s.GetTotalConnections() == 0 })
		settle()
		if in, out := atomic.LoadInt32(&x.in), atomic.LoadInt32(&x.out); in != 1 || out != 1 {
			t.Fatalf("refused=%v: exchange told of %d connects and %d disconnects", refuse, in, out)
		}
	}
}
'''),
dict(id="C23-handler-under-lock",prop="C23",needs="the server disconnects a client from a namespace and the client's disconnect handler uses a method of its connection",breaks="the handler runs under the lock of the connected namespaces and deadlocks",
 edits=[("conn.go","""		c.connectedNamespacesMutex.Lock()
		delete(c.connectedNamespaces, msg.Namespace)
		c.connectedNamespacesMutex.Unlock()

		c.writeEmptyReply(msg.wait)

		ns.events.fireEvent(ns, msg)
		return""","""		c.connectedNamespacesMutex.Lock()
		defer c.connectedNamespacesMutex.Unlock()
		delete(c.connectedNamespaces, msg.Namespace)

		c.writeEmptyReply(msg.wait)

		ns.events.fireEvent(ns, msg)
		return""")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	done := make(chan bool, 1)
	h := &recorder{hook: func(n *NSConn, m Message) error {
		if m.Event == OnNamespaceDisconnect {
			done <- n.Conn.Namespace("ns") == nil
		}
		return nil
	}}
	_, p := rawServer(t, "me", Namespaces{"ns": h.events("e")})
	p.send("77;ns;;_OnNamespaceConnect;0;0;")
	p.expect("77;;;;;;")
	p.send("78;ns;;_OnNamespaceDisconnect;0;0;")
	p.expect("78;;;;;;")
	within(t, "the disconnect handler", func() {
		if !<-done {
			t.Error("still connected")
		}
	})
}
'''),
dict(id="C24-join-shares-events",prop="C24",needs="two handlers with the same namespace are joined and the first is used on its own later",breaks="joining adds the second handler's events to the first handler's own map",
 edits=[("conn_handler.go","namespaces[namespace] = clonedEvents","namespaces[namespace] = events")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	f := func(*NSConn, Message) error { return nil }
	a, b := Namespaces{"ns": Events{"x": f}}, Namespaces{"ns": Events{"y": f}}
	j := JoinConnHandlers(a, b).GetNamespaces()
	if len(j["ns"]) != 2 {
		t.Fatalf("joined %v", j)
	}
	if len(a["ns"]) != 1 || len(b["ns"]) != 1 {
		t.Fatalf("the given handlers changed: %d %d", len(a["ns"]), len(b["ns"]))
	}
}
'''),
dict(id="C26-publish-stops",prop="C26",needs="two exchanges, the first of which fails to publish",breaks="the second exchange does not get the message",
 edits=[("stackexchange.go","""	okParent := s.parent.Publish(msgs)
	okCurrent := s.current.Publish(msgs)

	return okParent && okCurrent""","""	return s.parent.Publish(msgs) && s.current.Publish(msgs)""")],
 demo=imp("context","testing")+'''type ex struct {
	ok bool
	n  int
}

func (x *ex) OnConnect(c *Conn) error                                  { return nil }
func (x *ex) OnDisconnect(c *Conn)                                     {}
func (x *ex) Publish([]Message) bool                                   { x.n++; return x.ok }
func (x *ex) Subscribe(*Conn, string)                                  {}
func (x *ex) Unsubscribe(*Conn, string)                                {}
func (x *ex) Ask(context.Context, Message, string) (m Message, e error) { return }
func (x *ex) NotifyAsk(Message, string) error                          { return nil }

func TestDemo(t *testing.T) {
	for _, ok := range []bool{true, false} {
		g := newRig(t, Namespaces{"ns": Events{}})
		a, b := &ex{ok: ok}, &ex{ok: true}
		g.s.UseStackExchange(a)
		g.s.UseStackExchange(b)
		g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e"})
		if a.n != 1 || b.n != 1 {
			t.Fatalf("published %d and %d times", a.n, b.n)
		}
	}
}
'''),
dict(id="C29-judged-before-wait",prop="C29",needs="a message for a namespace arrives while this side's connect to it is in progress",breaks="the message is judged before the connect attempt ended and is lost although the connect succeeds",
 edits=[("conn.go","""	c.processes.get(in.Namespace).Wait() // wait any `askConnect` process (if any) of that "in.Namespace".

	ns := c.Namespace(in.Namespace)
	if ns == nil {
		// if""","""	ns := c.Namespace(in.Namespace)
	c.processes.get(in.Namespace).Wait() // wait any `askConnect` process (if any) of that "in.Namespace".
	if ns == nil {
		// if""")],
 demo=imp("testing","time")+'''func TestDemo(t *testing.T) {
	h := &recorder{hook: func(n *NSConn, m Message) error {
		if m.Event == OnNamespaceConnected {
			time.Sleep(20 * time.Millisecond)
		}
		return nil
	}}
	cl, p := rawServer(t, "me", Namespaces{"ns": h.events("e")})
	for i := 0; i < 5; i++ {
		h.clear()
		done := make(chan error, 1)
		go func() { _, err := cl.Connect(tctx(), "ns"); done <- err }()
		f, _ := p.next()
		tok := ""
		for k := range f {
			if f[k] == ';' {
				tok = f[:k]
				break
			}
		}
		p.send(tok + ";;;;;;")
		p.send(";ns;;e;0;0;right after")
		if err := <-done; err != nil {
			t.Fatal(err)
		}
		eventually(t, "the message that came right after the confirmation", func() bool { return len(h.got("e")) == 1 })
		p.send("78;ns;;_OnNamespaceDisconnect;0;0;")
		p.expect("78;;;;;;")
	}
}
'''),
dict(id="C31-room-emit-namespace",prop="C31",needs="a room of a namespace connection, used to emit after the same room name exists elsewhere",breaks="",edits=[("conn_room.go","x","y")],demo="") if False else
dict(id="C16-close-reentry",prop="C16",needs="Close called from two goroutines, or from a handler run by Close",breaks="the teardown, with its events, runs more than once",
 edits=[("conn.go","if atomic.CompareAndSwapUint32(c.closed, 0, 1) {\n		if !c.should","if atomic.LoadUint32(c.closed) == 0 {\n		defer atomic.StoreUint32(c.closed, 1)\n		if !c.should"),
 ("conn.go","		close(c.closeCh)\n","		if atomic.SwapUint32(c.closed, 1) == 1 {\n			return\n		}\n		close(c.closeCh)\n")],
 demo=imp("testing","time","sync")+'''func TestDemo(t *testing.T) {
	h := &recorder{hook: func(n *NSConn, m Message) error {
		if m.Event == OnNamespaceDisconnect {
			time.Sleep(20 * time.Millisecond)
		}
		return nil
	}}
	c, p := newRig(t, Namespaces{"ns": h.events("e")}).rawClient("me")
	nsUp(t, p, "ns")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); c.Close() }()
	}
	wg.Wait()
	if n := len(h.got(OnNamespaceDisconnect)); n != 1 {
		t.Fatalf("%d disconnect events", n)
	}
}
'''),
]
