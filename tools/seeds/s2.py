P='package neffos\n\nimport (\n%s)\n\n'
def imp(*a): return P % ''.join('\t"%s"\n'%x for x in a)
SEEDS=[
dict(id="C01-empty-binary-as-text",prop="C01",needs="a binary frame whose message has no body (a signal, an empty request)",breaks="the message arrives marked as text, so its answer goes out as text",
 edits=[("message.go","SetBinary:         msgTyp == BinaryMessage,","SetBinary:         msgTyp == BinaryMessage && len(body) > 0,")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	for _, body := range []string{"x", ""} {
		m := DeserializeMessage(BinaryMessage, Message{Namespace: "ns", Event: "e", Body: []byte(body)}.Serialize(), false, false)
		if !m.SetBinary || string(m.Body) != body {
			t.Fatalf("%q arrived as %#v", body, m)
		}
	}
}
'''),
dict(id="C03-empty-frame-before-ack",prop="C03",needs="an empty frame sent before the handshake",breaks="the reader panics and takes the whole process down",
 edits=[("conn.go","""		if len(b) == 0 {
			continue
		}

		if !c.isAcknowledged() {
			if !c.handleACK(msgTyp, b) {
				return
			}
			continue
		}
""","""		if !c.isAcknowledged() {
			if !c.handleACK(msgTyp, b) {
				return
			}
			continue
		}

		if len(b) == 0 {
			continue
		}
""")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e")})
	a, b := socketPair()
	c, err := g.upgrade(a, "me")
	if err != nil {
		t.Fatal(err)
	}
	p := &raw{t, b}
	p.send("")
	p.send("M")
	p.expect("A" + c.ID())
	p.send("")
	nsUp(t, p, "ns")
}
'''),
dict(id="C04-native-by-name",prop="C04",needs="a well-formed message that names the event _OnNativeMessage, on a side that has not enabled native messages",breaks="the message is treated as a raw one: it is marked native, and an error answer to it goes out without its fields",
 edits=[("message.go","IsNative:          allowNativeMessages && event == OnNativeMessage,","IsNative:          event == OnNativeMessage,")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	_, p := newRig(t, Namespaces{"ns": h.events("e", OnAnyEvent)}).rawClient("me")
	nsUp(t, p, "ns")
	h.clear()
	p.send(";ns;;_OnNativeMessage;0;0;x")
	eventually(t, "the event", func() bool { return h.count() == 1 })
	if DeserializeMessage(TextMessage, []byte(";ns;;_OnNativeMessage;0;0;x"), false, false).IsNative {
		t.Fatal("native although it is not enabled")
	}
}
'''),
dict(id="C07-any-event-after-nil",prop="C07",needs="an event registered with its own handler next to a handler for any event",breaks="the message runs both handlers",
 edits=[("conn_handler.go","""	if h, ok := e[msg.Event]; ok {
		return h(c, msg)
	}

	if h, ok := e[OnAnyEvent]; ok {
""","""	if h, ok := e[msg.Event]; ok {
		if err := h(c, msg); err != nil || IsSystemEvent(msg.Event) {
			return err
		}
	}

	if h, ok := e[OnAnyEvent]; ok {
""")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	h, any := &recorder{}, &recorder{}
	ev := h.events("e")
	ev[OnAnyEvent] = any.handler()
	_, p := newRig(t, Namespaces{"ns": ev}).rawClient("me")
	nsUp(t, p, "ns")
	h.clear()
	any.clear()
	p.send(";ns;;e;0;0;x")
	p.send(";ns;;other;0;0;y")
	eventually(t, "the other event", func() bool { return any.count() > 0 && len(h.got("e")) == 1 })
	settle()
	if n := any.count(); n != 1 {
		t.Fatalf("the handler for any event ran %d times", n)
	}
}
'''),
dict(id="C09-client-token-on-server",prop="C09",needs="the client answers a request of a handler with a token that begins with the confirmation mark",breaks="a server-side request is answered by a message that carries another token",
 edits=[("conn.go","""		ch, ok := c.waitingMessages[msg.wait]
		c.waitingMessagesMutex.RUnlock()
		if ok {""","""		ch, ok := c.waitingMessages[strings.TrimLeft(msg.wait, "#")]
		c.waitingMessagesMutex.RUnlock()
		if ok {"""),("conn.go",'''	"errors"
''','''	"errors"
	"strings"
''')],
 demo=imp("context","strings","testing","time")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	c, p := newRig(t, Namespaces{"ns": h.events("e")}).rawClient("me")
	nsUp(t, p, "ns")
	calm(t, c)
	got := make(chan string, 1)
	go func() {
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
		defer cancel()
		m, err := c.Ask(ctx, Message{Namespace: "ns", Event: "e"})
		if err != nil {
			got <- err.Error()
			return
		}
		got <- string(m.Body)
	}()
	q, _ := p.next()
	tok := q[:strings.Index(q, ";")]
	p.send("#" + tok + ";ns;;e;0;0;wrong")
	settle()
	p.send(tok + ";ns;;e;0;0;right")
	if s := <-got; s != "right" {
		t.Fatalf("answered with %q", s)
	}
}
'''),
dict(id="C12-connected-not-answered",prop="C12",needs="both sides connect to the same namespace at the same time: the second request finds it connected",breaks="the other side's connect is never answered and waits until its context ends",
 edits=[("conn.go","""	// must give answer even a noOp if already connected.
	if msg.wait == "" || msg.isNoOp {
		return
	}

	ns := c.Namespace(msg.Namespace)
	if ns != nil {
		c.writeEmptyReply(msg.wait)
		return
	}
""","""	if msg.wait == "" || msg.isNoOp {
		return
	}

	ns := c.Namespace(msg.Namespace)
	if ns != nil {
		return
	}
""")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	_, p := newRig(t, Namespaces{"ns": h.events("e")}).rawClient("me")
	nsUp(t, p, "ns")
	nsUp(t, p, "ns")
}
'''),
dict(id="C15-unknown-room-not-answered",prop="C15",needs="the two sides leave the same room at the same time: the second request finds it left",breaks="the other side's leave is never answered and waits until its context ends",
 edits=[("conn_namespace.go","""	if room == nil {
		ns.Conn.writeEmptyReply(msg.wait)
		return
	}
""","""	if room == nil {
		return
	}
""")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	_, p := newRig(t, Namespaces{"ns": h.events("e")}).rawClient("me")
	nsUp(t, p, "ns")
	roomUp(t, p, "ns", "r")
	for i := 0; i < 2; i++ {
		p.send("$5;ns;r;_OnRoomLeave;0;0;")
		p.expect("$5;;;;;;")
	}
}
'''),
dict(id="C18-refused-stays-open",prop="C18",needs="a client that does not close by itself after being refused",breaks="the server keeps the refused connection open and goes on reading from it",
 edits=[("conn.go","""			c.write(append(ackNotOKBinaryB, []byte(err.Error())...), false)
			return false
		}
""","""			return c.write(append(ackNotOKBinaryB, []byte(err.Error())...), false)
		}
""")],
 demo=imp("errors","testing")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e")})
	g.s.OnConnect = func(c *Conn) error { return errors.New("no") }
	a, b := socketPair()
	g.upgrade(a, "me")
	p := &raw{t, b}
	p.send("M")
	p.expect("Hno")
	eventually(t, "the refused connection to be closed", a.isShut)
}
'''),
dict(id="C20-ready-before-verdict",prop="C20",needs="a look at the readiness between two statements of unwait",breaks="a connection looks ready and accepted before the error it is refused with is set",
 edits=[("waiter_once.go","""	w.err = err
	atomic.StoreUint32(w.ready, 1)
""","""	atomic.StoreUint32(w.ready, 1)
	w.err = err
""")],race=True,
 demo=imp("errors","runtime","testing")+'''func TestDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		w := newWaiterOnce()
		no := errors.New("no")
		done := make(chan error)
		go func() {
			for !w.isReady() {
				runtime.Gosched()
			}
			done <- w.err
		}()
		w.unwait(no)
		if err := <-done; err != no {
			t.Fatal(err)
		}
	}
}
'''),
dict(id="C21-increment-lost",prop="C21",needs="two goroutines increment the same key at the same time",breaks="an increment is lost",
 edits=[("conn.go","""	c.storeMutex.Lock()
	defer c.storeMutex.Unlock()

	if c.store == nil {
		c.store = make(map[string]interface{})
	}

	intValue, _ := c.store[key].(int) // if not an integer then override.
	intValue += n
""","""	intValue, _ := c.Get(key).(int) // if not an integer then override.
	intValue += n

	c.storeMutex.Lock()
	defer c.storeMutex.Unlock()

	if c.store == nil {
		c.store = make(map[string]interface{})
	}

""")],
 demo=imp("sync","testing")+'''func TestDemo(t *testing.T) {
	c := &Conn{}
	const n, k = 8, 20000
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < k; j++ {
				c.Increment("x")
			}
		}()
	}
	wg.Wait()
	if v := c.Get("x"); v != n*k {
		t.Fatalf("%v increments instead of %d", v, n*k)
	}
}
'''),
dict(id="C22-rooms-sized-outside",prop="C22",needs="a room is joined or left while its connection's rooms are listed",breaks="the map of rooms is read without its lock: a data race, and an index out of range when a room is joined in between",
 edits=[("conn_namespace.go","""	ns.roomsMutex.RLock()
	rooms := make([]*Room, len(ns.rooms))
""","""	rooms := make([]*Room, len(ns.rooms))
	ns.roomsMutex.RLock()
""")],race=True,
 demo=imp("strconv","testing")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	c, p := newRig(t, Namespaces{"ns": h.events("e")}).rawClient("me")
	nsUp(t, p, "ns")
	ns := c.Namespace("ns")
	stop := make(chan struct{})
	go func() {
		defer close(stop)
		for i := 0; i < 100; i++ {
			roomUp(t, p, "ns", strconv.Itoa(i))
		}
	}()
	for {
		select {
		case <-stop:
			if n := len(ns.Rooms()); n != 100 {
				t.Fatal(n)
			}
			return
		default:
			for _, r := range ns.Rooms() {
				_ = r.Name
			}
		}
	}
}
'''),
dict(id="C24-empty-namespace-lost",prop="C24",needs="a namespace declared without any event",breaks="joining the handlers loses the namespace, so nobody can connect to it",
 edits=[("conn_handler.go","				if events == nil {","				if len(events) == 0 {")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	nss := JoinConnHandlers(Namespaces{"ns": Events{}, "two": Events{"e": nil}}, Namespaces{"three": Events{}}).GetNamespaces()
	for _, n := range []string{"ns", "two", "three"} {
		if nss[n] == nil {
			t.Fatalf("%s is lost", n)
		}
	}
}
'''),
dict(id="C25-trim-cutset",prop="C25",needs="a method whose name goes on, after the prefix, with letters of the prefix",breaks="the event is registered under the wrong name",
 edits=[("conn_handler.go","				return methodName[len(prefixToTrim):], true","				return strings.TrimLeft(methodName, prefixToTrim), true")],
 demo=imp("testing")+'''type demoCtl struct{}

func (*demoCtl) OnChat(*NSConn, Message) error   { return nil }
func (*demoCtl) OnOnline(*NSConn, Message) error { return nil }

func TestDemo(t *testing.T) {
	ev := NewStruct(new(demoCtl)).SetEventMatcher(EventTrimPrefixMatcher("On")).Events()
	if ev["Chat"] == nil || ev["Online"] == nil || len(ev) != 2 {
		t.Fatalf("%v", ev)
	}
}
'''),
dict(id="C27-marked-token",prop="C27",needs="a server request through an exchange (Ask on a server that scales out)",breaks="the exchange waits for the marked token, but the reply is notified without the mark, so no reply is ever delivered",
 edits=[("conn.go","return c.server.StackExchange.NotifyAsk(msg, msg.wait)","return c.server.StackExchange.NotifyAsk(msg, genWaitStackExchange(msg.wait))")],
 demo=imp("context","sync","testing")+'''type demoExc struct {
	StackExchange
	mu  sync.Mutex
	tok []string
}

func (e *demoExc) OnConnect(*Conn) error             { return nil }
func (e *demoExc) OnDisconnect(*Conn)                {}
func (e *demoExc) Publish([]Message) bool            { return true }
func (e *demoExc) Subscribe(*Conn, string)           {}
func (e *demoExc) Unsubscribe(*Conn, string)         {}
func (e *demoExc) Ask(ctx context.Context, m Message, token string) (Message, error) {
	return m, nil
}
func (e *demoExc) NotifyAsk(m Message, token string) error {
	e.mu.Lock()
	e.tok = append(e.tok, token)
	e.mu.Unlock()
	return nil
}

func TestDemo(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e")})
	e := &demoExc{}
	g.s.StackExchange = e
	_, p := g.rawClient("me")
	nsUp(t, p, "ns")
	p.send("1!23;ns;;e;0;0;x")
	eventually(t, "the reply", func() bool { e.mu.Lock(); defer e.mu.Unlock(); return len(e.tok) == 1 && e.tok[0] == "123" })
}
'''),
dict(id="C30-subscribe-late",prop="C30",needs="a broadcast between the moment a connection is counted and the moment its delivery goroutine runs",breaks="that broadcast is never delivered to the connection",
 edits=[("server.go","""		msgs, next, ok := entry.waitUntilClosed(c.closeCh)
		if !ok || !publishMessages(c, msgs) {
			return
		}

		entry = next
""","""		msgs, _, ok := entry.waitUntilClosed(c.closeCh)
		if !ok || !publishMessages(c, msgs) {
			return
		}

		entry = s.broadcaster.subscribe()
""")] if False else [],
 demo=''),
dict(id="C31-members-by-id",prop="C31",needs="a connection that is connected but not to the asked namespace",breaks="the query reports connections that are not connected to the namespace (with no NSConn)",
 edits=[("server.go","""		if ns := c.Namespace(namespace); ns != nil {
			conns[ns.Conn.ID()] = ns
		}
""","""		conns[c.ID()] = c.Namespace(namespace)
""")],
 demo=imp("testing")+'''func TestDemo(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e"), "two": h.events("e")})
	_, p := g.rawClient("a")
	_, q := g.rawClient("b")
	nsUp(t, p, "ns")
	nsUp(t, q, "two")
	settle()
	if m := g.s.GetConnectionsByNamespace("ns"); len(m) != 1 || m["a"] == nil {
		t.Fatalf("%v", m)
	}
}
'''),
]
SEEDS=[s for s in SEEDS if s['edits']]
