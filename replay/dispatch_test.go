package neffos

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"
)

func connectNS(t *testing.T, p *raw, ns string) {
	t.Helper()
	p.send("$77;" + ns + ";;_OnNamespaceConnect;0;0;")
	p.expect("$77;;;;;;")
}

func joinRoom(t *testing.T, p *raw, ns, room string) {
	t.Helper()
	p.send("$78;" + ns + ";" + room + ";_OnRoomJoin;0;0;")
	p.expect("$78;;;;;;")
}

func TestReplay_C03_garbage(t *testing.T) {
	r := rand.New(rand.NewSource(verifSeed()))
	h := &recorder{}
	g := newRig(t, Namespaces{"": h.events("e", OnAnyEvent), "ns": h.events("e", OnAnyEvent)})
	c, p := g.rawClient("x")
	connectNS(t, p, "ns")
	joinRoom(t, p, "ns", "r")
	h.clear()
	// not well-formed
	for i := 0; i < 3000; i++ {
		n := r.Intn(6)
		var parts []string
		for k := 0; k <= n; k++ {
			parts = append(parts, strings.Replace(wireText(r), ";", "", -1))
		}
		b := strings.Join(parts, ";")
		if err := c.HandlePayload(TextMessage, []byte(b)); err == nil {
			t.Fatalf("payload %q was accepted", b)
		}
	}
	p.none()
	if h.count() != 0 || c.Namespace("") != nil || c.Namespace("ns") == nil || c.Namespace("ns").Room("r") == nil {
		t.Fatalf("garbage had an effect: %v", h.names())
	}
	// anything at all must not panic
	cl, q := rawServer(t, "y", Namespaces{"": h.events("e"), "ns": h.events("e")})
	for i := 0; i < 20000; i++ {
		var b []byte
		if r.Intn(2) == 0 {
			b = make([]byte, r.Intn(20))
			r.Read(b)
		} else {
			var parts []string
			for k := 0; k < 7; k++ {
				parts = append(parts, []string{"", "1", "$", "$1", "#", "#1", "!", "1!2", "$!", "ns", "r", "neffos(0x", "neffos(0x1(1))", "_OnRoomJoin", "_OnRoomLeave", "e", "0", "_OnRoomLeft", "_OnNamespaceConnected"}[r.Intn(19)])
			}
			b = []byte(strings.Join(parts, ";"))
		}
		for _, k := range []*Conn{c, cl.conn} {
			k.HandlePayload(TextMessage, b)
		}
		drain(p)
		drain(q)
	}
	for _, b := range []string{"", ";", "A", "H", "M"} {
		cl.conn.HandlePayload(TextMessage, []byte(b))
		c.HandlePayload(TextMessage, []byte(b))
	}
}

func drain(p *raw) {
	for {
		select {
		case <-p.s.in.ch:
		default:
			return
		}
	}
}

func TestReplay_C03_native_disconnected(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"": Events{OnNativeMessage: h.handler()}, "ns": h.events("e")})
	c, p := g.rawClient("x")
	c.HandlePayload(TextMessage, []byte("raw"))
	if h.count() != 0 {
		t.Fatalf("a raw message ran a handler of a namespace not connected")
	}
	p.none()
}

func TestReplay_C04_native(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Events{OnNativeMessage: h.handler()})
	c, p := g.rawClient("x")
	bodies := []string{"hello", "a;b", "1;2;3;4;5;6;7", ";;;;;;;", "M", "Axx", "Hxx", "$1;ns;;_OnNamespaceConnect;0;0;", "$1;;;;1;0;text"}
	for _, b := range bodies {
		p.send(b)
	}
	eventually(t, "delivery of every raw payload", func() bool { return h.count() >= len(bodies) })
	settle()
	for i, x := range h.got(OnNativeMessage) {
		if string(x.msg.Body) != bodies[i] || !x.msg.IsNative || x.msg.Err != nil || x.ns.Conn != c {
			t.Fatalf("raw payload %q arrived as %#v", bodies[i], x.msg)
		}
	}
	if h.count() != len(bodies) {
		t.Fatalf("%d calls for %d payloads", h.count(), len(bodies))
	}
	p.none()
	c.Write(Message{IsNative: true, Body: []byte("a;b;c")})
	p.expect("a;b;c")

	// not enabled
	h2 := &recorder{}
	g2 := newRig(t, Namespaces{"": h2.events("e", OnAnyEvent), "ns": Events{OnNativeMessage: h2.handler(), "e": h2.handler()}})
	c2, p2 := g2.rawClient("x")
	connectNS(t, p2, "")
	connectNS(t, p2, "ns")
	h2.clear()
	for _, b := range []string{"raw", "a;b", "x;y;z"} {
		c2.HandlePayload(TextMessage, []byte(b))
	}
	if h2.count() != 0 {
		t.Fatalf("a raw payload reached %v", h2.names())
	}

	// enabled next to others
	h3 := &recorder{}
	e3 := h3.events("e")
	e3[OnNativeMessage] = h3.handler()
	g3 := newRig(t, Namespaces{"": e3, "ns": h3.events("e")})
	c3, p3 := g3.rawClient("x")
	if c3.HandlePayload(TextMessage, []byte("early")); len(h3.got(OnNativeMessage)) != 0 {
		t.Fatalf("raw payload delivered before the namespace is connected")
	}
	connectNS(t, p3, "")
	h3.clear()
	p3.send("raw;1")
	p3.send(";;;e;0;0;body")
	eventually(t, "both deliveries", func() bool { return h3.count() >= 2 })
	if n := h3.got(OnNativeMessage); len(n) != 1 || string(n[0].msg.Body) != "raw;1" || !n[0].msg.IsNative {
		t.Fatalf("raw next to events: %v", h3.names())
	}
	if n := h3.got("e"); len(n) != 1 || string(n[0].msg.Body) != "body" || n[0].msg.IsNative {
		t.Fatalf("event next to raw: %v", h3.names())
	}
	// only one of several events, or not the empty namespace: not native only
	for _, nss := range []Namespaces{{"": Events{OnNativeMessage: h.handler(), "x": h.handler()}}, {"": Events{OnNativeMessage: h.handler()}, "b": Events{}}, {"ns": Events{OnNativeMessage: h.handler()}}} {
		g := newRig(t, nss)
		a, b := socketPair()
		g.upgrade(a, "id")
		q := &raw{t, b}
		q.send("M")
		q.expect("Aid")
	}
}

func TestReplay_C05_joined_only(t *testing.T) {
	for _, client := range []bool{false, true} {
		h := &recorder{}
		nss := Namespaces{"": h.events("e"), "ns": h.events("e"), "other": h.events("e")}
		var c *Conn
		var p *raw
		if client {
			var cl *Client
			cl, p = rawServer(t, "me", nss)
			c = cl.conn
		} else {
			c, p = newRig(t, nss).rawClient("me")
		}
		if c.Write(Message{Namespace: "ns", Event: "e"}) || c.Write(Message{Event: "e"}) {
			t.Fatalf("wrote to a namespace not connected")
		}
		connectNS2(t, p, client, "ns")
		if c.Write(Message{Namespace: "ns", Room: "r", Event: "e"}) || c.Write(Message{Namespace: "other", Event: "e"}) || c.Write(Message{Namespace: "ns", Room: "r", Event: OnRoomLeave}) || c.Write(Message{Namespace: "ns", Room: "r", Event: OnRoomJoined}) {
			t.Fatalf("wrote to a room or namespace not joined")
		}
		for _, m := range []Message{
			{Namespace: "ns", Room: "r", Event: "e"}, {Namespace: "other", Event: "e"}, {Event: "e"}, {Namespace: "other", Room: "r", Event: OnRoomJoin},
			{Namespace: "ns", Room: "r", Event: OnRoomLeave}, {Namespace: "ns", Room: "r", Event: "e", Err: errors.New("x")}, {Namespace: "ns", Room: "r", Event: "e", isNoOp: true},
			{Namespace: "ns", Room: "r", Event: "e", Body: []byte("b"), SetBinary: true}, {Namespace: "ns", Room: "r", Event: "e", IsNative: true}, {Namespace: "other", Event: "e", IsForced: true, IsLocal: true},
			{Namespace: "ns", Room: "r", Event: "e", To: c.ID()}, {Namespace: "ns", Room: "r", Event: "e", FromStackExchange: true}, {Namespace: "other", Event: "e", wait: "5", Err: errors.New("x")}} {
			if _, err := c.Ask(tctx(), m); err != ErrWrite {
				t.Fatalf("request %#v not joined: %v", m, err)
			}
			if c.Write(m) {
				t.Fatalf("wrote %#v, not joined", m)
			}
		}
		p.none()
		tok := "$5"
		if client {
			tok = "5"
		}
		p.send(tok + ";ns;r;_OnRoomJoin;0;0;")
		p.expect(tok + ";;;;;;")
		for _, bin := range []bool{false, true} {
			for _, room := range []string{"", "r"} {
				if !c.Write(Message{Namespace: "ns", Room: room, Event: "e", Body: []byte("b;1"), SetBinary: bin}) {
					t.Fatalf("a permitted message was refused")
				}
				p.expect(";ns;" + room + ";e;0;0;b;1")
			}
		}
		s := c.socket.(*memSocket).sent()
		if s[len(s)-1].typ != BinaryMessage || s[len(s)-3].typ != TextMessage {
			t.Fatalf("frame kinds: %v", s)
		}
		if !c.Write(Message{Namespace: "ns", Room: "zz", Event: OnRoomJoin}) || !c.Write(Message{Namespace: "ns", Room: "zz", Event: OnRoomLeft}) {
			t.Fatalf("room notices were refused")
		}
		drain(p)
		c.socket.(*memSocket).mu.Lock()
		c.socket.(*memSocket).failNext = errors.New("flaky")
		c.socket.(*memSocket).mu.Unlock()
		if c.Write(Message{Namespace: "ns", Event: "e"}) {
			t.Fatalf("a failed write was reported as sent")
		}
		if c.IsClosed() {
			t.Fatalf("a failed write closed the connection")
		}
		id := c.serverConnID
		if client {
			id = c.id
		}
		if c.Write(Message{Namespace: "ns", Event: "e", FromExplicit: id}) {
			t.Fatalf("wrote to the excluded sender")
		}
		if !c.Write(Message{Namespace: "ns", Event: "e", FromExplicit: "neffos(0xother)"}) {
			t.Fatalf("another sender's message was refused")
		}
		p.expect(";ns;;e;0;0;")
		c.Close()
		if c.Write(Message{Namespace: "ns", Event: "e"}) || c.Write(Message{Namespace: "ns", Event: OnNamespaceConnect}) {
			t.Fatalf("wrote after close")
		}
		p.none()
	}
}

func connectNS2(t *testing.T, p *raw, client bool, ns string) {
	t.Helper()
	if !client {
		connectNS(t, p, ns)
		return
	}
	p.send("77;" + ns + ";;_OnNamespaceConnect;0;0;")
	p.expect("77;;;;;;")
}

func TestReplay_C07_one_handler(t *testing.T) {
	for _, client := range []bool{false, true} {
		a, b, u := &recorder{}, &recorder{}, &recorder{}
		nss := Namespaces{"ns": {"e": a.handler(), "f": u.handler(), OnAnyEvent: b.handler()}, "bare": {"e": u.handler()}, "off": {"e": u.handler(), OnAnyEvent: u.handler()}}
		var c *Conn
		var p *raw
		if client {
			var cl *Client
			cl, p = rawServer(t, "me", nss)
			c = cl.conn
		} else {
			c, p = newRig(t, nss).rawClient("me")
		}
		connectNS2(t, p, client, "ns")
		connectNS2(t, p, client, "bare")
		a.clear()
		b.clear()
		u.clear()
		p.send(";ns;r;e;0;0;1")
		p.send(";ns;;unknown;0;0;2")
		p.send(";bare;;unknown;0;0;3")
		p.send(";off;;e;0;0;4")
		p.send(";ns;;_OnRoomJoined;0;0;5")
		eventually(t, "handling", func() bool { return a.count() >= 1 && b.count() >= 2 })
		settle()
		if a.count() != 1 || b.count() != 2 || u.count() != 0 {
			t.Fatalf("calls: %v %v %v", a.names(), b.names(), u.names())
		}
		x := a.list[0]
		if x.ns != c.Namespace("ns") || x.msg.IsLocal || x.msg.Room != "r" || string(x.msg.Body) != "1" || x.msg.Namespace != "ns" {
			t.Fatalf("handler got %#v", x)
		}
		if y := b.list[0]; y.msg.Event != "unknown" || y.ns != c.Namespace("ns") || y.msg.IsLocal {
			t.Fatalf("catch-all got %#v", y)
		}
		p.none()
	}
}

func TestReplay_C08_answers(t *testing.T) {
	for _, client := range []bool{false, true} {
		h := &recorder{}
		nss := Namespaces{"ns": h.events("ok", "fail", "reply"), "off": h.events("ok")}
		h.fail("fail", errors.New("no;way"))
		h.fail("reply", Reply([]byte("the;body")))
		var p *raw
		var c *Conn
		tok := "$9"
		if client {
			var cl *Client
			cl, p = rawServer(t, "me", nss)
			c = cl.conn
			tok = "9"
		} else {
			c, p = newRig(t, nss).rawClient("me")
		}
		connectNS2(t, p, client, "ns")
		for i := 0; i < 3; i++ {
			p.send(tok + ";ns;;ok;0;0;x")
			p.none()
			p.send(tok + ";ns;;fail;0;0;x")
			p.expect(tok + ";ns;;fail;1;0;no;way")
			p.send(tok + ";ns;;reply;0;0;x")
			p.expect(tok + ";ns;;reply;0;0;the;body")
			p.send(tok + ";off;;ok;0;0;x")
			p.expect(tok + ";off;;ok;1;0;bad namespace")
			p.send(tok + ";nowhere;;ok;0;0;x")
			p.expect(tok + ";nowhere;;ok;1;0;bad namespace")
			p.send(tok + ";off;r;_OnRoomJoin;0;0;")
			p.expect(tok + ";off;r;_OnRoomJoin;1;0;bad namespace")
			p.send(";off;;ok;0;0;x")
			p.none()
		}
		_ = c
	}
	// in a room
	h := &recorder{}
	h.fail("fail", errors.New("no"))
	_, p := newRig(t, Namespaces{"ns": h.events("fail")}).rawClient("x")
	connectNS(t, p, "ns")
	joinRoom(t, p, "ns", "r")
	p.send("$4;ns;r;fail;0;0;x")
	p.expect("$4;ns;r;fail;1;0;no")
	p.none()
}

func TestReplay_C09_replies(t *testing.T) {
	for _, client := range []bool{false, true} {
		h := &recorder{}
		nss := Namespaces{"ns": h.events("e", OnAnyEvent)}
		var c *Conn
		var p *raw
		if client {
			var cl *Client
			cl, p = rawServer(t, "me", nss)
			c = cl.conn
		} else {
			c, p = newRig(t, nss).rawClient("me")
		}
		connectNS2(t, p, client, "ns")
		h.clear()
		type res struct {
			m   Message
			err error
		}
		var outs []chan res
		var toks []string
		for i := 0; i < 5; i++ {
			o := make(chan res, 1)
			outs = append(outs, o)
			go func() {
				m, err := c.Ask(tctx(), Message{Namespace: "ns", Event: "e"})
				o <- res{m, err}
			}()
			f, _ := p.next()
			toks = append(toks, f[:strings.Index(f, ";")])
		}
		unknown := "123"
		if client {
			unknown = "$123"
		}
		p.send(unknown + ";ns;;e;0;0;nobody")
		for i := 4; i >= 0; i-- {
			p.send(fmt.Sprintf("%s;ns;;e;0;0;r%d", toks[i], i))
			p.send(fmt.Sprintf("%s;ns;;e;0;0;dup%d", toks[i], i))
			p.send(fmt.Sprintf("%s;ns;;e;0;0;dup%d", toks[i], i))
		}
		for i, o := range outs {
			select {
			case x := <-o:
				if x.err != nil || string(x.m.Body) != fmt.Sprintf("r%d", i) {
					t.Fatalf("request %d got %q %v", i, x.m.Body, x.err)
				}
			case <-time.After(patience):
				t.Fatalf("request %d was not answered", i)
			}
		}
		for i := range toks {
			p.send(fmt.Sprintf("%s;ns;;e;0;0;late%d", toks[i], i))
			p.send(fmt.Sprintf("%s;ns;;_OnNamespaceDisconnect;0;0;", toks[i]))
		}
		p.send(";ns;;e;0;0;event")
		eventually(t, "handling after the replies", func() bool { return h.count() > 0 })
		settle()
		if h.count() != 1 || string(h.list[0].msg.Body) != "event" || c.Namespace("ns") == nil {
			t.Fatalf("replies ran handlers: %v", h.names())
		}
		p.none()
	}
}

func TestReplay_C09_server_replies(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e", OnAnyEvent)})
	_, p := g.rawClient("a")
	_, q := g.rawClient("b")
	connectNS(t, p, "ns")
	connectNS(t, q, "ns")
	h.clear()
	for i := 0; i < 20; i++ {
		out := make(chan Message, 1)
		go func() {
			m, _ := g.s.Ask(tctx(), Message{Namespace: "ns", Event: "e"})
			out <- m
		}()
		f, _ := p.next()
		f2, _ := q.next()
		if f != f2 {
			t.Fatalf("server request differs: %q %q", f, f2)
		}
		tok := f[:strings.Index(f, ";")]
		p.send(tok + ";ns;;e;0;0;first")
		for k := 0; k < 3; k++ {
			q.send(tok + ";ns;;e;0;0;first")
			p.send(tok + ";ns;;e;0;0;first")
		}
		within(t, "Server.Ask", func() {
			if m := <-out; string(m.Body) != "first" {
				t.Fatalf("server request got %q", m.Body)
			}
		})
	}
	p.send(";ns;;e;0;0;event")
	eventually(t, "handling after the replies", func() bool { return h.count() > 0 })
	settle()
	if h.count() != 1 {
		t.Fatalf("replies ran handlers: %v", h.names())
	}
	g.s.waitingMessagesMutex.Lock()
	defer g.s.waitingMessagesMutex.Unlock()
	if n := len(g.s.waitingMessages); n != 0 {
		t.Fatalf("%d requests still pending", n)
	}
}

func pendingOf(c *Conn) int {
	c.waitingMessagesMutex.Lock()
	defer c.waitingMessagesMutex.Unlock()
	return len(c.waitingMessages)
}

func TestReplay_C10_ask(t *testing.T) {
	for _, client := range []bool{false, true} {
		h := &recorder{}
		nss := Namespaces{"ns": h.events("e")}
		var c *Conn
		var p *raw
		if client {
			var cl *Client
			cl, p = rawServer(t, "me", nss)
			c = cl.conn
		} else {
			c, p = newRig(t, nss).rawClient("me")
		}
		connectNS2(t, p, client, "ns")
		// the reply arrives while the request is still being written
		c.socket.(*memSocket).onWrite = func(f frame) {
			tok := string(f.b[:strings.Index(string(f.b), ";")])
			if pendingOf(c) != 1 {
				t.Errorf("request %s sent while not pending", tok)
			}
			c.HandlePayload(TextMessage, []byte(tok+";ns;;e;0;0;fast"))
		}
		within(t, "Ask with an immediate reply", func() {
			m, err := c.Ask(tctx(), Message{Namespace: "ns", Event: "e"})
			if err != nil || string(m.Body) != "fast" {
				t.Errorf("immediate reply: %q %v", m.Body, err)
			}
		})
		c.socket.(*memSocket).onWrite = nil
		drain(p)
		if n := pendingOf(c); n != 0 {
			t.Fatalf("%d requests pending after the reply", n)
		}
		// an error reply
		go func() { f, _ := p.next(); p.send(f[:strings.Index(f, ";")] + ";ns;;e;1;0;oops") }()
		within(t, "Ask with an error", func() {
			if _, err := c.Ask(tctx(), Message{Namespace: "ns", Event: "e"}); err == nil || err.Error() != "oops" {
				t.Errorf("error reply: %v", err)
			}
		})
		if n := pendingOf(c); n != 0 {
			t.Fatalf("%d requests pending after an error", n)
		}
		// refused
		for _, m := range []Message{{Namespace: "off", Event: "e"}, {Namespace: "ns", Room: "r", Event: "e"}} {
			within(t, "refused Ask", func() {
				if _, err := c.Ask(nil, m); err == nil {
					t.Errorf("refused request succeeded")
				}
			})
			if n := pendingOf(c); n != 0 {
				t.Fatalf("%d requests pending after a refusal", n)
			}
		}
		// context
		for _, k := range []int{0, 1, 2} {
			ctx, cancel := context.WithCancel(context.Background())
			switch k {
			case 0:
				cancel()
			case 1:
				go func() { time.Sleep(5 * time.Millisecond); cancel() }()
			case 2:
				ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Hour))
			}
			within(t, "Ask with an ended context", func() {
				if _, err := c.Ask(ctx, Message{Namespace: "ns", Event: "e"}); err == nil {
					t.Errorf("cancelled request succeeded")
				}
			})
			cancel()
			if n := pendingOf(c); n != 0 {
				t.Fatalf("%d requests pending after the context ended", n)
			}
		}
		drain(p)
		// close
		done := make(chan error, 3)
		for i := 0; i < 3; i++ {
			go func() { _, err := c.Ask(nil, Message{Namespace: "ns", Event: "e"}); done <- err }()
		}
		eventually(t, "pending requests", func() bool { return pendingOf(c) == 3 })
		for i := 0; i < 3; i++ {
			p.next()
		}
		c.Close()
		for i := 0; i < 3; i++ {
			select {
			case err := <-done:
				if err == nil {
					t.Fatalf("request on a closed connection succeeded")
				}
			case <-time.After(patience):
				t.Fatalf("request on a closed connection never returned")
			}
		}
		within(t, "Ask after close", func() {
			if _, err := c.Ask(nil, Message{Namespace: "ns", Event: "e"}); err == nil {
				t.Errorf("request after close succeeded")
			}
		})
		if n := pendingOf(c); n != 0 {
			t.Fatalf("%d requests pending after close", n)
		}
	}
}

func TestReplay_C10_server_ask(t *testing.T) {
	g := newRig(t, Namespaces{"ns": Events{}})
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
	defer cancel()
	within(t, "Server.Ask", func() {
		if _, err := g.s.Ask(ctx, Message{Namespace: "ns", Event: "e"}); err == nil {
			t.Errorf("unanswered request succeeded")
		}
	})
	g.s.waitingMessagesMutex.Lock()
	if n := len(g.s.waitingMessages); n != 0 {
		t.Fatalf("%d requests still pending", n)
	}
	g.s.waitingMessagesMutex.Unlock()
	_, p := g.rawClient("a")
	connectNS(t, p, "ns")
	go func() { f, _ := p.next(); p.send(f[:strings.Index(f, ";")] + ";ns;;e;1;0;oops") }()
	within(t, "Server.Ask", func() {
		if _, err := g.s.Ask(tctx(), Message{Namespace: "ns", Event: "e"}); err == nil || err.Error() != "oops" {
			t.Errorf("error reply: %v", err)
		}
	})
}
