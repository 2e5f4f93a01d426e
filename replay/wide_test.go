package neffos

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
)

// rooms of the same namespace do not stand for each other, and a closed connection takes nothing.
func TestReplay_C05_wide(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"ns": h.events("e"), "two": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		connectNS2(t, p, client, "two")
		p.send(tok("5") + ";ns;mine;_OnRoomJoin;0;0;")
		p.expect(tok("5") + ";;;;;;")
		for _, m := range []Message{{Namespace: "ns", Room: "r", Event: "e"}, {Namespace: "ns", Room: "min", Event: "e"}, {Namespace: "ns", Room: "mine ", Event: "e"}, {Namespace: "ns", Room: "Mine", Event: "e"}, {Namespace: "two", Room: "mine", Event: "e"}, {Namespace: "ns", Room: "r", Event: OnRoomJoined}} {
			for _, forced := range []bool{false, true} {
				m.IsForced = forced
				if c.Write(m) {
					t.Fatalf("wrote %#v, not joined", m)
				}
			}
		}
		p.none()
		if !c.Write(Message{Namespace: "ns", Room: "mine", Event: "e"}) {
			t.Fatal("a joined room was refused")
		}
		p.expect(";ns;mine;e;0;0;")
		s := c.socket.(*memSocket)
		c.Close()
		s.mu.Lock()
		n := len(s.timeouts)
		s.mu.Unlock()
		for _, ev := range []string{"e", OnNamespaceConnect, OnNamespaceDisconnect, OnRoomJoin, OnRoomLeft} {
			for _, m := range []Message{{Namespace: "ns", Event: ev, IsForced: true}, {Namespace: "ns", Room: "mine", Event: ev, IsForced: true, IsLocal: true}, {Namespace: "ns", Event: ev, Err: errors.New("x")}, {Namespace: "ns", Event: ev, IsNative: true, Body: []byte("b")}, {Namespace: "ns", Event: ev, isNoOp: true}, {Namespace: "ns", Event: ev, wait: "7"}} {
				if c.Write(m) {
					t.Fatalf("wrote %#v after close", m)
				}
			}
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		if len(s.timeouts) != n {
			t.Fatal("the socket was written after close")
		}
	})
}

// a connection that excludes itself excludes only itself, even of others with its id
func TestReplay_C06_same_id(t *testing.T) {
	for _, sync := range []bool{false, true} {
		h := &recorder{}
		g := newRig(t, Namespaces{"ns": h.events("e")})
		g.s.SyncBroadcaster = sync
		a, p := g.rawClient("same")
		b, q := g.rawClient("same")
		connectNS(t, p, "ns")
		connectNS(t, q, "ns")
		for i, ex := range []fmt.Stringer{a, b, a.Namespace("ns"), b.Namespace("ns")} {
			g.s.Broadcast(ex, Message{Namespace: "ns", Event: "e"})
			in, out := q, p
			if i%2 == 1 {
				in, out = p, q
			}
			in.expect(";ns;;e;0;0;")
			in.none()
			out.none()
		}
		g.s.Close()
	}
}

// what is published through an exchange is delivered by the exchange only
func TestReplay_C06_exchange_only(t *testing.T) {
	for _, bad := range []bool{false, true} {
		g, _, ss := nrig(t, false, 2)
		x := &exLog{bad: bad}
		g.s.UseStackExchange(x)
		g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("b")})
		g.s.Broadcast(Exclude("c0"), Message{Namespace: "ns", Event: "e", Body: []byte("c")})
		settle()
		if got := x.got("publish"); len(got) != 2 {
			t.Fatalf("published %v", got)
		}
		for k, s := range ss {
			if got := bodiesOf(s, "ns"); len(got) != 0 {
				t.Fatalf("failing=%v: connection %d got %v besides the exchange", bad, k, got)
			}
		}
		g.s.Close()
	}
}

func TestReplay_C07_flags(t *testing.T) {
	h, any := &recorder{}, &recorder{}
	bothSides(t, Namespaces{"ns": Events{"e": h.handler(), OnAnyEvent: any.handler()}}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		h.clear()
		any.clear()
		for i, f := range []string{"0;0;x", "0;1;", "1;0;oops", "1;1;oops", "0;0;"} {
			p.send(";ns;;e;" + f)
			p.send(";ns;r;other;" + f)
			eventually(t, "handling of "+f, func() bool { return h.count() == i+1 && any.count() == i+1 })
		}
		settle()
		if h.count() != 5 || any.count() != 5 {
			t.Fatalf("calls %v, catch-all %v", h.names(), any.names())
		}
		c.Close()
	})
}

func TestReplay_C08_wide(t *testing.T) {
	h := &recorder{}
	fails := map[string]error{"eof": io.EOF, "close": CloseError{Code: 4001, error: errors.New("closing")}, "timeout": context.DeadlineExceeded, "write": ErrWrite, "badns": ErrBadNamespace, "wrapped": fmt.Errorf("of: %w", io.ErrUnexpectedEOF)}
	var names []string
	for n, err := range fails {
		h.fail(n, err)
		names = append(names, n)
	}
	bothSides(t, Namespaces{"ns": h.events(names...), "off": h.events("ok")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		s := c.socket.(*memSocket)
		for _, bin := range []bool{false, true} {
			kind := MessageType(TextMessage)
			if bin {
				kind = BinaryMessage
			}
			say := func(f string) {
				if bin {
					p.s.WriteBinary([]byte(f), 0)
				} else {
					p.s.WriteText([]byte(f), 0)
				}
			}
			answered := func(f string) {
				t.Helper()
				p.expect(f)
				if x := s.sent(); x[len(x)-1].typ != kind {
					t.Fatalf("client=%v: %q answered as %v, asked as %v", client, f, x[len(x)-1].typ, kind)
				}
			}
			for _, k := range []string{tok("9"), ""} {
				for n, err := range fails {
					say(k + ";ns;;" + n + ";0;0;x")
					answered(k + ";ns;;" + n + ";1;0;" + err.Error())
				}
			}
			for _, ns := range []string{"off", "nowhere", ""} {
				for _, f := range []string{"0;0;", "0;1;", "1;0;", "1;1;"} {
					say(tok("9") + ";" + ns + ";;ok;" + f)
					answered(tok("9") + ";" + ns + ";;ok;1;" + f[2:] + "bad namespace")
				}
			}
			p.none()
			if c.IsClosed() {
				t.Fatal("an error of a handler closed the connection")
			}
		}
		c.Close()
	})
}

// an answer that came before the close is not lost
func TestReplay_C10_answered_then_closed(t *testing.T) {
	for i := 0; i < 24; i++ {
		h := &recorder{}
		bothSides(t, Namespaces{"ns": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
			connectNS2(t, p, client, "ns")
			s := c.socket.(*memSocket)
			s.onWrite = func(f frame) {
				k := string(f.b[:strings.Index(string(f.b), ";")])
				if k == "" {
					return
				}
				c.HandlePayload(TextMessage, []byte(k+";ns;;e;0;0;fast"))
				c.Close()
			}
			n := len(p.s.in.ch)
			within(t, "Ask", func() {
				m, err := c.Ask(tctx(), Message{Namespace: "ns", Event: "e"})
				if len(p.s.in.ch) == n {
					return // the request was not written
				}
				if err != nil || string(m.Body) != "fast" {
					t.Errorf("client=%v: the reply before the close was lost: %q %v", client, m.Body, err)
				}
			})
		})
		if t.Failed() {
			return
		}
	}
}

// the namespace without a name is connected like any other
func TestReplay_C12_unnamed(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"": h.events("e"), "ns": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		h.clear()
		p.send(tok("3") + ";;;_OnNamespaceConnect;0;0;")
		p.expect(tok("3") + ";;;;;;")
		eventually(t, "connected event", func() bool { return len(h.got(OnNamespaceConnected)) == 1 })
		if c.Namespace("") == nil || c.Namespace("ns") != nil {
			t.Fatal("the wrong namespace was connected")
		}
		p.send(tok("4") + ";;;_OnNamespaceConnect;0;0;")
		p.expect(tok("4") + ";;;;;;")
		p.send(tok("5") + ";;;_OnNamespaceDisconnect;0;0;")
		p.expect(tok("5") + ";;;;;;")
		eventually(t, "disconnected", func() bool { return c.Namespace("") == nil })
		c.Close()
	})
}

// an unanswered connect leaves the namespace unconnected
func TestReplay_C12_unanswered(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"ns": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		h.clear()
		for _, deadline := range []bool{true, false} {
			ctx, cancel := context.WithCancel(context.Background())
			if deadline {
				ctx, cancel = context.WithTimeout(context.Background(), quiet)
			}
			go func() {
				p.next()
				if !deadline {
					cancel()
				}
			}()
			within(t, "unanswered Connect", func() {
				if ns, err := c.Connect(ctx, "ns"); err == nil || ns != nil {
					t.Errorf("client=%v: unanswered connect: %v %v", client, ns, err)
				}
			})
			cancel()
			if c.Namespace("ns") != nil || len(h.got(OnNamespaceConnected)) != 0 {
				t.Fatalf("client=%v: connected without an answer", client)
			}
		}
		c.Close()
	})
}

// rooms are left before the disconnect is confirmed
func TestReplay_C13_rooms_first(t *testing.T) {
	eachSide(t, func(s *side) {
		ns := s.up("a", "b")
		var at, left int
		k := s.c.socket.(*memSocket)
		k.mu.Lock()
		k.onWrite = func(f frame) {
			if strings.HasPrefix(string(f.b), s.tok+";;;;;;") {
				at, left = len(ns.Rooms()), len(s.h.got(OnRoomLeft))
			}
		}
		k.mu.Unlock()
		at = -1
		s.req("ns;;_OnNamespaceDisconnect;0;0;")
		s.okAnswer()
		if at != 0 || left != 2 {
			t.Fatalf("client=%v: disconnect confirmed with %d rooms joined and %d left", s.client, at, left)
		}
		eventually(t, "disconnect event", func() bool { return len(s.h.got(OnNamespaceDisconnect)) == 1 })
		for _, x := range append(s.h.got(OnRoomLeave), s.h.got(OnRoomLeft)...) {
			if x.msg.IsLocal || !x.msg.IsForced || x.ns != ns {
				t.Fatalf("client=%v: forced leave event %#v", s.client, x.msg)
			}
		}
	})
}

func TestReplay_C15_leaveAll_told(t *testing.T) {
	eachSide(t, func(s *side) {
		ns := s.up("a", "b")
		err := make(chan error, 1)
		go func() {
			f, _ := s.p.next()
			s.p.send(f[:strings.Index(f, ";")] + f[strings.Index(f, ";"):strings.LastIndex(f, ";0;0;")] + ";1;0;" + ErrBadRoom.Error())
		}()
		go func() { err <- ns.LeaveAll(tctx()) }()
		within(t, "LeaveAll", func() {
			if e := <-err; e == nil || e.Error() != ErrBadRoom.Error() {
				t.Errorf("client=%v: a refused LeaveAll returned %v", s.client, e)
			}
		})
		if len(ns.Rooms()) != 2 {
			t.Fatalf("a refused LeaveAll left rooms")
		}
	})
	eachSide(t, func(s *side) {
		ns := s.up("a")
		go func() {
			f, _ := s.p.next()
			s.p.send(f[:strings.Index(f, ";")] + ";;;;;;")
		}()
		within(t, "LeaveAll", func() {
			if e := ns.LeaveAll(tctx()); e != nil {
				t.Errorf("LeaveAll: %v", e)
			}
		})
		a, b := s.h.got(OnRoomLeave), s.h.got(OnRoomLeft)
		if len(a) != 1 || len(b) != 1 {
			t.Fatalf("events %v", s.h.names())
		}
		for _, x := range append(a, b...) {
			if !x.msg.IsLocal || x.msg.IsForced || x.msg.Room != "a" || x.msg.Namespace != "ns" || x.ns != ns {
				t.Fatalf("client=%v: leave event %#v", s.client, x.msg)
			}
		}
	})
}

func TestReplay_C16_closed(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"ns": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		ns := c.Namespace("ns")
		if c.IsClosed() {
			t.Fatal("an open connection is reported closed")
		}
		h.setHook(func(n *NSConn, m Message) error {
			if m.IsForced && (!n.Conn.IsClosed() || n.Emit("e", nil)) {
				t.Errorf("client=%v: a connection that is being closed is open in %s", client, m.Event)
			}
			return nil
		})
		c.Close()
		s := c.socket.(*memSocket)
		s.mu.Lock()
		n := len(s.timeouts)
		s.mu.Unlock()
		if !c.IsClosed() {
			t.Fatal("a closed connection is reported open")
		}
		ns.Emit("e", nil)
		ns.EmitBinary("e", nil)
		c.Write(Message{Namespace: "ns", Event: OnNamespaceConnect})
		within(t, "requests after close", func() {
			ns.JoinRoom(tctx(), "r")
			ns.Disconnect(tctx())
			if client {
				c.Connect(tctx(), "ns")
			}
			c.Ask(tctx(), Message{Namespace: "ns", Event: "e"})
		})
		s.mu.Lock()
		defer s.mu.Unlock()
		if len(s.timeouts) != n {
			t.Fatalf("client=%v: the socket was written after close", client)
		}
	})
}

// the server can give an empty id
func TestReplay_C18_empty_id(t *testing.T) {
	for _, id := range []string{"", "A", "id"} {
		h := &recorder{}
		cl, p := rawServer(t, id, Namespaces{"ns": h.events("e")})
		if cl.conn.ID() != id || !cl.conn.isAcknowledged() {
			t.Fatalf("id %q: %q, acknowledged=%v", id, cl.conn.ID(), cl.conn.isAcknowledged())
		}
		within(t, "Connect", func() {
			go func() {
				f, _ := p.next()
				p.send(f[:strings.Index(f, ";")] + ";;;;;;")
			}()
			if _, err := cl.Connect(tctx(), "ns"); err != nil {
				t.Errorf("connect: %v", err)
			}
		})
		cl.Close()
	}
}

// the handlers of early messages may use the connection
func TestReplay_C19_handler_connects(t *testing.T) {
	h := &recorder{}
	h.setHook(func(c *NSConn, m Message) error {
		if m.Event == "e" {
			c.Conn.Connect(tctx(), "ns") // connected already
		}
		return nil
	})
	g := newRig(t, Namespaces{"ns": h.events("e")})
	release := make(chan struct{})
	g.s.OnConnect = func(c *Conn) error { <-release; return nil }
	a, b := socketPair()
	up := make(chan struct{})
	go func() { g.upgrade(a, "me"); close(up) }()
	p := &raw{t, b}
	p.send("$5;ns;;_OnNamespaceConnect;0;0;")
	toks := []string{"", "$7", "", "$A", "$M"}
	for i, k := range toks {
		p.send(fmt.Sprintf("%s;ns;;e;0;0;%d", k, i))
	}
	p.send("M")
	close(release)
	within(t, "Upgrade", func() { <-up })
	eventually(t, "handling of the early messages", func() bool { return len(h.got("e")) >= len(toks) })
	settle()
	for i, x := range h.got("e") {
		if string(x.msg.Body) != fmt.Sprint(i) || i >= len(toks) {
			t.Fatalf("early message %d was %q", i, x.msg.Body)
		}
	}
	g.s.Close()
}

func TestReplay_C22_waitConnect(t *testing.T) {
	for i := 0; i < 4; i++ {
		h := &recorder{}
		bothSides(t, Namespaces{"a": h.events("e"), "b": h.events("e"), "ns": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
			done := make(chan *NSConn, 2)
			for k := 0; k < 2; k++ {
				go func() { n, _ := c.WaitConnect(tctx(), "ns"); done <- n }()
			}
			for _, n := range []string{"a", "b"} {
				connectNS2(t, p, client, n)
				settle()
			}
			connectNS2(t, p, client, "ns")
			within(t, "WaitConnect", func() {
				for k := 0; k < 2; k++ {
					if n := <-done; n == nil || n != c.Namespace("ns") {
						t.Errorf("WaitConnect gave %v", n)
					}
				}
			})
			c.Close()
		})
	}
}

// the callbacks of local operations may use the connection too
func TestReplay_C23_local(t *testing.T) {
	eachSide(t, func(s *side) {
		s.h.setHook(func(n *NSConn, m Message) error {
			n.Rooms()
			n.Room("r")
			n.Conn.Namespace("ns")
			n.Conn.Namespace("two")
			n.Conn.Set("k", m.Event)
			n.Conn.Get("k")
			n.Emit("e2", nil)
			n.Conn.Write(Message{Namespace: "ns", Room: "r", Event: "e2"})
			return nil
		})
		stop := make(chan struct{})
		go func() {
			for {
				select {
				case f := <-s.p.s.in.ch:
					if k := string(f.b[:strings.Index(string(f.b), ";")]); k != "" {
						s.p.send(k + ";;;;;;")
					}
				case <-stop:
					return
				}
			}
		}()
		defer close(stop)
		within(t, "operations with callbacks that use the connection", func() {
			for i := 0; i < 2; i++ {
				ns, err := s.c.Connect(tctx(), "ns")
				if err != nil {
					t.Errorf("connect: %v", err)
					return
				}
				s.c.Connect(tctx(), "two")
				r, err := ns.JoinRoom(tctx(), "r")
				if err != nil {
					t.Errorf("join: %v", err)
					return
				}
				ns.JoinRoom(tctx(), "q")
				if err := r.Leave(tctx()); err != nil {
					t.Errorf("leave: %v", err)
				}
				ns.JoinRoom(tctx(), "r")
				if i == 0 {
					err = ns.LeaveAll(tctx())
				} else {
					err = ns.Disconnect(tctx())
				}
				if err != nil {
					t.Errorf("leave all: %v", err)
				}
				if err = s.c.DisconnectAll(tctx()); err != nil {
					t.Errorf("disconnect all: %v", err)
				}
			}
			s.c.Close()
		})
	})
}
