package neffos

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"
)

// side is one real connection under test against a hand-driven peer.
type side struct {
	t      *testing.T
	c      *Conn
	p      *raw
	client bool
	tok    string
	h      *recorder
}

func eachSide(t *testing.T, f func(s *side)) {
	for _, client := range []bool{false, true} {
		h := &recorder{}
		nss := Namespaces{"ns": h.events("e"), "two": h.events("e")}
		s := &side{t: t, client: client, h: h, tok: "$9"}
		if client {
			var cl *Client
			cl, s.p = rawServer(t, "me", nss)
			s.c = cl.conn
			s.tok = "9"
		} else {
			s.c, s.p = newRig(t, nss).rawClient("me")
		}
		f(s)
		s.c.Close()
	}
}

// answer replies to the next request of the connection under test.
func (s *side) answer(want, errText string) {
	s.t.Helper()
	f, _ := s.p.next()
	i := strings.Index(f, ";")
	if i < 1 || f[i:] != want {
		s.t.Fatalf("request %q, wanted %q", f, want)
	}
	if errText == "" {
		s.p.send(f[:i] + ";;;;;;")
		return
	}
	s.p.send(f[:i] + strings.Replace(want, ";0;0;", ";1;0;"+errText, 1))
}

func (s *side) req(rest string) { s.p.send(s.tok + ";" + rest) }
func (s *side) okAnswer()       { s.t.Helper(); s.p.expect(s.tok + ";;;;;;") }

func (s *side) seq(want ...string) {
	s.t.Helper()
	if got := s.h.names(); !reflect.DeepEqual(got, want) && !(len(got) == 0 && len(want) == 0) {
		s.t.Fatalf("client=%v events %v, wanted %v", s.client, got, want)
	}
	s.h.clear()
}

func TestReplay_C12_connect(t *testing.T) {
	eachSide(t, func(s *side) {
		no := errors.New("not you")
		// not declared
		if _, err := s.c.Connect(tctx(), "nope"); err == nil {
			t.Fatalf("connected to an undeclared namespace")
		}
		s.p.none()
		s.seq()
		// local refusal
		s.h.fail(OnNamespaceConnect, no)
		if ns, err := s.c.Connect(tctx(), "ns"); err != no || ns != nil {
			t.Fatalf("local refusal: %v %v", ns, err)
		}
		s.p.none()
		s.seq("OnNamespaceConnect:")
		s.req("ns;;_OnNamespaceConnect;0;0;")
		s.p.expect(s.tok + ";ns;;_OnNamespaceConnect;1;0;not you")
		s.p.none()
		s.seq("OnNamespaceConnect:")
		s.h.fail(OnNamespaceConnect, nil)
		// remote refusal
		go s.answer(";ns;;_OnNamespaceConnect;0;0;", "remote no")
		if ns, err := s.c.Connect(tctx(), "ns"); err == nil || err.Error() != "remote no" || ns != nil || s.c.Namespace("ns") != nil {
			t.Fatalf("remote refusal: %v %v", ns, err)
		}
		s.seq("OnNamespaceConnect:")
		// undeclared, from the peer
		s.req("nope;;_OnNamespaceConnect;0;0;")
		s.p.expect(s.tok + ";nope;;_OnNamespaceConnect;1;0;bad namespace")
		if s.c.Namespace("nope") != nil {
			t.Fatalf("undeclared namespace connected")
		}
		// agreed
		go s.answer(";ns;;_OnNamespaceConnect;0;0;", "")
		ns, err := s.c.Connect(tctx(), "ns")
		if err != nil || ns == nil || s.c.Namespace("ns") != ns || ns.namespace != "ns" {
			t.Fatalf("agreed: %v %v", ns, err)
		}
		s.seq("OnNamespaceConnect:", "OnNamespaceConnected:")
		if again, err := s.c.Connect(tctx(), "ns"); err != nil || again != ns {
			t.Fatalf("again: %v %v", again, err)
		}
		s.req("ns;;_OnNamespaceConnect;0;0;")
		s.okAnswer()
		s.p.none()
		s.seq()
		if s.c.Namespace("ns") != ns {
			t.Fatalf("the namespace connection was replaced")
		}
		// from the peer
		s.req("two;;_OnNamespaceConnect;0;0;")
		s.okAnswer()
		eventually(t, "connected event", func() bool { return len(s.h.got(OnNamespaceConnected)) == 1 })
		s.p.none()
		if x := s.h.got(OnNamespaceConnected)[0]; x.ns != s.c.Namespace("two") || x.ns == nil || x.msg.IsLocal {
			t.Fatalf("connected event got %#v", x)
		}
		s.seq("OnNamespaceConnect:", "OnNamespaceConnected:")
		// without a token nothing is answered
		s.p.send(";ns;;_OnNamespaceConnect;0;0;")
		s.p.none()
	})
}

// both sides connect at once: one namespace connection, one connected event
func TestReplay_C12_simultaneous(t *testing.T) {
	for k := 0; k < 2; k++ {
		eachSide(t, func(s *side) {
			if k == 0 {
				// the peer asks while our request is on the way
				go func() {
					f, _ := s.p.next()
					i := strings.Index(f, ";")
					s.p.send(s.tok + ";ns;;_OnNamespaceConnect;0;0;")
					s.p.next()
					s.p.send(f[:i] + ";;;;;;")
				}()
				ns, err := s.c.Connect(tctx(), "ns")
				if err != nil || ns != s.c.Namespace("ns") {
					t.Fatalf("simultaneous: %v %v", ns, err)
				}
			} else {
				go func() {
					f, _ := s.p.next()
					f2, _ := s.p.next()
					s.p.send(f[:strings.Index(f, ";")] + ";;;;;;")
					s.p.send(f2[:strings.Index(f2, ";")] + ";;;;;;")
				}()
				var wg sync.WaitGroup
				var r [2]*NSConn
				for i := range r {
					wg.Add(1)
					go func(i int) { defer wg.Done(); r[i], _ = s.c.Connect(tctx(), "ns") }(i)
				}
				within(t, "two connects", wg.Wait)
				if r[0] == nil || r[0] != r[1] || r[0] != s.c.Namespace("ns") {
					t.Fatalf("two connects gave %v %v", r[0], r[1])
				}
			}
			settle()
			if n := len(s.h.got(OnNamespaceConnected)); n != 1 {
				t.Fatalf("connected event fired %d times", n)
			}
		})
	}
}

func TestReplay_C12_confirmed_last(t *testing.T) {
	eachSide(t, func(s *side) {
		done := make(chan struct{})
		go func() { s.c.Connect(tctx(), "ns"); close(done) }()
		f, _ := s.p.next()
		time.Sleep(5 * time.Millisecond)
		if s.c.Namespace("ns") != nil || len(s.h.got(OnNamespaceConnected)) != 0 {
			t.Fatalf("counts as connected before the peer confirmed")
		}
		s.p.send(f[:strings.Index(f, ";")] + ";;;;;;")
		within(t, "Connect", func() { <-done })
		if s.c.Namespace("ns") == nil {
			t.Fatalf("not connected after the confirmation")
		}
	})
}

func (s *side) up(rooms ...string) *NSConn {
	s.t.Helper()
	s.req("ns;;_OnNamespaceConnect;0;0;")
	s.okAnswer()
	eventually(s.t, "connect", func() bool { return len(s.h.got(OnNamespaceConnected)) == 1 })
	for _, r := range rooms {
		s.req("ns;" + r + ";_OnRoomJoin;0;0;")
		s.okAnswer()
	}
	eventually(s.t, "joins", func() bool { return len(s.h.got(OnRoomJoined)) == len(rooms) })
	calm(s.t, s.c)
	s.h.clear()
	return s.c.Namespace("ns")
}

func TestReplay_C13_disconnect(t *testing.T) {
	eachSide(t, func(s *side) {
		ns := s.up("a")
		go s.answer(";ns;;_OnNamespaceDisconnect;0;0;", "stay")
		if err := ns.Disconnect(tctx()); err == nil || err.Error() != "stay" {
			t.Fatalf("refused disconnect: %v", err)
		}
		if s.c.Namespace("ns") != ns || ns.Room("a") == nil {
			t.Fatalf("a refused disconnect took effect")
		}
		s.seq()
		go s.answer(";ns;;_OnNamespaceDisconnect;0;0;", "")
		if err := ns.Disconnect(tctx()); err != nil {
			t.Fatalf("disconnect: %v", err)
		}
		if s.c.Namespace("ns") != nil || ns.Room("a") != nil || len(ns.Rooms()) != 0 {
			t.Fatalf("still connected or in a room")
		}
		d := s.h.got(OnNamespaceDisconnect)
		if len(d) != 1 || !d[0].msg.IsLocal || d[0].msg.IsForced {
			t.Fatalf("disconnect event: %#v", d)
		}
		s.seq("OnRoomLeave:a", "OnRoomLeft:a", "OnNamespaceDisconnect:")
		if err := ns.Disconnect(tctx()); err == nil {
			t.Fatalf("disconnected twice")
		}
		s.p.none()
		s.seq()
		if s.c.Write(Message{Namespace: "ns", Event: "e"}) {
			t.Fatalf("can write after the disconnect")
		}
	})
	eachSide(t, func(s *side) {
		ns := s.up("a", "b")
		if !s.client {
			s.h.fail(OnNamespaceDisconnect, errors.New("stay"))
			s.req("ns;;_OnNamespaceDisconnect;0;0;")
			s.p.expect(s.tok + ";ns;;_OnNamespaceDisconnect;1;0;stay")
			s.p.none()
			if s.c.Namespace("ns") != ns || len(ns.Rooms()) != 2 {
				t.Fatalf("a refused disconnect took effect")
			}
			s.h.fail(OnNamespaceDisconnect, nil)
			s.h.clear()
		} else {
			s.h.fail(OnNamespaceDisconnect, errors.New("ignored"))
		}
		s.req("ns;;_OnNamespaceDisconnect;0;0;")
		s.okAnswer()
		eventually(t, "disconnect event", func() bool { return len(s.h.got(OnNamespaceDisconnect)) == 1 })
		s.p.none()
		if s.c.Namespace("ns") != nil || len(ns.Rooms()) != 0 {
			t.Fatalf("still connected")
		}
		if n := s.h.names(); len(n) != 5 || len(s.h.got(OnRoomLeave)) != 2 || len(s.h.got(OnRoomLeft)) != 2 {
			t.Fatalf("events %v", n)
		}
		if d := s.h.got(OnNamespaceDisconnect)[0]; d.msg.IsLocal {
			t.Fatalf("disconnect event: %#v", d)
		}
		s.h.clear()
		s.req("ns;;_OnNamespaceDisconnect;0;0;")
		s.okAnswer()
		s.p.none()
		s.seq()
	})
	// all
	eachSide(t, func(s *side) {
		s.up("a")
		s.req("two;;_OnNamespaceConnect;0;0;")
		s.okAnswer()
		eventually(t, "connect", func() bool { return len(s.h.got(OnNamespaceConnected)) == 1 })
		s.h.clear()
		go func() {
			for i := 0; i < 2; i++ {
				f, _ := s.p.next()
				s.p.send(f[:strings.Index(f, ";")] + ";;;;;;")
			}
		}()
		if err := s.c.DisconnectAll(tctx()); err != nil {
			t.Fatalf("DisconnectAll: %v", err)
		}
		if s.c.Namespace("ns") != nil || s.c.Namespace("two") != nil || len(s.h.got(OnNamespaceDisconnect)) != 2 {
			t.Fatalf("DisconnectAll left %v", s.h.names())
		}
	})
}

func TestReplay_C14_join(t *testing.T) {
	eachSide(t, func(s *side) {
		ns := s.up()
		go s.answer(";ns;r;_OnRoomJoin;0;0;", "full")
		if r, err := ns.JoinRoom(tctx(), "r"); err == nil || err.Error() != "full" || r != nil || ns.Room("r") != nil {
			t.Fatalf("refused join: %v %v", r, err)
		}
		s.seq()
		no := errors.New("no")
		s.h.fail(OnRoomJoin, no)
		go s.answer(";ns;r;_OnRoomJoin;0;0;", "")
		if r, err := ns.JoinRoom(tctx(), "r"); err != no || r != nil || ns.Room("r") != nil {
			t.Fatalf("locally refused join: %v %v", r, err)
		}
		s.seq("OnRoomJoin:r")
		s.req("ns;r;_OnRoomJoin;0;0;")
		s.p.expect(s.tok + ";ns;r;_OnRoomJoin;1;0;no")
		s.p.none()
		if ns.Room("r") != nil {
			t.Fatalf("a refused join took effect")
		}
		s.seq("OnRoomJoin:r")
		s.h.fail(OnRoomJoin, nil)
		done := make(chan struct{})
		var room *Room
		var err error
		go func() { room, err = ns.JoinRoom(tctx(), "r"); close(done) }()
		f, _ := s.p.next()
		if ns.Room("r") != nil {
			t.Fatalf("joined before the peer confirmed")
		}
		s.p.send(f[:strings.Index(f, ";")] + ";;;;;;")
		within(t, "JoinRoom", func() { <-done })
		if err != nil || room == nil || ns.Room("r") != room || room.Name != "r" || room.NSConn != ns {
			t.Fatalf("join: %v %v", room, err)
		}
		s.seq("OnRoomJoin:r", "OnRoomJoined:r")
		if again, err := ns.JoinRoom(tctx(), "r"); err != nil || again != room {
			t.Fatalf("join again: %v %v", again, err)
		}
		s.req("ns;r;_OnRoomJoin;0;0;")
		s.okAnswer()
		s.p.none()
		s.seq()
		if ns.Room("r") != room {
			t.Fatalf("the room was replaced")
		}
		s.req("ns;q;_OnRoomJoin;0;0;")
		s.okAnswer()
		eventually(t, "joined event", func() bool { return len(s.h.got(OnRoomJoined)) == 1 })
		s.p.none()
		s.seq("OnRoomJoin:q", "OnRoomJoined:q")
		if x := ns.Room("q"); x == nil || x.Name != "q" || x.NSConn != ns {
			t.Fatalf("joined room is %#v", x)
		}
	})
}

func TestReplay_C15_leave(t *testing.T) {
	eachSide(t, func(s *side) {
		ns := s.up("r", "q")
		room := ns.Room("r")
		go s.answer(";ns;r;_OnRoomLeave;0;0;", "stay")
		if err := room.Leave(tctx()); err == nil || err.Error() != "stay" || ns.Room("r") != room {
			t.Fatalf("refused leave: %v", err)
		}
		s.seq()
		no := errors.New("no")
		s.h.fail(OnRoomLeave, no)
		go s.answer(";ns;r;_OnRoomLeave;0;0;", "")
		if err := room.Leave(tctx()); err != no || ns.Room("r") != room {
			t.Fatalf("locally refused leave: %v", err)
		}
		s.seq("OnRoomLeave:r")
		s.h.fail(OnRoomLeave, nil)
		s.h.setHook(func(n *NSConn, m Message) error {
			if joined := n.Room(m.Room) != nil; m.Event == OnRoomLeave && !joined || m.Event == OnRoomLeft && joined {
				t.Errorf("%s with joined=%v", m.Event, joined)
			}
			return nil
		})
		go s.answer(";ns;r;_OnRoomLeave;0;0;", "")
		if err := room.Leave(tctx()); err != nil || ns.Room("r") != nil || ns.Room("q") == nil {
			t.Fatalf("leave: %v", err)
		}
		s.seq("OnRoomLeave:r", "OnRoomLeft:r")
		if err := room.Leave(tctx()); err != ErrBadRoom {
			t.Fatalf("left twice: %v", err)
		}
		s.p.none()
		s.seq()
		// the peer asks
		if !s.client {
			s.h.fail(OnRoomLeave, no)
			s.req("ns;q;_OnRoomLeave;0;0;")
			s.p.expect(s.tok + ";ns;q;_OnRoomLeave;1;0;no")
			s.p.none()
			if ns.Room("q") == nil {
				t.Fatalf("a refused leave took effect")
			}
			s.seq("OnRoomLeave:q")
			s.h.fail(OnRoomLeave, nil)
		}
		s.req("ns;q;_OnRoomLeave;0;0;")
		s.okAnswer()
		eventually(t, "left event", func() bool { return len(s.h.got(OnRoomLeft)) == 1 })
		s.p.none()
		if ns.Room("q") != nil {
			t.Fatalf("still joined")
		}
		s.seq("OnRoomLeave:q", "OnRoomLeft:q")
		s.req("ns;q;_OnRoomLeave;0;0;")
		s.okAnswer()
		s.p.none()
		s.seq()
	})
	eachSide(t, func(s *side) {
		ns := s.up("r1", "r2", "r3")
		go func() {
			for i := 0; i < 3; i++ {
				f, _ := s.p.next()
				s.p.send(f[:strings.Index(f, ";")] + ";;;;;;")
			}
		}()
		if err := ns.LeaveAll(tctx()); err != nil || len(ns.Rooms()) != 0 || len(s.h.got(OnRoomLeft)) != 3 || len(s.h.got(OnRoomLeave)) != 3 {
			t.Fatalf("LeaveAll: %v %v", err, s.h.names())
		}
	})
}

func TestReplay_C16_close(t *testing.T) {
	eachSide(t, func(s *side) {
		ns := s.up("r1", "r2")
		s.req("two;;_OnNamespaceConnect;0;0;")
		s.okAnswer()
		eventually(t, "connect", func() bool { return len(s.h.got(OnNamespaceConnected)) == 1 })
		s.h.clear()
		asked := make(chan struct{})
		go func() { s.c.Ask(nil, Message{Namespace: "ns", Event: "e"}); close(asked) }()
		s.p.next()
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); s.c.Close() }()
		}
		within(t, "Close", wg.Wait)
		within(t, "Ask on a closed connection", func() { <-asked })
		select {
		case <-s.c.closeCh:
		case <-time.After(patience):
			t.Fatalf("close is not notified")
		}
		eventually(t, "socket close", func() bool { return s.c.socket.(*memSocket).isShut() })
		settle()
		if s.c.Namespace("ns") != nil || s.c.Namespace("two") != nil || len(ns.Rooms()) != 0 || pendingOf(s.c) != 0 {
			t.Fatalf("close left state behind")
		}
		if n := s.h.names(); len(n) != 6 || len(s.h.got(OnRoomLeave)) != 2 || len(s.h.got(OnRoomLeft)) != 2 || len(s.h.got(OnNamespaceDisconnect)) != 2 {
			t.Fatalf("teardown events %v", n)
		}
		for _, x := range s.h.list {
			if !x.msg.IsForced || !x.msg.IsLocal {
				t.Fatalf("teardown event %#v", x.msg)
			}
		}
		if s.c.Write(Message{Namespace: "ns", Event: "e"}) {
			t.Fatalf("wrote after close")
		}
	})
	// several at once, with handlers that take their time or close again
	for _, again := range []bool{false, true} {
		eachSide(t, func(s *side) {
			s.up("r1")
			s.h.setHook(func(n *NSConn, m Message) error {
				time.Sleep(5 * time.Millisecond)
				if again {
					n.Conn.Close()
				}
				return nil
			})
			var wg sync.WaitGroup
			for i := 0; i < 4; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); s.c.Close() }()
			}
			within(t, "Close", wg.Wait)
			settle()
			s.seq("OnRoomLeave:r1", "OnRoomLeft:r1", "OnNamespaceDisconnect:")
			if n := s.c.socket.(*memSocket).closes; n != 1 {
				t.Fatalf("socket closed %d times", n)
			}
		})
	}
	// the peer goes away
	eachSide(t, func(s *side) {
		s.up("r1")
		s.p.s.NetConn().Close()
		eventually(t, "teardown", func() bool { return len(s.h.got(OnNamespaceDisconnect)) == 1 && s.c.IsClosed() })
		settle()
		s.seq("OnRoomLeave:r1", "OnRoomLeft:r1", "OnNamespaceDisconnect:")
	})
	// the server is told once
	g := newRig(t, Namespaces{"ns": Events{}})
	var mu sync.Mutex
	told := map[*Conn]int{}
	g.s.OnDisconnect = func(c *Conn) { mu.Lock(); told[c]++; mu.Unlock() }
	var cs []*Conn
	for i := 0; i < 5; i++ {
		c, p := g.rawClient(fmt.Sprint("c", i))
		connectNS(t, p, "ns")
		cs = append(cs, c)
	}
	for _, c := range cs {
		go c.Close()
		c.Close()
	}
	eventually(t, "disconnect callbacks", func() bool { mu.Lock(); defer mu.Unlock(); return len(told) == 5 })
	settle()
	for c, n := range told {
		if n != 1 {
			t.Fatalf("%v told %d times", c, n)
		}
	}
}

func TestReplay_C31_queries(t *testing.T) {
	eachSide(t, func(s *side) {
		if s.c.Namespace("ns") != nil || s.c.Namespace("") != nil {
			t.Fatalf("namespace reported before connect")
		}
		ns := s.up("a", "b", "c")
		if s.c.Namespace("ns") != ns || ns == nil || ns.Conn != s.c || s.c.Namespace("two") != nil {
			t.Fatalf("Namespace is wrong")
		}
		got := map[string]bool{}
		for _, r := range ns.Rooms() {
			if r == nil || r != ns.Room(r.Name) || got[r.Name] {
				t.Fatalf("Rooms is wrong: %v", r)
			}
			got[r.Name] = true
		}
		if len(got) != 3 || ns.Room("z") != nil || ns.Room("") != nil {
			t.Fatalf("Rooms is wrong: %v", got)
		}
		if !ns.Emit("e", []byte("1")) || !ns.Room("b").Emit("e", []byte("2")) || !ns.EmitBinary("e", []byte("3")) {
			t.Fatalf("emit refused")
		}
		s.p.expect(";ns;;e;0;0;1")
		s.p.expect(";ns;b;e;0;0;2")
		s.p.expect(";ns;;e;0;0;3")
		go func() {
			f, _ := s.p.next()
			i := strings.Index(f, ";")
			if f[i:] != ";ns;;e;0;0;q" {
				t.Errorf("asked %q", f)
			}
			s.p.send(f[:i] + ";ns;;e;0;0;ans")
		}()
		if m, err := ns.Ask(tctx(), "e", []byte("q")); err != nil || string(m.Body) != "ans" {
			t.Fatalf("ask: %v %v", m, err)
		}
		go s.answer(";ns;b;_OnRoomLeave;0;0;", "")
		if err := ns.Room("b").Leave(tctx()); err != nil || ns.Room("b") != nil || ns.Room("a") == nil || len(ns.Rooms()) != 2 {
			t.Fatalf("leave: %v", err)
		}
		var none *NSConn
		if none.Room("x") != nil || none.Emit("e", nil) {
			t.Fatalf("nil namespace")
		}
	})
	g := newRig(t, Namespaces{"ns": Events{}, "b": Events{}})
	c1, p1 := g.rawClient("one")
	c2, p2 := g.rawClient("two")
	c3, _ := g.rawClient("three")
	connectNS(t, p1, "ns")
	connectNS(t, p2, "ns")
	connectNS(t, p2, "b")
	all := func() map[string]*Conn { return g.s.GetConnections() }
	by := func(n string) map[string]*NSConn { return g.s.GetConnectionsByNamespace(n) }
	eventually(t, "listing", func() bool { return len(all()) == 3 })
	if m := all(); m["one"] != c1 || m["two"] != c2 || m["three"] != c3 {
		t.Fatalf("connections %v", m)
	}
	if m := by("ns"); len(m) != 2 || m["one"] != c1.Namespace("ns") || m["two"] != c2.Namespace("ns") {
		t.Fatalf("by namespace %v", m)
	}
	if m := by("b"); len(m) != 1 || m["two"] != c2.Namespace("b") {
		t.Fatalf("by namespace %v", m)
	}
	c2.Close()
	eventually(t, "listing", func() bool { return len(all()) == 2 && len(by("ns")) == 1 && g.s.GetTotalConnections() == 2 })
}

func TestReplay_C29_waits(t *testing.T) {
	ps := newProcesses()
	var wg sync.WaitGroup
	res := make([]*process, 64)
	for i := range res {
		wg.Add(1)
		go func(i int) { defer wg.Done(); res[i] = ps.get("x") }(i)
	}
	wg.Wait()
	for _, p := range res {
		if p != res[0] || p == nil || p == ps.get("y") {
			t.Fatalf("different wait points")
		}
	}
	p := res[0]
	within(t, "Wait with no attempt", p.Wait)
	p.Start()
	p.Start()
	var passed [4]chan struct{}
	for i := range passed {
		passed[i] = make(chan struct{})
		go func(ch chan struct{}) { p.Wait(); close(ch) }(passed[i])
	}
	time.Sleep(20 * time.Millisecond)
	p.Done()
	time.Sleep(20 * time.Millisecond)
	for _, ch := range passed {
		select {
		case <-ch:
			t.Fatalf("a waiter passed during an attempt")
		default:
		}
	}
	p.Done()
	for _, ch := range passed {
		within(t, "Wait after the attempts", func() { <-ch })
	}
	within(t, "Wait with no attempt", p.Wait)
	for i := 0; i < 300; i++ {
		p.Start()
		ch := make(chan struct{})
		go func() { p.Wait(); close(ch) }()
		if i%2 == 0 {
			time.Sleep(time.Microsecond * 50)
		}
		p.Done()
		within(t, "Wait", func() { <-ch })
	}
	// a message during a connect, ended either way
	for _, refuse := range []bool{false, true} {
		eachSide(t, func(s *side) {
			gate := make(chan struct{})
			s.h.setHook(func(n *NSConn, m Message) error {
				if m.Event == OnNamespaceConnect {
					<-gate
					if refuse {
						return errors.New("no")
					}
				}
				return nil
			})
			done := make(chan struct{})
			go func() { s.c.Connect(tctx(), "ns"); close(done) }()
			eventually(t, "attempt", func() bool { return len(s.h.got(OnNamespaceConnect)) == 1 })
			handled := make(chan struct{})
			go func() {
				s.c.HandlePayload(TextMessage, []byte(s.tok+";ns;;e;0;0;early"))
				close(handled)
			}()
			time.Sleep(20 * time.Millisecond)
			select {
			case <-handled:
				t.Fatalf("judged during the attempt")
			default:
			}
			close(gate)
			if !refuse {
				s.answer(";ns;;_OnNamespaceConnect;0;0;", "")
			}
			within(t, "Connect", func() { <-done })
			within(t, "the early message", func() { <-handled })
			if refuse {
				s.p.expect(s.tok + ";ns;;e;1;0;bad namespace")
			} else if n := len(s.h.got("e")); n != 1 {
				t.Fatalf("early message handled %d times", n)
			}
		})
	}
}
