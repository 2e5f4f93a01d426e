package neffos

import (
	"context"
	"errors"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"
)

// a received request that is broadcast to one connection is no request either.
func TestReplay_C06_forwarded_to(t *testing.T) {
	for _, sync := range []bool{false, true} {
		g, cs, ss := nrig(t, sync, 3)
		for k := 0; k < 3; k++ {
			m := DeserializeMessage(TextMessage, []byte("$1234567;ns;;e;0;0;to"), false, false)
			m.To = cs[k].ID()
			g.s.Broadcast(nil, m)
			eventually(t, "delivery", func() bool { b := bodiesOf(ss[k], "ns"); return len(b) == 1 && b[0] == "to" })
			fr := ss[k].sentTexts()
			if last := fr[len(fr)-1]; last != ";ns;;e;0;0;to" {
				t.Fatalf("forwarded as %q", last)
			}
		}
	}
}

// the id of the caller's own generator is the one the client gets.
func TestReplay_C18_custom_id(t *testing.T) {
	g := newRig(t, Namespaces{"ns": Events{}})
	a, b := socketPair()
	p := &raw{t, b}
	g.up = append(g.up, a)
	wrapped := 0
	c, err := g.s.Upgrade(httptest.NewRecorder(), httptest.NewRequest("GET", "http://x/", nil),
		func(s Socket) Socket { wrapped++; return s },
		func(http.ResponseWriter, *http.Request) string { return "mine" })
	if err != nil || c.ID() != "mine" || wrapped != 1 {
		t.Fatalf("%v %v, wrapped %d times", c, err, wrapped)
	}
	p.send("M")
	p.expect("Amine")
}

// there is no handshake to answer, still a refused connection is closed and not counted.
func TestReplay_C18_native_refused(t *testing.T) {
	for _, viaExchange := range []bool{false, true} {
		h := &recorder{}
		g := newRig(t, Events{OnNativeMessage: h.handler()})
		no := errors.New("no")
		if viaExchange {
			g.s.UseStackExchange(&exLog{errs: map[string]error{"connect": no}})
		} else {
			g.s.OnConnect = func(*Conn) error { return no }
		}
		a, b := socketPair()
		if c, err := g.upgrade(a, "x"); c != nil || err != no {
			t.Fatalf("%v %v", c, err)
		}
		eventually(t, "the close", b.isShut)
		eventually(t, "the count", func() bool { return g.s.GetTotalConnections() == 0 })
	}
}

type exInit struct {
	exLog
	err  error
	seen Namespaces
}

func (x *exInit) Init(n Namespaces) error { x.seen = n; return x.err }

// an exchange that cannot be initialised is not used, the others are kept.
func TestReplay_C26_init(t *testing.T) {
	for _, existing := range []bool{false, true} {
		g := newRig(t, Namespaces{"ns": Events{}})
		old := &exInit{}
		if existing {
			if err := g.s.UseStackExchange(old); err != nil || len(old.seen) != 1 {
				t.Fatal(err, old.seen)
			}
		}
		no := errors.New("no")
		bad := &exInit{err: no}
		if err := g.s.UseStackExchange(bad); err != no {
			t.Fatalf("got %v", err)
		}
		if g.s.usesStackExchange() != existing {
			t.Fatalf("in use: %v", g.s.usesStackExchange())
		}
		g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("x")})
		if len(bad.got("")) != 0 {
			t.Fatalf("used though it failed: %v", bad.got(""))
		}
		if existing && len(old.got("publish x")) != 1 {
			t.Fatal("the existing one is not used any more")
		}
	}
}

// a request falls back even if it failed because its context ended: the next one decides.
func TestReplay_C26_fallback_ctx(t *testing.T) {
	g := newRig(t, Namespaces{"ns": Events{}})
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	a := &exLog{name: "a", ask: func(ctx context.Context, _ Message, _ string) (Message, error) { return Message{}, ctx.Err() }}
	b := &exLog{name: "b"}
	g.s.UseStackExchange(a)
	g.s.UseStackExchange(b)
	m, err := g.s.StackExchange.Ask(ctx, Message{Body: []byte("q")}, "tok")
	if err != nil || string(m.Body) != "b" || len(a.got("ask")) != 1 || len(b.got("ask")) != 1 {
		t.Fatalf("%q %v", m.Body, err)
	}
}

// a write that failed for whatever reason is not reported as done, of either kind.
func TestReplay_C05_failed_write(t *testing.T) {
	eachSide(t, func(s *side) {
		s.req("ns;;_OnNamespaceConnect;0;0;")
		s.okAnswer()
		sk := s.c.socket.(*memSocket)
		for _, bin := range []bool{false, true} {
			sk.mu.Lock()
			sk.failNext = errors.New("flaky")
			sk.mu.Unlock()
			if s.c.Write(Message{Namespace: "ns", Event: "e", SetBinary: bin}) {
				t.Fatalf("binary=%v: a failed write is reported as done", bin)
			}
			if !s.c.Write(Message{Namespace: "ns", Event: "e", SetBinary: bin}) {
				t.Fatalf("binary=%v: refused after a failed write", bin)
			}
		}
	})
}

// excluded here means excluded, with and without a room.
func TestReplay_C05_excluded_room(t *testing.T) {
	h := &recorder{}
	c, p := newRig(t, Namespaces{"ns": h.events("e")}).rawClient("me")
	connectNS(t, p, "ns")
	joinRoom(t, p, "ns", "r")
	for _, room := range []string{"", "r"} {
		if c.Write(Message{Namespace: "ns", Room: room, Event: "e", FromExplicit: c.serverConnID}) {
			t.Fatalf("room %q: written to the excluded connection", room)
		}
	}
	p.none()
	if !c.Write(Message{Namespace: "ns", Room: "r", Event: "e"}) {
		t.Fatal("refused")
	}
}

// while the request cannot be registered it is not sent.
func TestReplay_C10_registered_first(t *testing.T) {
	for _, to := range []string{"", "me"} {
		h := &recorder{}
		g := newRig(t, Namespaces{"ns": h.events("e")})
		_, p := g.rawClient("me")
		connectNS(t, p, "ns")
		g.s.waitingMessagesMutex.Lock()
		done := make(chan error, 1)
		go func() {
			_, err := g.s.Ask(tctx(), Message{Namespace: "ns", Event: "e", To: to})
			done <- err
		}()
		p.none()
		g.s.waitingMessagesMutex.Unlock()
		f, _ := p.next()
		p.send(f[:strings.Index(f, ";")] + ";ns;;e;0;0;yes")
		within(t, "Ask", func() {
			if err := <-done; err != nil {
				t.Error(err)
			}
		})
	}
	eachSide(t, func(s *side) {
		s.req("ns;;_OnNamespaceConnect;0;0;")
		s.okAnswer()
		calm(t, s.c)
		s.c.waitingMessagesMutex.Lock()
		done := make(chan error, 1)
		go func() {
			_, err := s.c.Ask(tctx(), Message{Namespace: "ns", Event: "e"})
			done <- err
		}()
		s.p.none()
		s.c.waitingMessagesMutex.Unlock()
		s.answer(";ns;;e;0;0;", "")
		within(t, "Ask", func() { <-done })
	})
}

// a context that has time left is not over.
func TestReplay_C10_short_context(t *testing.T) {
	eachSide(t, func(s *side) {
		s.req("ns;;_OnNamespaceConnect;0;0;")
		s.okAnswer()
		for _, d := range []time.Duration{900 * time.Millisecond, 2 * time.Second, time.Hour} {
			calm(t, s.c)
			ctx, cancel := context.WithTimeout(context.Background(), d)
			done := make(chan error, 1)
			go func() {
				_, err := s.c.Ask(ctx, Message{Namespace: "ns", Event: "e"})
				done <- err
			}()
			s.answer(";ns;;e;0;0;", "")
			within(t, "Ask", func() {
				if err := <-done; err != nil {
					t.Errorf("answered at once, %s to go: %v", d, err)
				}
			})
			cancel()
		}
	})
}

// every connect request is answered, whatever happens to the namespace meanwhile.
func TestReplay_C12_answered_anyway(t *testing.T) {
	eachSide(t, func(s *side) {
		// connected by another request while the handler is thinking
		nested := false
		s.h.setHook(func(n *NSConn, m Message) error {
			if m.Event == OnNamespaceConnect && !nested {
				nested = true
				tok := "77"
				if !s.client {
					tok = "$77"
				}
				n.Conn.HandlePayload(TextMessage, []byte(tok+";ns;;_OnNamespaceConnect;0;0;"))
			}
			return nil
		})
		s.req("ns;;_OnNamespaceConnect;0;0;")
		seen := map[string]int{}
		for i := 0; i < 2; i++ {
			f, ok := s.p.next()
			if !ok || !strings.HasSuffix(f, ";;;;;;") {
				t.Fatalf("answer %q %v", f, ok)
			}
			seen[strings.TrimLeft(f[:strings.Index(f, ";")], "$")]++
		}
		if seen["9"] != 1 || seen["77"] != 1 {
			t.Fatalf("answers %v", seen)
		}
		s.p.none()
		if n := len(s.h.got(OnNamespaceConnected)); n != 1 {
			t.Fatalf("connected event fired %d times", n)
		}
	})
	eachSide(t, func(s *side) {
		// disconnected again by the connected event
		s.h.setHook(func(n *NSConn, m Message) error {
			if m.Event == OnNamespaceConnected {
				tok := "78"
				if !s.client {
					tok = "$78"
				}
				n.Conn.HandlePayload(TextMessage, []byte(tok+";ns;;_OnNamespaceDisconnect;0;0;"))
			}
			return nil
		})
		s.req("ns;;_OnNamespaceConnect;0;0;")
		seen := map[string]int{}
		for i := 0; i < 2; i++ {
			f, _ := s.p.next()
			seen[strings.TrimLeft(f[:strings.Index(f, ";")], "$")]++
		}
		if seen["9"] != 1 || seen["78"] != 1 {
			t.Fatalf("answers %v", seen)
		}
		s.p.none()
	})
}

// DisconnectAll reports the refusal it got, whatever it says.
func TestReplay_C13_all_reported(t *testing.T) {
	for _, text := range []string{"bad namespace", "write closed", "EOF", "no"} {
		eachSide(t, func(s *side) {
			s.req("ns;;_OnNamespaceConnect;0;0;")
			s.okAnswer()
			calm(t, s.c)
			done := make(chan error, 1)
			go func() { done <- s.c.DisconnectAll(tctx()) }()
			s.answer(";ns;;_OnNamespaceDisconnect;0;0;", text)
			within(t, "DisconnectAll", func() {
				if err := <-done; err == nil || err.Error() != text {
					t.Errorf("refused with %q, got %v", text, err)
				}
			})
			if s.c.Namespace("ns") == nil {
				t.Error("disconnected though refused")
			}
		})
	}
}

type badNet struct{ memNet }

func (n badNet) Close() error { n.memNet.Close(); return errors.New("already gone") }

type badSocket struct{ *memSocket }

func (s badSocket) NetConn() net.Conn { return badNet{memNet{nil, s.memSocket}} }

// the waiters are released even if the network connection does not close well.
func TestReplay_C16_bad_close(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e")})
	a, b := socketPair()
	g.up = append(g.up, a)
	c, err := g.s.Upgrade(httptest.NewRecorder(), httptest.NewRequest("GET", "http://x/", nil), func(Socket) Socket { return badSocket{a} }, nil)
	if err != nil {
		t.Fatal(err)
	}
	p := &raw{t, b}
	p.send("M")
	p.expect("A" + c.ID())
	connectNS(t, p, "ns")
	calm(t, c)
	done := make(chan error, 1)
	go func() {
		_, err := c.Ask(context.Background(), Message{Namespace: "ns", Event: "e"})
		done <- err
	}()
	p.next()
	c.Close()
	within(t, "a pending request", func() {
		if err := <-done; err == nil {
			t.Error("answered?")
		}
	})
	eventually(t, "the count", func() bool { return g.s.GetTotalConnections() == 0 })
}

// with an exchange in use a connection's own request is still its own.
func TestReplay_C09_own_with_exchange(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e")})
	x := &exLog{}
	g.s.UseStackExchange(x)
	c, p := g.rawClient("me")
	connectNS(t, p, "ns")
	calm(t, c)
	done := make(chan error, 1)
	go func() {
		m, err := c.Ask(tctx(), Message{Namespace: "ns", Event: "e"})
		if err == nil && string(m.Body) != "yes" {
			err = errors.New("body " + string(m.Body))
		}
		done <- err
	}()
	f, _ := p.next()
	p.send(f[:strings.Index(f, ";")] + ";ns;;e;0;0;yes")
	within(t, "Ask", func() {
		if err := <-done; err != nil {
			t.Error(err)
		}
	})
	if l := x.got("notify"); len(l) != 0 {
		t.Errorf("the exchange was notified: %v", l)
	}
}

// the gate is closed for the whole attempt, with and without a context.
func TestReplay_C29_any_context(t *testing.T) {
	for _, ctx := range []context.Context{nil, context.Background(), tctx()} {
		eachSide(t, func(s *side) {
			calm(t, s.c)
			done := make(chan error, 1)
			go func() { _, err := s.c.Connect(ctx, "ns"); done <- err }()
			f, _ := s.p.next() // the attempt is in progress
			res := make(chan error, 1)
			go func() { res <- s.c.HandlePayload(TextMessage, []byte(";ns;;e;0;0;x")) }()
			select {
			case err := <-res:
				t.Fatalf("judged during the attempt: %v", err)
			case <-time.After(60 * time.Millisecond):
			}
			s.p.send(f[:strings.Index(f, ";")] + ";;;;;;")
			within(t, "Connect and the message", func() {
				if err := <-done; err != nil {
					t.Error(err)
				}
				if err := <-res; err != nil {
					t.Errorf("judged %v after the attempt succeeded", err)
				}
			})
			if len(s.h.got("e")) != 1 {
				t.Errorf("the handler ran %d times", len(s.h.got("e")))
			}
		})
	}
}
