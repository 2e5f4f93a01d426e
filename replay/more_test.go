package neffos

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// side runs a scenario against a server's and a client's end; tok makes a request token of the other side.
func bothSides(t *testing.T, h ConnHandler, f func(c *Conn, p *raw, client bool, tok func(string) string)) {
	t.Helper()
	c, p := newRig(t, h).rawClient("me")
	f(c, p, false, func(s string) string { return "$" + s })
	cl, q := rawServer(t, "me", h)
	f(cl.conn, q, true, func(s string) string { return s })
}

func TestReplay_C01_texts(t *testing.T) {
	texts := []string{"", " ", " a", "a ", "\n", "x\ny", "\t;", ";", " ; ", "0", "1", "é;", strings.Repeat("long;", 300)}
	toks := []string{"", "5", "$5", "abc", "$abc", "77!", "abc!", "$5!", "5 ", "x-1", "#5", "9;"[:1]}
	for _, a := range texts {
		for _, b := range texts {
			for _, tok := range toks {
				m := Message{wait: tok, Namespace: a, Room: b, Event: a + "e" + b, Body: []byte(b + a)}
				g := DeserializeMessage(TextMessage, serializeMessage(m), false, false)
				if g.wait != m.wait || g.Namespace != a || g.Room != b || g.Event != m.Event || !bytes.Equal(g.Body, m.Body) || g.isInvalid || g.isError || g.isNoOp || g.FromStackExchange || g.FromExplicit != "" || g.SetBinary {
					t.Fatalf("%#v became %#v", m, g)
				}
				m.isNoOp, m.Body = true, nil
				if g = DeserializeMessage(BinaryMessage, serializeMessage(m), true, false); !g.isNoOp || g.isError || len(g.Body) != 0 || g.Namespace != a || g.Room != b || g.Event != m.Event || g.wait != tok || !g.SetBinary {
					t.Fatalf("no-op %#v became %#v", m, g)
				}
				m.Err = errors.New("x;" + b)
				if g = DeserializeMessage(TextMessage, serializeMessage(m), false, false); !g.isNoOp || !g.isError || g.Err == nil || g.Err.Error() != "x;"+b || g.wait != tok || g.Room != b {
					t.Fatalf("no-op error %#v became %#v", m, g)
				}
			}
		}
	}
	if s := string(serializeMessage(Message{wait: "5", Namespace: "n;", Room: "r", Event: "e", Body: []byte("b;")})); s != "5;n@%!semicolon@%!;r;e;0;0;b;" {
		t.Fatalf("transport form %q", s)
	}
}

type twinErr struct{ p string }

func (e twinErr) Error() string              { return "verif;twin" }
func (e twinErr) ResolveError(s string) bool { return strings.HasPrefix(s, e.p) }

func TestReplay_C02_more(t *testing.T) {
	over := func(m Message) Message { return DeserializeMessage(TextMessage, serializeMessage(m), false, false) }
	for _, n := range []int{1, 100, 255, 256, 257, 1000, 5000, 70000} {
		text := strings.Repeat("e", n-1) + "!"
		if g := over(Message{Namespace: "n", Event: "e", wait: "7", Err: errors.New(text), Body: []byte("gone")}); g.Err == nil || g.Err.Error() != text || !g.isError || len(g.Body) != 0 {
			t.Fatalf("an error of %d bytes became %v / %q", n, g.Err, g.Body)
		}
		if g := over(Message{Namespace: "n", Event: "e", wait: "7", Err: Reply([]byte(text)), Body: []byte("gone")}); g.Err != nil || g.isError || string(g.Body) != text {
			t.Fatalf("a reply of %d bytes became %v / %q", n, g.Err, g.Body)
		}
	}
	for _, e := range []error{Reply(nil), Reply([]byte{})} {
		if g := over(Message{Namespace: "n", Event: "e", wait: "7", Err: e, Body: []byte("the question")}); g.Err != nil || g.isError || len(g.Body) != 0 {
			t.Fatalf("an empty reply became %v / %q", g.Err, g.Body)
		}
	}
	a, b := twinErr{"one:"}, twinErr{"two:"}
	plain := errors.New("verif;twin")
	late := errors.New("verif late")
	RegisterKnownError(a)
	RegisterKnownError(b)
	RegisterKnownError(plain)
	RegisterKnownError(a)
	RegisterKnownError(late)
	for text, want := range map[string]error{"one:x": a, "two:y": b, "verif;twin": a, "verif late": late} {
		if g := over(Message{Namespace: "n", Event: "e", Err: errors.New(text)}); g.Err != want {
			t.Fatalf("error %q became %#v, wanted %#v", text, g.Err, want)
		}
	}
	for _, known := range []error{ErrBadNamespace, ErrBadRoom, ErrWrite, ErrInvalidPayload} {
		for _, text := range []string{known.Error() + " ", " " + known.Error(), known.Error() + ".", known.Error()[1:], strings.ToUpper(known.Error())} {
			if g := over(Message{Namespace: "n", Event: "e", Err: errors.New(text)}); g.Err == nil || g.Err == known || g.Err.Error() != text {
				t.Fatalf("error %q became %#v", text, g.Err)
			}
		}
	}
}

func TestReplay_C03_connected(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"": h.events("e", "", OnAnyEvent, OnNamespaceConnect), "ns": h.events("e", OnAnyEvent)}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "")
		connectNS2(t, p, client, "ns")
		h.clear()
		go c.Ask(nil, Message{Namespace: "ns", Event: "e"})
		f, _ := p.next()
		pend := f[:strings.Index(f, ";")]
		for _, b := range []string{"", ";", ";;", "x", "0", ";;;;;", pend, pend + ";ns;;e;0;0", pend + ";ns", tok("5") + ";ns;;e;0;0", tok("5") + ";;", "ns", "e", ";ns;;e;0;", strings.Repeat("y", 5000), "\x00", "\xff\xfe;"} {
			for _, typ := range []MessageType{TextMessage, BinaryMessage} {
				if err := c.HandlePayload(typ, []byte(b)); err == nil {
					t.Fatalf("payload %q was accepted", b)
				}
				c.socket.(*memSocket).put(typ, b)
			}
		}
		settle()
		if h.count() != 0 || c.Namespace("") == nil || c.Namespace("ns") == nil || pendingOf(c) != 1 || c.IsClosed() {
			t.Fatalf("garbage had an effect: %v, %d pending", h.names(), pendingOf(c))
		}
		p.none()
		c.Close()
	})
	// before the handshake, over the reader
	for _, b := range []string{"", "x", ";", "A", "H", "\x00", ";;;;;;", "$5;ns"} {
		g := newRig(t, Namespaces{"ns": h.events("e")})
		x, y := socketPair()
		x.put(TextMessage, b)
		x.put(BinaryMessage, b)
		if _, err := g.upgrade(x, "id"); err != nil {
			t.Fatal(err)
		}
		p := &raw{t, y}
		p.send("M")
		p.expect("Aid")
	}
}

func TestReplay_C04_more(t *testing.T) {
	h := &recorder{}
	_, p := newRig(t, Events{OnNativeMessage: h.handler()}).rawClient("x")
	bodies := []string{"line\n", " x ", "\n\n", "\t", "\x00\x01", "tail\r\n", "{\"a\":1} ", ";", "0", strings.Repeat("z", 9000) + "\n"}
	for i, b := range bodies {
		if i%2 == 0 {
			p.s.WriteBinary([]byte(b), 0)
		} else {
			p.send(b)
		}
	}
	eventually(t, "delivery of every raw payload", func() bool { return h.count() >= len(bodies) })
	for i, x := range h.got(OnNativeMessage) {
		if string(x.msg.Body) != bodies[i] || !x.msg.IsNative {
			t.Fatalf("raw payload %q arrived as %#v", bodies[i], x.msg)
		}
	}
	for _, b := range append(bodies, "1;2;3;4;5;6;7") {
		for _, only := range []bool{false, true} {
			if !only && strings.Count(b, ";") >= 6 {
				continue
			}
			if g := DeserializeMessage(TextMessage, []byte(b), true, only); string(g.Body) != b || !g.IsNative || g.Event != OnNativeMessage || g.isInvalid {
				t.Fatalf("raw payload %q became %#v", b, g)
			}
		}
		if s := string(serializeMessage(Message{IsNative: true, Body: []byte(b), Namespace: "ns", Event: "e", Room: "r"})); s != b {
			t.Fatalf("native body %q is written as %q", b, s)
		}
		if g := DeserializeMessage(TextMessage, serializeMessage(Message{IsNative: true, wait: "5", Body: []byte(b), Namespace: "ns", Event: "e"}), false, false); g.wait != "5" || string(g.Body) != b || g.Event != "e" || g.isInvalid {
			t.Fatalf("a request marked native became %#v", g)
		}
		if g := DeserializeMessage(TextMessage, []byte(";;;"+OnNativeMessage+";0;0;"+b), false, false); g.IsNative {
			t.Fatalf("a message became native where it is not enabled: %#v", g)
		}
	}
}

func TestReplay_C05_more(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"ns": h.events("e"), "off": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		for _, ev := range []string{OnNamespaceConnected, OnNamespaceConnect + "X", OnNamespaceDisconnect + "X", "_onnamespaceconnect", "_OnNamespaceConnec", OnRoomJoin, OnRoomLeft, OnNativeMessage, OnAnyEvent, ""} {
			if c.Write(Message{Namespace: "off", Event: ev}) || c.Write(Message{Namespace: "off", Room: "r", Event: ev, Err: errors.New("x")}) {
				t.Fatalf("wrote event %q to a namespace not connected", ev)
			}
		}
		for _, ev := range []string{OnRoomJoined, OnRoomLeave, OnRoomJoin + "X", OnRoomLeft + "X", OnNamespaceConnected, "", "e"} {
			if c.Write(Message{Namespace: "ns", Room: "r", Event: ev}) {
				t.Fatalf("wrote event %q to a room not joined", ev)
			}
		}
		p.none()
		s := c.socket.(*memSocket)
		for _, m := range []Message{{Namespace: "ns", Event: "e", Err: errors.New("x"), SetBinary: true}, {Namespace: "ns", Event: "e", Err: Reply([]byte("x")), SetBinary: true}, {Namespace: "ns", Event: "e", SetBinary: true, wait: "3"}, {Namespace: "ns", Event: "e", SetBinary: true, isNoOp: true}, {Namespace: "ns", Event: "e", SetBinary: true, IsNative: true, Body: []byte("z")}, {Namespace: "off", Event: OnNamespaceConnect, SetBinary: true}} {
			n := len(s.sent())
			if !c.Write(m) {
				t.Fatalf("%#v was refused", m)
			}
			if f := s.sent()[n:]; len(f) != 1 || f[0].typ != BinaryMessage {
				t.Fatalf("%#v was written as %v", m, f)
			}
			m.SetBinary = false
			c.Write(m)
			if f := s.sent()[n:]; len(f) != 2 || f[1].typ != TextMessage {
				t.Fatalf("%#v was written as %v", m, f)
			}
		}
		drain(p)
		if !client {
			if !c.Write(Message{Namespace: "ns", Event: "e", FromExplicit: c.ID()}) {
				t.Fatalf("a message that excludes another connection was refused")
			}
			drain(p)
		}
		c.Close()
		s.mu.Lock()
		n := len(s.timeouts)
		s.mu.Unlock()
		for _, ev := range []string{"e", OnNamespaceConnect, OnNamespaceDisconnect} {
			if c.Write(Message{Namespace: "ns", Event: ev}) {
				t.Fatalf("wrote after close")
			}
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		if len(s.timeouts) != n {
			t.Fatalf("the socket was written after close")
		}
	})
}

func TestReplay_C06_ids(t *testing.T) {
	for _, sync := range []bool{false, true} {
		h := &recorder{}
		g := newRig(t, Namespaces{"ns": h.events("e")})
		g.s.SyncBroadcaster = sync
		ids := []string{"a", "ab", "abc", "!none", "b"}
		var ps []*raw
		for _, id := range ids {
			_, p := g.rawClient(id)
			connectNS(t, p, "ns")
			ps = append(ps, p)
		}
		ids[3] = ""
		check := func(what string, frame string, to func(id string) bool) {
			t.Helper()
			for i, p := range ps {
				if to(ids[i]) {
					p.expect(frame)
				}
			}
			for _, p := range ps {
				p.none()
			}
		}
		g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("1")})
		check("to all", ";ns;;e;0;0;1", func(string) bool { return true })
		for _, to := range []string{"a", "ab", "abc"} {
			g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", To: to})
			check("to "+to, ";ns;;e;0;0;", func(id string) bool { return id == to })
		}
		g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", To: "none"})
		check("to nobody", "", func(string) bool { return false })
		for _, ex := range []string{"a", "ab", "abc", "b"} {
			g.s.Broadcast(Exclude(ex), Message{Namespace: "ns", Event: "e"})
			check("except "+ex, ";ns;;e;0;0;", func(id string) bool { return id != ex })
		}
		g.s.Broadcast(Exclude("b"), Message{Namespace: "ns", Event: "e", To: "ab"}, Message{Namespace: "ns", Event: "e", To: "b", Body: []byte("no")}, Message{Namespace: "ns", Event: "e", To: "abc"})
		check("each to its own", ";ns;;e;0;0;", func(id string) bool { return id == "ab" || id == "abc" })
		// the caller's list is his own
		list := make([]Message, 2, 8)
		list[0], list[1] = Message{Namespace: "ns", Event: "e", Body: []byte("x")}, Message{Namespace: "ns", Event: "e", Body: []byte("y"), wait: "8"}
		spare := list[:8]
		spare[2].Event = "spare"
		g.s.Broadcast(Exclude("a"), list...)
		if list[0].from != "" || list[1].from != "" || list[1].wait != "8" || spare[2].Event != "spare" || list[0].FromExplicit != "" {
			t.Fatalf("the caller's list was changed: %#v", list)
		}
		for i := range list {
			list[i] = Message{Namespace: "ns", Event: "e", Body: []byte("overwritten")}
		}
		for i, p := range ps {
			if ids[i] != "a" {
				p.expect(";ns;;e;0;0;x")
				p.expect(";ns;;e;0;0;y")
			}
			p.none()
		}
		g.s.Close()
	}
}

func TestReplay_C07_more(t *testing.T) {
	a, b := &recorder{}, &recorder{}
	evs := Events{OnAnyEvent: b.handler(), "e": a.handler()}
	for _, n := range []string{OnRoomJoined, OnRoomLeft, OnNamespaceConnected, OnNamespaceConnect, OnRoomJoin, OnRoomLeave, OnNamespaceDisconnect} {
		evs[n] = a.handler()
	}
	bothSides(t, Namespaces{"ns": evs}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		a.clear()
		b.clear()
		connectNS2(t, p, client, "ns")
		p.send(tok("6") + ";ns;r;_OnRoomJoin;0;0;")
		p.expect(tok("6") + ";;;;;;")
		settle()
		if b.count() != 0 || a.count() != 4 {
			t.Fatalf("system events ran %v and the catch-all %v", a.names(), b.names())
		}
		for _, tk := range []string{"", tok("9"), tok("9")[:1] + "!9", ""} {
			for _, bin := range []bool{false, true} {
				a.clear()
				b.clear()
				for _, ev := range []string{"e", "other", "E", "e ", OnRoomJoined, OnRoomLeft, OnNativeMessage} {
					f := []byte(tk + ";ns;r;" + ev + ";0;0;x")
					if bin {
						p.s.WriteBinary(f, 0)
					} else {
						p.s.WriteText(f, 0)
					}
				}
				eventually(t, "handling", func() bool { return a.count() >= 3 && b.count() >= 4 })
				settle()
				if fmt.Sprint(a.names()) != "[e:r OnRoomJoined:r OnRoomLeft:r]" || fmt.Sprint(b.names()) != "[other:r E:r e :r OnNativeMessage:r]" {
					t.Fatalf("calls %v, catch-all %v (token %q)", a.names(), b.names(), tk)
				}
				for _, x := range append(a.got("e"), b.list...) {
					if x.msg.IsLocal || x.ns != c.Namespace("ns") || x.msg.IsNative {
						t.Fatalf("handler got %#v", x.msg)
					}
				}
			}
		}
		c.Close()
	})
}

func TestReplay_C08_more(t *testing.T) {
	h := &recorder{}
	h.fail("fail", errors.New("no;way"))
	h.fail("reply", Reply([]byte("r")))
	h.fail("empty", Reply(nil))
	bothSides(t, Namespaces{"ns": h.events("ok", "fail", "reply", "empty"), "off": h.events("ok")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		for _, bin := range []bool{false, true} {
			say := func(f string) {
				if bin {
					p.s.WriteBinary([]byte(f), 0)
				} else {
					p.s.WriteText([]byte(f), 0)
				}
			}
			for _, k := range []string{tok("9"), tok("abc"), "", tok("12345678901234567890")} {
				say(k + ";ns;;fail;0;0;x")
				p.expect(k + ";ns;;fail;1;0;no;way")
				say(k + ";ns;;reply;0;0;x")
				p.expect(k + ";ns;;reply;0;0;r")
				say(k + ";ns;;empty;0;0;x")
				p.expect(k + ";ns;;empty;0;0;")
				say(k + ";ns;;ok;0;0;x")
				say(k + ";ns;;fail;0;1;")
				p.expect(k + ";ns;;fail;1;1;no;way")
				p.none()
				for _, ns := range []string{"off", "nowhere", ""} {
					say(k + ";" + ns + ";r;ok;0;0;x")
					if k != "" {
						p.expect(k + ";" + ns + ";r;ok;1;0;bad namespace")
					}
					p.none()
				}
				say(k + ";ns;notjoined;fail;0;0;x")
				p.none()
			}
			typ := TextMessage
			if bin {
				typ = BinaryMessage
			}
			_ = typ
		}
		c.Close()
	})
}

func TestReplay_C09_exact(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"ns": h.events("e", OnAnyEvent)}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		h.clear()
		out := make(chan string, 1)
		go func() {
			m, err := c.Ask(tctx(), Message{Namespace: "ns", Event: "e"})
			out <- fmt.Sprint(string(m.Body), err)
		}()
		f, _ := p.next()
		k := f[:strings.Index(f, ";")]
		for _, bad := range []string{" " + k, k + " ", k + "0", "0" + k, k[:len(k)-1], "\t" + k, k + "x", strings.Repeat(k, 2), "#" + k, "##" + k, k + "#", "+" + k, "-" + k, "00" + k, "\n" + k, k + "\x00", k + "$", k + "."} {
			p.send(bad + ";ns;;e;0;0;wrong")
			p.send(bad + ";ns;;e;1;0;wrong")
		}
		settle()
		select {
		case x := <-out:
			t.Fatalf("request %q took another's reply: %s", k, x)
		default:
		}
		p.send(k + ";ns;;e;0;0;right")
		within(t, "Ask", func() {
			if x := <-out; x != "right<nil>" {
				t.Errorf("reply %s", x)
			}
		})
		c.Close()
	})
}

func TestReplay_C10_errors(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"ns": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		for _, flags := range []string{"1;0", "1;1"} {
			go func() { f, _ := p.next(); p.send(f[:strings.Index(f, ";")] + ";ns;;e;" + flags + ";oops") }()
			within(t, "Ask with an error", func() {
				if m, err := c.Ask(tctx(), Message{Namespace: "ns", Event: "e"}); err == nil || err.Error() != "oops" || m.Err == nil {
					t.Errorf("error reply: %v", err)
				}
			})
		}
		go func() { f, _ := p.next(); p.send(f[:strings.Index(f, ";")] + ";ns;;e;0;1;") }()
		within(t, "Ask with a no-op reply", func() {
			if _, err := c.Ask(tctx(), Message{Namespace: "ns", Event: "e"}); err != nil {
				t.Errorf("no-op reply: %v", err)
			}
		})
		s := c.socket.(*memSocket)
		s.mu.Lock()
		s.failNext = errors.New("flaky")
		s.mu.Unlock()
		within(t, "Ask whose write fails", func() {
			if _, err := c.Ask(nil, Message{Namespace: "ns", Event: "e"}); err != ErrWrite {
				t.Errorf("failed write: %v", err)
			}
		})
		if n := pendingOf(c); n != 0 {
			t.Fatalf("%d requests pending", n)
		}
		// the peer goes away while waiting
		done := make(chan error, 1)
		go func() { _, err := c.Ask(nil, Message{Namespace: "ns", Event: "e"}); done <- err }()
		p.next()
		p.s.NetConn().Close()
		select {
		case err := <-done:
			if err == nil {
				t.Fatal("an answer from nowhere")
			}
		case <-time.After(patience):
			t.Fatal("Ask waits although the peer has gone")
		}
	})
}

func TestReplay_C11_wrap(t *testing.T) {
	seen := map[string]bool{}
	start := atomic.LoadUint64(&lastWait)
	take := func() {
		for i := 0; i < 30; i++ {
			k := genWait(false)
			if seen[k] {
				t.Fatalf("token %q made twice", k)
			}
			seen[k] = true
		}
	}
	take()
	for _, k := range []uint{8, 16, 24, 31, 32, 48, 52, 53, 63} {
		if from := start + 1<<k; from > atomic.LoadUint64(&lastWait) {
			atomic.StoreUint64(&lastWait, from)
			take()
		}
	}
}

func TestReplay_C13_more(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"": h.events("e"), "ns": h.events("e"), "b": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		connectNS2(t, p, client, "")
		connectNS2(t, p, client, "b")
		h.clear()
		// no answer in time
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Millisecond)
		if err := c.Namespace("ns").Disconnect(ctx); err == nil {
			t.Fatal("an unanswered disconnect succeeded")
		}
		cancel()
		drain(p)
		if c.Namespace("ns") == nil || h.count() != 0 {
			t.Fatalf("an unanswered disconnect took effect: %v", h.names())
		}
		s := c.socket.(*memSocket)
		s.mu.Lock()
		s.failNext = errors.New("flaky")
		s.mu.Unlock()
		if err := c.Namespace("ns").Disconnect(nil); err == nil || c.Namespace("ns") == nil || h.count() != 0 {
			t.Fatalf("a disconnect that was not sent took effect: %v %v", err, h.names())
		}
		// all of them
		var asked []string
		go func() {
			for i := 0; i < 3; i++ {
				f, ok := p.next()
				if !ok {
					return
				}
				x := strings.Split(f, ";")
				asked = append(asked, x[1])
				p.send(x[0] + ";;;;;;")
			}
		}()
		within(t, "DisconnectAll", func() {
			if err := c.DisconnectAll(tctx()); err != nil {
				t.Errorf("disconnect all: %v", err)
			}
		})
		sort.Strings(asked)
		if fmt.Sprint(asked) != "[ b ns]" || c.Namespace("") != nil || c.Namespace("ns") != nil || c.Namespace("b") != nil || len(h.got(OnNamespaceDisconnect)) != 3 {
			t.Fatalf("disconnect all asked for %q, events %v", asked, h.names())
		}
		c.Close()
	})
}

func TestReplay_C14_joined_error(t *testing.T) {
	h := &recorder{}
	h.fail(OnRoomJoined, errors.New("ignored"))
	bothSides(t, Namespaces{"ns": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		h.clear()
		go func() { f, _ := p.next(); p.send(f[:strings.Index(f, ";")] + ";;;;;;") }()
		ns := c.Namespace("ns")
		r, err := ns.JoinRoom(tctx(), "r")
		if err != nil || r == nil || ns.Room("r") != r || len(h.got(OnRoomJoined)) != 1 {
			t.Fatalf("join: %v %v, joined %v, %v", r, err, ns.Room("r"), h.names())
		}
		p.send(tok("5") + ";ns;q;_OnRoomJoin;0;0;")
		p.expect(tok("5") + ";;;;;;")
		if ns.Room("q") == nil {
			t.Fatal("not joined although answered")
		}
		// no answer, no join
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Millisecond)
		defer cancel()
		h.clear()
		if r, err := ns.JoinRoom(ctx, "late"); err == nil || r != nil || ns.Room("late") != nil || h.count() != 0 {
			t.Fatalf("an unanswered join took effect: %v %v", err, h.names())
		}
		c.Close()
	})
}

func TestReplay_C15_more(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"ns": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		ns := c.Namespace("ns")
		for _, r := range []string{"a", "b", ""} {
			p.send(tok("5") + ";ns;" + r + ";_OnRoomJoin;0;0;")
			p.expect(tok("5") + ";;;;;;")
		}
		h.clear()
		s := c.socket.(*memSocket)
		s.mu.Lock()
		s.failNext = errors.New("flaky")
		s.mu.Unlock()
		if err := ns.LeaveAll(tctx()); err == nil || len(ns.Rooms()) != 3 || h.count() != 0 {
			t.Fatalf("leave all with a failing write: %v, %d rooms, %v", err, len(ns.Rooms()), h.names())
		}
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Millisecond)
		if err := ns.Room("a").Leave(ctx); err == nil || ns.Room("a") == nil || h.count() != 0 {
			t.Fatalf("an unanswered leave took effect: %v %v", err, h.names())
		}
		cancel()
		drain(p)
		go func() {
			f, _ := p.next()
			p.send(strings.SplitN(f, ";", 2)[0] + ";ns;a;_OnRoomLeave;1;0;stay")
		}()
		if err := ns.LeaveAll(tctx()); err == nil || err.Error() != "stay" || len(ns.Rooms()) != 3 {
			t.Fatalf("leave all refused by the peer: %v, %d rooms", err, len(ns.Rooms()))
		}
		go func() {
			for i := 0; i < 3; i++ {
				f, ok := p.next()
				if !ok {
					return
				}
				p.send(strings.SplitN(f, ";", 2)[0] + ";;;;;;")
			}
		}()
		h.clear()
		if err := ns.LeaveAll(tctx()); err != nil || len(ns.Rooms()) != 0 || len(h.got(OnRoomLeft)) != 3 {
			t.Fatalf("leave all: %v, %d rooms, %v", err, len(ns.Rooms()), h.names())
		}
		c.Close()
	})
}

func TestReplay_C16_native(t *testing.T) {
	c, p := newRig(t, Events{OnNativeMessage: func(*NSConn, Message) error { return nil }}).rawClient("x")
	c.Close()
	select {
	case <-c.closeCh:
	case <-time.After(patience):
		t.Fatal("the close notification is not released")
	}
	if !p.s.isShut() {
		t.Fatal("the network connection is open")
	}
	c.Close()
	// waiters of a native connection
	g := newRig(t, Events{OnNativeMessage: func(*NSConn, Message) error { return nil }})
	var told int32
	g.s.OnDisconnect = func(*Conn) { atomic.AddInt32(&told, 1) }
	k, _ := g.rawClient("y")
	done := make(chan struct{})
	go func() { k.Ask(nil, Message{Event: OnNativeMessage, IsNative: true, Body: []byte("?")}); close(done) }()
	settle()
	k.Close()
	k.Close()
	within(t, "a waiter of a closed native connection", func() { <-done })
	eventually(t, "the server is told", func() bool { return atomic.LoadInt32(&told) == 1 })
	settle()
	if atomic.LoadInt32(&told) != 1 || g.s.GetTotalConnections() != 0 {
		t.Fatal("the server was told twice")
	}
}

func TestReplay_C17_more(t *testing.T) {
	// an unknown connection changes nothing
	g := newRig(t, Namespaces{"ns": Events{}})
	c, _ := g.rawClient("a")
	g.rawClient("b")
	c.Close()
	eventually(t, "the count", func() bool { return g.s.GetTotalConnections() == 1 })
	g.s.disconnect <- c
	g.s.Do(func(*Conn) {}, false)
	if n := g.s.GetTotalConnections(); n != 1 {
		t.Fatalf("count %d", n)
	}
	// Do reaches the ones that are being closed too
	g = newRig(t, Namespaces{"ns": Events{}})
	for i := 0; i < 5; i++ {
		g.rawClient("")
	}
	var all []*Conn
	g.s.Do(func(c *Conn) { all = append(all, c) }, false)
	calls := map[*Conn]int{}
	g.s.Do(func(c *Conn) {
		for _, x := range all {
			x.Close()
		}
		calls[c]++
	}, false)
	if len(all) != 5 || len(calls) != 5 {
		t.Fatalf("Do reached %d of %d", len(calls), len(all))
	}
	for _, n := range calls {
		if n != 1 {
			t.Fatalf("Do reached one %d times", n)
		}
	}
	eventually(t, "the count", func() bool { return g.s.GetTotalConnections() == 0 })
	// a connection that goes before the connect callback ends
	for _, always := range []bool{true, false} {
		g = newRig(t, Namespaces{"ns": Events{}})
		g.s.FireDisconnectAlways = always
		var told int32
		release := make(chan struct{})
		g.s.OnConnect = func(*Conn) error { <-release; return nil }
		g.s.OnDisconnect = func(*Conn) { atomic.AddInt32(&told, 1) }
		a, b := socketPair()
		up := make(chan struct{})
		go func() { g.upgrade(a, "x"); close(up) }()
		eventually(t, "admission", func() bool { return g.s.GetTotalConnections() == 1 })
		b.NetConn().Close()
		eventually(t, "removal", func() bool { return g.s.GetTotalConnections() == 0 })
		settle()
		if n := atomic.LoadInt32(&told); always && n != 1 || !always && n != 0 {
			t.Fatalf("disconnect callback called %d times, always=%v", n, always)
		}
		close(release)
		<-up
	}
	// Close returns when they are closed
	slow := func(*NSConn, Message) error { time.Sleep(40 * time.Millisecond); return nil }
	g = newRig(t, Namespaces{"ns": Events{OnNamespaceDisconnect: slow}})
	var ps []*raw
	for i := 0; i < 4; i++ {
		_, p := g.rawClient("")
		connectNS(t, p, "ns")
		ps = append(ps, p)
	}
	g.s.Close()
	for _, p := range ps {
		if !p.s.isShut() {
			t.Fatal("Close returned before a connection was closed")
		}
	}
}

func TestReplay_C18_more(t *testing.T) {
	// closed while connections are still leaving
	g := newRig(t, Namespaces{"ns": Events{}})
	block := make(chan struct{})
	g.s.OnDisconnect = func(*Conn) { <-block }
	g.rawClient("a")
	g.rawClient("b")
	g.s.Close()
	w := httptest.NewRecorder()
	if c, err := g.s.Upgrade(w, httptest.NewRequest("GET", "http://x/", nil), nil, nil); c != nil || err != errServerClosed || w.Code != 500 {
		t.Fatalf("a closed server answered %v %v %d", c, err, w.Code)
	}
	close(block)
	// a refused connection, whatever it says about itself
	for _, hdr := range []string{"", "3", "x", "0"} {
		for _, writes := range []bool{false, true} {
			g := newRig(t, Namespaces{"ns": Events{}})
			a, b := socketPair()
			p := &raw{t, b}
			p.send("M")
			g.s.OnConnect = func(c *Conn) error {
				if c.ID() != "gen" {
					t.Errorf("id %q", c.ID())
				}
				if writes && c.Write(Message{Namespace: "ns", Event: "e"}) {
					t.Errorf("wrote to a namespace not connected")
				}
				time.Sleep(20 * time.Millisecond)
				if n := len(a.sent()); n != 0 {
					t.Errorf("answered before the verdict: %q", a.sentTexts())
				}
				return errors.New("go away")
			}
			g.up = append(g.up, a)
			r := httptest.NewRequest("GET", "http://x/", nil)
			if hdr != "" {
				r.Header.Set(websocketReconectHeaderKey, hdr)
			}
			r.Header.Set("X-Id", "gen")
			c, err := g.s.Upgrade(httptest.NewRecorder(), r, nil, nil)
			if c != nil || err == nil || err.Error() != "go away" {
				t.Fatalf("refused: %v %v", c, err)
			}
			p.expect("Hgo away")
			eventually(t, "the close", b.isShut)
		}
	}
	// the client's side
	h := Namespaces{"ns": Events{}}
	a, b := socketPair()
	a.failNext = errors.New("flaky")
	within(t, "Dial", func() {
		if cl, err := Dial(context.Background(), func(context.Context, string) (Socket, error) { return a, nil }, "x", h); err == nil || cl != nil {
			t.Error("dial succeeded though the handshake could not be sent")
		}
	})
	_ = b
	a, b = socketPair()
	p := &raw{t, b}
	go func() { p.next(); p.send("Hsorry;1") }()
	within(t, "Dial", func() {
		cl, err := Dial(context.Background(), func(context.Context, string) (Socket, error) { return a, nil }, "x", h)
		if err == nil || cl != nil || err.Error() != "sorry;1" {
			t.Errorf("dial refused: %v %v", cl, err)
		}
		if !a.isShut() {
			t.Error("the refused connection is still open")
		}
	})
	for _, method := range []string{"POST", "PUT", "DELETE", "OPTIONS", "get", "PATCH"} {
		g := newRig(t, h)
		g.up = append(g.up, a)
		w := httptest.NewRecorder()
		c, err := g.s.Upgrade(w, &http.Request{Method: method, Header: http.Header{}}, nil, nil)
		if c != nil || err != errInvalidMethod || w.Code != 405 || len(g.up) != 1 {
			t.Fatalf("%s: %v %v %d", method, c, err, w.Code)
		}
	}
}

func TestReplay_C19_many(t *testing.T) {
	var mu sync.Mutex
	var got []string
	h := Namespaces{"ns": Events{"e": func(c *NSConn, m Message) error {
		mu.Lock()
		got = append(got, string(m.Body))
		n := len(got)
		mu.Unlock()
		if n%7 == 0 {
			return errors.New("bad")
		}
		return nil
	}}}
	g := newRig(t, h)
	release := make(chan struct{})
	g.s.OnConnect = func(*Conn) error { <-release; return nil }
	a, b := socketPair()
	var c *Conn
	up := make(chan struct{})
	go func() { c, _ = g.upgrade(a, "me"); close(up) }()
	const total = 3000
	b.WriteText([]byte("$5;ns;;_OnNamespaceConnect;0;0;"), 0)
	var want []string
	for i := 0; i < total; i++ {
		b.WriteText([]byte(fmt.Sprintf(";ns;;e;0;0;%d", i)), 0)
		want = append(want, fmt.Sprint(i))
		if i%100 == 50 {
			b.WriteText([]byte("garbage"), 0)
			b.WriteText([]byte("$9;nowhere;;e;0;0;"), 0)
		}
	}
	b.WriteText([]byte("M"), 0)
	settle()
	mu.Lock()
	if len(got) != 0 {
		t.Fatalf("handled early: %v", got)
	}
	mu.Unlock()
	close(release)
	<-up
	eventually(t, "handling of the early messages", func() bool { mu.Lock(); defer mu.Unlock(); return len(got) >= total })
	c.handleQueue()
	settle()
	mu.Lock()
	defer mu.Unlock()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("handled %d messages, wanted %d in order", len(got), total)
	}
}

func TestReplay_C20_race(t *testing.T) {
	for round := 0; round < 30000; round++ {
		w := newWaiterOnce()
		var start, ready int32
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&start) == 0 {
					runtime.Gosched()
				}
				w.unwait(fmt.Errorf("%d", i))
			}(i)
		}
		for atomic.LoadInt32(&ready) != 3 {
			runtime.Gosched()
		}
		atomic.StoreInt32(&start, 1)
		first := w.wait()
		wg.Wait()
		if e := w.wait(); e != first || e == nil {
			t.Fatalf("verdict %v became %v", first, e)
		}
	}
}

func TestReplay_C20_flag(t *testing.T) {
	no := errors.New("no")
	for round := 0; round < 500; round++ {
		w := newWaiterOnce()
		out := make(chan error, 3)
		for i := 0; i < 3; i++ {
			go func() { // like the server, when a connection goes: a verdict is only looked at once it is there
				for !w.isReady() {
					runtime.Gosched()
				}
				out <- w.err
			}()
		}
		w.unwait(no)
		for i := 0; i < 3; i++ {
			if e := <-out; e != no {
				t.Fatalf("ready with %v", e)
			}
		}
	}
}

func TestReplay_C21_stress(t *testing.T) {
	c, _ := newRig(t, Namespaces{"ns": Events{}}).rawClient("a")
	for round := 0; round < 30; round++ {
		k := fmt.Sprint("k", round)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 500; i++ {
					if g%2 == 0 {
						c.Increment(k)
					} else {
						c.Decrement(k)
					}
					c.Increment(k)
					c.Get(k)
					c.Get("none")
					c.Set(fmt.Sprint("o", g, i%50), i)
				}
			}(g)
		}
		wg.Wait()
		if v := c.Get(k); v != 8*500 {
			t.Fatalf("value %v after 4000 increments more than decrements", v)
		}
	}
	for _, v := range []interface{}{nil, "x", int64(7), uint(3), 3.5, []int{1}} {
		c.Set("v", v)
		if n := c.Increment("v"); n != 1 || c.Get("v") != 1 {
			t.Fatalf("increment of %#v: %d %v", v, n, c.Get("v"))
		}
		c.Set("v", v)
		if n := c.Decrement("v"); n != -1 || c.Get("v") != -1 {
			t.Fatalf("decrement of %#v: %d %v", v, n, c.Get("v"))
		}
		if n := c.Increment("v"); n != 0 || c.Get("v") != 0 {
			t.Fatalf("back to zero: %d %v", n, c.Get("v"))
		}
	}
}

func TestReplay_C24_empty(t *testing.T) {
	for _, e := range []ConnHandler{Events{}, Events(nil), Events{"x": func(*NSConn, Message) error { return nil }}} {
		nss := e.GetNamespaces()
		if len(nss) != 1 || nss[""] == nil && len(e.(Events)) > 0 {
			t.Fatalf("bare events become %v", nss)
		}
		if _, ok := nss[""]; !ok {
			t.Fatalf("bare events do not serve the empty namespace: %v", nss)
		}
	}
	_, p := newRig(t, Events{}).rawClient("a")
	connectNS(t, p, "")
}

func TestReplay_C29_gate(t *testing.T) {
	for _, name := range []string{"ns", ""} {
		ps := newProcesses()
		if ps.get(name) != ps.get(name) {
			t.Fatalf("two wait points for %q", name)
		}
		var wg sync.WaitGroup
		got := make([]*process, 64)
		for i := range got {
			wg.Add(1)
			go func(i int) { defer wg.Done(); got[i] = ps.get(name + "x") }(i)
		}
		wg.Wait()
		for _, x := range got {
			if x != got[0] {
				t.Fatalf("two wait points for %q", name)
			}
		}
		p := ps.get(name)
		within(t, "waiting for nothing", p.Wait)
		p.Start()
		p.Start()
		var first int32
		done := make(chan struct{})
		go func() { p.Wait(); atomic.StoreInt32(&first, 1); close(done) }()
		settle()
		p.Done()
		settle()
		if atomic.LoadInt32(&first) != 0 {
			t.Fatal("the wait ended while an attempt is in progress")
		}
		p.Start()
		p.Done()
		if atomic.LoadInt32(&first) != 0 {
			t.Fatal("the wait ended while an attempt is in progress")
		}
		p.Done()
		within(t, "the wait", func() { <-done })
		within(t, "waiting for nothing", p.Wait)
		for i := 0; i < 3; i++ {
			p.Start()
			d := make(chan struct{})
			go func() { p.Wait(); close(d) }()
			time.Sleep(time.Millisecond)
			p.Done()
			within(t, "the wait", func() { <-d })
		}
	}
}

func TestReplay_C30_more(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e")})
	a, b := socketPair()
	if _, err := g.upgrade(a, "slow"); err != nil {
		t.Fatal(err)
	}
	p := &raw{t, b}
	_, q := g.rawClient("q")
	connectNS(t, q, "ns")
	// nothing at all, and messages nobody can take yet
	g.s.Broadcast(nil)
	g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("early")}, Message{Namespace: "off", Event: "e"})
	g.s.Broadcast(Exclude("x"))
	q.expect(";ns;;e;0;0;early")
	settle()
	p.send("M")
	p.expect("Aslow")
	connectNS(t, p, "ns")
	for i := 0; i < 20; i++ {
		g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte(fmt.Sprint(i))})
		if i%5 == 0 {
			g.s.Broadcast(nil)
			g.s.Broadcast(nil, Message{Namespace: "ns", Room: "nope", Event: "e"})
		}
	}
	for i := 0; i < 20; i++ {
		p.expect(fmt.Sprintf(";ns;;e;0;0;%d", i))
		q.expect(fmt.Sprintf(";ns;;e;0;0;%d", i))
	}
	// a write that fails once
	a.mu.Lock()
	a.failNext = errors.New("flaky")
	a.mu.Unlock()
	g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("lost")}, Message{Namespace: "ns", Event: "e", Body: []byte("kept")})
	g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("after")})
	p.expect(";ns;;e;0;0;kept")
	p.expect(";ns;;e;0;0;after")
	// admitted, then broadcast at once
	for i := 0; i < 300; i++ {
		x, y := socketPair()
		g.s.OnConnect = func(c *Conn) error { return nil }
		r := &raw{t, y}
		var wg sync.WaitGroup
		wg.Add(1)
		n := g.s.GetTotalConnections()
		go func() { defer wg.Done(); g.upgrade(x, "") }()
		for g.s.GetTotalConnections() == n {
			runtime.Gosched()
		}
		g.s.Broadcast(nil, Message{Namespace: "n0", Event: OnNamespaceConnect, Body: []byte("hi")})
		wg.Wait()
		r.expect(";n0;;_OnNamespaceConnect;0;0;hi")
		y.NetConn().Close()
		eventually(t, "leaving", func() bool { return g.s.GetTotalConnections() == n })
		drain(p)
		drain(q)
	}
}

func TestReplay_C31_more(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e"), "": h.events("e")})
	a, _ := socketPair()
	if _, err := g.upgrade(a, "waiting"); err != nil {
		t.Fatal(err)
	}
	c, p := g.rawClient("c")
	connectNS(t, p, "ns")
	connectNS(t, p, "")
	for _, r := range []string{"", "a", "b;c", " "} {
		p.send("$5;ns;" + strings.Replace(r, ";", "@%!semicolon@%!", -1) + ";_OnRoomJoin;0;0;")
		p.expect("$5;;;;;;")
	}
	ns := c.Namespace("ns")
	var names []string
	for _, r := range ns.Rooms() {
		names = append(names, r.Name)
		if ns.Room(r.Name) != r || r.NSConn != ns {
			t.Fatalf("room %q is not itself", r.Name)
		}
	}
	sort.Strings(names)
	if fmt.Sprintf("%q", names) != `["" " " "a" "b;c"]` {
		t.Fatalf("rooms %q", names)
	}
	if c.Namespace("").Room("a") != nil || len(c.Namespace("").Rooms()) != 0 || ns.Room("b") != nil {
		t.Fatal("a room of another namespace")
	}
	var all map[string]*Conn
	var byNS, byEmpty map[string]*NSConn
	once := true
	g.s.Do(func(*Conn) {
		if once {
			once = false
			all, byNS, byEmpty = g.s.GetConnections(), g.s.GetConnectionsByNamespace("ns"), g.s.GetConnectionsByNamespace("")
		}
	}, false)
	if len(all) != 2 || all["c"] != c || all["waiting"] == nil || len(byNS) != 1 || byNS["c"] != ns || len(byEmpty) != 1 || byEmpty["c"] != c.Namespace("") {
		t.Fatalf("connections %v, by namespace %v %v", all, byNS, byEmpty)
	}
}

func TestReplay_C02_emptyReply(t *testing.T) {
	for _, body := range [][]byte{nil, {}, []byte("x")} {
		for _, m := range []Message{
			{wait: "1", Namespace: "ns", Event: "e", Err: Reply(body)},
			{wait: "$1", Namespace: "ns", Event: "e", Body: []byte("old"), Err: Reply(body)},
		} {
			got := DeserializeMessage(TextMessage, serializeMessage(m), false, false)
			if got.isError || got.Err != nil || string(got.Body) != string(body) || got.wait != m.wait {
				t.Fatalf("the reply %q arrived as %+v", body, got)
			}
		}
	}
}

func TestReplay_C15_leaveAllFails(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"ns": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		n := c.Namespace("ns")
		for _, r := range []string{"a", "b"} {
			p.send(tok("78") + ";ns;" + r + ";_OnRoomJoin;0;0;")
			p.expect(tok("78") + ";;;;;;")
		}
		s := c.socket.(*memSocket)
		s.mu.Lock()
		s.failAll = errors.New("broken")
		s.mu.Unlock()
		if err := n.LeaveAll(tctx()); err == nil {
			t.Fatal("LeaveAll succeeded although no request could be written")
		}
		if c.IsClosed() == false && len(n.Rooms()) != 2 {
			t.Fatal("a room was left although the request to leave it could not be written")
		}
		s.mu.Lock()
		s.failAll = nil
		s.mu.Unlock()
	})
}

func TestReplay_C22_waiting(t *testing.T) {
	nss := Namespaces{"ns": Events{"e": func(c *NSConn, m Message) error { return Reply(m.Body) }}}
	g := newRig(t, nss)
	cl, sc, _, _ := g.mustDial("x", nss)
	if _, err := cl.Connect(tctx(), "ns"); err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 60; j++ {
				if _, err := g.s.Ask(tctx(), Message{To: sc.ID(), Namespace: "ns", Event: "e", Body: []byte("b")}); err != nil {
					t.Error(err)
				}
			}
		}(i)
	}
	within(t, "concurrent requests", wg.Wait)
	cl.Close()
}

func TestReplay_C22_growing(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"ns": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		n := c.Namespace("ns")
		var wg sync.WaitGroup
		var done int32
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for atomic.LoadInt32(&done) == 0 {
					for _, r := range n.Rooms() {
						if r == nil {
							t.Error("a room is missing")
							return
						}
					}
				}
			}()
		}
		for j := 0; j < 150; j++ {
			p.send(tok("78") + ";ns;" + fmt.Sprint("r", j) + ";_OnRoomJoin;0;0;")
			p.expect(tok("78") + ";;;;;;")
		}
		for j := 0; j < 150; j++ {
			p.send(tok("78") + ";ns;" + fmt.Sprint("r", j) + ";_OnRoomLeave;0;0;")
			p.expect(tok("78") + ";;;;;;")
		}
		atomic.StoreInt32(&done, 1)
		within(t, "listing", wg.Wait)
	})
}

func TestReplay_C22_rooms(t *testing.T) {
	h := &recorder{}
	bothSides(t, Namespaces{"ns": h.events("e")}, func(c *Conn, p *raw, client bool, tok func(string) string) {
		connectNS2(t, p, client, "ns")
		n := c.Namespace("ns")
		var wg sync.WaitGroup
		var done int32
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for atomic.LoadInt32(&done) == 0 {
					n.Room("r1")
					n.Rooms()
					_ = n.String()
					c.Namespace("ns")
					c.Write(Message{Namespace: "ns", Room: "r1", Event: "zz"})
					time.Sleep(50 * time.Microsecond)
				}
			}()
		}
		for j := 0; j < 100; j++ {
			for _, ev := range []string{"_OnRoomJoin", "_OnRoomLeave"} {
				p.send(tok("78") + ";ns;" + fmt.Sprint("r", j%3) + ";" + ev + ";0;0;")
			}
		}
		settle()
		atomic.StoreInt32(&done, 1)
		within(t, "concurrent use", wg.Wait)
	})
}

func TestReplay_C29_onePoint(t *testing.T) {
	ps := newProcesses()
	for k := 0; k < 3000; k++ {
		name := fmt.Sprint("n", k)
		gate := make(chan struct{})
		var wg sync.WaitGroup
		got := make([]*process, 4)
		for i := range got {
			wg.Add(1)
			go func(i int) { defer wg.Done(); <-gate; got[i] = ps.get(name) }(i)
		}
		close(gate)
		wg.Wait()
		for _, x := range got {
			if x != got[0] {
				t.Fatalf("two wait points for %q", name)
			}
		}
	}
}

// TestReplay_C30_admission: a broadcast that starts once a connection is counted reaches it.
func TestReplay_C30_admission(t *testing.T) {
	g := newRig(t, Namespaces{"ns": Events{"e": func(c *NSConn, m Message) error { return nil }}})
	g.s.SyncBroadcaster = false
	for i := 0; i < 20; i++ {
		a, b := socketPair()
		before := uint64(i)
		eventually(t, "the count", func() bool { return g.s.GetTotalConnections() == before })
		g.s.broadcaster.mu.Lock()
		done := make(chan struct{})
		go func() { defer close(done); g.upgrade(a, fmt.Sprint("c", i)) }()
		if i == 0 {
			settle()
		}
		for j := 0; j < 20; j++ {
			if g.s.GetTotalConnections() > before {
				g.s.broadcaster.mu.Unlock()
				t.Fatal("a connection is counted before it follows the broadcasts")
			}
			time.Sleep(100 * time.Microsecond)
		}
		g.s.broadcaster.mu.Unlock()
		within(t, "Upgrade", func() { <-done })
		_ = b
	}
}

// TestReplay_C26_subscribed: the exchange hears of every namespace that is connected, whatever its Connected callback says.
func TestReplay_C26_subscribed(t *testing.T) {
	h := &recorder{}
	h.fail(OnNamespaceConnected, errors.New("too late"))
	nss := Namespaces{"ns": h.events("e"), "two": h.events("e")}
	g := newRig(t, nss)
	x := &exLog{}
	if err := g.s.UseStackExchange(x); err != nil {
		t.Fatal(err)
	}
	c, p := g.rawClient("a")
	connectNS(t, p, "ns")
	go func() { c.Connect(tctx(), "two") }()
	f, _ := p.next()
	p.send(strings.Split(f, ";")[0] + ";;;;;;")
	eventually(t, "the second connect", func() bool { return c.Namespace("two") != nil })
	eventually(t, "the subscriptions", func() bool { return len(x.got("subscribe a ns")) == 1 && len(x.got("subscribe a two")) == 1 })
	p.send("$79;ns;;_OnNamespaceDisconnect;0;0;")
	p.expect("$79;;;;;;")
	eventually(t, "the unsubscription", func() bool { return len(x.got("unsubscribe a ns")) == 1 })
}

// a handler that closes the connection and then allows the connect or the join: nothing is connected or
// joined after the teardown.
func TestReplay_C16_closedMeanwhile(t *testing.T) {
	eachSide(t, func(s *side) {
		s.h.setHook(func(c *NSConn, m Message) error {
			if m.Event == OnNamespaceConnect && m.Namespace == "two" {
				c.Conn.Close()
			}
			return nil
		})
		s.up()
		s.h.clear()
		s.req("two;;_OnNamespaceConnect;0;0;")
		eventually(t, "close", s.c.IsClosed)
		eventually(t, "teardown", func() bool { return s.c.socket.(*memSocket).isShut() })
		settle()
		if s.c.Namespace("ns") != nil || s.c.Namespace("two") != nil || len(s.c.connected()) != 0 {
			t.Fatalf("client=%v: a namespace is connected after the close", s.client)
		}
		if n := s.h.got(OnNamespaceConnected); len(n) != 0 {
			t.Fatalf("client=%v: connected after the close", s.client)
		}
	})
	eachSide(t, func(s *side) {
		ns := s.up()
		s.h.setHook(func(c *NSConn, m Message) error {
			if m.Event == OnRoomJoin {
				c.Conn.Close()
			}
			return nil
		})
		s.h.clear()
		s.req("ns;r;_OnRoomJoin;0;0;")
		eventually(t, "close", s.c.IsClosed)
		eventually(t, "teardown", func() bool { return s.c.socket.(*memSocket).isShut() })
		settle()
		if len(ns.Rooms()) != 0 || len(s.h.got(OnRoomJoined)) != 0 {
			t.Fatalf("client=%v: a room is joined after the close", s.client)
		}
	})
	// the same of this side's own attempts
	eachSide(t, func(s *side) {
		ns := s.up()
		s.h.setHook(func(c *NSConn, m Message) error {
			if m.Event == OnRoomJoin {
				c.Conn.Close()
			}
			return nil
		})
		s.h.clear()
		done := make(chan error, 1)
		go func() { _, err := ns.JoinRoom(tctx(), "r"); done <- err }()
		s.answer(";ns;r;_OnRoomJoin;0;0;", "")
		within(t, "JoinRoom", func() {
			if err := <-done; err == nil {
				t.Errorf("client=%v: joined on a closed connection", s.client)
			}
		})
		if len(ns.Rooms()) != 0 || len(s.h.got(OnRoomJoined)) != 0 {
			t.Fatalf("client=%v: a room is joined after the close", s.client)
		}
	})
}
