package neffos

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func bodiesOf(s *memSocket, ns string) (out []string) {
	for _, f := range s.sent() {
		m := DeserializeMessage(f.typ, f.b, false, false)
		if !m.isInvalid && m.Namespace == ns && m.Event == "e" {
			out = append(out, string(m.Body))
		}
	}
	return
}

// nrig is a server with n connections in the namespace "ns".
func nrig(t *testing.T, sync bool, n int) (*rig, []*Conn, []*memSocket) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e")})
	g.s.SyncBroadcaster = sync
	var cs []*Conn
	var ss []*memSocket
	for i := 0; i < n; i++ {
		c, p := g.rawClient(fmt.Sprintf("c%d", i))
		connectNS(t, p, "ns")
		joinRoom(t, p, "ns", "r")
		cs = append(cs, c)
		ss = append(ss, c.socket.(*memSocket))
	}
	return g, cs, ss
}

func TestReplay_C06_broadcast(t *testing.T) {
	for _, sync := range []bool{false, true} {
		g, cs, ss := nrig(t, sync, 4)
		room := cs[2].Namespace("ns").Room("r")
		ex := []struct {
			v   fmt.Stringer
			out int // the excluded one
		}{{nil, -1}, {cs[0], 0}, {cs[1].Namespace("ns"), 1}, {room, 2}, {Exclude("c3"), 3}, {Exclude("nobody"), -1}, {Exclude(""), -1}}
		var want [4][]string
		n := 0
		cast := func(v fmt.Stringer, out int, tos ...string) {
			var ms []Message
			for _, to := range tos {
				n++
				b := fmt.Sprintf("b%d", n)
				ms = append(ms, Message{Namespace: "ns", Room: []string{"", "r"}[n%2], Event: "e", Body: []byte(b), To: to})
				for k := range want {
					if k != out && (to == "" || to == cs[k].ID()) {
						want[k] = append(want[k], b)
					}
				}
			}
			keep := append([]Message(nil), ms...)
			g.s.Broadcast(v, ms...)
			if !reflect.DeepEqual(keep, ms) {
				t.Fatalf("Broadcast changed the caller's messages")
			}
			for i := range ms {
				ms[i] = Message{Namespace: "ns", Event: "e", Body: []byte("overwritten")}
			}
		}
		for _, e := range ex {
			cast(e.v, e.out, "")
			cast(e.v, e.out, "", "c1", "", "c2", "nobody", "c0", "")
			cast(e.v, e.out, "c3")
			cast(e.v, e.out)
			cast(e.v, e.out, "c0", "c0", "c1")
		}
		for k := range want {
			eventually(t, "delivery", func() bool { return len(bodiesOf(ss[k], "ns")) >= len(want[k]) })
		}
		settle()
		for k := range want {
			if got := bodiesOf(ss[k], "ns"); !reflect.DeepEqual(got, want[k]) {
				t.Fatalf("sync=%v: connection %d got %v, wanted %v", sync, k, got, want[k])
			}
		}
	}
	// the namespace and the room of the message decide too
	g, cs, ss := nrig(t, false, 3)
	other, p := g.rawClient("other")
	_ = p
	cs[1].Namespace("ns").Room("r")
	done := make(chan error, 1)
	go func() { done <- cs[1].Namespace("ns").Room("r").Leave(tctx()) }()
	eventually(t, "leave request", func() bool {
		for _, f := range ss[1].sentTexts() {
			if strings.Contains(f, OnRoomLeave) {
				ss[1].put(TextMessage, f[:strings.Index(f, ";")]+";;;;;;")
				return true
			}
		}
		return false
	})
	within(t, "Leave", func() {
		if err := <-done; err != nil {
			t.Errorf("leave: %v", err)
		}
	})
	g.s.Broadcast(nil, Message{Namespace: "ns", Room: "r", Event: "e", Body: []byte("room")})
	g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("all")})
	eventually(t, "delivery", func() bool { return len(bodiesOf(ss[0], "ns")) == 2 && len(bodiesOf(ss[2], "ns")) == 2 })
	settle()
	if got := bodiesOf(ss[1], "ns"); !reflect.DeepEqual(got, []string{"all"}) {
		t.Fatalf("a connection out of the room got %v", got)
	}
	if got := bodiesOf(other.socket.(*memSocket), "ns"); len(got) != 0 {
		t.Fatalf("a connection out of the namespace got %v", got)
	}
}

// a failed write to one message does not affect the others and a closed connection nobody else.
func TestReplay_C06_independent(t *testing.T) {
	for _, sync := range []bool{false, true} {
		g, cs, ss := nrig(t, sync, 3)
		_ = cs
		g.s.Broadcast(nil,
			Message{Namespace: "nowhere", Event: "e", Body: []byte("0")},
			Message{Namespace: "ns", Room: "elsewhere", Event: "e", Body: []byte("1")},
			Message{Namespace: "ns", Event: "e", Body: []byte("2")})
		ss[1].NetConn().Close()
		g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("3")})
		for _, k := range []int{0, 2} {
			eventually(t, "delivery", func() bool { return reflect.DeepEqual(bodiesOf(ss[k], "ns"), []string{"2", "3"}) })
		}
	}
}

// a received request that is broadcasted is not a request for its receivers
func TestReplay_C06_forwardedRequest(t *testing.T) {
	for _, sync := range []bool{false, true} {
		for _, except := range []bool{false, true} {
			g, cs, ss := nrig(t, sync, 3)
			m := DeserializeMessage(TextMessage, []byte("$1234567;ns;;e;0;0;fwd"), false, false)
			var v fmt.Stringer
			if except {
				v = cs[0]
			}
			g.s.Broadcast(v, m)
			for k := 1; k < 3; k++ {
				want := ";ns;;e;0;0;fwd"
				eventually(t, "delivery", func() bool { return reflect.DeepEqual(bodiesOf(ss[k], "ns"), []string{"fwd"}) })
				ss[k].mu.Lock()
				last := ss[k].written[len(ss[k].written)-1]
				ss[k].mu.Unlock()
				if string(last.b) != want {
					t.Fatalf("forwarded as %q, want %q", last.b, want)
				}
			}
		}
	}
}

func TestReplay_C30_rapid(t *testing.T) {
	for round := 0; round < 4; round++ {
		g, _, ss := nrig(t, false, 6)
		const n = 300
		slow := func(frame) { time.Sleep(time.Duration(50) * time.Microsecond) }
		ss[0].mu.Lock()
		ss[0].onWrite = slow
		ss[0].mu.Unlock()
		var wg sync.WaitGroup
		for w := 0; w < 3; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < n/3; i++ {
					g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte(fmt.Sprintf("%d.%d", w, i))})
				}
			}(w)
		}
		wg.Wait()
		for k, s := range ss {
			end := time.Now().Add(patience)
			for len(bodiesOf(s, "ns")) < n && time.Now().Before(end) {
				time.Sleep(2 * time.Millisecond)
			}
			got := bodiesOf(s, "ns")
			if len(got) != n {
				t.Fatalf("connection %d got %d of %d broadcasts", k, len(got), n)
			}
			seen := map[string]bool{}
			for _, b := range got {
				if seen[b] {
					t.Fatalf("connection %d got %q twice", k, b)
				}
				seen[b] = true
			}
		}
		// broadcast right after the admission
		c, p := g.rawClient("late")
		_ = c
		connectNS(t, p, "ns")
		g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("late")})
		p.expect(";ns;;e;0;0;late")
	}
}

// admitted is a connection that is counted but whose callback has not returned.
func TestReplay_C30_admitted(t *testing.T) {
	for i := 0; i < 30; i++ {
		h := &recorder{}
		g := newRig(t, Namespaces{"ns": h.events("e")})
		var s *memSocket
		g.s.OnConnect = func(c *Conn) error {
			s = c.socket.(*memSocket)
			c.set1NS(t, "ns")
			g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("x")})
			return nil
		}
		a, _ := socketPair()
		if _, err := g.upgrade(a, ""); err != nil {
			t.Fatal(err)
		}
		eventually(t, "delivery of a broadcast made by the connect callback", func() bool { return len(bodiesOf(s, "ns")) == 1 })
	}
}

// set1NS makes the connection count as connected to the namespace.
func (c *Conn) set1NS(t *testing.T, ns string) {
	c.connectedNamespacesMutex.Lock()
	c.connectedNamespaces[ns] = newNSConn(c, ns, c.namespaces[ns])
	c.connectedNamespacesMutex.Unlock()
}

type exLog struct {
	mu   sync.Mutex
	log  []string
	name string
	errs map[string]error
	bad  bool // Publish fails
	pub  func([]Message)
	ask  func(context.Context, Message, string) (Message, error)
	note func(Message, string)
}

func (x *exLog) add(f string, a ...interface{}) {
	x.mu.Lock()
	x.log = append(x.log, x.name+fmt.Sprintf(f, a...))
	x.mu.Unlock()
}
func (x *exLog) got(prefix string) (out []string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, l := range x.log {
		if strings.HasPrefix(l, x.name+prefix) {
			out = append(out, l)
		}
	}
	return
}
func (x *exLog) OnConnect(c *Conn) error { x.add("connect %s", c.ID()); return x.errs["connect"] }
func (x *exLog) OnDisconnect(c *Conn)    { x.add("disconnect %s", c.ID()) }
func (x *exLog) Publish(m []Message) bool {
	for _, y := range m {
		x.add("publish %s", y.Body)
	}
	if x.pub != nil {
		x.pub(m)
	}
	return !x.bad
}
func (x *exLog) Subscribe(c *Conn, ns string)   { x.add("subscribe %s %s", c.ID(), ns) }
func (x *exLog) Unsubscribe(c *Conn, ns string) { x.add("unsubscribe %s %s", c.ID(), ns) }
func (x *exLog) Ask(ctx context.Context, m Message, tok string) (Message, error) {
	x.add("ask %s", m.Body)
	if x.ask != nil {
		return x.ask(ctx, m, tok)
	}
	return Message{Body: []byte(x.name)}, x.errs["ask"]
}
func (x *exLog) NotifyAsk(m Message, tok string) error {
	x.add("notify %s", m.Body)
	if x.note != nil {
		x.note(m, tok)
	}
	return x.errs["notify"]
}

func TestReplay_C17_accounting(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e")})
	x := &exLog{}
	g.s.UseStackExchange(x)
	var mu sync.Mutex
	gone := map[string]int{}
	g.s.OnDisconnect = func(c *Conn) { mu.Lock(); gone[c.ID()]++; mu.Unlock() }
	var cs []*Conn
	for i := 0; i < 20; i++ {
		c, _ := g.rawClient(fmt.Sprintf("c%d", i))
		cs = append(cs, c)
	}
	if n := g.s.GetTotalConnections(); n != 20 {
		t.Fatalf("%d connections counted, 20 are open", n)
	}
	seen := map[*Conn]int{}
	g.s.Do(func(c *Conn) { seen[c]++; time.Sleep(100 * time.Microsecond) }, false)
	if len(seen) != 20 {
		t.Fatalf("Do reached %d of 20 connections by its return", len(seen))
	}
	for _, n := range seen {
		if n != 1 {
			t.Fatalf("Do called %d times for one connection", n)
		}
	}
	var async int32
	g.s.Do(func(c *Conn) { atomic.AddInt32(&async, 1) }, true)
	eventually(t, "asynchronous Do", func() bool { return atomic.LoadInt32(&async) == 20 })
	// closed many times at once
	var wg sync.WaitGroup
	for i := 0; i < 7; i++ {
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); cs[i].Close() }(i)
		}
	}
	within(t, "Close", wg.Wait)
	eventually(t, "accounting of the closed ones", func() bool { return g.s.GetTotalConnections() == 13 })
	settle()
	if n := g.s.GetTotalConnections(); n != 13 {
		t.Fatalf("%d connections counted, 13 are open", n)
	}
	mu.Lock()
	for i := 0; i < 20; i++ {
		want := 0
		if i < 7 {
			want = 1
		}
		if n := gone[fmt.Sprintf("c%d", i)]; n != want {
			t.Fatalf("disconnect callback of c%d fired %d times, wanted %d", i, n, want)
		}
	}
	mu.Unlock()
	if l := x.got("disconnect "); len(l) != 7 {
		t.Fatalf("exchange told of %v", l)
	}
	within(t, "Server.Close", func() { g.s.Close(); g.s.Close() })
	eventually(t, "accounting after Server.Close", func() bool { return g.s.GetTotalConnections() == 0 })
	for _, c := range cs {
		if !c.IsClosed() {
			t.Fatalf("connection open after Server.Close")
		}
	}
	settle()
	if l := x.got("disconnect "); len(l) != 20 {
		t.Fatalf("exchange told of %d disconnects, wanted 20", len(l))
	}
	mu.Lock()
	defer mu.Unlock()
	if len(gone) != 20 {
		t.Fatalf("disconnect callback fired for %d of 20", len(gone))
	}
}

func TestReplay_C17_refused(t *testing.T) {
	for _, always := range []bool{false, true} {
		for _, by := range []string{"callback", "exchange", "close"} {
			g := newRig(t, Namespaces{"ns": Events{}})
			g.s.FireDisconnectAlways = always
			x := &exLog{errs: map[string]error{}}
			g.s.UseStackExchange(x)
			var fired int32
			g.s.OnDisconnect = func(c *Conn) { atomic.AddInt32(&fired, 1) }
			switch by {
			case "callback":
				g.s.OnConnect = func(c *Conn) error { return errors.New("refused") }
			case "exchange":
				x.errs["connect"] = errors.New("refused")
			case "close":
				g.s.OnConnect = func(c *Conn) error { c.Close(); return nil }
			}
			a, b := socketPair()
			p := &raw{t, b}
			p.send("M")
			within(t, "Upgrade", func() { g.upgrade(a, "") })
			eventually(t, "disconnect", func() bool { return g.s.GetTotalConnections() == 0 && len(x.got("disconnect ")) == 1 })
			settle()
			want := int32(0)
			if always {
				want = 1
			}
			if n := atomic.LoadInt32(&fired); by != "close" && n != want {
				t.Fatalf("refused by %s, always=%v: disconnect callback fired %d times", by, always, n)
			}
			if n := len(x.got("disconnect ")); n != 1 {
				t.Fatalf("exchange told %d times", n)
			}
		}
	}
}

func TestReplay_C17_race(t *testing.T) {
	g := newRig(t, Namespaces{"ns": Events{}})
	var fired int32
	g.s.FireDisconnectAlways = true
	g.s.OnDisconnect = func(c *Conn) { atomic.AddInt32(&fired, 1) }
	var wg sync.WaitGroup
	const n = 200
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			a, b := socketPair()
			if i%2 == 0 {
				b.NetConn().Close() // gone before it is admitted
			}
			if c, err := g.upgrade(a, ""); err == nil {
				c.Close()
			}
		}(i)
	}
	within(t, "upgrades", wg.Wait)
	eventually(t, "accounting", func() bool {
		return g.s.GetTotalConnections() == 0 && atomic.LoadInt32(&fired) == n
	})
	settle()
	if c := g.s.GetTotalConnections(); c != 0 || atomic.LoadInt32(&fired) != n {
		t.Fatalf("%d connections counted and %d disconnects for %d connections, all closed", c, fired, n)
	}
}

func TestReplay_C18_http(t *testing.T) {
	up := 0
	mk := func() *Server {
		return New(func(w http.ResponseWriter, r *http.Request) (Socket, error) { up++; return nil, errors.New("no") }, Namespaces{})
	}
	for _, method := range []string{"HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"} {
		w := httptest.NewRecorder()
		c, err := mk().Upgrade(w, httptest.NewRequest(method, "http://verif/", nil), nil, nil)
		want := http.StatusMethodNotAllowed
		if method == "HEAD" {
			want = http.StatusFound
		}
		if c != nil || err == nil || w.Code != want || IsTryingToReconnect(err) != (method == "HEAD") {
			t.Fatalf("%s: %v %v status %d", method, c, err, w.Code)
		}
		if method != "HEAD" && w.Header().Get("Allow") != "GET" {
			t.Fatalf("%s: no Allow header", method)
		}
	}
	for i := 0; i < 20; i++ {
		s := mk()
		s.Close()
		time.Sleep(time.Duration(i%3) * time.Millisecond)
		for _, method := range []string{"GET", "HEAD", "POST"} {
			w := httptest.NewRecorder()
			if c, err := s.Upgrade(w, httptest.NewRequest(method, "http://verif/", nil), nil, nil); c != nil || err == nil || w.Code != 500 {
				t.Fatalf("closed server: %v %v status %d", c, err, w.Code)
			}
		}
	}
	if up != 0 {
		t.Fatalf("a refused request was upgraded")
	}
}

func TestReplay_C18_dial(t *testing.T) {
	h := &recorder{}
	nss := Namespaces{"ns": h.events("e")}
	for i := 0; i < 5; i++ {
		g := newRig(t, nss)
		var returned int32
		g.s.OnConnect = func(c *Conn) error {
			time.Sleep(20 * time.Millisecond)
			atomic.StoreInt32(&returned, 1)
			return nil
		}
		x := &exLog{}
		g.s.UseStackExchange(x)
		cl, _, cs, ss := g.mustDial("my id;x", nss)
		if atomic.LoadInt32(&returned) != 1 || len(x.got("connect ")) != 1 {
			t.Fatalf("Dial succeeded before the server's callback returned")
		}
		if cl.ID != "my id;x" || cl.conn.ID() != "my id;x" {
			t.Fatalf("client id %q", cl.ID)
		}
		if l := ss.sentTexts(); len(l) != 1 || l[0] != "Amy id;x" {
			t.Fatalf("server sent %q for the handshake", l)
		}
		_ = cs
		cl.Close()
	}
	for _, by := range []string{"callback", "exchange"} {
		g := newRig(t, nss)
		x := &exLog{errs: map[string]error{}}
		g.s.UseStackExchange(x)
		if by == "callback" {
			g.s.OnConnect = func(c *Conn) error { time.Sleep(10 * time.Millisecond); return errors.New("not you; 1") }
		} else {
			x.errs["connect"] = errors.New("not you; 1")
			g.s.OnConnect = func(c *Conn) error { t.Errorf("callback after the exchange refused"); return nil }
		}
		var err error
		var cs *memSocket
		within(t, "Dial", func() { _, _, cs, _, err = g.dial("", nss) })
		if err == nil || err.Error() != "not you; 1" {
			t.Fatalf("refused by %s: Dial returned %v", by, err)
		}
		eventually(t, "close of the refused connection", cs.isShut)
	}
}

// TestReplay_C18_peer: a peer cannot rename the server's connection nor accept itself, and nothing
// precedes the handshake answer.
func TestReplay_C18_peer(t *testing.T) {
	h := &recorder{}
	nss := Namespaces{"ns": h.events("e")}
	for _, first := range []string{"Aforged", "Hforged", "A", "H", "R", "X"} {
		g := newRig(t, nss)
		release := make(chan struct{})
		g.s.OnConnect = func(c *Conn) error { <-release; return errors.New("no") }
		a, b := socketPair()
		var conn *Conn
		grab := make(chan *Conn, 1)
		on := g.s.OnConnect
		g.s.OnConnect = func(c *Conn) error { grab <- c; return on(c) }
		go g.upgrade(a, "real")
		conn = <-grab
		p := &raw{t, b}
		p.send(first)
		p.send("$1;ns;;_OnNamespaceConnect;0;0;")
		p.send(";ns;;e;0;0;x")
		settle()
		if conn.ID() != "real" || conn.isAcknowledged() || conn.readiness.isReady() {
			t.Fatalf("%q made the connection id=%q acknowledged=%v", first, conn.ID(), conn.isAcknowledged())
		}
		if h.count() != 0 {
			t.Fatalf("%q let events through: %v", first, h.names())
		}
		if l := a.sentTexts(); len(l) != 0 {
			t.Fatalf("%q: sent %q before the handshake", first, l)
		}
		close(release)
	}
	// after the handshake
	g := newRig(t, nss)
	c, p := g.rawClient("real")
	for _, f := range []string{"Aforged", "Hforged", "M", "A", "H"} {
		p.send(f)
	}
	connectNS(t, p, "ns")
	if c.ID() != "real" {
		t.Fatalf("the peer renamed the connection to %q", c.ID())
	}
}

func TestReplay_C18_answer_first(t *testing.T) {
	h := &recorder{}
	for i := 0; i < 20; i++ {
		g := newRig(t, Namespaces{"ns": h.events("e")})
		g.s.OnConnect = func(c *Conn) error {
			go c.Connect(tctx(), "ns")
			c.Write(Message{Namespace: "ns", Event: "e"})
			g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e"})
			return nil
		}
		a, b := socketPair()
		g.upgrade(a, "me")
		p := &raw{t, b}
		p.none()
		p.send("M")
		p.expect("Ame")
		f, _ := p.next()
		if !strings.Contains(f, OnNamespaceConnect) {
			t.Fatalf("got %q", f)
		}
		g.s.Close()
	}
}

func TestReplay_C19_early(t *testing.T) {
	for _, refuse := range []bool{false, true} {
		for round := 0; round < 8; round++ {
			var mu sync.Mutex
			var got []string
			h := func(c *NSConn, m Message) error {
				mu.Lock()
				got = append(got, fmt.Sprintf("%s/%v", m.Body, m.SetBinary))
				mu.Unlock()
				return nil
			}
			g := newRig(t, Namespaces{"ns": Events{"e": h}})
			release := make(chan struct{})
			g.s.OnConnect = func(c *Conn) error {
				<-release
				if refuse {
					return errors.New("no")
				}
				return nil
			}
			a, b := socketPair()
			up := make(chan struct{})
			go func() { g.upgrade(a, "me"); close(up) }()
			p := &raw{t, b}
			var want []string
			put := func(i int) {
				f := fmt.Sprintf(";ns;;e;0;0;%d", i)
				if i%3 == 0 {
					b.WriteBinary([]byte(f), 0)
				} else {
					b.WriteText([]byte(f), 0)
				}
				want = append(want, fmt.Sprintf("%d/%v", i, i%3 == 0))
			}
			n := 0
			if round%2 == 0 {
				p.send("M")
			}
			p.send("$5;ns;;_OnNamespaceConnect;0;0;")
			for ; n < 12; n++ {
				put(n)
			}
			if round%2 == 1 {
				p.send("M")
			}
			if round%4 >= 2 {
				time.Sleep(5 * time.Millisecond)
			}
			mu.Lock()
			if len(got) != 0 {
				t.Fatalf("handled before the handshake: %v", got)
			}
			mu.Unlock()
			go func() { time.Sleep(time.Duration(round) * time.Millisecond); close(release) }()
			for ; n < 40; n++ {
				put(n)
			}
			within(t, "Upgrade", func() { <-up })
			if refuse {
				settle()
				if len(got) != 0 {
					t.Fatalf("handled although the handshake failed: %v", got)
				}
				continue
			}
			eventually(t, "handling of the early messages", func() bool { mu.Lock(); defer mu.Unlock(); return len(got) >= len(want) })
			settle()
			if !reflect.DeepEqual(got, want) {
				t.Fatalf("handled %v, wanted %v", got, want)
			}
			g.s.Close()
		}
	}
	// client side: messages before the answer
	var mu sync.Mutex
	var got []string
	a, b := socketPair()
	p := &raw{t, b}
	out := make(chan *Client, 1)
	go func() {
		cl, _ := Dial(context.Background(), func(context.Context, string) (Socket, error) { return a, nil }, "verif", Namespaces{"ns": Events{"e": func(c *NSConn, m Message) error {
			mu.Lock()
			got = append(got, string(m.Body))
			mu.Unlock()
			return nil
		}}})
		out <- cl
	}()
	p.expect("M")
	p.send("7;ns;;_OnNamespaceConnect;0;0;")
	p.send(";ns;;e;0;0;1")
	p.send(";ns;;e;0;0;2")
	settle()
	mu.Lock()
	if len(got) != 0 {
		t.Fatalf("client handled %v before the handshake", got)
	}
	mu.Unlock()
	p.send("Aid")
	p.send(";ns;;e;0;0;3")
	within(t, "Dial", func() {
		if <-out == nil {
			t.Error("dial failed")
		}
	})
	eventually(t, "early client messages", func() bool { mu.Lock(); defer mu.Unlock(); return len(got) == 3 })
	if !reflect.DeepEqual(got, []string{"1", "2", "3"}) {
		t.Fatalf("client handled %v", got)
	}
}

func TestReplay_C20_readiness(t *testing.T) {
	for round := 0; round < 300; round++ {
		w := newWaiterOnce()
		errs := []error{errors.New("a"), nil, errors.New("c")}
		var wg sync.WaitGroup
		var mu sync.Mutex
		verdicts := map[string]int{}
		var early int32
		var decided int32
		waiter := func() {
			defer wg.Done()
			e := w.wait()
			if atomic.LoadInt32(&decided) == 0 {
				atomic.AddInt32(&early, 1)
			}
			mu.Lock()
			verdicts[fmt.Sprint(e)]++
			mu.Unlock()
		}
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go waiter()
		}
		if round%2 == 0 {
			time.Sleep(100 * time.Microsecond)
		}
		atomic.StoreInt32(&decided, 1)
		first := errs[round%3]
		if round%4 == 0 {
			w.unwait(first)
			for k := 0; k < 3; k++ {
				w.unwait(errors.New("later"))
			}
		}
		for i := 0; i < 4; i++ {
			wg.Add(2)
			go func(i int) { defer wg.Done(); w.unwait(errs[i%3]) }(i)
			go waiter()
		}
		within(t, "wait and unwait", wg.Wait)
		if early != 0 {
			t.Fatalf("a waiter returned before the decision")
		}
		if len(verdicts) != 1 {
			t.Fatalf("waiters saw different verdicts %v", verdicts)
		}
		var v string
		for v = range verdicts {
		}
		if round%4 == 0 && v != fmt.Sprint(first) {
			t.Fatalf("verdict %v, first decision %v", v, first)
		}
		within(t, "late wait", func() {
			if e := w.wait(); fmt.Sprint(e) != v {
				t.Errorf("late waiter saw %v, wanted %v", e, v)
			}
		})
		if !w.isReady() {
			t.Fatalf("decided but not ready")
		}
	}
	if w := newWaiterOnce(); w.isReady() {
		t.Fatal("ready without a decision")
	}
}

func TestReplay_C21_store(t *testing.T) {
	g := newRig(t, Namespaces{"ns": Events{}})
	c, _ := g.rawClient("")
	if c.Get("k") != nil {
		t.Fatal("absent key is not nil")
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	seen := map[int]int{}
	const n = 400
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < n; i++ {
				if w%4 == 3 {
					c.Decrement("k")
					continue
				}
				v := c.Increment("k")
				mu.Lock()
				seen[v]++
				mu.Unlock()
				c.Set(fmt.Sprint("other", w), i)
				c.Get("k")
			}
		}(w)
	}
	wg.Wait()
	if v := c.Get("k"); v != 4*n {
		t.Fatalf("%v after %d increments and %d decrements", v, 6*n, 2*n)
	}
	for w := 0; w < 8; w++ {
		if w%4 != 3 && c.Get(fmt.Sprint("other", w)) != n-1 {
			t.Fatalf("another key was touched: %v", c.Get(fmt.Sprint("other", w)))
		}
	}
	for _, x := range []interface{}{nil, "text", int64(4), 2.5, struct{}{}} {
		c.Set("a", x)
		if v := c.Increment("a"); v != 1 || c.Get("a") != 1 {
			t.Fatalf("increment of %T gave %v, stored %v", x, v, c.Get("a"))
		}
		c.Set("a", x)
		if v := c.Decrement("a"); v != -1 || c.Get("a") != -1 {
			t.Fatalf("decrement of %T gave %v, stored %v", x, v, c.Get("a"))
		}
	}
	for _, x := range []int{0, 1, -1, 7, -7, 1 << 40} {
		c.Set("a", x)
		if v := c.Increment("a"); v != x+1 || c.Get("a") != x+1 {
			t.Fatalf("increment of %d gave %v, stored %v", x, v, c.Get("a"))
		}
		c.Set("a", x)
		if v := c.Decrement("a"); v != x-1 || c.Get("a") != x-1 {
			t.Fatalf("decrement of %d gave %v, stored %v", x, v, c.Get("a"))
		}
	}
	if v := c.Increment("fresh"); v != 1 {
		t.Fatal("increment of an absent key")
	}
	if v := c.Decrement("fresh2"); v != -1 {
		t.Fatal("decrement of an absent key")
	}
}

// freeLocks fails if a lock of the connection is left taken.
func freeLocks(t *testing.T, what string, c *Conn) {
	t.Helper()
	within(t, what+": taking the connection's locks", func() {
		c.connectedNamespacesMutex.Lock()
		nss := []*NSConn{}
		for _, n := range c.connectedNamespaces {
			nss = append(nss, n)
		}
		c.connectedNamespacesMutex.Unlock()
		for _, n := range nss {
			n.roomsMutex.Lock()
			n.roomsMutex.Unlock()
		}
		c.waitingMessagesMutex.Lock()
		c.waitingMessagesMutex.Unlock()
		c.storeMutex.Lock()
		c.storeMutex.Unlock()
		c.Get("x")
		c.Set("x", 1)
		c.IsClosed()
	})
}

// TestReplay_C22_locks: after every kind of operation, successful or failed, the locks are free;
// the concurrent part is run under the race detector.
func TestReplay_C22_locks(t *testing.T) {
	eachSide(t, func(s *side) {
		bad := errors.New("bad")
		chk := func(what string) { t.Helper(); freeLocks(t, what, s.c) }
		s.req("ns;;_OnNamespaceConnect;0;0;")
		s.okAnswer()
		chk("connect")
		s.req("ns;;_OnNamespaceConnect;0;0;")
		s.okAnswer()
		chk("second connect")
		s.h.fail(OnRoomJoin, bad)
		s.req("ns;r;_OnRoomJoin;0;0;")
		s.p.next()
		chk("refused join")
		s.h.fail(OnRoomJoin, nil)
		s.req("ns;r;_OnRoomJoin;0;0;")
		s.okAnswer()
		chk("join")
		s.req("ns;r;_OnRoomJoin;0;0;")
		s.okAnswer()
		chk("second join")
		s.c.Namespace("ns").Rooms()
		s.c.Namespace("ns").Room("no")
		chk("queries")
		s.h.fail(OnRoomLeave, bad)
		s.req("ns;r;_OnRoomLeave;0;0;")
		s.p.next()
		chk("refused leave")
		s.h.fail(OnRoomLeave, nil)
		s.req("ns;other;_OnRoomLeave;0;0;")
		s.p.next()
		chk("leave of a room not joined")
		if s.c.Namespace("ns").Room("r") != nil {
			s.req("ns;r;_OnRoomLeave;0;0;")
			s.okAnswer()
			chk("leave")
		}
		s.req("nowhere;;e;0;0;")
		s.p.next()
		chk("bad namespace")
		done := make(chan struct{})
		go func() { s.c.Namespace("ns").JoinRoom(tctx(), "q"); close(done) }()
		s.answer(";ns;q;_OnRoomJoin;0;0;", "no")
		within(t, "JoinRoom", func() { <-done })
		chk("JoinRoom refused")
		done = make(chan struct{})
		go func() { s.c.Connect(tctx(), "two"); close(done) }()
		s.answer(";two;;_OnNamespaceConnect;0;0;", "no")
		within(t, "Connect", func() { <-done })
		chk("Connect refused")
		done = make(chan struct{})
		go func() { s.c.DisconnectAll(tctx()); close(done) }()
		s.answer(";ns;;_OnNamespaceDisconnect;0;0;", "no")
		within(t, "DisconnectAll", func() { <-done })
		chk("DisconnectAll refused")
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		s.c.Ask(ctx, Message{Namespace: "ns", Event: "e"})
		chk("Ask cancelled")
		s.c.Close()
		chk("Close")
		s.c.Close()
		chk("second Close")
	})
}

func TestReplay_C22_race(t *testing.T) {
	for round := 0; round < 3; round++ {
		h := &recorder{}
		nss := Namespaces{"ns": h.events("e"), "two": h.events("e")}
		g := newRig(t, nss)
		cl, sc, _, _ := g.mustDial("", nss)
		var wg sync.WaitGroup
		stop := time.Now().Add(150 * time.Millisecond)
		run := func(f func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for time.Now().Before(stop) {
					f()
				}
			}()
		}
		ctx, cancel := context.WithTimeout(context.Background(), patience)
		for _, c := range []*Conn{sc, cl.conn} {
			c := c
			run(func() { c.Connect(ctx, "ns") })
			run(func() {
				if n := c.Namespace("ns"); n != nil {
					n.Disconnect(ctx)
					time.Sleep(time.Millisecond)
				}
			})
			run(func() {
				if n := c.Namespace("ns"); n != nil {
					n.JoinRoom(ctx, "r")
					n.Emit("e", []byte("x"))
					n.Rooms()
				}
			})
			run(func() {
				if n := c.Namespace("ns"); n != nil {
					n.Ask(ctx, "e", nil)
					n.LeaveAll(ctx)
				}
			})
			run(func() { c.Increment("x"); c.Set("y", 1); c.Get("x") })
			run(func() { c.Write(Message{Namespace: "ns", Event: "e"}); c.Namespace("two") })
		}
		run(func() { g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e"}); time.Sleep(time.Millisecond) })
		time.Sleep(160 * time.Millisecond)
		sc.Close()
		cl.Close()
		cancel()
		within(t, "concurrent use", wg.Wait)
	}
}

// TestReplay_C23_reentrant: callbacks use the library from inside.
func TestReplay_C23_reentrant(t *testing.T) {
	use := func(c *Conn) {
		for _, ns := range []string{"ns", "two"} {
			if n := c.Namespace(ns); n != nil {
				n.Rooms()
				n.Room("r")
				n.Emit("e2", nil)
				n.String()
			}
		}
		c.Set("a", 1)
		c.Increment("a")
		c.Get("a")
		c.IsClosed()
		c.Write(Message{Namespace: "ns", Event: "e2"})
		_ = c.ID()
	}
	eachSide(t, func(s *side) {
		s.h.setHook(func(n *NSConn, m Message) error {
			use(n.Conn)
			n.Rooms()
			if !s.client {
				n.Conn.Server().GetTotalConnections()
				n.Conn.Server().Broadcast(n, Message{Namespace: "elsewhere", Event: "e2"})
			}
			return nil
		})
		ans := func(tok string) {
			t.Helper()
			for {
				f, ok := s.p.next()
				if !ok {
					t.Fatalf("connection ended")
				}
				if f == tok+";;;;;;" {
					return
				}
			}
		}
		s.req("ns;;_OnNamespaceConnect;0;0;")
		ans(s.tok)
		s.req("ns;r;_OnRoomJoin;0;0;")
		ans(s.tok)
		s.p.send(";ns;r;e;0;0;x")
		s.req("ns;r;_OnRoomLeave;0;0;")
		ans(s.tok)
		s.req("ns;q;_OnRoomJoin;0;0;")
		ans(s.tok)
		s.req("ns;;_OnNamespaceDisconnect;0;0;")
		ans(s.tok)
		s.req("ns;;_OnNamespaceConnect;0;0;")
		ans(s.tok)
		s.req("ns;r;_OnRoomJoin;0;0;")
		ans(s.tok)
		within(t, "Close with callbacks that use the connection", func() { s.c.Close() })
	})
	// callbacks that close
	eachSide(t, func(s *side) {
		s.req("ns;;_OnNamespaceConnect;0;0;")
		s.okAnswer()
		s.h.setHook(func(n *NSConn, m Message) error {
			if m.Event == "e" {
				n.Conn.Close()
			}
			return nil
		})
		s.p.send(";ns;;e;0;0;x")
		eventually(t, "close from a handler", func() bool { return s.c.IsClosed() })
		freeLocks(t, "close from a handler", s.c)
	})
	// server callbacks and functions
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e")})
	g.s.OnConnect = func(c *Conn) error { use(c); g.s.GetTotalConnections(); return nil }
	var off int32
	g.s.OnDisconnect = func(c *Conn) {
		use(c)
		g.s.GetTotalConnections()
		g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e"})
		atomic.AddInt32(&off, 1)
	}
	c, p := g.rawClient("a")
	connectNS(t, p, "ns")
	within(t, "Do with a function that uses the connection", func() {
		g.s.Do(func(c *Conn) { use(c); g.s.Broadcast(c, Message{Namespace: "ns", Event: "e"}) }, false)
	})
	within(t, "Close", func() { c.Close() })
	eventually(t, "disconnect callback", func() bool { return atomic.LoadInt32(&off) == 1 })
	// the socket and the exchange use it as well
	g = newRig(t, Namespaces{"ns": h.events("e")})
	x := &exLog{pub: func([]Message) { g.s.GetTotalConnections(); c.Namespace("ns") }}
	g.s.UseStackExchange(x)
	c, p = g.rawClient("b")
	sk := c.socket.(*memSocket)
	sk.mu.Lock()
	sk.onWrite = func(frame) { c.Namespace("ns"); c.Get("a"); c.Set("b", 1) }
	sk.mu.Unlock()
	connectNS(t, p, "ns")
	joinRoom(t, p, "ns", "r")
	within(t, "Broadcast", func() { g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e"}) })
	within(t, "Write", func() { c.Write(Message{Namespace: "ns", Event: "e"}) })
	within(t, "Close", func() { c.Close() })
}

func TestReplay_C26_wrapped(t *testing.T) {
	h := &recorder{}
	bad := errors.New("bad")
	for _, fail := range []string{"", "a", "b", "c"} {
		g := newRig(t, Namespaces{"ns": h.events("e")})
		var shared []string
		var mu sync.Mutex
		note := func(s string) { mu.Lock(); shared = append(shared, s); mu.Unlock() }
		var xs []*exLog
		for _, n := range []string{"a", "b", "c"} {
			n := n
			x := &exLog{name: n, errs: map[string]error{}, bad: fail == n}
			x.pub = func([]Message) { note(n) }
			if fail == n {
				x.errs["ask"], x.errs["notify"], x.errs["connect"] = bad, bad, bad
			}
			if err := g.s.UseStackExchange(x); err != nil {
				t.Fatal(err)
			}
			xs = append(xs, x)
		}
		if ok := g.s.StackExchange.Publish([]Message{{Body: []byte("1")}}); ok != (fail == "") {
			t.Fatalf("failing %q: publish reported %v", fail, ok)
		}
		g.s.Broadcast(nil, Message{Namespace: "ns", Event: "e", Body: []byte("2")})
		if !reflect.DeepEqual(shared, []string{"a", "b", "c", "a", "b", "c"}) {
			t.Fatalf("failing %q: published to %v", fail, shared)
		}
		m, err := g.s.StackExchange.Ask(tctx(), Message{Body: []byte("q")}, "tok")
		want := "a"
		if fail == "a" {
			want = "b"
		}
		if err != nil || string(m.Body) != want {
			t.Fatalf("failing %q: ask answered by %q %v", fail, m.Body, err)
		}
		for i, x := range xs {
			wantAsk := 0
			if i == 0 || i == 1 && fail == "a" {
				wantAsk = 1
			}
			if l := x.got("ask "); len(l) != wantAsk || wantAsk == 1 && l[0] != x.name+"ask q" {
				t.Fatalf("failing %q: exchange %s was asked %v", fail, x.name, l)
			}
		}
		if err := g.s.StackExchange.NotifyAsk(Message{Body: []byte("n")}, "tok"); err != nil {
			t.Fatalf("failing %q: notify %v", fail, err)
		}
		a, b := socketPair()
		p := &raw{t, b}
		p.send("M")
		p.send("$5;ns;;_OnNamespaceConnect;0;0;")
		c, err := g.upgrade(a, "me")
		if fail != "" {
			if err != bad {
				t.Fatalf("failing %q: upgrade %v", fail, err)
			}
		} else {
			if err != nil {
				t.Fatal(err)
			}
			eventually(t, "connect", func() bool { return c.Namespace("ns") != nil && len(xs[2].got("subscribe ")) > 0 })
			p.send("$6;ns;;_OnNamespaceDisconnect;0;0;")
			eventually(t, "disconnect", func() bool { return c.Namespace("ns") == nil && len(xs[2].got("unsubscribe ")) > 0 })
			c.Close()
		}
		eventually(t, "disconnect", func() bool { return g.s.GetTotalConnections() == 0 && len(xs[2].got("disconnect ")) > 0 })
		for i, x := range xs {
			n := x.name
			w := []string{n + "connect me"}
			if fail != "" && i > int(fail[0]-'a') {
				w = nil
			}
			if fail == "" {
				w = append(w, n+"subscribe me ns", n+"unsubscribe me ns")
			}
			w = append(w, n+"disconnect me")
			got := append(append(append(x.got("connect "), x.got("subscribe ")...), x.got("unsubscribe ")...), x.got("disconnect ")...)
			if !reflect.DeepEqual(got, w) {
				t.Fatalf("failing %q: exchange %s saw %v, wanted %v", fail, n, got, w)
			}
		}
	}
}

// TestReplay_C27_ask: a server request through an exchange that delivers to the connections.
func TestReplay_C27_ask(t *testing.T) {
	type pending struct {
		tok string
		ch  chan Message
	}
	h := &recorder{hook: func(n *NSConn, m Message) error {
		if m.Event == "e" && n.Conn.IsClient() {
			switch string(m.Body) {
			case "fail":
				return errors.New("failed")
			}
			return Reply(append([]byte("re:"), m.Body...))
		}
		return nil
	}}
	nss := Namespaces{"ns": h.events("e")}
	g := newRig(t, nss)
	var mu sync.Mutex
	pend := map[string]chan Message{}
	var unknown int32
	x := &exLog{}
	x.ask = func(ctx context.Context, m Message, tok string) (Message, error) {
		ch := make(chan Message, 1)
		mu.Lock()
		if pend[tok] != nil {
			t.Errorf("token %q used twice", tok)
		}
		pend[tok] = ch
		mu.Unlock()
		g.s.Do(func(c *Conn) {
			if m.To == "" || m.To == c.ID() {
				c.Write(m)
			}
		}, false)
		select {
		case <-ctx.Done():
			return Message{}, ctx.Err()
		case r := <-ch:
			return r, r.Err
		}
	}
	x.note = func(m Message, tok string) {
		mu.Lock()
		ch := pend[tok]
		mu.Unlock()
		if ch == nil {
			atomic.AddInt32(&unknown, 1)
			return
		}
		select {
		case ch <- m:
		default:
		}
	}
	g.s.UseStackExchange(x)
	cl, _, _, _ := g.mustDial("me", nss)
	if _, err := cl.Connect(tctx(), "ns"); err != nil {
		t.Fatal(err)
	}
	eventually(t, "connect", func() bool { return len(h.got(OnNamespaceConnected)) == 2 })
	for i := 0; i < 20; i++ {
		b := fmt.Sprint("q;", i)
		ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
		m, err := g.s.Ask(ctx, Message{Namespace: "ns", Event: "e", To: "me", Body: []byte(b)})
		cancel()
		if err != nil || string(m.Body) != "re:"+b {
			t.Fatalf("request %d: %q %v (%d replies with an unknown token)", i, m.Body, err, unknown)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	if _, err := g.s.Ask(ctx, Message{Namespace: "ns", Event: "e", Body: []byte("fail")}); err == nil || err.Error() != "failed" {
		t.Fatalf("failed request returned %v", err)
	}
	if n := atomic.LoadInt32(&unknown); n != 0 {
		t.Fatalf("%d replies with an unknown token", n)
	}
	// the answers of ordinary requests do not go to the exchange
	before := len(x.got("notify "))
	sc := g.s.GetConnections()["me"]
	if m, err := sc.Ask(tctx(), Message{Namespace: "ns", Event: "e", Body: []byte("z")}); err != nil || string(m.Body) != "re:z" {
		t.Fatalf("connection request: %q %v", m.Body, err)
	}
	if len(x.got("notify ")) != before {
		t.Fatalf("the answer of a connection's request went to the exchange")
	}
}

func TestReplay_C27_broadcast(t *testing.T) {
	g, _, ss := nrig(t, false, 3)
	out := make(chan string, 1)
	go func() {
		m, err := g.s.Ask(tctx(), Message{Namespace: "ns", Event: "e", Body: []byte("q"), To: "c1"})
		out <- fmt.Sprint(string(m.Body), err)
	}()
	eventually(t, "request", func() bool { return len(bodiesOf(ss[1], "ns")) == 1 })
	l := ss[1].sentTexts()
	f := l[len(l)-1]
	ss[1].put(TextMessage, f[:strings.Index(f, ";")]+";ns;;e;0;0;answer")
	within(t, "Server.Ask", func() {
		if r := <-out; r != "answer<nil>" {
			t.Errorf("got %q", r)
		}
	})
	settle()
	if len(bodiesOf(ss[0], "ns"))+len(bodiesOf(ss[2], "ns")) != 0 {
		t.Fatalf("request delivered to others")
	}
}

func TestReplay_C31_server_queries(t *testing.T) {
	h := &recorder{}
	g := newRig(t, Namespaces{"ns": h.events("e"), "two": h.events("e")})
	var conns []*Conn
	for i := 0; i < 6; i++ {
		c, p := g.rawClient(fmt.Sprint("c", i))
		if i%2 == 0 {
			connectNS(t, p, "ns")
		}
		if i%3 == 0 {
			connectNS(t, p, "two")
		}
		conns = append(conns, c)
	}
	conns[5].Close()
	eventually(t, "accounting", func() bool { return g.s.GetTotalConnections() == 5 })
	keys := func(m interface{}) string {
		var l []string
		for _, k := range reflect.ValueOf(m).MapKeys() {
			l = append(l, k.String())
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	all := g.s.GetConnections()
	if keys(all) != "c0 c1 c2 c3 c4" {
		t.Fatalf("connections %v", keys(all))
	}
	for i := 0; i < 5; i++ {
		if all[fmt.Sprint("c", i)] != conns[i] {
			t.Fatalf("wrong connection for c%d", i)
		}
	}
	ns := g.s.GetConnectionsByNamespace("ns")
	if keys(ns) != "c0 c2 c4" || keys(g.s.GetConnectionsByNamespace("two")) != "c0 c3" || len(g.s.GetConnectionsByNamespace("no")) != 0 {
		t.Fatalf("by namespace %v, %v", keys(ns), keys(g.s.GetConnectionsByNamespace("two")))
	}
	for k, n := range ns {
		if n.Conn.ID() != k || n.namespace != "ns" {
			t.Fatalf("wrong namespace connection for %s", k)
		}
	}
}
