package nats

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gorilla"
)

// node is a neffos server that exchanges its messages through the broker.
type node struct {
	t    *testing.T
	s    *neffos.Server
	url  string
	conn sync.Map // id -> *neffos.NSConn
}

var (
	got   = map[string][]string{}
	gotMu sync.Mutex
)

func heard(id, what string) {
	gotMu.Lock()
	got[id] = append(got[id], what)
	gotMu.Unlock()
}

func forget() {
	gotMu.Lock()
	got = map[string][]string{}
	gotMu.Unlock()
}

// after lets the exchange settle and says who heard what.
func after() string {
	time.Sleep(250 * time.Millisecond)
	gotMu.Lock()
	defer gotMu.Unlock()
	var out []string
	for id, w := range got {
		sort.Strings(w)
		out = append(out, id+"="+strings.Join(w, ","))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func newNode(t *testing.T, b *fakeBroker, only string) *node {
	n := &node{t: t}
	evs := neffos.Namespaces{}
	for _, ns := range []string{"default", "other"} {
		evs[ns] = neffos.Events{
			neffos.OnNamespaceConnected: func(c *neffos.NSConn, m neffos.Message) error {
				n.conn.Store(c.Conn.ID()+"/"+m.Namespace, c)
				return nil
			},
			neffos.OnRoomJoin: func(c *neffos.NSConn, m neffos.Message) error { return nil },
			"others": func(c *neffos.NSConn, m neffos.Message) error {
				n.s.Broadcast(c, neffos.Message{Namespace: m.Namespace, Event: "say", Body: m.Body})
				return nil
			},
			"forward": func(c *neffos.NSConn, m neffos.Message) error {
				m.Event = "say"
				n.s.Broadcast(c, m)
				return neffos.Reply([]byte("forwarded"))
			},
		}
	}
	n.s = neffos.New(gorilla.DefaultUpgrader, evs)
	n.s.IDGenerator = func(w http.ResponseWriter, r *http.Request) string { return r.URL.Query().Get("id") }
	if err := n.s.UseStackExchange(b.exchange(t)); err != nil {
		t.Fatal(err)
	}
	h := httptest.NewServer(n.s)
	n.url = "ws" + strings.TrimPrefix(h.URL, "http")
	t.Cleanup(func() { n.s.Close(); h.Close() })
	return n
}

type peer struct {
	t  *testing.T
	c  *neffos.Client
	ns map[string]*neffos.NSConn
}

func (n *node) dial(id string, namespaces ...string) *peer {
	n.t.Helper()
	evs := neffos.Namespaces{}
	for _, ns := range []string{"default", "other"} {
		evs[ns] = neffos.Events{
			"say": func(c *neffos.NSConn, m neffos.Message) error {
				heard(id, m.Namespace+":"+string(m.Body))
				return nil
			},
			"question": func(c *neffos.NSConn, m neffos.Message) error {
				return neffos.Reply([]byte(id + " answers " + string(m.Body)))
			},
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	q := "?id=" + strings.NewReplacer("*", "%2A", "[", "%5B").Replace(id)
	c, err := neffos.Dial(ctx, gorilla.DefaultDialer, n.url+q, evs)
	if err != nil {
		n.t.Fatalf("dial %s: %v", id, err)
	}
	n.t.Cleanup(c.Close)
	p := &peer{n.t, c, map[string]*neffos.NSConn{}}
	for _, name := range namespaces {
		if p.ns[name], err = c.Connect(ctx, name); err != nil {
			n.t.Fatalf("connect %s to %s: %v", id, name, err)
		}
	}
	time.Sleep(60 * time.Millisecond)
	return p
}

func (n *node) ask(to, body string) {
	n.t.Helper()
	ctx, cancel := context.WithTimeout(context.Background(), 6*time.Second)
	defer cancel()
	r, err := n.s.Ask(ctx, neffos.Message{Namespace: "default", Event: "question", Body: []byte(body), To: to})
	if want := to + " answers " + body; err != nil || string(r.Body) != want {
		n.t.Errorf("ask %s: got %q, %v; want %q", to, r.Body, err, want)
	}
}

func expect(t *testing.T, what, want string) {
	t.Helper()
	if g := after(); g != want {
		t.Errorf("%s: heard %q, want %q", what, g, want)
	}
	forget()
}

func TestReplay_C26_Routing(t *testing.T) {
	forget()
	b := newFakeBroker(t)
	s1, s2 := newNode(t, b, ""), newNode(t, b, "")
	s1.dial("a", "default")
	p := s2.dial("b", "default")
	s1.dial("c", "other")
	d := s2.dial("d", "default", "other")
	say := func(body, to, ns string) {
		s1.s.Broadcast(nil, neffos.Message{Namespace: ns, Event: "say", Body: []byte(body), To: to})
	}
	say("1", "", "default")
	expect(t, "to a namespace", "a=default:1 b=default:1 d=default:1")
	say("2", "", "other")
	expect(t, "to the other namespace", "c=other:2 d=other:2")
	say("3", "b", "default")
	expect(t, "to one connection", "b=default:3")
	say("4", "a", "default")
	expect(t, "to one connection of the same server", "a=default:4")
	say("5", "c", "default")
	expect(t, "to one connection outside the namespace", "")
	p.ns["default"].Emit("others", []byte("6"))
	expect(t, "to others", "a=default:6 d=default:6")
	s1.s.Broadcast(neffos.Exclude("nobody"), neffos.Message{Namespace: "default", Event: "say", Body: []byte("7;8")}, neffos.Message{Namespace: "other", Event: "say", Body: []byte("9")})
	expect(t, "several", "a=default:7;8 b=default:7;8 c=other:9 d=default:7;8,other:9")
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	if err := d.ns["default"].Disconnect(ctx); err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond)
	say("10", "", "default")
	say("11", "", "other")
	expect(t, "after a namespace disconnect", "a=default:10 b=default:10 c=other:11 d=other:11")
	say("11b", "d", "other")
	expect(t, "to one connection after a namespace disconnect", "d=other:11b")
	if ns, err := d.c.Connect(ctx, "default"); err != nil {
		t.Fatal(err)
	} else {
		d.ns["default"] = ns
	}
	time.Sleep(100 * time.Millisecond)
	say("12", "", "default")
	expect(t, "after connecting again", "a=default:12 b=default:12 d=default:12")
	p.c.Close()
	time.Sleep(100 * time.Millisecond)
	say("13", "", "default")
	say("14", "b", "default")
	expect(t, "after a disconnect", "a=default:13 d=default:13")
	s2.dial("b", "default")
	say("15", "b", "default")
	expect(t, "a new connection with the same id", "b=default:15")
}

func TestReplay_C26_ForwardedRequest(t *testing.T) {
	forget()
	b := newFakeBroker(t)
	s1, s2 := newNode(t, b, ""), newNode(t, b, "")
	p := s1.dial("a", "default")
	s2.dial("b", "default")
	s1.dial("c", "default")
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	r, err := p.ns["default"].Ask(ctx, "forward", []byte("x"))
	if err != nil || string(r.Body) != "forwarded" {
		t.Errorf("got %q, %v", r.Body, err)
	}
	expect(t, "a request forwarded to others", "b=default:x c=default:x")
}

func TestReplay_C26_PatternIDs(t *testing.T) {
	if len(patternIDs) == 0 {
		t.Skip("refused by the broker")
	}
	forget()
	b := newFakeBroker(t)
	s := newNode(t, b, "")
	s.dial("z", "default")
	for _, id := range patternIDs {
		s.dial(id, "default")
	}
	s.s.Broadcast(nil, neffos.Message{Namespace: "default", Event: "say", Body: []byte("private"), To: "z"})
	expect(t, "to one connection", "z=default:private")
	for _, id := range patternIDs {
		s.s.Broadcast(nil, neffos.Message{Namespace: "default", Event: "say", Body: []byte("private"), To: id})
		expect(t, "to one connection", id+"=default:private")
	}
}

func TestReplay_C27_Ask(t *testing.T) {
	forget()
	b := newFakeBroker(t)
	s1, s2 := newNode(t, b, ""), newNode(t, b, "")
	s1.dial("a", "default")
	s2.dial("b", "default")
	s2.dial("c", "default")
	s1.ask("b", "one")
	s1.ask("a", "two")
	var wg sync.WaitGroup
	for i := 0; i < 12; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			n := s1
			if i%2 == 0 {
				n = s2
			}
			n.ask([]string{"a", "b", "c"}[i%3], fmt.Sprint("q", i))
		}(i)
	}
	wg.Wait()
}

func TestReplay_C10_ExchangeContext(t *testing.T) {
	b := newFakeBroker(t)
	s := newNode(t, b, "")
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer cancel()
	t0 := time.Now()
	_, err := s.s.Ask(ctx, neffos.Message{Namespace: "default", Event: "question", To: "nobody"})
	if err == nil || time.Since(t0) > 4*time.Second {
		t.Errorf("got %v after %s", err, time.Since(t0))
	}
}

func TestReplay_C26_PublishFails(t *testing.T) {
	b := newFakeBroker(t)
	x := b.exchange(t)
	m := neffos.Message{Namespace: "default", Event: "say"}
	if !x.Publish([]neffos.Message{m, m}) {
		t.Fatal("not published")
	}
	breakPublisher(x)
	if x.Publish([]neffos.Message{m, m}) {
		t.Fatal("a failed publish is reported as done")
	}
	m.To = "z"
	if x.Publish([]neffos.Message{m}) {
		t.Fatal("a failed publish to one connection is reported as done")
	}
}

func TestReplay_C27_ClearWait(t *testing.T) {
	for _, tok := range []string{"12345", "1!2345", "$12", "$!12"} {
		m := neffos.DeserializeMessage(neffos.TextMessage, []byte(tok+";ns;;e;0;0;b"), false, false)
		if !m.ClearWait() || m.ClearWait() || string(m.Serialize()) != ";ns;;e;0;0;b" {
			t.Errorf("%q: became %q", tok, m.Serialize())
		}
	}
}

// a message to one connection of a room goes to that one only.
func TestReplay_C26_RoomTo(t *testing.T) {
	forget()
	b := newFakeBroker(t)
	s1, s2 := newNode(t, b, ""), newNode(t, b, "")
	x, y := s1.dial("a", "default"), s2.dial("b", "default")
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	for _, p := range []*peer{x, y} {
		if _, err := p.ns["default"].JoinRoom(ctx, "r"); err != nil {
			t.Fatal(err)
		}
	}
	s1.s.Broadcast(nil, neffos.Message{Namespace: "default", Room: "r", Event: "say", Body: []byte("1"), To: "b"})
	expect(t, "to one connection of a room", "b=default:1")
	s1.s.Broadcast(nil, neffos.Message{Namespace: "default", Room: "r", Event: "say", Body: []byte("2")})
	expect(t, "to a room", "a=default:2 b=default:2")
}

// what is not connected any more is not subscribed any more.
func TestReplay_C26_Unsubscribed(t *testing.T) {
	forget()
	b := newFakeBroker(t)
	s := newNode(t, b, "")
	time.Sleep(200 * time.Millisecond)
	before := b.connections()
	p := s.dial("d", "default", "other")
	base := b.subscriptions()
	if base != 3 {
		t.Fatalf("%d subscriptions of one connection in two namespaces", base)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	for i, name := range []string{"default", "other"} {
		if err := p.ns[name].Disconnect(ctx); err != nil {
			t.Fatal(err)
		}
		settled(t, "subscriptions after a namespace disconnect", func() bool { return b.subscriptions() == base-1-i })
	}
	p.c.Close()
	settled(t, "subscriptions after a disconnect", func() bool { return b.subscriptions() == 0 })
	settled(t, "connections to the broker after a disconnect", func() bool { return b.connections() <= before })
	if v := reflect.Indirect(reflect.ValueOf(s.s.StackExchange)).FieldByName("subscribers"); v.IsValid() && v.Kind() == reflect.Map && v.Len() != 0 {
		t.Fatalf("%d subscribers kept after all connections are gone", v.Len())
	}
	q := s.dial("e") // no namespace at all
	q.c.Close()
	settled(t, "connections to the broker after a disconnect", func() bool { return b.connections() <= before })
}

func settled(t *testing.T, what string, f func() bool) {
	t.Helper()
	for end := time.Now().Add(4 * time.Second); !f(); time.Sleep(10 * time.Millisecond) {
		if time.Now().After(end) {
			t.Fatalf("%s are still there", what)
		}
	}
}

// a connection that is accepted hears what is sent to it from then on.
func TestReplay_C26_AcceptedIsSubscribed(t *testing.T) {
	forget()
	b := newFakeBroker(t)
	s := newNode(t, b, "")
	b.setSlow(120 * time.Millisecond)
	s.s.OnConnect = func(c *neffos.Conn) error {
		s.s.Broadcast(nil, neffos.Message{Namespace: "default", Event: "early", To: c.ID()})
		if n := b.subscriptions(); n != 1 {
			t.Errorf("accepted with %d subscriptions", n)
		}
		return nil
	}
	s.dial("a")
}

func TestReplay_C27_First(t *testing.T) {
	forget()
	b := newFakeBroker(t)
	s1, s2 := newNode(t, b, ""), newNode(t, b, "")
	s2.dial("b", "default")
	time.Sleep(100 * time.Millisecond)
	for _, slow := range []time.Duration{0, 150 * time.Millisecond} {
		b.setSlow(slow)
		ctx, cancel := context.WithTimeout(context.Background(), 6*time.Second)
		for _, to := range []string{"", "b"} {
			r, err := s1.s.Ask(ctx, neffos.Message{Namespace: "default", Event: "question", Body: []byte("q"), To: to})
			if err != nil || string(r.Body) != "b answers q" {
				t.Errorf("ask %q: got %q, %v", to, r.Body, err)
			}
		}
		cancel()
	}
}

func TestReplay_C27_Unanswered(t *testing.T) {
	forget()
	b := newFakeBroker(t)
	x := b.exchange(t)
	for _, to := range []string{"", "nobody"} {
		ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
		_, err := x.Ask(ctx, neffos.Message{Namespace: "default", Event: "question", To: to}, "17")
		cancel()
		if err == nil {
			t.Errorf("a request to %q that nobody answered succeeded", to)
		}
	}
	breakPublisher(x)
	for _, to := range []string{"", "nobody"} {
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
		t0 := time.Now()
		_, err := x.Ask(ctx, neffos.Message{Namespace: "default", Event: "question", To: to}, "18")
		cancel()
		if err == nil || time.Since(t0) > 2*time.Second {
			t.Errorf("a request to %q that could not be sent: %v after %s", to, err, time.Since(t0))
		}
	}
}
