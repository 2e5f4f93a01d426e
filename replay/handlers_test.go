package neffos

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

func mark(log *[]string, s string) MessageHandlerFunc {
	return func(*NSConn, Message) error { *log = append(*log, s); return nil }
}

// table fires every handler and reports which one it is.
func table(log *[]string, n Namespaces) map[string]string {
	out := map[string]string{}
	for ns, es := range n {
		for e, h := range es {
			*log = nil
			h(nil, Message{})
			out[ns+"/"+e] = strings.Join(*log, ",")
		}
		if len(es) == 0 {
			out[ns+"/"] = ""
		}
	}
	return out
}

func TestReplay_C24_join(t *testing.T) {
	var log []string
	mk := func(name string, evs ...string) Namespaces {
		n := Namespaces{}
		for _, e := range evs {
			f := strings.SplitN(e, "/", 2)
			if n[f[0]] == nil {
				n[f[0]] = Events{}
			}
			n[f[0]][f[1]] = mark(&log, name+e)
		}
		return n
	}
	sets := [][]Namespaces{
		{mk("a", "x/1", "x/2", "y/1"), mk("b", "x/2", "x/3", "z/1"), mk("c", "y/1", "x/1", "/1")},
		{mk("a"), mk("b", "x/1")},
		{mk("a", "x/1"), mk("b"), mk("c", "x/2")},
		{mk("a", "x/1"), {"x": nil}, {"x": Events{}, "y": Events{}}},
		{},
	}
	for i, set := range sets {
		var hs []ConnHandler
		want := map[string]string{}
		var before []map[string]string
		for _, n := range set {
			hs = append(hs, n)
			before = append(before, table(&log, n))
			for ns, es := range n {
				if es != nil && len(es) == 0 && !hasNS(want, ns) {
					want[ns+"/"] = ""
				}
				for e, h := range es {
					delete(want, ns+"/")
					log = nil
					h(nil, Message{})
					want[ns+"/"+e] = log[0]
				}
			}
		}
		j := JoinConnHandlers(hs...).GetNamespaces()
		if got := table(&log, j); !reflect.DeepEqual(got, want) {
			t.Fatalf("set %d: joined %v, wanted %v", i, got, want)
		}
		for k, n := range set {
			if got := table(&log, n); !reflect.DeepEqual(got, before[k]) {
				t.Fatalf("set %d: handler %d changed from %v to %v", i, k, before[k], got)
			}
		}
		// the result is its own
		for ns := range j {
			j[ns]["added"] = mark(&log, "added")
		}
		for k, n := range set {
			if got := table(&log, n); !reflect.DeepEqual(got, before[k]) {
				t.Fatalf("set %d: handler %d shares its events with the joined one", i, k)
			}
		}
	}
	e := Events{"a": mark(&log, "a")}
	if got := table(&log, e.GetNamespaces()); !reflect.DeepEqual(got, map[string]string{"/a": "a"}) {
		t.Fatalf("events serve %v", got)
	}
	e.On("b", mark(&log, "b"))
	e.On("a", mark(&log, "a2"))
	if got := table(&log, e.GetNamespaces()); !reflect.DeepEqual(got, map[string]string{"/a": "a2", "/b": "b"}) {
		t.Fatalf("events after On serve %v", got)
	}
	n := Namespaces{}
	r := n.On("ns", "a", mark(&log, "1"))
	r.On("b", mark(&log, "2"))
	n.On("ns", "c", mark(&log, "3"))
	n.On("", "a", mark(&log, "4"))
	n.On("ns", "a", mark(&log, "5"))
	if got := table(&log, n.GetNamespaces()); !reflect.DeepEqual(got, map[string]string{"ns/a": "5", "ns/b": "2", "ns/c": "3", "/a": "4"}) {
		t.Fatalf("namespaces after On serve %v", got)
	}
	w := WithTimeout{Namespaces: Namespaces{"ns": Events{"a": mark(&log, "1")}, "": Events{"x": mark(&log, "2")}}, Events: Events{"x": mark(&log, "3"), "y": mark(&log, "4")}}
	if got := table(&log, w.GetNamespaces()); !reflect.DeepEqual(got, map[string]string{"ns/a": "1", "/x": "3", "/y": "4"}) {
		t.Fatalf("WithTimeout serves %v", got)
	}
}

func hasNS(m map[string]string, ns string) bool {
	for k := range m {
		if strings.HasPrefix(k, ns+"/") {
			return true
		}
	}
	return false
}

func TestReplay_C24_timeouts(t *testing.T) {
	st := NewStruct(&plainCtl{}).SetTimeouts(7*time.Second, 8*time.Second).SetNamespace("ns")
	for _, x := range []struct {
		h    ConnHandler
		r, w time.Duration
	}{{WithTimeout{ReadTimeout: 5 * time.Second, WriteTimeout: 6 * time.Second, Namespaces: Namespaces{"ns": Events{}}}, 5 * time.Second, 6 * time.Second}, {st, 7 * time.Second, 8 * time.Second}, {Namespaces{"ns": Events{}}, 0, 0}} {
		g := newRig(t, x.h)
		cl, sc, cs, ss := g.mustDial("", x.h)
		if _, err := cl.Connect(tctx(), "ns"); err != nil {
			t.Fatal(err)
		}
		for _, s := range []*memSocket{cs, ss} {
			s.mu.Lock()
			rs, ws := append([]time.Duration(nil), s.reads...), append([]time.Duration(nil), s.timeouts...)
			s.mu.Unlock()
			for _, d := range rs {
				if d != x.r {
					t.Fatalf("%T: read with the timeout %v, wanted %v", x.h, d, x.r)
				}
			}
			for _, d := range ws {
				if d != x.w {
					t.Fatalf("%T: write with the timeout %v, wanted %v", x.h, d, x.w)
				}
			}
			if len(rs) == 0 || len(ws) == 0 {
				t.Fatalf("%T: nothing read or written", x.h)
			}
		}
		sc.Close()
	}
}

var ctlMu sync.Mutex
var ctlLog []string

func ctl(f string, a ...interface{}) {
	ctlMu.Lock()
	ctlLog = append(ctlLog, fmt.Sprintf(f, a...))
	ctlMu.Unlock()
}

type plainCtl struct{ Namespace string }

func (p *plainCtl) OnNamespaceConnect(c *NSConn, m Message) error    { ctl("connect"); return nil }
func (p *plainCtl) OnNamespaceConnected(c *NSConn, m Message) error  { ctl("connected"); return nil }
func (p *plainCtl) OnNamespaceDisconnect(c *NSConn, m Message) error { ctl("disconnect"); return nil }
func (p *plainCtl) OnRoomJoin(c *NSConn, m Message) error            { ctl("join"); return nil }
func (p *plainCtl) OnRoomJoined(c *NSConn, m Message) error          { ctl("joined"); return nil }
func (p *plainCtl) OnRoomLeave(c *NSConn, m Message) error           { ctl("leave"); return nil }
func (p *plainCtl) OnRoomLeft(c *NSConn, m Message) error            { ctl("left"); return nil }
func (p *plainCtl) OnChat(c *NSConn, m Message) error                { ctl("OnChat"); return nil }
func (p *plainCtl) Chat(c *NSConn, m Message) error                  { ctl("Chat"); return nil }
func (p *plainCtl) On(c *NSConn, m Message) error                    { ctl("On"); return nil }
func (p *plainCtl) Other(m Message) error                            { return nil }
func (p *plainCtl) Extra(c *NSConn, m Message, n int) error          { return nil }
func (p *plainCtl) NoErr(c *NSConn, m Message)                       {}
func (p *plainCtl) Variadic(c *NSConn, m ...Message) error           { return nil }

func keysOf(e Events) string {
	var l []string
	for k := range e {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func TestReplay_C25_methods(t *testing.T) {
	sys := " _OnNamespaceConnect _OnNamespaceConnected _OnNamespaceDisconnect _OnRoomJoin _OnRoomJoined _OnRoomLeave _OnRoomLeft"
	for _, x := range []struct {
		m    EventMatcherFunc
		want string
	}{
		{nil, "Chat On OnChat" + sys},
		{EventPrefixMatcher("On"), "On OnChat" + sys},
		{EventTrimPrefixMatcher("On"), " Chat" + sys},
		{func(s string) (string, bool) { return "ev." + s, s == "Chat" }, " _OnNamespaceConnect"},
		{func(string) (string, bool) { return "", false }, ""},
	} {
		s := NewStruct(&plainCtl{})
		if x.m != nil {
			s.SetEventMatcher(x.m)
		}
		got := s.GetNamespaces()[""]
		want := x.want
		switch {
		case strings.HasPrefix(want, " _"):
			want = sys[1:] + " ev.Chat"
		case want == "":
			want = sys[1:]
		}
		if keysOf(got) != want {
			t.Fatalf("registered %q, wanted %q", keysOf(got), want)
		}
		for k, h := range got {
			if h == nil {
				t.Fatalf("no handler for %q", k)
			}
			ctlLog = nil
			h(nil, Message{})
			w := map[string]string{"_OnNamespaceConnect": "connect", "_OnNamespaceConnected": "connected", "_OnNamespaceDisconnect": "disconnect", "_OnRoomJoin": "join", "_OnRoomJoined": "joined", "_OnRoomLeave": "leave", "_OnRoomLeft": "left",
				"OnChat": "OnChat", "On": "On", "": "On", "ev.Chat": "Chat"}[k]
			if k == "Chat" {
				w = "Chat"
				if x.m != nil {
					w = "OnChat"
				}
			}
			if len(ctlLog) != 1 || ctlLog[0] != w {
				t.Fatalf("%q runs %v, wanted %q", k, ctlLog, w)
			}
		}
	}
	if n := NewStruct(&plainCtl{Namespace: "field"}).GetNamespaces(); len(n) != 1 || n["field"] == nil {
		t.Fatalf("namespace from the field: %v", n)
	}
	if n := NewStruct(&plainCtl{Namespace: "field"}).SetNamespace("set").GetNamespaces(); len(n) != 1 || n["set"] == nil {
		t.Fatalf("namespace set: %v", n)
	}
	if n := NewStruct(&methodCtl{}).GetNamespaces(); len(n) != 1 || n["by method"] == nil || keysOf(n["by method"]) != "Ev" {
		t.Fatalf("namespace from the method: %v", n)
	}
	if n := NewStruct(&fieldMethodCtl{nsHolder{"field"}}).GetNamespaces(); len(n) != 1 || n["by method"] == nil {
		t.Fatalf("namespace from the method before the field: %v", n)
	}
	if n := NewStruct(&deepCtl{Other: 1, nsHolder: nsHolder{"deep"}}).GetNamespaces(); len(n) != 1 || n["deep"] == nil {
		t.Fatalf("namespace from the field of an embedded struct: %v", n)
	}
	if n := NewStruct(&ptrCtl{nsPtr: &nsPtr{nsHolder{"ptr"}}}).GetNamespaces(); len(n) != 1 || n["ptr"] == nil {
		t.Fatalf("namespace from the field of an embedded pointer: %v", n)
	}
	if n := NewStruct(&ptrCtl{}).GetNamespaces(); len(n) != 1 || n[""] == nil {
		t.Fatalf("namespace from the field of an embedded nil pointer: %v", n)
	}
	if n := NewStruct(&notTextCtl{Namespace: 5}).GetNamespaces(); len(n) != 1 || n[""] == nil {
		t.Fatalf("namespace from a field that is not a string: %v", n)
	}
}

type nsHolder struct{ Namespace string }
type nsPtr struct{ nsHolder }
type deepCtl struct {
	Other int
	nsHolder
}
type ptrCtl struct {
	Other string
	*nsPtr
}
type notTextCtl struct{ Namespace int }
type fieldMethodCtl struct{ holder nsHolder }

func (fieldMethodCtl) Namespace() string             { return "by method" }
func (fieldMethodCtl) Ev(c *NSConn, m Message) error { return nil }
func (*deepCtl) Ev(c *NSConn, m Message) error       { return nil }
func (*ptrCtl) Ev(c *NSConn, m Message) error        { return nil }
func (*notTextCtl) Ev(c *NSConn, m Message) error    { return nil }

type methodCtl struct{}

func (methodCtl) Namespace() string             { return "by method" }
func (methodCtl) Ev(c *NSConn, m Message) error { return nil }

type dynCtl struct {
	*NSConn
	Service *int
	Name    string
	Count   int
	private int
	since   time.Time
	mu      sync.Mutex
	names   []string
}

func (d *dynCtl) OnNamespaceConnect(m Message) error { return d.step(m) }
func (d *dynCtl) OnRoomJoin(m Message) error         { return d.step(m) }
func (d *dynCtl) Ev(m Message) error                 { return d.step(m) }
func (d *dynCtl) Fail(m Message) error               { return errors.New("failed") }
func (d *dynCtl) Wrong(c *NSConn, m Message) error   { panic("not an event") }
func (d *dynCtl) step(m Message) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.Count++
	d.private++
	d.names = append(d.names, m.Event)
	ctl("%s|%s|%v|%d|%d|%v|%d", d.NSConn.Conn.ID(), d.Name, *d.Service, d.Count, d.private, d.since.IsZero(), len(d.names))
	return nil
}

func TestReplay_C25_instances(t *testing.T) {
	five := 5
	other := &NSConn{}
	proto := &dynCtl{NSConn: other, Service: &five, Name: "static", private: 3}
	h := NewStruct(proto).SetNamespace("ns")
	if got := keysOf(h.GetNamespaces()["ns"]); got != "Ev Fail _OnNamespaceConnect _OnRoomJoin" {
		t.Fatalf("registered %q", got)
	}
	g := newRig(t, h)
	ctlMu.Lock()
	ctlLog = nil
	ctlMu.Unlock()
	var ps []*raw
	for i := 0; i < 3; i++ {
		_, p := g.rawClient(fmt.Sprint("c", i))
		nsUp2(t, p)
		ps = append(ps, p)
	}
	for k := 0; k < 2; k++ {
		for i, p := range ps {
			p.send(fmt.Sprintf("$%d;ns;r%d;_OnRoomJoin;0;0;", i+5, k))
			p.expect(fmt.Sprintf("$%d;;;;;;", i+5))
		}
	}
	ps[0].send("$3;ns;;Fail;0;0;")
	ps[0].expect("$3;ns;;Fail;1;0;failed")
	want := []string{}
	for k := 1; k <= 3; k++ {
		for i := 0; i < 3; i++ {
			want = append(want, fmt.Sprintf("c%d|static|5|%d|%d|true|%d", i, k, k+3, k))
		}
	}
	ctlMu.Lock()
	defer ctlMu.Unlock()
	if !reflect.DeepEqual(ctlLog, want) {
		t.Fatalf("instances ran\n%v\nwanted\n%v", strings.Join(ctlLog, "\n"), strings.Join(want, "\n"))
	}
	if proto.Count != 0 || proto.private != 3 || proto.NSConn != other {
		t.Fatalf("the registered value was used as an instance")
	}
}

func nsUp2(t *testing.T, p *raw) {
	t.Helper()
	p.send("$77;ns;;_OnNamespaceConnect;0;0;")
	p.expect("$77;;;;;;")
}

func TestReplay_C25_injector(t *testing.T) {
	one := 1
	var made []*dynCtl
	h := NewStruct(&dynCtl{Name: "proto"}).SetNamespace("ns").SetInjector(func(typ reflect.Type, c *NSConn) reflect.Value {
		d := &dynCtl{Service: &one, Name: "injected " + c.Conn.ID(), private: 10}
		made = append(made, d)
		return reflect.ValueOf(d)
	})
	g := newRig(t, h)
	ctlMu.Lock()
	ctlLog = nil
	ctlMu.Unlock()
	for i := 0; i < 2; i++ {
		_, p := g.rawClient(fmt.Sprint("c", i))
		nsUp2(t, p)
		p.send("$5;ns;r;_OnRoomJoin;0;0;")
		p.expect("$5;;;;;;")
	}
	want := "c0|injected c0|1|1|11|true|1 c0|injected c0|1|2|12|true|2 c1|injected c1|1|1|11|true|1 c1|injected c1|1|2|12|true|2"
	if got := strings.Join(ctlLog, " "); got != want || len(made) != 2 {
		t.Fatalf("ran %s, wanted %s", got, want)
	}
}

// the bounded stand-in of C25: controllers of three struct types, five matchers, three connections
type zeroInt struct{ n int }
type zeroNone struct{ n int }
type zeroNamed struct{ n int }
type zeroTwo struct{ n int }
type namedBool bool

func (z zeroInt) IsZero() int         { return z.n }
func (z zeroNone) IsZero()            {}
func (z zeroNamed) IsZero() namedBool { return z.n == 0 }
func (z zeroTwo) IsZero() (bool, int) { return z.n == 0, 0 }

type zeroCtl struct {
	*NSConn
	A    zeroInt
	B    zeroNone
	C    zeroNamed
	D    zeroTwo
	E    time.Time
	F    [2]zeroNamed
	G    interface{}
	H    func()
	seen chan *zeroCtl
}

func (z *zeroCtl) Ev(m Message) error { z.seen <- z; return nil }

// whatever the types of its fields
func TestReplay_C25_fields(t *testing.T) {
	proto := &zeroCtl{A: zeroInt{1}, B: zeroNone{2}, C: zeroNamed{3}, D: zeroTwo{4}, E: time.Unix(5, 0), F: [2]zeroNamed{{6}, {0}}, G: []int{7}, H: func() {}, seen: make(chan *zeroCtl, 1)}
	h := NewStruct(proto).SetNamespace("ns")
	c, p := newRig(t, h).rawClient("me")
	nsUp2(t, p)
	p.send(";ns;;Ev;0;0;")
	within(t, "the event", func() {
		z := <-proto.seen
		if z == proto || z.NSConn != c.Namespace("ns") || z.A.n != 1 || z.B.n != 2 || z.C.n != 3 || z.D.n != 4 || !z.E.Equal(proto.E) || z.F != proto.F || len(z.G.([]int)) != 1 || z.H == nil {
			t.Errorf("instance %#v", z)
		}
	})
	c.Close()
}

func TestBounded_C25_fields(t *testing.T)    { TestReplay_C25_fields(t) }
func TestBounded_C25_methods(t *testing.T)   { TestReplay_C25_methods(t) }
func TestBounded_C25_instances(t *testing.T) { TestReplay_C25_instances(t) }
func TestBounded_C25_injector(t *testing.T)  { TestReplay_C25_injector(t) }

func TestReplay_C25_matchers(t *testing.T) {
	names := []string{"", "O", "On", "OnOn", "OnOnline", "OnChat", "Onn", "nO", "Chat", "ChatOn", "on", "onChat", "ünOn"}
	for _, p := range append([]string{"x", "OnChatX", "ü"}, names...) {
		keep, trim := EventPrefixMatcher(p), EventTrimPrefixMatcher(p)
		for _, n := range names {
			has := len(n) >= len(p) && n[:len(p)] == p
			if got, ok := keep(n); ok != has || has && got != n {
				t.Fatalf("prefix %q on %q: %q %v", p, n, got, ok)
			}
			if got, ok := trim(n); ok != has || has && got != n[len(p):] {
				t.Fatalf("trimmed prefix %q on %q: %q %v", p, n, got, ok)
			}
		}
	}
}
