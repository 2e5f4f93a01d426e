package neffos

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// The scenarios drive the real library over in-memory sockets. patience bounds the wait for
// something that must happen, quiet is how long is watched for something that must not.
const (
	patience = 8 * time.Second
	quiet    = 60 * time.Millisecond
)

func verifSeed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n + 1
}

type frame struct {
	b   []byte
	typ MessageType
}

// memSocket is one end of an in-memory websocket.
type memSocket struct {
	in, out  *memQueue
	shut     *memShut
	req      *http.Request
	mu       sync.Mutex
	written  []frame
	failNext error // the next write fails with it
	failAll  error // every write fails with it
	writing  int32
	overlap  int32
	onWrite  func(frame)
	timeouts []time.Duration
	reads    []time.Duration
	closes   int32
}

type memShut struct {
	once sync.Once
	ch   chan struct{}
}

type memQueue struct{ ch chan frame }

type memNet struct {
	net.Conn
	s *memSocket
}

func (n memNet) Close() error {
	atomic.AddInt32(&n.s.closes, 1)
	n.s.shut.once.Do(func() { close(n.s.shut.ch) })
	return nil
}

func (s *memSocket) NetConn() net.Conn      { return memNet{nil, s} }
func (s *memSocket) Request() *http.Request { return s.req }

func (s *memSocket) ReadData(d time.Duration) ([]byte, MessageType, error) {
	s.mu.Lock()
	s.reads = append(s.reads, d)
	s.mu.Unlock()
	select {
	case f := <-s.in.ch:
		return f.b, f.typ, nil
	default:
	}
	select {
	case f := <-s.in.ch:
		return f.b, f.typ, nil
	case <-s.shut.ch:
		select {
		case f := <-s.in.ch:
			return f.b, f.typ, nil
		default:
		}
		return nil, 0, io.EOF
	}
}

func (s *memSocket) write(b []byte, typ MessageType, d time.Duration) error {
	f := frame{append([]byte(nil), b...), typ}
	s.mu.Lock()
	s.timeouts = append(s.timeouts, d)
	if err := s.failAll; err != nil {
		s.mu.Unlock()
		return err
	}
	if err := s.failNext; err != nil {
		s.failNext = nil
		s.mu.Unlock()
		return err
	}
	select {
	case <-s.shut.ch:
		s.mu.Unlock()
		return io.EOF
	default:
	}
	s.written = append(s.written, f)
	on := s.onWrite
	s.mu.Unlock()
	if on != nil {
		on(f)
	}
	select {
	case s.out.ch <- f:
		return nil
	case <-s.shut.ch:
		return io.EOF
	}
}

func (s *memSocket) WriteText(b []byte, d time.Duration) error   { return s.write(b, TextMessage, d) }
func (s *memSocket) WriteBinary(b []byte, d time.Duration) error { return s.write(b, BinaryMessage, d) }

func (s *memSocket) sent() []frame {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]frame(nil), s.written...)
}

func (s *memSocket) sentTexts() (r []string) {
	for _, f := range s.sent() {
		r = append(r, string(f.b))
	}
	return
}

func (s *memSocket) isShut() bool {
	select {
	case <-s.shut.ch:
		return true
	default:
		return false
	}
}

// socketPair makes the two ends of an in-memory websocket.
func socketPair() (a, b *memSocket) {
	x, y := &memQueue{make(chan frame, 4096)}, &memQueue{make(chan frame, 4096)}
	sh := &memShut{ch: make(chan struct{})}
	r := httptest.NewRequest("GET", "http://verif/", nil)
	return &memSocket{in: x, out: y, shut: sh, req: r}, &memSocket{in: y, out: x, shut: sh, req: r}
}

// put delivers a raw frame to this end's owner.
func (s *memSocket) put(typ MessageType, b string) { s.in.ch <- frame{[]byte(b), typ} }

// rig is a server whose connections use in-memory sockets.
type rig struct {
	t  *testing.T
	s  *Server
	mu sync.Mutex
	up []*memSocket // sockets for the next upgrades
}

func newRig(t *testing.T, h ConnHandler) *rig {
	r := &rig{t: t}
	r.s = New(func(w http.ResponseWriter, q *http.Request) (Socket, error) {
		r.mu.Lock()
		defer r.mu.Unlock()
		if len(r.up) == 0 {
			return nil, errors.New("no socket")
		}
		s := r.up[0]
		r.up = r.up[1:]
		return s, nil
	}, h)
	var n int32
	r.s.IDGenerator = func(w http.ResponseWriter, q *http.Request) string {
		if id := q.Header.Get("X-Id"); id != "" {
			return strings.TrimSuffix(id, "!none")
		}
		return fmt.Sprintf("id%d", atomic.AddInt32(&n, 1))
	}
	return r
}

func (r *rig) upgrade(s *memSocket, id string) (*Conn, error) {
	q := httptest.NewRequest("GET", "http://verif/", nil)
	if id != "" {
		q.Header.Set("X-Id", id)
	}
	r.mu.Lock()
	r.up = append(r.up, s)
	r.mu.Unlock()
	return r.s.Upgrade(httptest.NewRecorder(), q, nil, nil)
}

// raw is a hand-driven peer.
type raw struct {
	t *testing.T
	s *memSocket
}

func (p *raw) send(b string) { p.s.WriteText([]byte(b), 0) }

// next waits for the next frame, ok is false if the connection ended first.
func (p *raw) next() (string, bool) {
	done := make(chan struct{})
	var b []byte
	var err error
	go func() { b, _, err = p.s.ReadData(0); close(done) }()
	select {
	case <-done:
		return string(b), err == nil
	case <-time.After(patience):
		p.t.Helper()
		p.t.Fatalf("no frame arrived")
		return "", false
	}
}

func (p *raw) expect(want string) {
	p.t.Helper()
	got, ok := p.next()
	if !ok {
		p.t.Fatalf("connection ended, wanted frame %q", want)
	}
	if got != want {
		p.t.Fatalf("got frame %q, wanted %q", got, want)
	}
}

// none checks that nothing more arrives.
func (p *raw) none() {
	p.t.Helper()
	select {
	case f := <-p.s.in.ch:
		p.t.Fatalf("unexpected frame %q", f.b)
	case <-time.After(quiet):
	}
}

// rawClient connects a hand-driven client to the server, past the handshake.
func (r *rig) rawClient(id string) (*Conn, *raw) {
	r.t.Helper()
	a, b := socketPair()
	c, err := r.upgrade(a, id)
	if err != nil {
		r.t.Fatalf("upgrade: %v", err)
	}
	p := &raw{r.t, b}
	if !c.shouldHandleOnlyNativeMessages {
		p.send("M")
		p.expect("A" + c.ID())
	}
	return c, p
}

// dial connects a real client to the server.
func (r *rig) dial(id string, h ConnHandler) (*Client, *Conn, *memSocket, *memSocket, error) {
	a, b := socketPair()
	var sc *Conn
	var uerr error
	up := make(chan struct{})
	cl, err := Dial(context.Background(), func(ctx context.Context, url string) (Socket, error) {
		go func() { sc, uerr = r.upgrade(a, id); close(up) }()
		return b, nil
	}, "verif", h)
	select {
	case <-up:
	case <-time.After(patience):
		r.t.Fatalf("upgrade did not return")
	}
	_ = uerr
	return cl, sc, b, a, err
}

func (r *rig) mustDial(id string, h ConnHandler) (*Client, *Conn, *memSocket, *memSocket) {
	r.t.Helper()
	cl, sc, cs, ss, err := r.dial(id, h)
	if err != nil {
		r.t.Fatalf("dial: %v", err)
	}
	return cl, sc, cs, ss
}

// rawServer dials a real client against a hand-driven server.
func rawServer(t *testing.T, id string, h ConnHandler) (*Client, *raw) {
	t.Helper()
	a, b := socketPair()
	p := &raw{t, b}
	errc := make(chan error, 1)
	var cl *Client
	go func() {
		var err error
		cl, err = Dial(context.Background(), func(context.Context, string) (Socket, error) { return a, nil }, "verif", h)
		errc <- err
	}()
	p.expect("M")
	p.send("A" + id)
	select {
	case err := <-errc:
		if err != nil {
			t.Fatalf("dial: %v", err)
		}
	case <-time.After(patience):
		t.Fatalf("dial did not return")
	}
	return cl, p
}

func tctx() context.Context {
	c, _ := context.WithTimeout(context.Background(), patience)
	return c
}

func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(patience):
		t.Fatalf("%s did not return", what)
	}
}

func eventually(t *testing.T, what string, f func() bool) {
	t.Helper()
	end := time.Now().Add(patience)
	for !f() {
		if time.Now().After(end) {
			t.Fatalf("%s did not happen", what)
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// recorder is a handler set that records what it was called with.
type recorder struct {
	mu   sync.Mutex
	list []rec
	errs map[string]error // results by event
	hook func(*NSConn, Message) error
}

type rec struct {
	ns  *NSConn
	msg Message
}

func (r *recorder) handler() MessageHandlerFunc {
	return func(ns *NSConn, m Message) error {
		r.mu.Lock()
		r.list = append(r.list, rec{ns, m})
		err := r.errs[m.Event]
		hook := r.hook
		r.mu.Unlock()
		if hook != nil {
			if e := hook(ns, m); e != nil {
				return e
			}
		}
		return err
	}
}

func (r *recorder) events(names ...string) Events {
	e := Events{}
	for _, n := range append(names, OnNamespaceConnect, OnNamespaceConnected, OnNamespaceDisconnect, OnRoomJoin, OnRoomJoined, OnRoomLeave, OnRoomLeft) {
		e[n] = r.handler()
	}
	return e
}

func (r *recorder) fail(event string, err error) {
	r.mu.Lock()
	if r.errs == nil {
		r.errs = map[string]error{}
	}
	r.errs[event] = err
	r.mu.Unlock()
}

func (r *recorder) got(event string) (out []rec) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range r.list {
		if x.msg.Event == event {
			out = append(out, x)
		}
	}
	return
}

func (r *recorder) names() (out []string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range r.list {
		out = append(out, strings.TrimPrefix(x.msg.Event, "_")+":"+x.msg.Room)
	}
	return
}

func (r *recorder) setHook(f func(*NSConn, Message) error) {
	r.mu.Lock()
	r.hook = f
	r.mu.Unlock()
}

func (r *recorder) clear() { r.mu.Lock(); r.list = nil; r.mu.Unlock() }

func (r *recorder) count() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.list) }

func settle() { time.Sleep(quiet) }

// calm waits until the reader of the connection is out of its handlers: a request made while it is inside one
// reads the connection itself (see the known finding of C09).
func calm(t *testing.T, c *Conn) {
	t.Helper()
	f := reflect.ValueOf(c).Elem().FieldByName("isInsideHandler")
	if f.IsValid() && f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.Uint32 {
		p := (*uint32)(f.UnsafePointer())
		eventually(t, "an idle reader", func() bool { return atomic.LoadUint32(p) == 0 })
		return
	}
	time.Sleep(20 * time.Millisecond)
}
