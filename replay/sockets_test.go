package neffos_test

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gobwas"
	"github.com/kataras/neffos/gorilla"
)

// spyConn records the deadlines and writes of a network connection.
type spyConn struct {
	net.Conn
	mu      sync.Mutex
	wrote   [][]byte
	wd, rd  []time.Duration
	fail    error
	slow    time.Duration
	active  int
	overlap bool
}

func (c *spyConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	c.active++
	if c.active > 1 {
		c.overlap = true
	}
	fail, slow := c.fail, c.slow
	c.wrote = append(c.wrote, append([]byte(nil), b...))
	c.mu.Unlock()
	defer func() { c.mu.Lock(); c.active--; c.mu.Unlock() }()
	if slow > 0 {
		time.Sleep(slow)
	}
	if fail != nil {
		return 0, fail
	}
	return c.Conn.Write(b)
}
func (c *spyConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wd = append(c.wd, time.Until(t))
	c.mu.Unlock()
	return c.Conn.SetWriteDeadline(t)
}
func (c *spyConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	if !t.IsZero() {
		c.rd = append(c.rd, time.Until(t))
	}
	c.mu.Unlock()
	return c.Conn.SetReadDeadline(t)
}

// adapterPair makes the server's and the client's socket of an adapter over a real connection.
func adapterPair(t *testing.T, kind string) (srv, cl neffos.Socket, srvSpy *spyConn) {
	t.Helper()
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	up := make(chan neffos.Socket, 1)
	spies := make(chan *spyConn, 1)
	hs := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var s neffos.Socket
		var err error
		if kind == "gorilla" {
			s, err = gorilla.DefaultUpgrader(w, r)
		} else {
			s, err = gobwas.DefaultUpgrader(w, r)
		}
		if err != nil {
			t.Errorf("upgrade: %v", err)
		}
		up <- s
	})}
	go hs.Serve(spyListener{ln, spies})
	t.Cleanup(func() { hs.Close() })
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	if kind == "gorilla" {
		cl, err = gorilla.DefaultDialer(ctx, "ws://"+ln.Addr().String())
	} else {
		cl, err = gobwas.DefaultDialer(ctx, "ws://"+ln.Addr().String())
	}
	if err != nil {
		t.Fatalf("dial: %v", err)
	}
	srv = <-up
	srvSpy = <-spies
	t.Cleanup(func() { cl.NetConn().Close(); srv.NetConn().Close() })
	return
}

type spyListener struct {
	net.Listener
	ch chan *spyConn
}

func (l spyListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	s := &spyConn{Conn: c}
	l.ch <- s
	return s, nil
}

type read struct {
	b   []byte
	typ neffos.MessageType
	err error
}

func readOne(t *testing.T, s neffos.Socket, d time.Duration) read {
	t.Helper()
	ch := make(chan read, 1)
	go func() { b, typ, err := s.ReadData(d); ch <- read{b, typ, err} }()
	select {
	case r := <-ch:
		return r
	case <-time.After(8 * time.Second):
		t.Fatal("ReadData did not return")
		return read{}
	}
}

// frameBytes is a client-masked (key 0) or a server frame.
func frameBytes(op byte, fin, mask bool, body string) []byte {
	b := []byte{op}
	if fin {
		b[0] |= 0x80
	}
	n := byte(len(body))
	if mask {
		b = append(b, n|0x80, 0, 0, 0, 0)
	} else {
		b = append(b, n)
	}
	return append(b, body...)
}

func TestReplay_C28_adapters(t *testing.T) {
	for _, kind := range []string{"gorilla", "gobwas"} {
		srv, cl, spy := adapterPair(t, kind)
		bodies := []string{"x", "", "text with ; and ünïcode", strings.Repeat("long ", 40000), "\x00\x01"}
		for _, d := range [][2]neffos.Socket{{srv, cl}, {cl, srv}} {
			for _, b := range bodies {
				for _, bin := range []bool{false, true} {
					var err error
					done := make(chan struct{})
					go func() {
						defer close(done)
						if bin {
							err = d[0].WriteBinary([]byte(b), 5*time.Second)
						} else {
							err = d[0].WriteText([]byte(b), 5*time.Second)
						}
					}()
					r := readOne(t, d[1], 5*time.Second)
					<-done
					want := neffos.MessageType(neffos.TextMessage)
					if bin {
						want = neffos.BinaryMessage
					}
					if err != nil || r.err != nil || r.typ != want || string(r.b) != b {
						t.Fatalf("%s: %d bytes binary=%v arrived as %d bytes type %v: %v %v", kind, len(b), bin, len(r.b), r.typ, err, r.err)
					}
				}
			}
		}
		// binary data that is not valid text
		done := make(chan struct{})
		go func() { cl.WriteBinary([]byte{0xff, 0xfe, 0x80}, 0); close(done) }()
		if r := readOne(t, srv, 0); r.err != nil || !bytes.Equal(r.b, []byte{0xff, 0xfe, 0x80}) {
			t.Fatalf("%s: binary data arrived as %v %v", kind, r.b, r.err)
		}
		<-done
		// deadlines
		spy.mu.Lock()
		spy.wd, spy.rd = nil, nil
		spy.mu.Unlock()
		srv.WriteText([]byte("a"), 3*time.Second)
		srv.WriteBinary([]byte("b"), 90*time.Second)
		readOne(t, cl, 0)
		readOne(t, cl, 0)
		spy.mu.Lock()
		wd := append([]time.Duration(nil), spy.wd...)
		spy.mu.Unlock()
		near := func(a, b time.Duration) bool { return a > b-2*time.Second && a <= b }
		ok := false
		for i, d := range wd {
			if near(d, 3*time.Second) {
				for _, e := range wd[i:] {
					ok = ok || near(e, 90*time.Second)
				}
			}
		}
		if !ok {
			t.Fatalf("%s: write deadlines %v, wanted 3s and 90s", kind, wd)
		}
		start := time.Now()
		if r := readOne(t, srv, 50*time.Millisecond); r.err == nil || time.Since(start) > 4*time.Second {
			t.Fatalf("%s: read deadline: %v after %v", kind, r, time.Since(start))
		}
	}
}

func TestReplay_C28_control(t *testing.T) {
	for _, kind := range []string{"gorilla", "gobwas"} {
		srv, cl, spy := adapterPair(t, kind)
		_ = spy
		c := cl.NetConn()
		send := func(bs ...[]byte) {
			go func() {
				for _, b := range bs {
					c.Write(b)
				}
			}()
		}
		send(frameBytes(9, true, true, "ping"), frameBytes(10, true, true, "pong"), frameBytes(1, true, true, "text"),
			frameBytes(2, false, true, "bi"), frameBytes(9, true, true, "in the middle"), frameBytes(0, true, true, "nary"),
			frameBytes(9, true, true, ""), frameBytes(2, true, true, "b"))
		for _, w := range []read{{[]byte("text"), neffos.TextMessage, nil}, {[]byte("binary"), neffos.BinaryMessage, nil}, {[]byte("b"), neffos.BinaryMessage, nil}} {
			if r := readOne(t, srv, 5*time.Second); !reflect.DeepEqual(r, w) {
				t.Fatalf("%s: got %q %v %v, wanted %q", kind, r.b, r.typ, r.err, w.b)
			}
		}
		send(frameBytes(8, true, true, "\x03\xe8bye"))
		if r := readOne(t, srv, 5*time.Second); r.err == nil {
			t.Fatalf("%s: the peer's close was read as %q", kind, r.b)
		}
		srv, cl, _ = adapterPair(t, kind)
		cl.NetConn().Close()
		if r := readOne(t, srv, 5*time.Second); r.err == nil {
			t.Fatalf("%s: a lost connection was read as %q", kind, r.b)
		}
		srv, cl, _ = adapterPair(t, kind)
		go func() { cl.NetConn().Write(frameBytes(2, false, true, "half")); cl.NetConn().Close() }()
		if r := readOne(t, srv, 5*time.Second); r.err == nil {
			t.Fatalf("%s: half a message was read as %q", kind, r.b)
		}
	}
}

func TestReplay_C28_writers(t *testing.T) {
	for _, kind := range []string{"gorilla", "gobwas"} {
		srv, cl, spy := adapterPair(t, kind)
		spy.mu.Lock()
		spy.slow = 200 * time.Microsecond
		spy.mu.Unlock()
		go func() { // pings are answered at the same time
			for i := 0; i < 40; i++ {
				if _, err := cl.NetConn().Write(frameBytes(9, true, true, "p")); err != nil {
					return
				}
				time.Sleep(300 * time.Microsecond)
			}
		}()
		go func() {
			for {
				if _, _, err := srv.ReadData(0); err != nil {
					return
				}
			}
		}()
		const n, w = 25, 8
		var wg sync.WaitGroup
		for k := 0; k < w; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				for i := 0; i < n; i++ {
					b := []byte(fmt.Sprintf("%d.%d.", k, i) + strings.Repeat("z", 3000*(i%3)))
					if (k+i)%2 == 0 {
						srv.WriteText(b, time.Second)
					} else {
						srv.WriteBinary(b, time.Second)
					}
				}
			}(k)
		}
		next := map[string]int{}
		for i := 0; i < n*w; i++ {
			r := readOne(t, cl, 5*time.Second)
			if r.err != nil {
				t.Fatalf("%s: concurrent writes broke the stream: %v", kind, r.err)
			}
			f := strings.Split(string(r.b), ".")
			if len(f) != 3 || fmt.Sprint(next[f[0]]) != f[1] {
				t.Fatalf("%s: frame %.20q out of place", kind, r.b)
			}
			next[f[0]]++
		}
		wg.Wait()
		spy.mu.Lock()
		if spy.overlap {
			t.Fatalf("%s: two writers at once", kind)
		}
		spy.fail = errors.New("wire cut")
		spy.mu.Unlock()
		if srv.WriteText([]byte("x"), time.Second) == nil {
			t.Fatalf("%s: a failed text write was reported as sent", kind)
		}
		if srv.WriteBinary([]byte("x"), time.Second) == nil {
			t.Fatalf("%s: a failed binary write was reported as sent", kind)
		}
	}
	_ = io.EOF
}

// what the server sends right after its answer to the upgrade is read as well
func TestReplay_C28_early(t *testing.T) {
	for _, kind := range []string{"gorilla", "gobwas"} {
		for _, frames := range [][]byte{
			frameBytes(1, true, false, "first"),
			append(frameBytes(1, true, false, "first"), frameBytes(2, true, false, "second")...),
			append(frameBytes(1, true, false, "first"), frameBytes(1, true, false, "cut in two")[:4]...),
		} {
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				t.Fatal(err)
			}
			go func() {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				br := bufio.NewReader(c)
				req, err := http.ReadRequest(br)
				if err != nil {
					return
				}
				h := sha1.Sum([]byte(req.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
				c.Write(append([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: "+base64.StdEncoding.EncodeToString(h[:])+"\r\n\r\n"), frames...))
				time.Sleep(20 * time.Millisecond)
				if len(frames) == 11 {
					c.Write(frameBytes(1, true, false, "cut in two")[4:])
				}
				c.Write(frameBytes(1, true, false, "last"))
			}()
			d := gorilla.DefaultDialer
			if kind == "gobwas" {
				d = gobwas.DefaultDialer
			}
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			s, err := d(ctx, "ws://"+ln.Addr().String())
			cancel()
			if err != nil {
				t.Fatalf("%s: %v", kind, err)
			}
			got := ""
			for !strings.HasSuffix(got, "last") {
				r := readOne(t, s, 2*time.Second)
				if r.err != nil {
					t.Fatalf("%s: read %q then %v", kind, got, r.err)
				}
				got += " " + string(r.b)
			}
			want := map[int]string{7: " first last", 15: " first second last", 11: " first cut in two last"}[len(frames)]
			if got != want {
				t.Fatalf("%s: read %q, wanted %q", kind, got, want)
			}
			s.NetConn().Close()
			ln.Close()
		}
	}
}

func TestReplay_C22_writers(t *testing.T) {
	for _, kind := range []string{"gorilla", "gobwas"} {
		srv, cl, _ := adapterPair(t, kind)
		go func() {
			for {
				if _, _, err := cl.ReadData(0); err != nil {
					return
				}
			}
		}()
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				for i := 0; i < 30; i++ {
					switch (k + i) % 4 {
					case 0:
						srv.WriteText([]byte("x"), 0)
					case 1:
						srv.WriteBinary([]byte("y"), 0)
					case 2:
						srv.WriteText([]byte("x"), time.Second)
					case 3:
						srv.WriteBinary([]byte("y"), time.Second)
					}
				}
			}(k)
		}
		wg.Wait()
	}
}

// every frame the peer sends in time renews the read deadline
func TestReplay_C28_renewed(t *testing.T) {
	srv, cl, _ := adapterPair(t, "gobwas")
	go func() {
		for i := 0; i < 8; i++ {
			time.Sleep(250 * time.Millisecond)
			cl.NetConn().Write(frameBytes(9, true, true, "p"))
		}
		cl.NetConn().Write(frameBytes(1, true, true, "late"))
	}()
	if r := readOne(t, srv, 1200*time.Millisecond); r.err != nil || string(r.b) != "late" {
		t.Fatalf("got %q, %v", r.b, r.err)
	}
}
