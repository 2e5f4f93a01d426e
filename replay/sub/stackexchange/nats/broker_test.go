package nats

// A small in-memory nats server, on the loopback network.

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kataras/neffos"
)

type fakeBroker struct {
	ln   net.Listener
	slow time.Duration // before a subscription takes effect
	mu   sync.Mutex
	subs map[*fakeConn]bool
}

type fakeConn struct {
	net.Conn
	wmu  sync.Mutex
	echo bool
	sids map[string]string
}

func (c *fakeConn) reply(s string) {
	c.wmu.Lock()
	io.WriteString(c.Conn, s)
	c.wmu.Unlock()
}

func subjectMatch(p, s string) bool {
	ps, ss := strings.Split(p, "."), strings.Split(s, ".")
	for i, x := range ps {
		if x == ">" {
			return i < len(ss)
		}
		if i >= len(ss) || x != "*" && x != ss[i] {
			return false
		}
	}
	return len(ps) == len(ss)
}

func (b *fakeBroker) serve(nc net.Conn) {
	c := &fakeConn{Conn: nc, echo: true, sids: map[string]string{}}
	b.mu.Lock()
	b.subs[c] = true
	b.mu.Unlock()
	defer func() {
		b.mu.Lock()
		delete(b.subs, c)
		b.mu.Unlock()
		nc.Close()
	}()
	host, port, _ := net.SplitHostPort(b.ln.Addr().String())
	c.reply(fmt.Sprintf("INFO {\"server_id\":\"x\",\"version\":\"2.1.0\",\"proto\":1,\"host\":%q,\"port\":%s,\"max_payload\":1048576,\"headers\":true}\r\n", host, port))
	r := bufio.NewReader(nc)
	for {
		s, err := r.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(s)
		if len(f) == 0 {
			continue
		}
		switch strings.ToUpper(f[0]) {
		case "CONNECT":
			if strings.Contains(s, "\"echo\":false") {
				c.echo = false
			}
		case "PING":
			c.reply("PONG\r\n")
		case "SUB":
			b.mu.Lock()
			d := b.slow
			b.mu.Unlock()
			time.Sleep(d)
			b.mu.Lock()
			c.sids[f[len(f)-1]] = f[1]
			b.mu.Unlock()
		case "UNSUB":
			b.mu.Lock()
			delete(c.sids, f[1])
			b.mu.Unlock()
		case "PUB":
			n, _ := strconv.Atoi(f[len(f)-1])
			buf := make([]byte, n+2)
			if _, err := io.ReadFull(r, buf); err != nil {
				return
			}
			b.mu.Lock()
			for o := range b.subs {
				if o == c && !c.echo {
					continue
				}
				for sid, sub := range o.sids {
					if subjectMatch(sub, f[1]) {
						o.reply(fmt.Sprintf("MSG %s %s %d\r\n%s", f[1], sid, n, buf))
					}
				}
			}
			b.mu.Unlock()
		}
	}
}

func newFakeBroker(t *testing.T) *fakeBroker {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	b := &fakeBroker{ln: ln, subs: map[*fakeConn]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go b.serve(c)
		}
	}()
	t.Cleanup(func() { ln.Close() })
	return b
}

func (b *fakeBroker) exchange(t *testing.T) neffos.StackExchange {
	x, err := NewStackExchange("nats://" + b.ln.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	return x
}

var patternIDs []string // nats refuses them itself

func TestReplay_C27_NatsReplyBeforeSubscription(t *testing.T) {
	b := newFakeBroker(t)
	s1, s2 := newNode(t, b, ""), newNode(t, b, "")
	s2.dial("b", "default")
	time.Sleep(100 * time.Millisecond)
	b.setSlow(150 * time.Millisecond)
	s1.ask("b", "one")
}

func breakPublisher(x neffos.StackExchange) { x.(*StackExchange).publisher.Close() }

func (b *fakeBroker) setSlow(d time.Duration) { b.mu.Lock(); b.slow = d; b.mu.Unlock() }

func (b *fakeBroker) connections() int { b.mu.Lock(); defer b.mu.Unlock(); return len(b.subs) }

func (b *fakeBroker) subscriptions() (n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.subs {
		n += len(c.sids)
	}
	return
}
