package redis

// A small in-memory redis, enough of it for publish and subscribe, on the loopback network.

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/kataras/neffos"
)

type fakeBroker struct {
	ln    net.Listener
	slow  time.Duration // before a subscription takes effect
	mu    sync.Mutex
	subs  map[*fakeConn]bool
	conns map[net.Conn]bool
}

type fakeConn struct {
	net.Conn
	wmu       sync.Mutex
	chs, pchs map[string]bool
}

func (c *fakeConn) reply(s string) {
	c.wmu.Lock()
	io.WriteString(c.Conn, s)
	c.wmu.Unlock()
}

func bulk(ss ...string) string {
	var b strings.Builder
	for _, s := range ss {
		fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(s), s)
	}
	return b.String()
}

// globMatch is redis' pattern matching: * ? [set] and \x.
func globMatch(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for i := 0; i <= len(s); i++ {
				if globMatch(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if s == "" {
				return false
			}
		case '[':
			if s == "" {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			hit := false
			for len(p) > 0 && p[0] != ']' {
				if len(p) > 2 && p[1] == '-' {
					hit = hit || p[0] <= s[0] && s[0] <= p[2]
					p = p[2:]
				} else {
					hit = hit || p[0] == s[0]
				}
				p = p[1:]
			}
			if hit == not {
				return false
			}
			if p == "" {
				return len(s) == 1
			}
		case '\\':
			if len(p) > 1 {
				p = p[1:]
			}
			fallthrough
		default:
			if s == "" || s[0] != p[0] {
				return false
			}
		}
		p, s = p[1:], s[1:]
	}
	return s == ""
}

func (b *fakeBroker) serve(nc net.Conn) {
	c := &fakeConn{Conn: nc, chs: map[string]bool{}, pchs: map[string]bool{}}
	b.mu.Lock()
	b.subs[c] = true
	b.mu.Unlock()
	defer func() {
		b.mu.Lock()
		delete(b.subs, c)
		b.mu.Unlock()
		nc.Close()
	}()
	r := bufio.NewReader(nc)
	line := func() (string, bool) {
		s, err := r.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err == nil
	}
	for {
		s, ok := line()
		if !ok || !strings.HasPrefix(s, "*") {
			return
		}
		n, _ := strconv.Atoi(s[1:])
		var args []string
		for i := 0; i < n; i++ {
			l, ok := line()
			if !ok {
				return
			}
			k, _ := strconv.Atoi(l[1:])
			buf := make([]byte, k+2)
			if _, err := io.ReadFull(r, buf); err != nil {
				return
			}
			args = append(args, string(buf[:k]))
		}
		cmd := strings.ToLower(args[0])
		switch cmd {
		case "publish":
			cnt := 0
			b.mu.Lock()
			for o := range b.subs {
				if o.chs[args[1]] {
					cnt++
					o.reply("*3\r\n" + bulk("message", args[1], args[2]))
				}
				for p := range o.pchs {
					if globMatch(p, args[1]) {
						cnt++
						o.reply("*4\r\n" + bulk("pmessage", p, args[1], args[2]))
					}
				}
			}
			b.mu.Unlock()
			c.reply(fmt.Sprintf(":%d\r\n", cnt))
		case "subscribe", "psubscribe", "unsubscribe", "punsubscribe":
			set := c.chs
			if cmd[0] == 'p' || cmd == "punsubscribe" {
				set = c.pchs
			}
			if !strings.Contains(cmd, "unsub") {
				b.mu.Lock()
				d := b.slow
				b.mu.Unlock()
				time.Sleep(d)
			}
			for _, a := range args[1:] {
				b.mu.Lock()
				if strings.Contains(cmd, "unsub") {
					delete(set, a)
				} else {
					set[a] = true
				}
				b.mu.Unlock()
				c.reply("*3\r\n" + bulk(cmd, a) + fmt.Sprintf(":%d\r\n", len(c.chs)+len(c.pchs)))
			}
		case "ping":
			if len(c.chs)+len(c.pchs) > 0 {
				c.reply("*2\r\n" + bulk("pong", ""))
			} else {
				c.reply("+PONG\r\n")
			}
		default:
			c.reply("+OK\r\n")
		}
	}
}

func newFakeBroker(t *testing.T) *fakeBroker {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	b := &fakeBroker{ln: ln, subs: map[*fakeConn]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go b.serve(c)
		}
	}()
	t.Cleanup(func() { ln.Close() })
	return b
}

func (b *fakeBroker) exchange(t *testing.T) neffos.StackExchange {
	x, err := NewStackExchange(Config{Addr: b.ln.Addr().String(), MaxActive: 2}, "app")
	if err != nil {
		t.Fatal(err)
	}
	return x
}

// patternIDs are connection ids the broker could take for patterns.
var patternIDs = []string{"*", "[a"}

func breakPublisher(x neffos.StackExchange) { x.(*StackExchange).pool.Close() }

func (b *fakeBroker) setSlow(d time.Duration) { b.mu.Lock(); b.slow = d; b.mu.Unlock() }

func (b *fakeBroker) connections() int { b.mu.Lock(); defer b.mu.Unlock(); return len(b.subs) }

func (b *fakeBroker) subscriptions() (n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.subs {
		n += len(c.chs) + len(c.pchs)
	}
	return
}
