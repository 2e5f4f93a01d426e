package neffos

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
)

var wireBits = []string{"", "a", ";", ";;", "ns", "room;1", "@", "%", "!", "@%", "semicolon", "é", "\x00", "a;b;c", "1", "0", "_OnNamespaceConnect", "A", "M", "$", "#", "neffos", "x y"}

func wireText(r *rand.Rand) string {
	var b strings.Builder
	for n := r.Intn(4); n > 0; n-- {
		b.WriteString(wireBits[r.Intn(len(wireBits))])
	}
	s := b.String()
	if strings.Contains(s, "@%!") {
		return "plain"
	}
	return s
}

func TestReplay_C01_roundtrip(t *testing.T) {
	r := rand.New(rand.NewSource(verifSeed()))
	for i := 0; i < 40000; i++ {
		m := Message{Namespace: wireText(r), Room: wireText(r), Event: wireText(r), isNoOp: r.Intn(4) == 0}
		if r.Intn(3) > 0 {
			m.Body = []byte(wireText(r) + strings.Repeat(";", r.Intn(9)))
		}
		switch r.Intn(4) {
		case 0:
			m.wait = genWait(true)
		case 1:
			m.wait = genWait(false)
		}
		for _, typ := range []MessageType{TextMessage, BinaryMessage} {
			for _, native := range []bool{false, true} {
				if native && m.Event == OnNativeMessage {
					continue
				}
				out := serializeMessage(m)
				if want := m.wait + ";" + strings.Replace(m.Namespace, ";", "@%!semicolon@%!", -1) + ";"; !strings.HasPrefix(string(out), want) || strings.Count(string(out), ";") < 6 {
					t.Fatalf("transport form of %#v is %q", m, out)
				}
				g := DeserializeMessage(typ, out, native, false)
				if g.isInvalid || g.Namespace != m.Namespace || g.Room != m.Room || g.Event != m.Event || !bytes.Equal(g.Body, m.Body) || g.wait != m.wait || g.isNoOp != m.isNoOp || g.Err != nil || g.isError || g.FromExplicit != "" || g.FromStackExchange || g.SetBinary != (typ == BinaryMessage) {
					t.Fatalf("%#v became %#v through %q", m, g, out)
				}
			}
		}
	}
	for _, id := range []string{"neffos(0xab(id;1))", "neffos(0x1(;;0x2))", "neffos(0x1(plain))"} {
		m := Message{Namespace: "n;s", Room: "r", Event: "e", Body: []byte("b;1"), FromExplicit: id}
		g := DeserializeMessage(TextMessage, serializeMessage(m), false, false)
		if g.FromExplicit != id || g.Namespace != "n;s" || g.Room != "r" || g.Event != "e" || string(g.Body) != "b;1" || g.wait != "" || g.isInvalid {
			t.Fatalf("%#v became %#v", m, g)
		}
	}
}

type selfErr struct{}

func (selfErr) Error() string                 { return "self" }
func (selfErr) ResolveError(text string) bool { return strings.HasPrefix(text, "self:") }

func TestReplay_C02_errors(t *testing.T) {
	known := errors.New("verif;known")
	RegisterKnownError(known)
	RegisterKnownError(selfErr{})
	for _, native := range []bool{false, true} {
		for _, text := range []string{"x", "a;b", ";", "1", "bad thing", "1;1;1", ";;;;;;;;", "very bad namespace", "bad room 5", " bad room", "BAD ROOM", "bad", "verif", "xself:", "self"} {
			m := Message{wait: genWait(true), Namespace: "ns", Event: "e", Body: []byte("kept?"), Err: errors.New(text)}
			g := DeserializeMessage(TextMessage, serializeMessage(m), native, false)
			if g.Err != nil && text == "self" {
				continue
			}
			if g.Err == nil || g.Err.Error() != text || !g.isError || len(g.Body) != 0 || g.wait != m.wait || g.Event != "e" {
				t.Fatalf("error %q became %#v", text, g)
			}
			g = DeserializeMessage(TextMessage, serializeMessage(Message{wait: m.wait, Namespace: "ns", Event: "e", Err: Reply([]byte(text))}), native, false)
			if g.Err != nil || g.isError || string(g.Body) != text || g.wait != m.wait {
				t.Fatalf("reply %q became %#v", text, g)
			}
			g = DeserializeMessage(TextMessage, serializeMessage(Message{wait: m.wait, Namespace: "ns", Event: "e", Body: []byte(text)}), native, false)
			if g.Err != nil || g.isError || string(g.Body) != text {
				t.Fatalf("body %q became %#v", text, g)
			}
		}
		for _, e := range []error{ErrBadNamespace, ErrBadRoom, ErrWrite, ErrInvalidPayload, known} {
			g := DeserializeMessage(TextMessage, serializeMessage(Message{Namespace: "n", Event: "e", Err: e}), native, false)
			if g.Err != e {
				t.Fatalf("known error %v became %#v", e, g.Err)
			}
		}
		g := DeserializeMessage(TextMessage, serializeMessage(Message{Namespace: "n", Event: "e", Err: errors.New("self:other")}), native, false)
		if _, ok := g.Err.(selfErr); !ok {
			t.Fatalf("resolved error became %#v", g.Err)
		}
		g = DeserializeMessage(TextMessage, serializeMessage(Message{Namespace: "n", Event: "e", Err: Reply(nil)}), native, false)
		if g.Err != nil || len(g.Body) != 0 {
			t.Fatalf("empty reply became %#v", g)
		}
	}
}

func TestReplay_C11_tokens(t *testing.T) {
	var mu sync.Mutex
	seen := map[string]bool{}
	var wg sync.WaitGroup
	for k := 0; k < 16; k++ {
		wg.Add(1)
		go func(client bool) {
			defer wg.Done()
			var l []string
			for i := 0; i < 5000; i++ {
				l = append(l, genWait(client))
			}
			mu.Lock()
			defer mu.Unlock()
			for _, w := range l {
				if seen[w] {
					t.Errorf("token %q made twice", w)
				}
				seen[w] = true
				m := Message{wait: w}
				if !m.IsWait(client) || client && m.IsWait(false) {
					t.Errorf("token %q of client=%v is not told apart", w, client)
				}
			}
		}(k%2 == 0)
	}
	wg.Wait()
}

func TestReplay_C27_tokens(t *testing.T) {
	for i := 0; i < 200; i++ {
		w := genWait(false)
		req := Message{wait: genWaitStackExchange(w), Namespace: "n", Event: "e"}
		in := DeserializeMessage(TextMessage, serializeMessage(req), false, false)
		if !in.FromStackExchange || in.wait != w {
			t.Fatalf("request %q arrives as %#v", req.wait, in)
		}
		for _, e := range []error{nil, Reply([]byte("x")), fmt.Errorf("failed")} {
			in.Err = e
			back := DeserializeMessage(TextMessage, serializeMessage(in), false, false)
			if !back.FromStackExchange || back.wait != w {
				t.Fatalf("answer to %q arrives as %#v", req.wait, back)
			}
		}
	}
}
