package neffos

import (
	"reflect"
	"testing"
)

// TestBounded_C24_join joins every list of at most three handlers over two namespaces and two events:
// each namespace absent, with nil events, or with any subset of the events.
func TestBounded_C24_join(t *testing.T) {
	type key struct{ ns, ev string }
	nss, evs := []string{"", "n"}, []string{"a", "b"}
	var ran int
	mk := func(id, opt int) Namespaces {
		n := Namespaces{}
		for i, ns := range nss {
			o := opt
			if i == 1 {
				o = opt / 6
			}
			switch o %= 6; o {
			case 0:
			case 1:
				n[ns] = nil
			default:
				n[ns] = Events{}
				for k, ev := range evs {
					if (o-2)>>uint(k)&1 == 1 {
						v := 1000*id + 10*i + k + 1
						n[ns][ev] = func(*NSConn, Message) error { ran = v; return nil }
					}
				}
			}
		}
		return n
	}
	look := func(n Namespaces) (map[key]int, map[string]bool) {
		out, has := map[key]int{}, map[string]bool{}
		for ns, es := range n {
			if es != nil {
				has[ns] = true
			}
			for ev, h := range es {
				h(nil, Message{})
				out[key{ns, ev}] = ran
			}
		}
		return out, has
	}
	shape := func(n Namespaces) map[string]int {
		out := map[string]int{}
		for ns, es := range n {
			out[ns] = len(es)
			if es == nil {
				out[ns] = -1
			}
		}
		return out
	}
	check := func(opts []int) {
		var hs []ConnHandler
		var ns []Namespaces
		want, wantNS := map[key]int{}, map[string]bool{}
		var shapes []map[string]int
		for id, o := range opts {
			n := mk(id+1, o)
			hs, ns = append(hs, n), append(ns, n)
			shapes = append(shapes, shape(n))
			m, has := look(n)
			for k, v := range m {
				want[k] = v
			}
			for k := range has {
				wantNS[k] = true
			}
		}
		j := JoinConnHandlers(hs...).GetNamespaces()
		got, gotNS := look(j)
		if !reflect.DeepEqual(got, want) || !reflect.DeepEqual(gotNS, wantNS) {
			t.Fatalf("handlers %v: joined %v %v, wanted %v %v", opts, got, gotNS, want, wantNS)
		}
		for k, es := range j {
			if es != nil {
				es["extra"] = nil
			}
			j[k+"extra"] = nil
		}
		for i, n := range ns {
			m, _ := look(n)
			own, _ := look(mk(i+1, opts[i]))
			if !reflect.DeepEqual(shape(n), shapes[i]) || !reflect.DeepEqual(m, own) {
				t.Fatalf("handlers %v: handler %d was changed to %v, or shares its maps with the result", opts, i, shape(n))
			}
		}
	}
	check(nil)
	for a := 0; a < 36; a++ {
		check([]int{a})
		for b := 0; b < 36; b++ {
			check([]int{a, b})
			for c := 0; c < 36; c++ {
				check([]int{a, b, c})
			}
		}
	}
}
