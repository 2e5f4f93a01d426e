package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	Op    string // const,int,str,true,false,not,and,or,=,ite,+,-,*,<,<=,select,store,constarr,app,forall,var
	Name  string
	Args  []*Term
	Sort  string
	Fresh bool // a freshly allocated reference: differs from every Ref term built before it
}

const (
	SBool  = "Bool"
	SInt   = "Int"
	SStr   = "Str"
	SRef   = "Ref"
	SIface = "Iface"
	SFunc  = "Func"
	SAny   = "Any"
)

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

// arrParts splits "(Array K V)".
func arrParts(s string) (string, string) {
	body := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	depth := 0
	for i, r := range body {
		switch r {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// Ctx owns the term table of one verification task.
type Ctx struct {
	tab   map[string]*Term
	all   []*Term
	nfr   int
	types map[string]int // interface dynamic-type ids
	fns   map[*Term]*ClosureV
	owned map[string]bool // fields that own their map
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, types: map[string]int{}, fns: map[*Term]*ClosureV{}, owned: map[string]bool{}}
	c.NilRef()
	c.Const("nilI", SIface)
	c.Const("nilF", SFunc)
	c.True()
	c.False()
	return c
}

func (c *Ctx) mk(op, name, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: len(c.all), Op: op, Name: name, Sort: srt, Args: args}
	c.tab[k] = t
	c.all = append(c.all, t)
	return t
}

func (c *Ctx) Const(name, srt string) *Term { return c.mk("const", name, srt) }
func (c *Ctx) NilRef() *Term                { return c.Const("nilR", SRef) }
func (c *Ctx) NilI() *Term                  { return c.Const("nilI", SIface) }
func (c *Ctx) NilF() *Term                  { return c.Const("nilF", SFunc) }
func (c *Ctx) True() *Term                  { return c.mk("true", "", SBool) }
func (c *Ctx) False() *Term                 { return c.mk("false", "", SBool) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}
func (c *Ctx) Int(n int64) *Term       { return c.mk("int", fmt.Sprint(n), SInt) }
func (c *Ctx) BigInt(n *big.Int) *Term { return c.mk("int", n.String(), SInt) }
func (c *Ctx) Str(s string) *Term      { return c.mk("str", s, SStr) }

// FreshC makes a new constant of the given sort.
func (c *Ctx) FreshC(hint, srt string) *Term {
	c.nfr++
	return c.Const(fmt.Sprintf("%s!%d", sanitize(hint), c.nfr), srt)
}

// FreshRef makes a newly allocated reference.
func (c *Ctx) FreshRef(hint string) *Term {
	t := c.FreshC("new_"+hint, SRef)
	t.Fresh = true
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (t *Term) isLit() bool {
	return t.Op == "int" || t.Op == "str" || t.Op == "true" || t.Op == "false"
}
func (t *Term) isTrue() bool  { return t.Op == "true" }
func (t *Term) isFalse() bool { return t.Op == "false" }
func (t *Term) big() *big.Int {
	n := new(big.Int)
	n.SetString(t.Name, 10)
	return n
}
func (t *Term) int64() (int64, bool) {
	if t.Op != "int" {
		return 0, false
	}
	n := t.big()
	if !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

func (c *Ctx) App(name, srt string, args ...*Term) *Term {
	return c.mk("app", name, srt, args...)
}

func (c *Ctx) Not(t *Term) *Term {
	switch t.Op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return t.Args[0]
	}
	return c.mk("not", "", SBool, t)
}

func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		var fl []*Term
		if t.Op == "and" {
			fl = t.Args
		} else {
			fl = []*Term{t}
		}
		for _, x := range fl {
			if x.isTrue() || seen[x] {
				continue
			}
			if x.isFalse() || seen[c.Not(x)] {
				return c.False()
			}
			seen[x] = true
			out = append(out, x)
		}
	}
	switch len(out) {
	case 0:
		return c.True()
	case 1:
		return out[0]
	}
	return c.mk("and", "", SBool, out...)
}

func (c *Ctx) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		var fl []*Term
		if t.Op == "or" {
			fl = t.Args
		} else {
			fl = []*Term{t}
		}
		for _, x := range fl {
			if x.isFalse() || seen[x] {
				continue
			}
			if x.isTrue() || seen[c.Not(x)] {
				return c.True()
			}
			seen[x] = true
			out = append(out, x)
		}
	}
	switch len(out) {
	case 0:
		return c.False()
	case 1:
		return out[0]
	}
	return c.mk("or", "", SBool, out...)
}

func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(a, b, d *Term) *Term {
	if a.isTrue() || b == d {
		return b
	}
	if a.isFalse() {
		return d
	}
	if b.Sort == SBool {
		return c.And(c.Imp(a, b), c.Imp(c.Not(a), d))
	}
	return c.mk("ite", "", b.Sort, a, b, d)
}

// definitelyDistinct decides a != b syntactically where it can.
func (c *Ctx) definitelyDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isLit() && b.isLit() {
		return true
	}
	if a.Sort == SRef {
		if a.Fresh && b.id < a.id || b.Fresh && a.id < b.id {
			return true
		}
		if a.Fresh && oldField(b, a) || b.Fresh && oldField(a, b) {
			return true
		}
		if fa, oa := ownedMap(a); fa != "" && c.owned[fa] {
			if fb, ob := ownedMap(b); fb != "" && c.owned[fb] {
				return fa != fb || c.definitelyDistinct(oa, ob)
			}
		}
	}
	if a.Sort == SIface {
		ab, bb := isBox(a), isBox(b)
		if ab && b == c.NilI() || bb && a == c.NilI() {
			return true
		}
		if ab && bb {
			if a.Name != b.Name {
				return true
			}
			for i := range a.Args {
				if c.definitelyDistinct(a.Args[i], b.Args[i]) {
					return true
				}
			}
		}
	}
	if a.Sort == SIface && (foreignErr(a) && isBox(b) && len(b.Args) == 1 && b.Args[0].Fresh || foreignErr(b) && isBox(a) && len(a.Args) == 1 && a.Args[0].Fresh) {
		return true
	}
	if a.Sort == SIface && (foreignErr(a) && (foreignErr(b) || b == c.NilI()) || foreignErr(b) && a == c.NilI()) {
		return true
	}
	if a.Sort == SFunc {
		if a == c.NilF() && strings.HasPrefix(b.Name, "fn:") || b == c.NilF() && strings.HasPrefix(a.Name, "fn:") {
			return true
		}
	}
	return false
}

// oldField: a field as it was at the start, of an object older than the allocation.
func oldField(t, fresh *Term) bool {
	return t.Op == "select" && t.Args[0].Op == "const" && strings.HasPrefix(t.Args[0].Name, "H:F:") && !strings.Contains(t.Args[0].Name, "!") && t.Args[1].id < fresh.id
}

// foreignErr: the error value of an imported package, made before anything of this package.
func foreignErr(t *Term) bool {
	if t.Op != "const" || t.Sort != SIface {
		return false
	}
	for _, p := range []string{"H:G:context.", "H:G:io.", "H:G:net.", "H:G:net/http."} {
		if strings.HasPrefix(t.Name, p) {
			return true
		}
	}
	return false
}

func isBox(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "box:") }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if c.definitelyDistinct(a, b) {
		return c.False()
	}
	if a.Sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if isBox(a) && isBox(b) && a.Name == b.Name {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	if a.Op == "app" && b.Op == "app" && a.Name == b.Name && (a.Name == "dec" || a.Name == "decs") {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if a.Sort == SStr {
		if r := c.eqCat(a, b); r != nil {
			return r
		}
	}
	if a.Op == "int" && a.Name == "0" {
		a, b = b, a
	}
	if b.Op == "int" && b.Name == "0" && a.Op == "app" && a.Name == "slen" {
		return c.Eq(a.Args[0], c.Str(""))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", SBool, a, b)
}

func baseArr(a *Term) *Term {
	for a.Op == "store" {
		a = a.Args[0]
	}
	return a
}

// Shift is the array a seen from position d.
func (c *Ctx) Shift(a, d *Term) *Term {
	if d.Op == "int" && d.Name == "0" {
		return a
	}
	return c.mk("app", "shift", a.Sort, a, d)
}

func (c *Ctx) Select(a, i *Term) *Term {
	_, v := arrParts(a.Sort)
	for {
		if a.Op == "store" {
			e := c.Eq(a.Args[1], i)
			if e.isTrue() {
				return a.Args[2]
			}
			if e.isFalse() {
				a = a.Args[0]
				continue
			}
			if b := baseArr(a); b.Op == "app" && b.Name == "shift" {
				return c.Ite(e, a.Args[2], c.Select(a.Args[0], i))
			}
		}
		if a.Op == "app" && a.Name == "shift" {
			a, i = a.Args[0], c.Add(i, a.Args[1])
			continue
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	return c.mk("select", "", v, a, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return c.mk("store", "", a.Sort, a, i, v)
}

func (c *Ctx) ConstArr(srt string, v *Term) *Term { return c.mk("constarr", "", srt, v) }

func (c *Ctx) Add(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return c.BigInt(new(big.Int).Add(a.big(), b.big()))
	}
	if a.Op == "int" && a.Name == "0" {
		return b
	}
	if b.Op == "int" && b.Name == "0" {
		return a
	}
	// (x + k1) + k2
	if b.Op == "int" && a.Op == "+" && a.Args[1].Op == "int" {
		return c.Add(a.Args[0], c.Add(a.Args[1], b))
	}
	if a.Op == "int" {
		a, b = b, a
	}
	return c.mk("+", "", SInt, a, b)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if b.Op == "int" {
		return c.Add(a, c.BigInt(new(big.Int).Neg(b.big())))
	}
	if a == b {
		return c.Int(0)
	}
	return c.mk("-", "", SInt, a, b)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return c.BigInt(new(big.Int).Mul(a.big(), b.big()))
	}
	return c.mk("*", "", SInt, a, b)
}
func (c *Ctx) Mod(a *Term, m *big.Int) *Term {
	if a.Op == "int" {
		r := new(big.Int).Mod(a.big(), m)
		return c.BigInt(r)
	}
	return c.mk("mod", "", SInt, a, c.BigInt(m))
}
func (c *Ctx) Div(a *Term, m *big.Int) *Term {
	if a.Op == "int" {
		return c.BigInt(new(big.Int).Div(a.big(), m))
	}
	if m.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return c.mk("div", "", SInt, a, c.BigInt(m))
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return c.Bool(a.big().Cmp(b.big()) < 0)
	}
	if a == b {
		return c.False()
	}
	if a.Op == "int" && a.Name == "0" && b.Op == "app" && b.Name == "slen" {
		return c.Not(c.Eq(b.Args[0], c.Str("")))
	}
	if b.Op == "int" && b.Name == "1" && a.Op == "app" && a.Name == "slen" {
		return c.Eq(a.Args[0], c.Str(""))
	}
	if b.Op == "int" && b.Name == "0" && a.Op == "app" && a.Name == "slen" {
		return c.False()
	}
	return c.mk("<", "", SBool, a, b)
}
func (c *Ctx) Le(a, b *Term) *Term { return c.Not(c.Lt(b, a)) }

// eqCat compares concatenations by their literal or shared ends.
func (c *Ctx) eqCat(a, b *Term) *Term {
	parts := func(t *Term) []*Term {
		if t.Op == "app" && t.Name == "cat" {
			return append([]*Term{}, t.Args...)
		}
		return []*Term{t}
	}
	pa, pb := parts(a), parts(b)
	if b.Op == "str" && b.Name == "" {
		a, b, pa, pb = b, a, pb, pa
	}
	if a.Op == "str" && a.Name == "" && len(pb) > 1 {
		var cs []*Term
		for _, p := range pb {
			cs = append(cs, c.Eq(a, p))
		}
		return c.And(cs...)
	}
	if a.Op == "str" && a.Name == "" && b.Op == "app" && b.Name == "replaceall" && b.Args[1].Op == "str" && b.Args[2].Op == "str" && b.Args[1].Name != "" && b.Args[2].Name != "" {
		return c.Eq(a, b.Args[0])
	}
	if len(pa) == 1 && len(pb) == 1 {
		if a.Op == "str" && b.Op == "app" && b.Name == "dec" || b.Op == "str" && a.Op == "app" && a.Name == "dec" {
			l := a
			if b.Op == "str" {
				l = b
			}
			if l.Name == "" || strings.Trim(l.Name, "0123456789") != "" {
				return c.False()
			}
		}
		return nil
	}
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.Op == "str" && y.Op == "str" {
			n := 0
			for n < len(x.Name) && n < len(y.Name) && x.Name[n] == y.Name[n] {
				n++
			}
			if n < len(x.Name) && n < len(y.Name) {
				return c.False()
			}
			changed = true
			cut := func(p []*Term, s string) []*Term {
				if s == "" {
					return p[1:]
				}
				return append([]*Term{c.Str(s)}, p[1:]...)
			}
			pa, pb = cut(pa, x.Name[n:]), cut(pb, y.Name[n:])
			continue
		}
		dig := func(l, d *Term) bool { // a literal that cannot start a decimal
			return l.Op == "str" && len(l.Name) > 0 && (l.Name[0] < '0' || l.Name[0] > '9') && d.Op == "app" && d.Name == "dec"
		}
		if dig(x, y) || dig(y, x) {
			return c.False()
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
		changed = true
	}
	if !changed {
		return nil
	}
	return c.Eq(c.Cat(pa...), c.Cat(pb...))
}

// ---- strings ----

func (c *Ctx) Cat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		var fl []*Term
		if t.Op == "app" && t.Name == "cat" {
			fl = t.Args
		} else {
			fl = []*Term{t}
		}
		for _, x := range fl {
			if x.Op == "str" && x.Name == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].Op == "str" && x.Op == "str" {
				out[n-1] = c.Str(out[n-1].Name + x.Name)
				continue
			}
			if n := len(out); n > 0 && x.Op == "app" && x.Name == "substr" && out[n-1].Op == "app" && out[n-1].Name == "substr" &&
				x.Args[0] == out[n-1].Args[0] && out[n-1].Args[2] == x.Args[1] {
				out[n-1] = c.Substr(x.Args[0], out[n-1].Args[1], x.Args[2])
				continue
			}
			out = append(out, x)
		}
	}
	switch len(out) {
	case 0:
		return c.Str("")
	case 1:
		return out[0]
	}
	return c.App("cat", SStr, out...)
}

func (c *Ctx) Len(t *Term) *Term {
	if t.Op == "str" {
		return c.Int(int64(len(t.Name)))
	}
	if t.Op == "app" && t.Name == "cat" {
		s := c.Int(0)
		for _, a := range t.Args {
			s = c.Add(s, c.Len(a))
		}
		return s
	}
	if t.Op == "app" && t.Name == "substr" {
		// slices are only made after their bounds were checked
		return c.Sub(t.Args[2], t.Args[1])
	}
	return c.App("slen", SInt, t)
}

func (c *Ctx) At(s, i *Term) *Term {
	if n, ok := i.int64(); ok && n >= 0 {
		if s.Op == "str" && int(n) < len(s.Name) {
			return c.Int(int64(s.Name[n]))
		}
		if s.Op == "app" && s.Name == "cat" && s.Args[0].Op == "str" && int(n) < len(s.Args[0].Name) {
			return c.Int(int64(s.Args[0].Name[n]))
		}
		if s.Op == "app" && s.Name == "cat" {
			if k, ok := c.Len(s.Args[0]).int64(); ok {
				if n < k {
					return c.At(s.Args[0], i)
				}
				return c.At(c.Cat(s.Args[1:]...), c.Int(n-k))
			}
		}
		if s.Op == "app" && s.Name == "substr" {
			if k, ok := s.Args[1].int64(); ok {
				return c.At(s.Args[0], c.Int(k+n))
			}
		}
	}
	return c.App("at", SInt, s, i)
}

func (c *Ctx) Substr(s, i, j *Term) *Term {
	if i.Op == "int" && i.Name == "0" && j == c.Len(s) {
		return s
	}
	a, ok1 := i.int64()
	b, ok2 := j.int64()
	if s.Op == "str" && ok1 && ok2 && a >= 0 && a <= b && int(b) <= len(s.Name) {
		return c.Str(s.Name[a:b])
	}
	// drop a literal prefix
	if ok1 && s.Op == "app" && s.Name == "cat" && s.Args[0].Op == "str" && j == c.Len(s) && int(a) <= len(s.Args[0].Name) && a >= 0 {
		rest := append([]*Term{c.Str(s.Args[0].Name[a:])}, s.Args[1:]...)
		return c.Cat(rest...)
	}
	return c.App("substr", SStr, s, i, j)
}

func (c *Ctx) Prefix(s, p *Term) *Term {
	if p.Op == "str" && p.Name == "" {
		return c.True()
	}
	if s.Op == "str" && p.Op == "str" {
		return c.Bool(strings.HasPrefix(s.Name, p.Name))
	}
	if s.Op == "app" && s.Name == "cat" && p.Op == "str" && s.Args[0].Op == "str" {
		l := s.Args[0].Name
		if len(l) >= len(p.Name) {
			return c.Bool(strings.HasPrefix(l, p.Name))
		}
		if !strings.HasPrefix(p.Name, l) {
			return c.False()
		}
	}
	if p.Op == "str" {
		f := s
		if s.Op == "app" && s.Name == "cat" {
			f = s.Args[0]
		}
		if f.Op == "app" && f.Name == "dec" && (p.Name[0] < '0' || p.Name[0] > '9') {
			return c.False()
		}
	}
	if p.Op == "str" && s.Op == "app" && s.Name == "replaceall" {
		// a prefix without the replaced character and without the first character of its replacement is untouched
		o, n := s.Args[1], s.Args[2]
		if o.Op == "str" && len(o.Name) == 1 && n.Op == "str" && n.Name != "" && !strings.Contains(p.Name, o.Name) && !strings.Contains(p.Name, n.Name[:1]) {
			return c.Prefix(s.Args[0], p)
		}
	}
	return c.App("prefixof", SBool, s, p)
}

func (c *Ctx) Contains(s, p *Term) *Term {
	if s.Op == "str" && p.Op == "str" {
		return c.Bool(strings.Contains(s.Name, p.Name))
	}
	if p.Op == "str" && s.Op == "app" && s.Name == "cat" {
		for _, a := range s.Args {
			if a.Op == "str" && strings.Contains(a.Name, p.Name) {
				return c.True()
			}
		}
		if len(p.Name) == 1 {
			var ds []*Term
			for _, a := range s.Args {
				ds = append(ds, c.Contains(a, p))
			}
			return c.Or(ds...)
		}
	}
	return c.App("contains", SBool, s, p)
}

func (c *Ctx) ReplaceAll(s, o, n *Term) *Term {
	if s.Op == "str" && o.Op == "str" && n.Op == "str" {
		return c.Str(strings.ReplaceAll(s.Name, o.Name, n.Name))
	}
	return c.App("replaceall", SStr, s, o, n)
}

// ---- printing ----

func (t *Term) String() string { return t.pretty(0) }

func (t *Term) pretty(d int) string {
	if d > 6 {
		return "…"
	}
	switch t.Op {
	case "const", "int", "var":
		return t.Name
	case "str":
		return fmt.Sprintf("%q", t.Name)
	case "true", "false":
		return t.Op
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.pretty(d+1))
	}
	n := t.Op
	if t.Op == "app" {
		n = t.Name
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

func collect(roots []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		out = append(out, t)
	}
	for _, r := range roots {
		visit(r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// contains reports whether t mentions a constant created at or after id lo.
func (t *Term) mentionsSince(lo int) bool {
	for _, x := range collect([]*Term{t}) {
		if x.Op == "const" && x.id >= lo && strings.Contains(x.Name, "!") {
			return true
		}
	}
	return false
}
