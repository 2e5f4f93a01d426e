package main

import (
	"math/big"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TV is a specification value with its Go type (nil type: untyped).
type TV struct {
	V Val
	T types.Type
}

type nilVal struct{}

// EvRef is a specification variable bound to an event.
type EvRef struct {
	e   *Event
	def *EventDef
	i   int
}

type Env struct {
	st    *State
	heap  map[string]*Term
	objs  map[int]Obj
	vars  map[string]TV
	seg   []*Event
	depth int
	loop  *LoopRec
}

func (x *Exec) specEnv(st *State) *Env {
	env := &Env{st: st, heap: st.heap, objs: st.objs, vars: map[string]TV{}, seg: st.trace}
	for k, v := range x.bindV {
		env.vars[k] = v
	}
	for k, v := range st.ghost {
		env.vars[k] = v
	}
	return env
}

func (env *Env) with(k string, v TV) *Env {
	n := *env
	n.vars = make(map[string]TV, len(env.vars)+1)
	for a, b := range env.vars {
		n.vars[a] = b
	}
	n.vars[k] = v
	return &n
}

func (x *Exec) bindParams(env *Env, con *Contract, fn *ssa.Function, args []Val) {
	// the root's own names do not leak into a callee's contract
	env.vars = map[string]TV{}
	for i, p := range fn.Params {
		if i < len(con.Params) {
			env.vars[con.Params[i]] = TV{args[i], p.Type()}
		}
	}
}

func (x *Exec) bindResults(env *Env, con *Contract, fn *ssa.Function, r Val) {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
	case 1:
		env.vars["result"] = TV{r, res.At(0).Type()}
		if len(con.Results) > 0 {
			env.vars[con.Results[0]] = TV{r, res.At(0).Type()}
		}
	default:
		tv := r.(TupleV)
		for i := range tv {
			env.vars[fmt.Sprintf("result%d", i)] = TV{tv[i], res.At(i).Type()}
			if i < len(con.Results) {
				env.vars[con.Results[i]] = TV{tv[i], res.At(i).Type()}
			}
		}
	}
}

func (x *Exec) evalBool(env *Env, e ast.Expr) *Term {
	v := x.eval(env, e)
	t, ok := v.V.(*Term)
	if !ok || t.Sort != SBool {
		unsup("specification: %s is not a condition", exprStr(e))
	}
	return t
}

func exprStr(e ast.Expr) string {
	var sb strings.Builder
	var p func(e ast.Expr)
	p = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.Ident:
			sb.WriteString(e.Name)
		case *ast.SelectorExpr:
			p(e.X)
			sb.WriteString("." + e.Sel.Name)
		case *ast.CallExpr:
			p(e.Fun)
			sb.WriteString("(")
			for i, a := range e.Args {
				if i > 0 {
					sb.WriteString(",")
				}
				p(a)
			}
			sb.WriteString(")")
		case *ast.BinaryExpr:
			p(e.X)
			sb.WriteString(e.Op.String())
			p(e.Y)
		case *ast.BasicLit:
			sb.WriteString(e.Value)
		default:
			fmt.Fprintf(&sb, "%T", e)
		}
	}
	p(e)
	return sb.String()
}

func (x *Exec) evTerm(env *Env, v TV) *Term { return x.term(env.st, v.V) }

func (x *Exec) eval(env *Env, e ast.Expr) TV {
	c := x.c
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.eval(env, e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, err := strconv.ParseInt(e.Value, 0, 64)
			if err != nil {
				b, _ := new(big.Int).SetString(e.Value, 0)
				return TV{c.BigInt(b), types.Typ[types.Int]}
			}
			return TV{c.Int(n), types.Typ[types.Int]}
		case token.STRING:
			s, err := strconv.Unquote(e.Value)
			if err != nil {
				unsup("bad string %s", e.Value)
			}
			return TV{c.Str(s), types.Typ[types.String]}
		case token.CHAR:
			s, _, _, err := strconv.UnquoteChar(e.Value[1:len(e.Value)-1], '\'')
			if err != nil {
				unsup("bad char %s", e.Value)
			}
			return TV{c.Int(int64(s)), types.Typ[types.Int]}
		}
	case *ast.Ident:
		return x.evalIdent(env, e.Name)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, bound := env.vars[id.Name]; !bound {
				// package-qualified global
				if v, ok := x.globalByName(env, id.Name+"."+e.Sel.Name); ok {
					return v
				}
			}
		}
		return x.field(env, x.eval(env, e.X), e.Sel.Name)
	case *ast.UnaryExpr:
		v := x.eval(env, e.X)
		switch e.Op {
		case token.NOT:
			return TV{c.Not(x.evTerm(env, v)), types.Typ[types.Bool]}
		case token.SUB:
			return TV{c.Sub(c.Int(0), x.evTerm(env, v)), v.T}
		}
	case *ast.StarExpr:
		v := x.eval(env, e.X)
		pt := v.T.Underlying().(*types.Pointer)
		return TV{x.loadRaw(env.st, env.heap, env.objs, x.ptrOf(env.st, v.V, v.T)), pt.Elem()}
	case *ast.BinaryExpr:
		return x.evalBin(env, e)
	case *ast.IndexExpr:
		b := x.eval(env, e.X)
		k := x.eval(env, e.Index)
		switch v := b.V.(type) {
		case *SliceV:
			return TV{x.loadRaw(env.st, env.heap, env.objs, &PtrV{Slice: v, Idx: x.evTerm(env, k), T: v.Elem}), v.Elem}
		case BytesV:
			return TV{c.At(v.S, x.evTerm(env, k)), types.Typ[types.Int]}
		case *Term:
			if v.Sort == SStr {
				return TV{c.At(v, x.evTerm(env, k)), types.Typ[types.Int]}
			}
			if _, ok := b.T.Underlying().(*types.Map); ok {
				_, et := mapKV(b.T)
				kt := x.evTerm(env, k)
				has := x.mapHasIn(env.heap, b.T, v, kt)
				val := x.mapGetIn(env.heap, b.T, v, kt)
				ls, zs := x.flatten(env.st, val), x.flatten(env.st, x.zero(et))
				for i := range ls {
					ls[i] = c.Ite(has, ls[i], zs[i])
				}
				return TV{x.unflatten(et, ls), et}
			}
		}
	case *ast.SliceExpr:
		b := x.eval(env, e.X)
		var s *Term
		switch v := b.V.(type) {
		case BytesV:
			s = v.S
		case *Term:
			s = v
		}
		if s != nil {
			lo, hi := c.Int(0), c.Len(s)
			if e.Low != nil {
				lo = x.evTerm(env, x.eval(env, e.Low))
			}
			if e.High != nil {
				hi = x.evTerm(env, x.eval(env, e.High))
			}
			return TV{x.substr(env.st, s, lo, hi), types.Typ[types.String]}
		}
	case *ast.CallExpr:
		return x.evalCall(env, e)
	}
	unsup("specification expression %s (%T)", exprStr(e), e)
	return TV{}
}

func (x *Exec) evalIdent(env *Env, n string) TV {
	c := x.c
	switch n {
	case "true":
		return TV{c.True(), types.Typ[types.Bool]}
	case "false":
		return TV{c.False(), types.Typ[types.Bool]}
	case "nil":
		return TV{nilVal{}, nil}
	}
	if v, ok := env.vars[n]; ok {
		return v
	}
	if m, ok := x.eng.con.defs[n]; ok && len(m.params) == 0 {
		return x.eval(env, m.expr)
	}
	if v, ok := x.globalByName(env, n); ok {
		return v
	}
	unsup("specification: unknown name %s", n)
	return TV{}
}

func (x *Exec) globalByName(env *Env, n string) (TV, bool) {
	if g := x.eng.globals[n]; g != nil {
		t := g.Type().(*types.Pointer).Elem()
		return TV{x.loadRaw(env.st, env.heap, env.objs, &PtrV{Glob: n, T: t}), t}, true
	}
	// constants
	pkg, name := "", n
	if i := strings.LastIndex(n, "."); i >= 0 {
		pkg, name = n[:i], n[i+1:]
	}
	for _, p := range x.eng.pkgs {
		if strings.TrimSuffix(shortPkg(p.Pkg), ".") != pkg {
			continue
		}
		if k, ok := p.Members[name].(*ssa.NamedConst); ok {
			v := k.Value
			if v.Value.Kind() == constant.Int {
				return TV{x.constVal(v), v.Type()}, true
			}
			return TV{x.constVal(v), v.Type()}, true
		}
	}
	return TV{}, false
}

func (x *Exec) field(env *Env, v TV, name string) TV {
	switch r := v.V.(type) {
	case *EvRef:
		for i, p := range r.def.Params {
			if p == name {
				if i >= len(r.e.Args) {
					unsup("event %s has no argument %s", r.def.Name, name)
				}
				t := r.e.ArgT[i]
				if t == nil {
					t = x.eng.ptrToOwner(r.def.Target)
				}
				return TV{r.e.Args[i], t}
			}
		}
		for i, p := range strings.Split(r.def.Res, "+") {
			if p != name {
				continue
			}
			if tv, ok := r.e.Res.(TupleV); ok {
				return TV{tv[i], r.e.ResT.(*types.Tuple).At(i).Type()}
			}
			return TV{r.e.Res, r.e.ResT}
		}
		unsup("event %s has no part %s", r.def.Name, name)
	}
	if v.T == nil {
		unsup("field %s of an untyped value", name)
	}
	t := v.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st := p.Elem()
		idx := fieldIdx(st, name)
		if idx < 0 {
			// embedded struct: search one level
			if i, j, ok := embedded(st, name); ok {
				ptr := x.ptrOf(env.st, v.V, t)
				q := *ptr
				q.Path = append(append([]int{}, ptr.Path...), i, j)
				ft := st.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Struct).Field(j).Type()
				return TV{x.loadRaw(env.st, env.heap, env.objs, &q), ft}
			}
			unsup("specification: no field %s in %s", name, typeName(st))
		}
		ptr := x.ptrOf(env.st, v.V, t)
		q := *ptr
		q.Path = append(append([]int{}, ptr.Path...), idx)
		ft := st.Underlying().(*types.Struct).Field(idx).Type()
		r := x.loadRaw(env.st, env.heap, env.objs, &q)
		return TV{r, ft}
	}
	idx := fieldIdx(t, name)
	if idx < 0 {
		unsup("specification: no field %s in %s", name, typeName(t))
	}
	ft := t.Underlying().(*types.Struct).Field(idx).Type()
	if sv, ok := v.V.(*StructV); ok {
		return TV{sv.F[idx], ft}
	}
	if tm, ok := v.V.(*Term); ok {
		return TV{x.opaqueField(env.st, tm, t, name, ft), ft}
	}
	unsup("specification: field %s of %T", name, v.V)
	return TV{}
}

func embedded(t types.Type, name string) (int, int, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return 0, 0, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if j := fieldIdx(s.Field(i).Type(), name); j >= 0 {
				return i, j, true
			}
		}
	}
	return 0, 0, false
}

func fieldIdx(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// coerce brings two operands to comparable shape.
// valueField compares a lock or an atomic that is kept by value: it is never nil, and it is 0 while untouched.
func (x *Exec) valueField(l, r TV) (*Term, bool) {
	if l.T == nil {
		return nil, false
	}
	n := typeName(l.T)
	if !strings.HasPrefix(n, "sync.") && !strings.HasPrefix(n, "atomic.") && !strings.HasPrefix(n, "sync/atomic.") {
		return nil, false
	}
	if _, ok := l.V.(*Term); !ok {
		return nil, false
	}
	if _, ok := r.V.(nilVal); ok {
		return x.c.False(), true
	}
	if t, ok := r.V.(*Term); ok && t.Sort == SInt {
		if k, ok := t.int64(); ok && k == 0 {
			return x.c.Eq(l.V.(*Term), x.zero(l.T).(*Term)), true
		}
	}
	return nil, false
}

func (x *Exec) coerce(env *Env, a, b TV) (TV, TV) {
	fix := func(n, o TV) TV {
		if _, ok := n.V.(nilVal); ok {
			if _, ok := o.V.(nilVal); ok {
				return TV{x.c.NilRef(), nil}
			}
			switch v := o.V.(type) {
			case *Term:
				return TV{x.zeroTerm(v.Sort), o.T}
			case *PtrV:
				return TV{x.c.NilRef(), o.T}
			case *ClosureV:
				return TV{x.c.NilF(), o.T}
			case *SliceV:
				return TV{&SliceV{v.Elem, x.c.NilRef(), x.c.Int(0), x.c.Int(0)}, o.T}
			case BytesV:
				return TV{BytesV{x.c.True(), x.c.Str("")}, o.T}
			}
		}
		return n
	}
	a, b = fix(a, b), fix(b, a)
	// bytes against string
	if ba, ok := a.V.(BytesV); ok {
		if tb, ok := b.V.(*Term); ok && tb.Sort == SStr {
			return TV{ba.S, b.T}, b
		}
	}
	if bb, ok := b.V.(BytesV); ok {
		if ta, ok := a.V.(*Term); ok && ta.Sort == SStr {
			return a, TV{bb.S, a.T}
		}
	}
	// concrete against interface
	ta, oka := a.V.(*Term)
	tb, okb := b.V.(*Term)
	if oka && ta.Sort == SIface && !(okb && tb.Sort == SIface) && b.T != nil {
		return a, TV{x.box(env.st, b.T, b.V), a.T}
	}
	if okb && tb.Sort == SIface && !(oka && ta.Sort == SIface) && a.T != nil {
		return TV{x.box(env.st, a.T, a.V), b.T}, b
	}
	return a, b
}

func (x *Exec) evalBin(env *Env, e *ast.BinaryExpr) TV {
	c := x.c
	b := types.Typ[types.Bool]
	switch e.Op {
	case token.LAND:
		l := x.evalBool(env, e.X)
		if l.isFalse() {
			return TV{l, b}
		}
		return TV{c.And(l, x.evalBool(env, e.Y)), b}
	case token.LOR:
		l := x.evalBool(env, e.X)
		if l.isTrue() {
			return TV{l, b}
		}
		return TV{c.Or(l, x.evalBool(env, e.Y)), b}
	}
	l, r := x.eval(env, e.X), x.eval(env, e.Y)
	if e.Op == token.EQL || e.Op == token.NEQ {
		if t, ok := x.valueField(l, r); ok {
			if e.Op == token.NEQ {
				t = c.Not(t)
			}
			return TV{t, b}
		}
	}
	l, r = x.coerce(env, l, r)
	switch e.Op {
	case token.EQL, token.NEQ:
		var t *Term
		lb, ok1 := l.V.(BytesV)
		_, ok2 := r.V.(BytesV)
		rs, ok3 := r.V.(*SliceV)
		ls, ok4 := l.V.(*SliceV)
		switch {
		case ok1 && ok2 && r.V.(BytesV).Nil.isTrue():
			t = lb.Nil
		case ok3 && ok4 && rs.Arr == c.NilRef():
			t = c.Eq(ls.Arr, c.NilRef())
		default:
			t = x.valEq(env.st, l.V, r.V)
		}
		if e.Op == token.NEQ {
			t = c.Not(t)
		}
		return TV{t, b}
	}
	lt, rt := x.evTerm(env, l), x.evTerm(env, r)
	switch e.Op {
	case token.ADD:
		if lt.Sort == SStr {
			return TV{c.Cat(lt, rt), l.T}
		}
		return TV{c.Add(lt, rt), l.T}
	case token.SUB:
		return TV{c.Sub(lt, rt), l.T}
	case token.MUL:
		return TV{c.Mul(lt, rt), l.T}
	case token.LSS:
		return TV{c.Lt(lt, rt), b}
	case token.LEQ:
		return TV{c.Le(lt, rt), b}
	case token.GTR:
		return TV{c.Lt(rt, lt), b}
	case token.GEQ:
		return TV{c.Le(rt, lt), b}
	}
	unsup("specification operator %s", e.Op)
	return TV{}
}

// match reports whether an event is an instance of a declared event.
func (d *EventDef) match(e *Event) bool {
	if d.Kind != e.Kind {
		return false
	}
	if d.Kind == "mapget" && d.Target != "" && strings.HasSuffix(d.Target, "?") {
		return strings.TrimSuffix(d.Target, "?") == e.Name
	}
	return d.Target == "" || d.Target == e.Name || strings.HasSuffix(d.Target, "*") && strings.HasPrefix(e.Name, d.Target[:len(d.Target)-1])
}

func (d *EventDef) matchKey(k string) bool {
	i := strings.Index(k, ":")
	return d.match(&Event{Kind: k[:i], Name: k[i+1:]})
}

type hit struct {
	e *Event
	i int
	c *Term
}

// hits lists the events of the segment matching a definition with their condition; unknown reports earlier loop iterations.
func (x *Exec) hits(env *Env, v string, evName string, cond ast.Expr) (hs []hit, unknown bool) {
	d := x.eng.con.events[evName]
	if d == nil {
		unsup("specification: unknown event %s", evName)
	}
	for i, e := range env.seg {
		if e.Kind == "loophead" {
			for k := range e.Kinds {
				if d.matchKey(k) {
					unknown = true
				}
			}
			continue
		}
		if !d.match(e) {
			continue
		}
		t := x.c.True()
		if cond != nil {
			t = x.evalBool(env.with(v, TV{&EvRef{e, d, i}, nil}), cond)
		}
		if !t.isFalse() {
			hs = append(hs, hit{e, i, t})
		}
	}
	return
}

func identName(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		unsup("specification: a name is expected, not %s", exprStr(e))
	}
	return id.Name
}

func (x *Exec) evalCall(env *Env, e *ast.CallExpr) TV {
	c := x.c
	tb := types.Typ[types.Bool]
	ti := types.Typ[types.Int]
	ts := types.Typ[types.String]
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		unsup("specification call %s", exprStr(e))
	}
	arg := func(i int) TV { return x.eval(env, e.Args[i]) }
	str := func(i int) *Term {
		v := arg(i)
		if b, ok := v.V.(BytesV); ok {
			return b.S
		}
		return x.evTerm(env, v)
	}
	switch id.Name {
	case "imp":
		a := x.evalBool(env, e.Args[0])
		if a.isFalse() {
			return TV{c.True(), tb}
		}
		x.impHit[e] = true
		return TV{c.Imp(a, x.evalBool(env, e.Args[1])), tb}
	case "iff":
		return TV{c.Eq(x.evalBool(env, e.Args[0]), x.evalBool(env, e.Args[1])), tb}
	case "ite":
		k := x.evalBool(env, e.Args[0])
		if k.isTrue() {
			return arg(1)
		}
		if k.isFalse() {
			return arg(2)
		}
		a, b := x.coerce(env, arg(1), arg(2))
		la, lb := x.flatten(env.st, a.V), x.flatten(env.st, b.V)
		for i := range la {
			la[i] = c.Ite(k, la[i], lb[i])
		}
		return TV{x.unflatten(a.T, la), a.T}
	case "count", "exists", "forall", "none", "one":
		v := identName(e.Args[0])
		ev := identName(e.Args[1])
		var cond ast.Expr
		if len(e.Args) > 2 {
			cond = e.Args[2]
		}
		if id.Name == "forall" {
			d := x.eng.con.events[ev]
			if d == nil {
				unsup("specification: unknown event %s", ev)
			}
			var cs []*Term
			for i, ee := range env.seg {
				if ee.Kind == "loophead" {
					for k := range ee.Kinds {
						if d.matchKey(k) {
							cs = append(cs, c.FreshC("unknown", SBool))
							break
						}
					}
				}
				if d.match(ee) {
					cs = append(cs, x.evalBool(env.with(v, TV{&EvRef{ee, d, i}, nil}), cond))
				}
			}
			return TV{c.And(cs...), tb}
		}
		hs, unk := x.hits(env, v, ev, cond)
		if id.Name == "exists" {
			var os []*Term
			for _, h := range hs {
				os = append(os, h.c)
			}
			if unk {
				os = append(os, c.FreshC("unknown", SBool))
			}
			return TV{c.Or(os...), tb}
		}
		n := c.Int(0)
		for _, h := range hs {
			n = c.Add(n, c.Ite(h.c, c.Int(1), c.Int(0)))
		}
		if unk {
			u := c.FreshC("unknowncount", SInt)
			n = c.Add(n, u)
		}
		switch id.Name {
		case "none":
			if unk {
				return TV{c.FreshC("unknown", SBool), tb}
			}
			var os []*Term
			for _, h := range hs {
				os = append(os, c.Not(h.c))
			}
			return TV{c.And(os...), tb}
		case "one":
			return TV{c.Eq(n, c.Int(1)), tb}
		}
		return TV{n, ti}
	case "prior":
		// prior(f, EVENT, cond): cond, about this turn of the loop, for every such event before the loop
		if env.loop == nil {
			unsup("prior outside a turn clause")
		}
		d := x.eng.con.events[identName(e.Args[1])]
		if d == nil {
			unsup("specification: unknown event %s", identName(e.Args[1]))
		}
		var cs []*Term
		for _, ee := range env.st.trace[:env.loop.start] {
			if ee.Kind == "loophead" {
				for k := range ee.Kinds {
					if d.matchKey(k) {
						cs = append(cs, c.FreshC("unknown", SBool))
						break
					}
				}
			}
			if d.match(ee) {
				cs = append(cs, x.evalBool(env.with(identName(e.Args[0]), TV{&EvRef{ee, d, -1}, nil}), e.Args[2]))
			}
		}
		return TV{c.And(cs...), tb}
	case "before", "followed", "allbefore":
		// (a, EVA, condA, b, EVB, condB)
		va, ea, vb, eb := identName(e.Args[0]), identName(e.Args[1]), identName(e.Args[3]), identName(e.Args[4])
		da, db := x.eng.con.events[ea], x.eng.con.events[eb]
		if da == nil || db == nil {
			unsup("specification: unknown event %s or %s", ea, eb)
		}
		var out []*Term
		inLoop := func(ee *Event, d *EventDef) bool {
			if ee.Kind == "loophead" {
				for k := range ee.Kinds {
					if d.matchKey(k) {
						return true
					}
				}
			}
			return false
		}
		if id.Name == "allbefore" {
			// earlier turns summarised by a loop head: an A there must not come after any B
			for i, ee := range env.seg {
				la := inLoop(ee, da)
				if !la && !da.match(ee) {
					continue
				}
				for j, bb := range env.seg[:i+1] {
					if lb := inLoop(bb, db); (la || lb) && (lb || j < i && db.match(bb)) {
						out = append(out, c.FreshC("unknown", SBool))
					}
				}
			}
		}
		for _, ee := range env.seg {
			if ee.Kind != "loophead" || id.Name == "allbefore" {
				continue
			}
			for k := range ee.Kinds {
				if id.Name != "followed" && db.matchKey(k) || id.Name == "followed" && da.matchKey(k) {
					out = append(out, c.FreshC("unknown", SBool))
					break
				}
			}
		}
		if id.Name == "followed" {
			for i, a := range env.seg {
				if !da.match(a) {
					continue
				}
				env1 := env.with(va, TV{&EvRef{a, da, i}, nil})
				ca := x.evalBool(env1, e.Args[2])
				var os []*Term
				for j := i + 1; j < len(env.seg); j++ {
					if b := env.seg[j]; db.match(b) {
						os = append(os, x.evalBool(env1.with(vb, TV{&EvRef{b, db, j}, nil}), e.Args[5]))
					}
				}
				out = append(out, c.Imp(ca, c.Or(os...)))
			}
			return TV{c.And(out...), tb}
		}
		for j, b := range env.seg {
			if !db.match(b) {
				continue
			}
			env1 := env.with(vb, TV{&EvRef{b, db, j}, nil})
			cb := x.evalBool(env1, e.Args[5])
			if cb.isFalse() {
				continue
			}
			if id.Name == "before" {
				var os []*Term
				for i := 0; i < j; i++ {
					if a := env.seg[i]; da.match(a) {
						os = append(os, x.evalBool(env1.with(va, TV{&EvRef{a, da, i}, nil}), e.Args[2]))
					}
				}
				out = append(out, c.Imp(cb, c.Or(os...)))
			} else {
				for i := j + 1; i < len(env.seg); i++ {
					if a := env.seg[i]; da.match(a) {
						out = append(out, c.Not(c.And(cb, x.evalBool(env1.with(va, TV{&EvRef{a, da, i}, nil}), e.Args[2]))))
					}
				}
			}
		}
		return TV{c.And(out...), tb}
	case "each":
		lit := e.Args[0].(*ast.BasicLit)
		nm, _ := strconv.Unquote(lit.Value)
		var only []string
		for _, a := range e.Args[1:] {
			only = append(only, identName(a))
		}
		return TV{x.evalEach(env, nm, only), tb}
	case "last":
		n := *env
		for i := len(env.seg) - 1; i >= 0; i-- {
			if env.seg[i].Kind == "loophead" && env.seg[i].Text == "outer" {
				n.seg = env.seg[i+1:]
				break
			}
		}
		return x.eval(&n, e.Args[0])
	case "first":
		n := *env
		for i := 0; i < len(env.seg); i++ {
			if env.seg[i].Kind == "loophead" {
				n.seg = env.seg[:i]
				break
			}
		}
		return x.eval(&n, e.Args[0])
	case "sofar":
		// events before the one the clause is about
		n := *env
		r, ok := env.vars["this"]
		if !ok {
			unsup("sofar outside an on clause")
		}
		ev := r.V.(*EvRef)
		for i, ee := range env.seg {
			if ee == ev.e {
				n.seg = env.seg[:i]
				break
			}
		}
		return x.eval(&n, e.Args[0])
	case "old":
		n := *env
		n.heap = x.entry.heap
		n.objs = x.entry.objs
		return x.eval(&n, e.Args[0])
	case "at":
		r, ok := arg(0).V.(*EvRef)
		if !ok {
			unsup("at needs an event")
		}
		n := *env
		n.heap = r.e.Heap
		return x.eval(&n, e.Args[1])
	case "has":
		m, k := arg(0), arg(1)
		mt := x.evTerm(env, m)
		return TV{c.And(c.Not(c.Eq(mt, c.NilRef())), x.mapHasIn(env.heap, m.T, mt, x.evTerm(env, k))), tb}
	case "len":
		v := arg(0)
		switch w := v.V.(type) {
		case BytesV:
			return TV{c.Len(w.S), ti}
		case *SliceV:
			return TV{w.Len, ti}
		case *Term:
			if w.Sort == SStr {
				return TV{c.Len(w), ti}
			}
			return TV{c.Ite(c.Eq(w, c.NilRef()), c.Int(0), x.mapLenIn(env.heap, v.T, w)), ti}
		}
	case "errtext":
		return TV{c.App("errtext", SStr, x.evTerm(env, arg(0))), ts}
	case "nolocks":
		r := arg(0).V.(*EvRef)
		return TV{c.Bool(len(r.e.Held) == 0), tb}
	case "holds":
		// holds(ev, "Type.mutex", owner)
		r := arg(0).V.(*EvRef)
		nm, _ := strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
		var os []*Term
		for _, h := range r.e.Held {
			if h.Name == nm {
				if len(e.Args) > 2 {
					if o := x.lockOwner(env.st, h.Name, h.T); o != nil {
						os = append(os, c.Eq(o, x.evTerm(env, arg(2))))
					}
				} else {
					os = append(os, c.True())
				}
			}
		}
		return TV{c.Or(os...), tb}
	case "sync":
		r := arg(0).V.(*EvRef)
		return TV{c.Bool(!r.e.Async), tb}
	case "with":
		v := arg(0)
		sv := v.V.(*StructV)
		f := append([]Val{}, sv.F...)
		for i := 1; i+1 < len(e.Args); i += 2 {
			ix := fieldIdx(sv.T, identName(e.Args[i]))
			if ix < 0 {
				unsup("with: no field %s", identName(e.Args[i]))
			}
			nv := arg(i + 1)
			ft := sv.T.Underlying().(*types.Struct).Field(ix).Type()
			if _, ok := nv.V.(nilVal); ok {
				nv = TV{x.zero(ft), ft}
			}
			f[ix] = nv.V
		}
		return TV{&StructV{sv.T, f}, v.T}
	case "zero":
		// zero("Type")
		nm, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
		t := x.eng.typeByName(nm)
		if t == nil {
			unsup("specification: unknown type %s", nm)
		}
		return TV{x.zero(t), t}
	case "same":
		// field-wise equality of structs, bytes by content
		a, b := x.coerce(env, arg(0), arg(1))
		if sa, ok := a.V.(*StructV); ok {
			if sb, ok := b.V.(*StructV); !ok || typeName(sa.T) != typeName(sb.T) {
				return TV{c.False(), tb}
			}
		} else if _, ok := b.V.(*StructV); ok {
			return TV{c.False(), tb}
		}
		return TV{x.valEq(env.st, a.V, b.V), tb}
	case "sameExcept":
		a, b := arg(0), arg(1)
		sa, sb := a.V.(*StructV), b.V.(*StructV)
		skip := map[string]bool{}
		for _, s := range e.Args[2:] {
			skip[identName(s)] = true
		}
		var cs []*Term
		s := sa.T.Underlying().(*types.Struct)
		for i := range sa.F {
			if !skip[s.Field(i).Name()] {
				cs = append(cs, x.valEq(env.st, sa.F[i], sb.F[i]))
			}
		}
		return TV{c.And(cs...), tb}
	case "complete": // the fields declared never nil are set
		v := x.eval(env, e.Args[0])
		p, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			unsup("complete of %s", v.T)
		}
		str, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			unsup("complete of %s", v.T)
		}
		r := c.True()
		for i := 0; i < str.NumFields(); i++ {
			if !x.eng.con.nonnil[typeName(p.Elem())+"."+str.Field(i).Name()] {
				continue
			}
			q := *x.ptrOf(env.st, v.V, v.T)
			q.Path = append(append([]int{}, q.Path...), i)
			if isOpaque(str.Field(i).Type()) {
				continue
			}
			f := x.loadRaw(env.st, env.heap, env.objs, &q)
			l, n := x.coerce(env, TV{f, str.Field(i).Type()}, TV{nilVal{}, nil})
			r = c.And(r, c.Not(x.valEq(env.st, l.V, n.V)))
		}
		return TV{r, tb}
	case "isfresh":
		t := x.evTerm(env, arg(0))
		if isBox(t) && len(t.Args) == 1 {
			t = t.Args[0]
		}
		return TV{c.Bool(t.Fresh || env.st.ownedT[t]), tb}
	case "known":
		// the function value is this closure/function of the repository
		return TV{c.Bool(false), tb}
	case "contains":
		return TV{x.contains(env.st, str(0), str(1)), tb}
	case "splits":
		// splits(s, sep, n): s has at least n fields separated by sep
		n, err := strconv.Atoi(e.Args[2].(*ast.BasicLit).Value)
		if err != nil {
			unsup("splits needs a number")
		}
		t, sep := str(0), str(1)
		r := c.True()
		for i := 1; i < n; i++ {
			r = c.And(r, x.contains(env.st, t, sep))
			t = c.App("stail", SStr, t, sep)
		}
		return TV{r, tb}
	case "dec":
		return TV{c.App("dec", SStr, x.evTerm(env, arg(0))), ts}
	case "hasprefix":
		return TV{c.Prefix(str(0), str(1)), tb}
	case "str":
		return TV{str(0), ts}
	case "chr":
		return TV{x.byteStr(env.st, x.evTerm(env, arg(0))), ts}
	case "replaceall":
		return TV{x.replaceAll(env.st, str(0), str(1), str(2)), ts}
	case "nilbytes":
		return TV{arg(0).V.(BytesV).Nil, tb}
	case "typeis":
		t := x.evTerm(env, arg(0))
		nm, _ := strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
		if isBox(t) {
			return TV{c.Bool(t.Name == "box:"+nm), tb}
		}
		return TV{c.Eq(c.App("ityp", SInt, t), c.Int(int64(c.TypeID(nm)))), tb}
	case "unbox":
		t := x.evTerm(env, arg(0))
		nm, _ := strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
		dt := x.eng.typeByName(nm)
		if dt == nil {
			unsup("specification: unknown type %s", nm)
		}
		return TV{x.unboxVal(env.st, t, dt), dt}
	case "box":
		// box(v): the value as an interface value
		a := arg(0)
		return TV{x.box(env.st, a.T, a.V), types.NewInterfaceType(nil, nil)}
	case "pure":
		// pure("name", args...) : the result of a pure external call
		nm, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
		rt := x.eng.pureType(nm)
		if rt == nil {
			unsup("specification: unknown pure function %s", nm)
		}
		var as []Val
		for i := 1; i < len(e.Args); i++ {
			as = append(as, arg(i).V)
		}
		return TV{x.pureApp(env.st, nm, rt, as), rt}
	case "waits":
		// waits(w, ch...): the blocking operation listens on all the given channels
		r := arg(0).V.(*EvRef)
		var cs []*Term
		for i := 1; i < len(e.Args); i++ {
			ch := x.evTerm(env, arg(i))
			var os []*Term
			for _, a := range r.e.Args {
				os = append(os, c.Eq(x.term(env.st, a), ch))
			}
			cs = append(cs, c.Or(os...))
		}
		return TV{c.And(cs...), tb}
	case "cur", "next", "initial":
		// the loop-carried value of a type in this turn, in the next one, on entry
		ts, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
		if env.loop == nil {
			unsup("specification: %s outside a turn", id.Name)
		}
		l := env.loop
		var found *ssa.Phi
		for _, p := range x.loopPhis(l.header) {
			if typeName(p.Type()) == ts {
				if found != nil {
					unsup("specification: several loop variables of type %s", ts)
				}
				found = p
			}
		}
		if found == nil {
			unsup("specification: no loop variable of type %s", ts)
		}
		depth := len(l.head.frames) - 1
		v := l.entryPhi[found]
		switch id.Name {
		case "cur":
			v = l.head.frames[depth].env[found]
		case "next":
			v = env.st.frames[depth].env[found]
		}
		return TV{v, found.Type()}
	case "rundown":
		// rundown("T"): a loop variable of the number type T, if the loop has one, gets smaller
		// in every turn and the loop does not go on once it is not positive
		ts, _ := strconv.Unquote(e.Args[0].(*ast.BasicLit).Value)
		if env.loop == nil {
			unsup("specification: %s outside a turn", id.Name)
		}
		var cs []*Term
		depth := len(env.loop.head.frames) - 1
		for _, p := range x.loopPhis(env.loop.header) {
			if typeName(p.Type()) == ts {
				a := x.term(env.st, env.loop.head.frames[depth].env[p])
				b := x.term(env.st, env.st.frames[depth].env[p])
				cs = append(cs, c.And(c.Lt(b, a), c.Lt(c.Int(0), b)))
			}
		}
		return TV{c.And(cs...), tb}
	case "untouched":
		// untouched(slice, i): this turn changed no element of the slice but the i-th
		a, ok1 := arg(0).V.(*SliceV)
		if !ok1 || env.loop == nil {
			unsup("untouched outside a turn")
		}
		at := c.Add(a.Off, x.evTerm(env, arg(1)))
		var cs []*Term
		names := leafNames(a.Elem)
		for i, s := range leafSorts(a.Elem) {
			k := "E:" + typeName(a.Elem) + names[i]
			h0 := c.Select(heapGetIn(x, env.loop.head.heap, k, arr(SRef, arr(SInt, s))), a.Arr)
			h1 := c.Select(heapGetIn(x, env.heap, k, arr(SRef, arr(SInt, s))), a.Arr)
			cs = append(cs, c.Eq(h1, c.Store(h0, at, c.Select(h1, at))))
		}
		return TV{c.And(cs...), tb}
	case "some":
		// some(i, n, cond): cond for some i with 0 <= i < n
		c.nfr++
		iv := c.mk("var", fmt.Sprintf("i!%d", c.nfr), SInt)
		cond := x.evalBool(env.with(identName(e.Args[0]), TV{iv, ti}), e.Args[2])
		n := x.evTerm(env, arg(1))
		return TV{c.Not(c.mk("forall", "", SBool, iv, c.Not(c.And(c.Le(c.Int(0), iv), c.Lt(iv, n), cond)))), tb}
	case "runs":
		// runs(f, a, b, cond): every call of the function value f(a, b) makes cond true of its own events
		return TV{c.Bool(x.evalRuns(env, arg(0), e.Args[1:])), tb}
	case "only":
		// only(g, EVENT, expr): expr for the first event of the kind
		ev := identName(e.Args[1])
		d := x.eng.con.events[ev]
		if d == nil {
			unsup("specification: unknown event %s", ev)
		}
		for i, ee := range env.seg {
			if ee.Kind == "loophead" {
				for k := range ee.Kinds {
					if d.matchKey(k) {
						unsup("specification: only(%s) in a loop", ev)
					}
				}
			}
			if d.match(ee) {
				return x.eval(env.with(identName(e.Args[0]), TV{&EvRef{ee, d, i}, nil}), e.Args[2])
			}
		}
		unsup("specification: no %s event", ev)
	case "extends":
		// the first slice is the second one and one more element
		a, ok1 := arg(0).V.(*SliceV)
		b, ok2 := arg(1).V.(*SliceV)
		if !ok1 || !ok2 {
			unsup("extends of non-slices")
		}
		cs := []*Term{c.Eq(a.Off, b.Off)}
		at := c.Add(b.Off, b.Len)
		names := leafNames(a.Elem)
		for i, s := range leafSorts(a.Elem) {
			h := heapGetIn(x, env.heap, "E:"+typeName(a.Elem)+names[i], arr(SRef, arr(SInt, s)))
			na := c.Select(h, a.Arr)
			cs = append(cs, c.Eq(na, c.Store(c.Select(h, b.Arr), at, c.Select(na, at))))
		}
		return TV{c.And(c.Eq(a.Len, c.Add(b.Len, c.Int(1))), c.Or(c.Eq(b.Len, c.Int(0)), c.And(cs...))), tb}
	case "panicked":
		return TV{c.Bool(env.st.status == "panic"), tb}
	case "instant":
		// instant(t): the point in time of a time.Time (of the first result of a call)
		v := arg(0).V
		if tv, ok := v.(TupleV); ok {
			v = tv[0]
		}
		return TV{x.instant(env.st, v), types.Typ[types.Int64]}
	case "nth":
		// nth(x, n): x is the n-th event of its kind
		r, ok := arg(0).V.(*EvRef)
		n, err := strconv.Atoi(e.Args[1].(*ast.BasicLit).Value)
		if !ok || err != nil {
			unsup("nth needs an event and a number")
		}
		for i, ee := range env.seg {
			if ee == r.e {
				return TV{c.Bool(n == 1), tb}
			}
			if ee.Kind == "loophead" {
				for k := range ee.Kinds {
					if r.def.matchKey(k) {
						return TV{c.Bool(false), tb}
					}
				}
			}
			_ = i
			if r.def.match(ee) {
				n--
			}
		}
		return TV{c.Bool(false), tb}
	case "apart":
		// the two slices do not share their elements
		a, ok1 := arg(0).V.(*SliceV)
		b, ok2 := arg(1).V.(*SliceV)
		if !ok1 || !ok2 {
			unsup("apart of non-slices")
		}
		return TV{c.Not(c.Eq(a.Arr, b.Arr)), tb}
	case "sameslice":
		// same elements in order, same length
		a, ok1 := arg(0).V.(*SliceV)
		b, ok2 := arg(1).V.(*SliceV)
		if !ok1 || !ok2 {
			unsup("sameslice of non-slices")
		}
		if a.Arr == b.Arr {
			return TV{c.And(c.Eq(a.Off, b.Off), c.Eq(a.Len, b.Len)), tb}
		}
		cs := []*Term{c.Eq(a.Len, b.Len), c.Eq(a.Off, b.Off)}
		names := leafNames(a.Elem)
		for i, s := range leafSorts(a.Elem) {
			h := heapGetIn(x, env.heap, "E:"+typeName(a.Elem)+names[i], arr(SRef, arr(SInt, s)))
			cs = append(cs, c.Eq(c.Select(h, a.Arr), c.Select(h, b.Arr)))
		}
		return TV{c.And(cs...), tb}
	case "all":
		// all(k, "sort"/type string, cond): universally quantified over a fresh constant
		k := identName(e.Args[0])
		nm, _ := strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
		var t types.Type
		switch nm {
		case "string":
			t = ts
		case "int":
			t = ti
		default:
			t = x.eng.typeByName(nm)
		}
		if t == nil {
			unsup("all: type %s", nm)
		}
		return x.eval(env.with(k, TV{c.FreshC("any_"+k, leafSorts(t)[0]), t}), e.Args[2])
	case "implements":
		t := x.evTerm(env, arg(0))
		nm, _ := strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
		return TV{c.App("impl:"+nm, SBool, t), tb}
	case "fnof":
		// fnof(f, "name"): f is the given function of the repository (possibly a closure or bound method)
		nm, _ := strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
		switch v := arg(0).V.(type) {
		case *ClosureV:
			return TV{c.Bool(strings.HasPrefix(x.eng.fnName(v.Fn), nm)), tb}
		case *Term:
			if cl := c.fns[v]; cl != nil {
				return TV{c.Bool(strings.HasPrefix(x.eng.fnName(cl.Fn), nm)), tb}
			}
		}
		return TV{c.False(), tb}
	}
	if m, ok := x.eng.con.defs[id.Name]; ok {
		if len(m.params) != len(e.Args) {
			unsup("specification: %s takes %d arguments", id.Name, len(m.params))
		}
		n := *env
		n.depth++
		if n.depth > 30 {
			unsup("specification: recursive definition %s", id.Name)
		}
		n.vars = map[string]TV{}
		if t, ok := env.vars["this"]; ok {
			n.vars["this"] = t
		}
		for i, p := range m.params {
			if aid, ok := e.Args[i].(*ast.Ident); ok && x.eng.con.events[aid.Name] != nil {
				if _, bound := env.vars[aid.Name]; !bound {
					continue
				}
			}
			n.vars[p] = x.eval(env, e.Args[i])
		}
		return x.eval(&n, m.expr)
	}
	unsup("specification: unknown function %s", id.Name)
	return TV{}
}

// evalRuns executes a function value on unknown arguments and decides a condition about each of its paths.
func (x *Exec) evalRuns(env *Env, f TV, args []ast.Expr) bool {
	var cl *ClosureV
	switch v := f.V.(type) {
	case *ClosureV:
		cl = v
	case *Term:
		cl = x.c.fns[v]
	}
	if cl == nil {
		return false
	}
	names, cond := args[:len(args)-1], args[len(args)-1]
	if len(names) != len(cl.Fn.Params) || len(cl.Fn.Blocks) == 0 {
		return false
	}
	st := env.st.clone()
	st.held = nil
	st.status = ""
	if st.ghost == nil {
		st.ghost = map[string]TV{}
	}
	start := len(st.trace)
	vars := map[string]TV{}
	for k, v := range env.vars {
		vars[k] = v
	}
	var as []Val
	for i, p := range cl.Fn.Params {
		v := x.fresh(st, p.Name(), p.Type())
		if t, ok := v.(*Term); ok && (t.Sort == SRef || t.Sort == SIface || t.Sort == SFunc) {
			st.assume(x.c.Not(x.c.Eq(t, x.zeroTerm(t.Sort))))
		}
		as = append(as, v)
		vars[identName(names[i])] = TV{v, p.Type()}
	}
	var done []*State
	fr := x.enter(st, cl.Fn, cl.Bind, as, nil, token.NoPos)
	fr.cont = func(x *Exec, s *State, ret Val) {
		s.ret = ret
		s.status = "ran"
		done = append(done, s)
	}
	ok := true
	x.dry++
	base := len(x.work)
	x.push(st)
	for len(x.work) > base {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runPath(s)
		if s.status == "panic" && !s.dead {
			ok = false
		}
	}
	x.dry--
	for _, s := range done {
		if s.dead {
			continue
		}
		e2 := x.specEnv(s)
		for k, v := range vars {
			e2.vars[k] = v
		}
		if s.ret != nil {
			rt := sigResult(cl.Fn.Signature)
			e2.vars["res"] = TV{s.ret, rt}
			if tv, isT := s.ret.(TupleV); isT {
				for i, r := range tv {
					e2.vars[fmt.Sprintf("res%d", i)] = TV{r, rt.(*types.Tuple).At(i).Type()}
				}
			}
		}
		e2.seg = s.trace[start:]
		if x.spawnedIn(e2.seg, cond) {
			return false
		}
		t, good := x.tryEval(e2, cond)
		if !good || !x.provesAny(s, t.V.(*Term)) {
			if verbose {
				fmt.Println("   runs:", good, t.V)
				for _, ev := range e2.seg {
					fmt.Println("     |", x.eventStr(s, ev))
				}
			}
			ok = false
		}
	}
	return ok && len(done) > 0
}
