package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var verbose = os.Getenv("GVC_V") != ""

func (x *Exec) emit(st *State, e *Event) *Event {
	e.Held = append([]Held{}, st.held...)
	e.Async = st.async > 0
	e.Heap = nil
	e.NPC = len(st.pc)
	if len(st.frames) > 0 {
		e.Pos = x.curPos(st, e.Pos)
	}
	// snapshot for heap expressions evaluated at the event
	h := make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		h[k] = v
	}
	e.Heap = h
	st.trace = append(st.trace, e)
	x.nevents++
	if x.root != nil && !x.inits && (e.Kind == "ext" || e.Kind == "icall" || e.Kind == "dyn") {
		for n, fs := range x.eng.con.extfacts {
			if d := x.eng.con.events[n]; d.match(e) {
				for _, f := range fs {
					env := x.specEnv(st)
					env.heap = e.Heap
					x.bindEvent(env, d, e, len(st.trace)-1)
					if tv, ok := x.tryEval(env, f.expr); ok {
						if t, ok := tv.V.(*Term); ok {
							st.assume(t)
						}
					}
				}
			}
		}
	}
	if x.dry == 0 && x.root != nil && !x.inits {
		if e.Kind == "wait" && e.Name != "poll" {
			x.userCall(st, "blocking operation", e.Name, e.Pos)
		}
		if ws := x.eng.con.callers[e.Name]; ws != nil && (e.Kind == "call" || e.Kind == "icall") && len(st.frames) > 0 && !x.root.Lemma {
			x.obligeFrame(st, "frame", e.Name, e.Name+" is called in "+strings.Join(ws, ", ")+" only", x.c.Bool(x.eng.con.onStack(ws, st, x)), e.Pos)
		}
		x.checkOn(st, e)
		x.checkSpawned(st, e)
	}
	return e
}

func (x *Exec) curPos(st *State, p token.Pos) token.Pos {
	if p != token.NoPos {
		return p
	}
	f := st.top()
	if f.block != nil && f.pc > 0 && f.pc <= len(f.block.Instrs) {
		if q := f.block.Instrs[f.pc-1].Pos(); q != token.NoPos {
			return q
		}
	}
	return f.fn.Pos()
}

func (x *Exec) posStr(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	q := x.eng.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, x.eng.repo+"/"), q.Line)
}

// ---- solver glue ----

func (x *Exec) sat(st *State, extra ...*Term) string {
	as := append(append([]*Term{}, st.pc...), extra...)
	for _, e := range extra {
		if e.isFalse() {
			return "unsat"
		}
		if st.pcset[x.c.Not(e)] {
			return "unsat"
		}
	}
	r, _ := x.s.Check(x.c, as, nil)
	return r
}

// proves reports whether the path condition entails t.
func (x *Exec) proves(st *State, t *Term) bool {
	if t.isTrue() || st.pcset[t] {
		return true
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			if !x.proves(st, a) {
				return false
			}
		}
		return true
	}
	if t.isFalse() {
		return st.dead || x.sat(st) == "unsat"
	}
	return x.sat(st, x.c.Not(t)) == "unsat"
}

func (x *Exec) decide(st *State, t *Term) (canTrue, canFalse bool) {
	if t.isTrue() || st.pcset[t] {
		return true, false
	}
	if t.isFalse() || st.pcset[x.c.Not(t)] {
		return false, true
	}
	canTrue = x.sat(st, t) != "unsat"
	canFalse = true
	if canTrue {
		canFalse = x.sat(st, x.c.Not(t)) != "unsat"
	}
	return
}

// fork splits a state on a condition; the continuation runs on each feasible side.
func (x *Exec) fork(st *State, t *Term, yes, no func(*State)) {
	ct, cf := x.decide(st, t)
	if ct && cf {
		n := st.clone()
		n.assume(x.c.Not(t))
		st.assume(t)
		no(n)
		yes(st)
		x.push(n)
		return
	}
	if ct {
		st.assume(t)
		yes(st)
	} else {
		st.assume(x.c.Not(t))
		no(st)
	}
}

func (x *Exec) push(st *State) { x.work = append(x.work, st) }

// ---- values ----

func (x *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.c.Bool(constant.BoolVal(k.Value))
		case u.Info()&types.IsString != 0:
			return x.c.Str(constant.StringVal(k.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(k.Value)
			n, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				unsup("int const %s", k)
			}
			return x.c.BigInt(n)
		}
		return x.c.Const("const:"+k.Value.ExactString(), SAny)
	}
	if isByteSlice(t) {
		return BytesV{x.c.False(), x.c.Str(constant.StringVal(k.Value))}
	}
	unsup("const %s", k)
	return nil
}

func (x *Exec) get(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &ClosureV{Fn: v}
	case *ssa.Global:
		return &PtrV{Glob: x.eng.globName(v), T: v.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return v
	}
	r, ok := st.top().env[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), st.top().fn)
	}
	return r
}

func (x *Exec) t(st *State, v ssa.Value) *Term { return x.term(st, x.get(st, v)) }

func (x *Exec) set(st *State, v ssa.Value, r Val) { st.top().env[v] = r }

// nonNil checks a dereference.
func (x *Exec) nonNil(st *State, p *PtrV, pos token.Pos) {
	if p.Ref == nil {
		if p.Slice != nil {
			return
		}
		return
	}
	x.nonNilTerm(st, p.Ref, pos, "nil dereference")
}

func (x *Exec) nonNilTerm(st *State, r *Term, pos token.Pos, what string) {
	if r.Fresh || r.Op == "app" && strings.HasPrefix(r.Name, "fld:") || strings.HasPrefix(r.Name, "glob:") {
		return
	}
	cond := x.c.Not(x.c.Eq(r, x.zeroTerm(r.Sort)))
	if cond.isTrue() || st.pcset[cond] {
		return
	}
	x.oblige(st, "safe", "no "+what, cond, pos)
	st.assume(cond)
}

func (x *Exec) zeroTerm(s string) *Term {
	switch s {
	case SRef:
		return x.c.NilRef()
	case SIface:
		return x.c.NilI()
	case SFunc:
		return x.c.NilF()
	}
	panic("zeroTerm " + s)
}

func (x *Exec) load(st *State, v Val, pt types.Type, pos token.Pos) Val {
	p := x.ptrOf(st, v, pt)
	x.nonNil(st, p, pos)
	x.access(st, p, false, pos)
	key := x.fieldKey(p)
	if p.Obj == 0 && p.Glob == "" && p.Slice == nil {
		cls := x.eng.con.class(key)
		if (cls == "volatile" || cls == "" && x.eng.con.confined[key] == nil && key != "" && isRepoTypeName(p.T)) && x.isShared(st, p.Ref) {
			return x.fresh(st, key, x.pathType(p.T, p.Path))
		}
		r := x.loadRaw(st, st.heap, st.objs, p)
		x.assumeWF(st, r, x.pathType(p.T, p.Path))
		if x.eng.con.nonnil[key] && len(p.Path) == 1 {
			if t, ok := r.(*Term); ok && (t.Sort == SRef || t.Sort == SIface || t.Sort == SFunc) {
				st.assume(x.c.Not(x.c.Eq(t, x.zeroTerm(t.Sort))))
			}
		}
		if x.eng.con.traced[key] && x.isShared(st, p.Ref) {
			if !st.held2(p) {
				r = x.fresh(st, key, x.pathType(p.T, p.Path))
			}
			x.emit(st, &Event{Kind: "get", Name: key, Args: []Val{p.Ref}, ArgT: []types.Type{types.NewPointer(p.T)}, Res: r, ResT: x.pathType(p.T, p.Path), Pos: pos})
		}
		return r
	}
	r := x.loadRaw(st, st.heap, st.objs, p)
	x.assumeWF(st, r, x.pathType(p.T, p.Path))
	if t, ok := r.(*Term); ok && p.Glob != "" && len(p.Path) == 0 && x.eng.con.nonnil[p.Glob] {
		st.assume(x.c.Not(x.c.Eq(t, x.zeroTerm(t.Sort))))
	}
	if t, ok := r.(*Term); ok && p.Slice != nil && t.Op == "select" && t.Args[0].Op == "select" && t.Args[0].Args[1] == p.Slice.Arr {
		for _, en := range st.enums {
			// an element of a snapshot is a value of the map
			if !en.Keys && en.Slice.Arr == p.Slice.Arr {
				kt, _ := mapKV(en.MT)
				x.mapInvAssume(st, en.MT, en.Map, x.term(st, x.fresh(st, "key", kt)), t)
			}
		}
	}
	if p.Slice != nil && x.root != nil && x.entry != nil {
		for _, d := range x.root.EachReq {
			x.eachRequired(st, d, p)
		}
	}
	if p.Slice != nil && p.Slice.Arr.Op == "const" && strings.HasPrefix(p.Slice.Arr.Name, "H:G:") && x.eng.con.nonnil[strings.TrimSuffix(p.Slice.Arr.Name[4:], "#arr")+"[]"] {
		if t, ok := r.(*Term); ok && (t.Sort == SRef || t.Sort == SIface || t.Sort == SFunc) {
			st.assume(x.c.Not(x.c.Eq(t, x.zeroTerm(t.Sort))))
		}
	}
	return r
}

// eachRequired: what the contract requires of every element of a slice, of the element read.
func (x *Exec) eachRequired(st *State, d *EachDef, p *PtrV) {
	env := x.specEnv(st)
	env.heap, env.objs = x.entry.heap, x.entry.objs
	coll, ok := x.tryEval(env, d.Coll)
	if !ok {
		return
	}
	cv, ok := coll.V.(*SliceV)
	if !ok || cv.Arr != p.Slice.Arr {
		return
	}
	at := p.Idx
	if p.Slice.Off != cv.Off {
		at = x.c.Sub(x.c.Add(p.Slice.Off, p.Idx), cv.Off)
	}
	el := x.loadRaw(st, x.entry.heap, x.entry.objs, &PtrV{Slice: cv, Idx: at, T: cv.Elem})
	env.vars[d.V] = TV{el, cv.Elem}
	st.assume(x.c.Imp(x.c.And(x.c.Le(x.c.Int(0), at), x.c.Lt(at, cv.Len)), x.evalBool(env, d.Expr)))
}

func (st *State) held2(p *PtrV) bool { return true }

func (x *Exec) store(st *State, v Val, pt types.Type, val Val, pos token.Pos) {
	p := x.ptrOf(st, v, pt)
	x.nonNil(st, p, pos)
	x.access(st, p, true, pos)
	key := x.fieldKey(p)
	if p.Obj == 0 && p.Glob == "" && p.Slice == nil && x.isShared(st, p.Ref) {
		cls := x.eng.con.class(key)
		if cls == "frozen" && isRepoTypeName(p.T) && key != "" {
			if !x.eng.con.mayWrite(key, x.root, st) {
				x.obligeFrame(st, "frame", key, "store to "+key+" of a published object", x.c.False(), pos)
			}
		}
		if vt, ok := val.(*Term); ok && x.eng.con.nonnil[key] && (vt.Sort == SRef || vt.Sort == SIface || vt.Sort == SFunc) {
			x.obligeFrame(st, "inv", key, key+" is never nil", x.c.Not(x.c.Eq(vt, x.zeroTerm(vt.Sort))), pos)
		}
		if x.eng.con.traced[key] {
			x.emit(st, &Event{Kind: "set", Name: key, Args: []Val{p.Ref, val}, ArgT: []types.Type{types.NewPointer(p.T), x.pathType(p.T, p.Path)}, Pos: pos})
		}
	}
	if p.Glob != "" && !x.inits {
		if _, ok := x.globs[p.Glob]; ok {
			unsup("store to constant global %s", p.Glob)
		}
		x.emit(st, &Event{Kind: "set", Name: "global." + p.Glob, Args: []Val{val}, ArgT: []types.Type{x.pathType(p.T, p.Path)}, Pos: pos})
	}
	if p.Glob != "" && x.inits {
		if len(p.Path) == 0 {
			x.globs[p.Glob] = val
		} else {
			cur, ok := x.globs[p.Glob]
			if !ok {
				cur = x.zero(p.T)
			}
			x.globs[p.Glob] = setPath(cur, p.Path, val)
		}
		return
	}
	x.storeRaw(st, p, val)
}

func isRepoTypeName(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && isRepoPkg(n.Obj().Pkg())
}

// ---- main loop ----

const maxSteps = 400000

// runAll drains the work list down to base.
func (x *Exec) runAll(base int) {
	for len(x.work) > base {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runPath(st)
	}
}

func (x *Exec) runPath(st *State) {
	for st.status == "" && !st.dead {
		x.steps++
		if x.steps > maxSteps {
			unsup("too many steps")
		}
		x.step(st)
	}
	if st.dead {
		return
	}
	if st.status == "return" || st.status == "panic" {
		if x.dry == 0 && !x.inits {
			x.finish(st)
		}
	}
}

func (x *Exec) jump(st *State, to *ssa.BasicBlock) {
	f := st.top()
	from := f.block
	// leave loops
	for len(f.loops) > 0 {
		l := f.loops[len(f.loops)-1]
		if l.blocks[to] {
			break
		}
		f.loops = f.loops[:len(f.loops)-1]
		if l.dry {
			st.status = "exit"
			return
		}
		if l.unrolled == 0 {
			x.loopExit(st, l, from)
		}
	}
	f.prev = from
	f.block = to
	f.pc = 0
	// header?
	if lp := x.eng.loopOf(f.fn, to); lp != nil {
		if n := len(f.loops); n > 0 && f.loops[n-1].header == to {
			l := f.loops[n-1]
			if l.unrolled > 0 {
				l2 := *l
				l2.unrolled++
				if l2.unrolled > 70 {
					unsup("unrolled loop too long")
				}
				f.loops = append(append([]*LoopRec{}, f.loops[:n-1]...), &l2)
				x.evalPhis(st)
				return
			}
			x.backEdge(st, l)
			return
		}
		x.enterLoop(st, lp)
		return
	}
	x.evalPhis(st)
}

func (x *Exec) evalPhis(st *State) {
	f := st.top()
	idx := -1
	for i, p := range f.block.Preds {
		if p == f.prev {
			idx = i
		}
	}
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var vals []pv
	n := 0
	for _, in := range f.block.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, pv{p, x.get(st, p.Edges[idx])})
		n++
	}
	for _, v := range vals {
		f.env[v.p] = v.v
	}
	f.pc = n
}

func (x *Exec) step(st *State) {
	f := st.top()
	in := f.block.Instrs[f.pc]
	f.pc++
	c := x.c
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		if isOpaque(et) && !isBuilder(et) {
			r := c.FreshRef(typeName(et))
			x.set(st, in, r)
			if isBuf(et) {
				x.bufSet(st, r, c.Str(""))
			}
			return
		}
		x.set(st, in, x.newObj(st, et, x.zero(et)))
	case *ssa.Phi:
		unsup("stray phi")
	case *ssa.UnOp:
		x.unop(st, in)
	case *ssa.BinOp:
		x.set(st, in, x.binop(st, in.Op, x.get(st, in.X), x.get(st, in.Y), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.ChangeType:
		v := x.get(st, in.X)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{in.Type(), sv.F}
		}
		x.set(st, in, v)
	case *ssa.ChangeInterface:
		x.set(st, in, x.get(st, in.X))
	case *ssa.Convert:
		x.set(st, in, x.convert(st, x.get(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		x.set(st, in, x.box(st, in.X.Type(), x.get(st, in.X)))
	case *ssa.TypeAssert:
		x.typeAssert(st, in)
	case *ssa.Extract:
		x.set(st, in, x.get(st, in.Tuple).(TupleV)[in.Index])
	case *ssa.Field:
		v := x.get(st, in.X)
		if sv, ok := v.(*StructV); ok {
			x.set(st, in, sv.F[in.Field])
			return
		}
		// field of an opaque value
		ft := in.Type()
		fname := in.X.Type().Underlying().(*types.Struct).Field(in.Field).Name()
		x.set(st, in, x.opaqueField(st, x.term(st, v), in.X.Type(), fname, ft))
	case *ssa.FieldAddr:
		p := x.ptrOf(st, x.get(st, in.X), in.X.Type())
		x.nonNil(st, p, in.Pos())
		q := *p
		q.Path = append(append([]int{}, p.Path...), in.Field)
		x.set(st, in, &q)
	case *ssa.Index:
		v := x.get(st, in.X)
		i := x.t(st, in.Index)
		switch v := v.(type) {
		case *ArrV:
			n, ok := i.int64()
			if !ok {
				unsup("symbolic array index")
			}
			x.set(st, in, v.E[n])
		case *Term: // string
			x.bounds(st, i, c.Len(v), in.Pos())
			x.set(st, in, c.At(v, i))
		default:
			unsup("index %T", v)
		}
	case *ssa.IndexAddr:
		v := x.get(st, in.X)
		i := x.t(st, in.Index)
		switch v := v.(type) {
		case *SliceV:
			x.bounds(st, i, v.Len, in.Pos())
			x.set(st, in, &PtrV{Slice: v, Idx: i, T: v.Elem})
		case BytesV:
			x.bounds(st, i, c.Len(v.S), in.Pos())
			x.set(st, in, &bytePtr{v, i})
		case *PtrV:
			n, ok := i.int64()
			if !ok {
				unsup("symbolic array index")
			}
			q := *v
			q.Path = append(append([]int{}, v.Path...), int(n))
			x.set(st, in, &q)
		default:
			unsup("indexaddr %T", v)
		}
	case *ssa.Lookup:
		x.lookup(st, in)
	case *ssa.MapUpdate:
		m := x.t(st, in.Map)
		k := x.t(st, in.Key)
		v := x.get(st, in.Value)
		x.doMapSet(st, in.Map.Type(), m, k, v, in.Pos())
	case *ssa.MakeMap:
		r := x.mapMake(st, in.Type())
		x.set(st, in, r)
		x.emit(st, &Event{Kind: "makemap", Name: typeName(in.Type()), Args: []Val{r}, ArgT: []types.Type{in.Type()}, Pos: in.Pos()})
	case *ssa.MakeChan:
		r := c.FreshRef("chan")
		x.set(st, in, r)
		x.emit(st, &Event{Kind: "makechan", Name: "", Args: []Val{r, x.get(st, in.Size)}, ArgT: []types.Type{in.Type(), types.Typ[types.Int]}, Pos: in.Pos()})
	case *ssa.MakeSlice:
		n := x.t(st, in.Len)
		if isByteSlice(in.Type()) {
			if k, ok := n.int64(); ok && k <= 64 {
				x.set(st, in, BytesV{c.False(), c.Str(strings.Repeat("\x00", int(k)))})
				return
			}
			s := c.FreshC("mkbytes", SStr)
			st.assume(c.Eq(c.Len(s), n))
			x.set(st, in, BytesV{c.False(), s})
			return
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		r := c.FreshRef("slice")
		x.initArr(st, et, r)
		x.set(st, in, &SliceV{et, r, c.Int(0), n})
	case *ssa.MakeClosure:
		cl := &ClosureV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.Bind = append(cl.Bind, x.get(st, b))
		}
		x.set(st, in, cl)
	case *ssa.Slice:
		x.slice(st, in)
	case *ssa.Store:
		if bp, ok := x.get(st, in.Addr).(*bytePtr); ok {
			_ = bp
			unsup("write into a byte slice")
		}
		x.store(st, x.get(st, in.Addr), in.Addr.Type(), x.get(st, in.Val), in.Pos())
	case *ssa.Range:
		v := x.t(st, in.X)
		x.niter++
		it := &IterV{id: x.niter}
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			it.m = v
			it.mt = in.X.Type()
		} else {
			it.str = v
		}
		x.set(st, in, it)
	case *ssa.Next:
		x.next(st, in)
	case *ssa.Jump:
		x.jump(st, f.block.Succs[0])
	case *ssa.If:
		t := x.t(st, in.Cond)
		b := f.block
		x.fork(st, t,
			func(s *State) { x.jump(s, b.Succs[0]) },
			func(s *State) { x.jump(s, b.Succs[1]) })
	case *ssa.Return:
		var ret Val
		switch len(in.Results) {
		case 0:
		case 1:
			ret = x.get(st, in.Results[0])
		default:
			var tv TupleV
			for _, r := range in.Results {
				tv = append(tv, x.get(st, r))
			}
			ret = tv
		}
		x.doReturn(st, ret)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc--
			x.invoke(st, d.call, d.fn, d.args, nil, d.pos, true)
		}
	case *ssa.Panic:
		v := x.get(st, in.X)
		x.emit(st, &Event{Kind: "panic", Name: "panic", Args: []Val{v}, ArgT: []types.Type{in.X.Type()}, Pos: in.Pos()})
		x.oblige(st, "safe", "no panic", c.False(), in.Pos())
		st.status = "panic"
	case *ssa.Defer:
		fn, args := x.callee(st, &in.Call)
		f.defers = append(f.defers, deferred{&in.Call, fn, args, in.Pos()})
	case *ssa.Go:
		fn, args := x.callee(st, &in.Call)
		x.spawn(st, &in.Call, fn, args, in.Pos())
	case *ssa.Call:
		fn, args := x.callee(st, &in.Call)
		x.invoke(st, &in.Call, fn, args, in, in.Pos(), false)
	case *ssa.Send:
		ch := x.t(st, in.Chan)
		v := x.get(st, in.X)
		x.sendInv(st, ch, in.Chan.Type(), v, in.Pos())
		x.shareVal(st, v)
		x.emit(st, &Event{Kind: "wait", Name: "send", Args: []Val{ch}, ArgT: []types.Type{in.Chan.Type()}, Pos: in.Pos()})
		x.emit(st, &Event{Kind: "send", Name: x.chanName(st, ch), Args: []Val{ch, v}, ArgT: []types.Type{in.Chan.Type(), in.X.Type()}, Pos: in.Pos()})
	case *ssa.Select:
		x.selectInstr(st, in)
	default:
		unsup("instruction %T", in)
	}
}

type bytePtr struct {
	b BytesV
	i *Term
}

func (x *Exec) initArr(st *State, et types.Type, r *Term) {
	z := x.flatten(st, x.zero(et))
	names := leafNames(et)
	for i, s := range leafSorts(et) {
		k := "E:" + typeName(et) + names[i]
		a := x.heapGet(st, k, arr(SRef, arr(SInt, s)))
		st.heap[k] = x.c.Store(a, r, x.c.ConstArr(arr(SInt, s), z[i]))
	}
}

func (x *Exec) opaqueField(st *State, v *Term, t types.Type, fname string, ft types.Type) Val {
	var ls []*Term
	for i, s := range leafSorts(ft) {
		ls = append(ls, x.c.App(fmt.Sprintf("of:%s.%s#%d", typeName(t), fname, i), s, v))
	}
	r := x.unflatten(ft, ls)
	x.assumeWF(st, r, ft)
	return r
}

func (x *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	c := x.c
	cond := c.And(c.Le(c.Int(0), i), c.Lt(i, n))
	if cond.isTrue() {
		return
	}
	x.oblige(st, "safe", "no index out of range", cond, pos)
	st.assume(cond)
}

func (x *Exec) unop(st *State, in *ssa.UnOp) {
	c := x.c
	switch in.Op {
	case token.MUL:
		v := x.get(st, in.X)
		if bp, ok := v.(*bytePtr); ok {
			x.set(st, in, c.At(bp.b.S, bp.i))
			return
		}
		x.set(st, in, x.load(st, v, in.X.Type(), in.Pos()))
	case token.NOT:
		x.set(st, in, c.Not(x.t(st, in.X)))
	case token.SUB:
		x.set(st, in, x.wrap(c.Sub(c.Int(0), x.t(st, in.X)), in.Type()))
	case token.XOR:
		a := x.t(st, in.X)
		b := in.Type().Underlying().(*types.Basic)
		if b.Info()&types.IsUnsigned != 0 {
			m := new(big.Int).Sub(modulus(b), big.NewInt(1))
			x.set(st, in, c.Sub(c.BigInt(m), a))
		} else {
			x.set(st, in, c.Sub(c.Int(-1), a))
		}
	case token.ARROW:
		ch := x.t(st, in.X)
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		x.emit(st, &Event{Kind: "wait", Name: "recv", Args: []Val{ch}, ArgT: []types.Type{in.X.Type()}, Pos: in.Pos()})
		v := x.fresh(st, "recv", et)
		x.recvInv(st, ch, in.X.Type(), v)
		ev := &Event{Kind: "recv", Name: x.chanName(st, ch), Args: []Val{ch}, ArgT: []types.Type{in.X.Type()}, Res: v, ResT: et, Pos: in.Pos()}
		if in.CommaOk {
			ok := c.FreshC("ok", SBool)
			x.emit(st, ev)
			x.set(st, in, TupleV{v, ok})
		} else {
			x.emit(st, ev)
			x.set(st, in, v)
		}
	default:
		unsup("unop %s", in.Op)
	}
}

func modulus(b *types.Basic) *big.Int {
	n := uint(64)
	switch b.Kind() {
	case types.Uint8:
		n = 8
	case types.Uint16:
		n = 16
	case types.Uint32:
		n = 32
	}
	return new(big.Int).Lsh(big.NewInt(1), n)
}

// wrap applies modular arithmetic to unsigned results; signed arithmetic is mathematical (stated assumption).
func (x *Exec) wrap(t *Term, ty types.Type) *Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsUnsigned == 0 {
		return t
	}
	return x.c.Mod(t, modulus(b))
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, xt, rt types.Type, pos token.Pos) Val {
	c := x.c
	switch op {
	case token.EQL:
		return x.goEq(st, a, b, xt)
	case token.NEQ:
		return c.Not(x.goEq(st, a, b, xt))
	}
	ta, tb := x.term(st, a), x.term(st, b)
	if ta.Sort == SStr {
		switch op {
		case token.ADD:
			return c.Cat(ta, tb)
		case token.LSS:
			return c.App("strlt", SBool, ta, tb)
		case token.GTR:
			return c.App("strlt", SBool, tb, ta)
		case token.LEQ:
			return c.Not(c.App("strlt", SBool, tb, ta))
		case token.GEQ:
			return c.Not(c.App("strlt", SBool, ta, tb))
		}
		unsup("string op %s", op)
	}
	if ta.Sort == SBool {
		switch op {
		case token.AND:
			return c.And(ta, tb)
		case token.OR:
			return c.Or(ta, tb)
		}
	}
	if ta.Sort != SInt {
		return c.App("op:"+op.String(), leafSorts(rt)[0], ta, tb)
	}
	switch op {
	case token.ADD:
		return x.wrap(c.Add(ta, tb), rt)
	case token.SUB:
		return x.wrap(c.Sub(ta, tb), rt)
	case token.MUL:
		return x.wrap(c.Mul(ta, tb), rt)
	case token.LSS:
		return c.Lt(ta, tb)
	case token.LEQ:
		return c.Le(ta, tb)
	case token.GTR:
		return c.Lt(tb, ta)
	case token.GEQ:
		return c.Le(tb, ta)
	case token.QUO:
		if n, ok := tb.int64(); ok && n != 0 {
			if m, ok := ta.int64(); ok {
				return c.Int(m / n)
			}
		}
		return c.App("quo", SInt, ta, tb)
	case token.REM:
		if n, ok := tb.int64(); ok && n != 0 {
			if m, ok := ta.int64(); ok {
				return c.Int(m % n)
			}
		}
		return c.App("rem", SInt, ta, tb)
	case token.AND:
		if ta.Op == "int" {
			ta, tb = tb, ta
		}
		if tb.Op == "int" && tb.big().Sign() >= 0 {
			sum := c.Int(0)
			n := tb.big()
			for i := 0; i < n.BitLen(); i++ {
				if n.Bit(i) == 1 {
					p := new(big.Int).Lsh(big.NewInt(1), uint(i))
					bit := c.Mod(c.Div(ta, p), big.NewInt(2))
					sum = c.Add(sum, c.Mul(bit, c.BigInt(p)))
				}
			}
			return sum
		}
	}
	return c.App("op:"+op.String(), SInt, ta, tb)
}

func (x *Exec) goEq(st *State, a, b Val, t types.Type) *Term {
	if isByteSlice(t) { // only comparison with nil
		ba, bb := a.(BytesV), b.(BytesV)
		if bb.Nil.isTrue() {
			return ba.Nil
		}
		return bb.Nil
	}
	if sa, ok := a.(*SliceV); ok {
		sb := b.(*SliceV)
		if sb.Arr == x.c.NilRef() {
			return x.c.Eq(sa.Arr, x.c.NilRef())
		}
		return x.c.Eq(sb.Arr, x.c.NilRef())
	}
	return x.valEq(st, a, b)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	c := x.c
	if isByteSlice(to) {
		if t, ok := v.(*Term); ok && t.Sort == SStr {
			return BytesV{c.False(), t}
		}
		if b, ok := v.(BytesV); ok {
			return b
		}
	}
	tb, ok := to.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	if tb.Info()&types.IsString != 0 {
		if b, ok := v.(BytesV); ok {
			return b.S
		}
		t := x.term(st, v)
		if t.Sort == SStr {
			return t
		}
		if n, ok := t.int64(); ok {
			return c.Str(string(rune(n)))
		}
		if t.Sort == SInt {
			// string(byte): one byte when below 128, otherwise its UTF-8 encoding
			if !x.inits && x.proves(st, c.Le(c.Int(0), t)) && x.proves(st, c.Lt(t, c.Int(128))) {
				return x.byteStr(st, t)
			}
			return c.Ite(c.And(c.Le(c.Int(0), t), c.Lt(t, c.Int(128))), c.App("chr", SStr, t), c.App("utf8", SStr, t))
		}
	}
	t := x.term(st, v)
	if tb.Info()&types.IsInteger != 0 && t.Sort == SInt {
		fb, ok := from.Underlying().(*types.Basic)
		if !ok {
			unsup("convert %s", from)
		}
		if tb.Info()&types.IsUnsigned != 0 {
			if fb.Info()&types.IsUnsigned != 0 && modulus(fb).Cmp(modulus(tb)) <= 0 {
				return t
			}
			return c.Mod(t, modulus(tb))
		}
		return t
	}
	return c.App("conv:"+typeName(to), leafSorts(to)[0], t)
}

func (x *Exec) box(st *State, t types.Type, v Val) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	ls := x.flatten(st, v)
	return x.c.App("box:"+typeName(t), SIface, ls...)
}

// unboxVal reads the dynamic value of an interface known to hold type t.
func (x *Exec) unboxVal(st *State, i *Term, t types.Type) Val {
	if isBox(i) && i.Name == "box:"+typeName(t) {
		return x.unflatten(t, i.Args)
	}
	var ls []*Term
	for k, s := range leafSorts(t) {
		ls = append(ls, x.c.App(fmt.Sprintf("unbox:%s:%d", typeName(t), k), s, i))
	}
	v := x.unflatten(t, ls)
	x.assumeWF(st, v, t)
	return v
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) {
	c := x.c
	i := x.t(st, in.X)
	var is *Term
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	if toIface {
		switch {
		case i == c.NilI():
			is = c.False()
		case isBox(i):
			dt := x.eng.typeByName(i.Name[4:])
			if i.Name == "box:*errors.errorString" {
				ms := in.AssertedType.Underlying().(*types.Interface)
				is = c.Bool(ms.NumMethods() == 0 || ms.NumMethods() == 1 && ms.Method(0).Name() == "Error")
			} else if dt == nil {
				is = c.App("impl:"+typeName(in.AssertedType), SBool, i)
			} else {
				is = c.Bool(types.Implements(dt, in.AssertedType.Underlying().(*types.Interface)))
			}
		default:
			if types.Identical(in.AssertedType, in.X.Type()) {
				is = c.Not(c.Eq(i, c.NilI()))
			} else {
				is = c.App("impl:"+typeName(in.AssertedType), SBool, i)
				st.assume(c.Imp(c.Eq(i, c.NilI()), c.Not(is)))
			}
		}
	} else {
		if isBox(i) {
			is = c.Bool(i.Name == "box:"+typeName(in.AssertedType))
		} else {
			is = c.Eq(c.App("ityp", SInt, i), c.Int(int64(c.TypeID(typeName(in.AssertedType)))))
		}
	}
	yes := func(s *State) {
		var v Val
		if toIface {
			v = i
			s.assume(c.Not(c.Eq(i, c.NilI())))
		} else {
			v = x.unboxVal(s, i, in.AssertedType)
			if !isBox(i) {
				s.assume(c.Not(c.Eq(i, c.NilI())))
				// the interface equals the box of its parts
				if len(leafSorts(in.AssertedType)) == 1 {
					s.assume(c.mk("=", "", SBool, i, c.App("box:"+typeName(in.AssertedType), SIface, x.term(s, v))))
				}
			}
		}
		if in.CommaOk {
			x.set(s, in, TupleV{v, c.True()})
		} else {
			x.set(s, in, v)
		}
	}
	if !in.CommaOk {
		x.oblige(st, "safe", "no failed type assertion", is, in.Pos())
		st.assume(is)
		if !st.dead {
			yes(st)
		}
		return
	}
	x.fork(st, is, yes, func(s *State) {
		x.set(s, in, TupleV{x.zero(in.AssertedType), c.False()})
	})
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) {
	c := x.c
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
		s := x.t(st, in.X)
		i := x.t(st, in.Index)
		x.bounds(st, i, c.Len(s), in.Pos())
		x.set(st, in, c.At(s, i))
		return
	}
	m := x.t(st, in.X)
	k := x.t(st, in.Index)
	mt := in.X.Type()
	x.mapAccess(st, mt, m, false, in.Pos())
	_, et := mapKV(mt)
	has := x.mapHasIn(st.heap, mt, m, k)
	if m != c.NilRef() && !m.Fresh {
		st.assume(c.Imp(c.Eq(m, c.NilRef()), c.Not(has)))
	}
	x.fork(st, has, func(s *State) {
		v := x.mapGetIn(s.heap, mt, m, k)
		x.assumeWF(s, v, et)
		x.mapInvAssume(s, mt, m, k, v)
		x.emit(s, &Event{Kind: "mapget", Name: x.mapName(s, mt, m), Args: []Val{m, k}, ArgT: []types.Type{mt, nil}, Res: v, ResT: et, Pos: in.Pos(), Text: "hit"})
		if in.CommaOk {
			x.set(s, in, TupleV{v, c.True()})
		} else {
			x.set(s, in, v)
		}
	}, func(s *State) {
		z := x.zero(et)
		x.emit(s, &Event{Kind: "mapget", Name: x.mapName(s, mt, m), Args: []Val{m, k}, ArgT: []types.Type{mt, nil}, Res: z, ResT: et, Pos: in.Pos(), Text: "miss"})
		if in.CommaOk {
			x.set(s, in, TupleV{z, c.False()})
		} else {
			x.set(s, in, z)
		}
	})
}

// mapName is "Type.field" for maps owned by a field, else "type:T".
func (x *Exec) mapName(st *State, mt types.Type, m *Term) string {
	if f, _ := x.mapOwner(st, m); f != "" {
		return f
	}
	return "type:" + typeName(mt)
}

func (x *Exec) doMapSet(st *State, mt types.Type, m, k *Term, v Val, pos token.Pos) {
	kt, et := mapKV(mt)
	x.nonNilTerm(st, m, pos, "write to a nil map")
	x.mapAccess(st, mt, m, true, pos)
	if x.isShared(st, m) {
		x.shareVal(st, v)
	} else {
		for _, l := range x.flatten(st, v) {
			st.kids[m] = append(st.kids[m], l)
		}
	}
	x.mapInvCheck(st, mt, m, k, v, pos)
	_, o := x.mapOwner(st, m)
	if o == nil {
		o = m
	}
	x.emit(st, &Event{Kind: "mapset", Name: x.mapName(st, mt, m), Args: []Val{o, k, v, m}, ArgT: []types.Type{nil, kt, et, mt}, Pos: pos})
	x.mapSet(st, mt, m, k, v)
}

func (x *Exec) doMapDel(st *State, mt types.Type, m, k *Term, pos token.Pos) {
	kt, _ := mapKV(mt)
	x.mapAccess(st, mt, m, true, pos)
	_, o := x.mapOwner(st, m)
	if o == nil {
		o = m
	}
	x.emit(st, &Event{Kind: "mapdel", Name: x.mapName(st, mt, m), Args: []Val{o, k, m}, ArgT: []types.Type{nil, kt, mt}, Pos: pos})
	x.mapDel(st, mt, m, k)
}

func (x *Exec) next(st *State, in *ssa.Next) {
	c := x.c
	it := x.get(st, in.Iter).(*IterV)
	if in.IsString {
		s := it.str
		_ = s
		ok := c.FreshC("more", SBool)
		x.fork(st, ok, func(s *State) {
			x.set(s, in, TupleV{c.True(), c.FreshC("i", SInt), c.FreshC("r", SInt)})
		}, func(s *State) {
			x.set(s, in, TupleV{c.False(), c.Int(0), c.Int(0)})
		})
		return
	}
	mt := it.mt
	kt, et := mapKV(mt)
	x.mapAccess(st, mt, it.m, false, in.Pos())
	more := c.FreshC("more", SBool)
	if it.m == c.NilRef() {
		st.assume(c.Not(more))
	} else {
		l := x.mapLenIn(st.heap, mt, it.m)
		st.assume(c.Le(c.Int(0), l))
		st.assume(c.Imp(more, c.Lt(c.Int(0), l)))
		st.assume(c.Imp(more, c.Not(c.Eq(it.m, c.NilRef()))))
	}
	f := st.top()
	var loop *LoopRec
	if n := len(f.loops); n > 0 {
		loop = f.loops[n-1]
		if h := loop.entryHeap; h != nil && loop.header == in.Block() && it.m != c.NilRef() {
			// the turns over an unchanged map are fewer than its entries
			dom := func(h map[string]*Term) *Term {
				return c.Select(heapGetIn(x, h, mapComp(mt)+".dom", arr(SRef, arr(x.mapKeySort(mt), SBool))), it.m)
			}
			if l := x.mapLenIn(st.heap, mt, it.m); l == x.mapLenIn(h, mt, it.m) && dom(h) == dom(st.heap) {
				st.assume(c.Imp(more, c.Lt(loop.iter, l)))
			}
		}
	}
	x.fork(st, more, func(s *State) {
		k := x.fresh(s, "key", kt)
		kk := x.term(s, k)
		s.assume(x.mapHasIn(s.heap, mt, it.m, kk))
		v := x.mapGetIn(s.heap, mt, it.m, kk)
		x.assumeWF(s, v, et)
		x.mapInvAssume(s, mt, it.m, kk, v)
		if loop != nil {
			loop.iterMap = it
		}
		x.emit(s, &Event{Kind: "next", Name: x.mapName(s, mt, it.m), Args: []Val{it.m, k, v}, ArgT: []types.Type{mt, kt, et}, Pos: in.Pos(), Loop: loop})
		x.set(s, in, TupleV{c.True(), k, v})
	}, func(s *State) {
		x.emit(s, &Event{Kind: "nextdone", Name: x.mapName(s, mt, it.m), Args: []Val{it.m}, ArgT: []types.Type{mt}, Pos: in.Pos(), Loop: loop})
		x.set(s, in, TupleV{c.False(), x.zero(kt), x.zero(et)})
	})
}

func (x *Exec) slice(st *State, in *ssa.Slice) {
	c := x.c
	v := x.get(st, in.X)
	lo := c.Int(0)
	if in.Low != nil {
		lo = x.t(st, in.Low)
	}
	if bs, ok := v.(BytesV); ok {
		hi := c.Len(bs.S)
		if in.High != nil {
			hi = x.t(st, in.High)
		}
		x.sliceBounds(st, lo, hi, c.Len(bs.S), in.High != nil, in.Pos())
		x.set(st, in, BytesV{bs.Nil, x.substr(st, bs.S, lo, hi)})
		return
	}
	if s, ok := v.(*Term); ok && s.Sort == SStr {
		hi := c.Len(s)
		if in.High != nil {
			hi = x.t(st, in.High)
		}
		x.sliceBounds(st, lo, hi, c.Len(s), in.High != nil, in.Pos())
		x.set(st, in, x.substr(st, s, lo, hi))
		return
	}
	if sv, ok := v.(*SliceV); ok {
		hi := sv.Len
		if in.High != nil {
			hi = x.t(st, in.High)
			// reslicing up to the capacity is not modelled
		}
		x.sliceBounds(st, lo, hi, sv.Len, in.High != nil, in.Pos())
		x.set(st, in, &SliceV{sv.Elem, sv.Arr, c.Add(sv.Off, lo), c.Sub(hi, lo)})
		return
	}
	// pointer to array
	p := x.ptrOf(st, v, in.X.Type())
	av, ok := x.loadRaw(st, st.heap, st.objs, p).(*ArrV)
	if !ok {
		unsup("slice of %T", v)
	}
	if isByteSlice(in.Type()) {
		var parts []*Term
		for _, e := range av.E {
			parts = append(parts, x.byteStr(st, x.term(st, e)))
		}
		x.set(st, in, BytesV{c.False(), c.Cat(parts...)})
		return
	}
	if in.Low != nil || in.High != nil {
		unsup("partial slice of an array")
	}
	x.set(st, in, x.mkSlice(st, av.Elem, av.E))
}

func (x *Exec) mkSlice(st *State, et types.Type, vals []Val) *SliceV {
	c := x.c
	r := c.FreshRef("slice")
	s := &SliceV{et, r, c.Int(0), c.Int(int64(len(vals)))}
	for i, v := range vals {
		x.storeRaw(st, &PtrV{Slice: s, Idx: c.Int(int64(i)), T: et}, v)
	}
	return s
}

// byteStr is the one-byte string of a byte value.
func (x *Exec) byteStr(st *State, t *Term) *Term {
	if n, ok := t.int64(); ok {
		return x.c.Str(string([]byte{byte(n)}))
	}
	if t.Op == "app" && t.Name == "at" {
		if s := t.Args[0]; true {
			if i, ok := t.Args[1].int64(); ok {
				_ = i
				return x.substr(st, s, t.Args[1], x.c.Add(t.Args[1], x.c.Int(1)))
			}
		}
	}
	return x.c.App("chr", SStr, t)
}

func (x *Exec) sliceBounds(st *State, lo, hi, n *Term, explicitHi bool, pos token.Pos) {
	c := x.c
	var cs []*Term
	if !(lo.Op == "int" && lo.Name == "0") {
		cs = append(cs, c.Le(c.Int(0), lo), c.Le(lo, hi))
	}
	if explicitHi {
		cs = append(cs, c.Le(lo, hi), c.Le(hi, n))
	}
	cond := c.And(cs...)
	if cond.isTrue() {
		return
	}
	x.oblige(st, "safe", "no slice out of range", cond, pos)
	st.assume(cond)
}

// substr with simplification of concatenations.
func (x *Exec) substr(st *State, s, lo, hi *Term) *Term {
	c := x.c
	if s.Op == "app" && s.Name == "cat" {
		// drop leading segments whose length is exactly lo, trailing ones beyond hi
		if n, ok := lo.int64(); ok && hi == c.Len(s) {
			if n == 0 {
				return s
			}
			if s.Args[0].Op == "str" && int(n) <= len(s.Args[0].Name) {
				return c.Cat(append([]*Term{c.Str(s.Args[0].Name[n:])}, s.Args[1:]...)...)
			}
		}
		// split at segment boundaries
		acc := c.Int(0)
		start := -1
		if lo == acc {
			start = 0
		}
		end := -1
		for i, a := range s.Args {
			acc = c.Add(acc, c.Len(a))
			if acc == lo {
				start = i + 1
			}
			if acc == hi {
				end = i + 1
			}
		}
		if start >= 0 && end >= start {
			return c.Cat(s.Args[start:end]...)
		}
	}
	r := c.Substr(s, lo, hi)
	if r.Op == "app" && r.Name == "substr" {
		// s = s[:lo] + s[lo:hi] + s[hi:]
		if lo.Op == "int" && lo.Name == "0" {
			rest := c.App("substr", SStr, s, hi, c.Len(s))
			if st.pcset[c.Eq(s, c.Cat(r, rest))] {
				return r
			}
		}
	}
	return r
}

func (x *Exec) doReturn(st *State, ret Val) {
	f := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	for _, l := range f.loops {
		if l.dry {
			st.status = "exit"
			return
		}
	}
	if f.cont != nil {
		f.cont(x, st, ret)
		return
	}
	if f.async {
		st.async--
		st.held = f.saved
		return
	}
	if len(st.frames) == 0 {
		st.ret = ret
		st.status = "return"
		return
	}
	if f.retTo != nil {
		x.set(st, f.retTo, ret)
	}
}

func (x *Exec) selectInstr(st *State, in *ssa.Select) {
	c := x.c
	type opt struct{ i int }
	n := len(in.States)
	ev := &Event{Kind: "wait", Name: "select", Pos: in.Pos()}
	for _, s := range in.States {
		ev.Args = append(ev.Args, x.get(st, s.Chan))
		ev.ArgT = append(ev.ArgT, s.Chan.Type())
	}
	if !in.Blocking {
		ev.Name = "poll"
	}
	// result tuple: index, recvOk, r_0 ... for receives
	mk := func(s *State, idx int) {
		w := *ev
		w.Text = fmt.Sprint(idx)
		x.emit(s, &w)
		tv := TupleV{c.Int(int64(idx)), c.FreshC("recvok", SBool)}
		for i, ss := range in.States {
			if ss.Dir == types.RecvOnly {
				et := ss.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == idx {
					v := x.fresh(s, "recv", et)
					ch := x.t(s, ss.Chan)
					x.recvInv(s, ch, ss.Chan.Type(), v)
					x.emit(s, &Event{Kind: "recv", Name: x.chanName(s, ch), Args: []Val{ch}, ArgT: []types.Type{ss.Chan.Type()}, Res: v, ResT: et, Pos: ss.Pos})
					tv = append(tv, v)
				} else {
					tv = append(tv, x.zero(et))
				}
			} else if i == idx {
				ch := x.t(s, ss.Chan)
				v := x.get(s, ss.Send)
				x.sendInv(s, ch, ss.Chan.Type(), v, ss.Pos)
				x.shareVal(s, v)
				x.emit(s, &Event{Kind: "send", Name: x.chanName(s, ch), Args: []Val{ch, v}, ArgT: []types.Type{ss.Chan.Type(), ss.Send.Type()}, Pos: ss.Pos})
			}
		}
		x.set(s, in, tv)
	}
	var idxs []int
	for i := 0; i < n; i++ {
		idxs = append(idxs, i)
	}
	if !in.Blocking {
		idxs = append(idxs, -1)
	}
	if len(idxs) == 0 {
		st.dead = true
		return
	}
	for _, i := range idxs[1:] {
		s := st.clone()
		mk(s, i)
		x.push(s)
	}
	mk(st, idxs[0])
}

// sendInv: every value sent satisfies the channel's invariant, and so does the zero value if it is closed.
func (x *Exec) sendInv(st *State, ch *Term, ct types.Type, v Val, pos token.Pos) {
	if x.inits {
		return
	}
	key, owner := x.mapOwner(st, ch)
	if key == "" {
		return
	}
	for _, ci := range x.eng.con.chaninv[key] {
		if strings.HasPrefix(owner.Name, "obj:") {
			var id int
			fmt.Sscanf(owner.Name, "obj:%d", &id)
			owner = x.materialise(st, id)
		}
		env := x.specEnv(st)
		env.vars[ci.params[0]] = TV{owner, x.eng.ptrToOwner(key)}
		env.vars[ci.params[1]] = TV{v, ct.Underlying().(*types.Chan).Elem()}
		x.obligeFrame(st, "inv", key, "value sent on "+key+": "+ci.src, x.evalBool(env, ci.expr), pos)
	}
}

// recvInv: facts about values received from a channel field (declared with chaninv).
func (x *Exec) recvInv(st *State, ch *Term, ct types.Type, v Val) {
	f, o := ownedMap(ch)
	if f == "" {
		return
	}
	for _, ci := range x.eng.con.chaninv[f] {
		env := x.specEnv(st)
		env.vars[ci.params[0]] = TV{o, x.eng.ptrToOwner(f)}
		env.vars[ci.params[1]] = TV{v, ct.Underlying().(*types.Chan).Elem()}
		st.assume(x.evalBool(env, ci.expr))
	}
}
