package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callee(st *State, call *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if call.IsInvoke() {
		args = append(args, x.get(st, call.Value))
		for _, a := range call.Args {
			args = append(args, x.get(st, a))
		}
		return nil, args
	}
	for _, a := range call.Args {
		args = append(args, x.get(st, a))
	}
	return x.get(st, call.Value), args
}

func sigResult(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (x *Exec) finishCall(st *State, retTo ssa.Value, r Val) {
	if retTo != nil {
		x.set(st, retTo, r)
	}
}

func callArgTypes(call *ssa.CallCommon) []types.Type {
	var ts []types.Type
	if call.IsInvoke() {
		ts = append(ts, call.Value.Type())
	}
	for _, a := range call.Args {
		ts = append(ts, a.Type())
	}
	return ts
}

func (x *Exec) invoke(st *State, call *ssa.CallCommon, fn Val, args []Val, retTo ssa.Value, pos token.Pos, drop bool) {
	if call.IsInvoke() {
		x.invokeIface(st, call, args, retTo, pos)
		return
	}
	switch f := fn.(type) {
	case *ssa.Builtin:
		if f.Name() == "append" {
			if a, ok := args[0].(*SliceV); ok && !x.ownsTail(st, len(st.frames)-1, call.Args[0], map[ssa.Value]bool{}) {
				if b, ok := args[1].(*SliceV); ok {
					x.fork(st, x.c.FreshC("grows", SBool), func(s *State) {
						x.finishCall(s, retTo, x.builtin(s, f.Name(), call, args, pos))
					}, func(s *State) {
						s.assume(x.c.Not(x.c.Eq(a.Arr, x.c.NilRef())))
						x.finishCall(s, retTo, x.appendInPlace(s, a, b))
					})
					return
				}
			}
		}
		x.finishCall(st, retTo, x.builtin(st, f.Name(), call, args, pos))
		return
	case *ClosureV:
		x.callFn(st, f.Fn, f.Bind, args, callArgTypes(call), retTo, pos)
		return
	case *Term:
		if cl := x.c.fns[f]; cl != nil {
			x.callFn(st, cl.Fn, cl.Bind, args, callArgTypes(call), retTo, pos)
			return
		}
		x.nonNilTerm(st, f, pos, "call of a nil function")
		name := funcTypeName(call.Value.Type())
		var a0 []Val
		var t0 []types.Type
		if fl, o := ownedMap(f); fl != "" {
			name = fl
			a0 = append(a0, o)
			t0 = append(t0, nil)
		}
		x.userCall(st, "dyn", name, pos)
		for _, a := range args {
			x.shareVal(st, a)
		}
		rt := sigResult(call.Signature())
		var r Val
		if rt != nil {
			r = x.fresh(st, "dyn", rt)
			x.resFacts(st, name, r)
		}
		x.emit(st, &Event{Kind: "dyn", Name: name, Args: append([]Val{f}, append(a0, args...)...), ArgT: append([]types.Type{call.Value.Type()}, append(t0, callArgTypes(call)...)...), Res: r, ResT: rt, Pos: pos})
		x.afterUser(st)
		x.finishCall(st, retTo, r)
		return
	}
	unsup("call of %T", fn)
}

// userCall checks that no lock is held around code outside the analysed packages.
func (x *Exec) userCall(st *State, kind, name string, pos token.Pos) {
	var bad []string
	for _, h := range st.held {
		if !x.eng.con.underlock[h.Name] && !x.eng.con.lockfor[h.Name+" "+name] {
			bad = append(bad, h.Name)
		}
	}
	if x.eng.con.trusted(name) {
		return
	}
	x.oblige(st, "nolocks", fmt.Sprintf("no lock held while calling %s %s (held: %s)", kind, name, strings.Join(bad, ",")), x.c.Bool(len(bad) == 0), pos)
}

// afterUser: user code may run anything; guarded state is re-read under locks anyway.
func (x *Exec) afterUser(st *State) {}

func (x *Exec) invokeIface(st *State, call *ssa.CallCommon, args []Val, retTo ssa.Value, pos token.Pos) {
	c := x.c
	recv := x.term(st, args[0])
	m := call.Method
	it := typeName(call.Value.Type())
	x.nonNilTerm(st, recv, pos, "method call on a nil interface")
	if isBox(recv) {
		if dt := x.eng.typeByName(recv.Name[4:]); dt != nil {
			fn := x.eng.prog.LookupMethod(dt, m.Pkg(), m.Name())
			if fn != nil && x.eng.isRepoFn(fn) {
				a := append([]Val{x.unflatten(dt, recv.Args)}, args[1:]...)
				ts := callArgTypes(call)
				ts[0] = dt
				x.callFn(st, fn, nil, a, ts, retTo, pos)
				return
			}
		}
	}
	rt := sigResult(call.Signature())
	full := it + "." + m.Name()
	if m.Name() == "Error" && call.Signature().Params().Len() == 0 && len(leafSorts(rt)) == 1 && leafSorts(rt)[0] == SStr {
		// the text of an error is a fixed function of the error value
		x.finishCall(st, retTo, c.App("errtext", SStr, recv))
		return
	}
	if x.eng.con.pure[full] {
		x.finishCall(st, retTo, x.pureApp(st, full, rt, args))
		return
	}
	x.userCall(st, "interface method", full, pos)
	for _, a := range args {
		x.shareVal(st, a)
	}
	var r Val
	if rt != nil {
		r = x.fresh(st, m.Name(), rt)
	}
	x.resFacts(st, full, r)
	if full == "context.Context.Err" {
		// a context whose Done channel was received from has an error
		for _, e := range st.trace {
			if e.Kind == "recv" && e.Name == "ctx.Done" {
				if ch := x.term(st, e.Args[0]); len(ch.Args) == 1 && (ch.Args[0] == recv || x.proves(st, c.Eq(ch.Args[0], recv))) {
					st.assume(c.Not(c.Eq(r.(*Term), c.NilI())))
				}
			}
		}
	}
	x.emit(st, &Event{Kind: "icall", Name: full, Args: args, ArgT: callArgTypes(call), Res: r, ResT: rt, Pos: pos})
	x.finishCall(st, retTo, r)
}

func (x *Exec) pureApp(st *State, name string, rt types.Type, args []Val) Val {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, x.flatten(st, a)...)
	}
	var ls []*Term
	for i, s := range leafSorts(rt) {
		ls = append(ls, x.c.App(fmt.Sprintf("pure:%s#%d", name, i), s, ts...))
	}
	r := x.unflatten(rt, ls)
	x.assumeWF(st, r, rt)
	x.resFacts(st, name, r)
	return r
}

// resFacts adds declared facts about results of code outside the repository.
func (x *Exec) resFacts(st *State, name string, r Val) {
	if x.eng.con.nonnilRes[name] {
		t, ok := r.(*Term)
		unless := x.c.False()
		if tv, isT := r.(TupleV); isT && len(tv) > 0 {
			t, ok = tv[0].(*Term)
			if e, isE := tv[len(tv)-1].(*Term); isE && len(tv) > 1 && e.Sort == SIface {
				unless = x.c.Not(x.c.Eq(e, x.zeroTerm(SIface)))
			}
		}
		if ok && (t.Sort == SRef || t.Sort == SIface || t.Sort == SFunc) {
			st.assume(x.c.Or(unless, x.c.Not(x.c.Eq(t, x.zeroTerm(t.Sort)))))
		}
	}
}

// callFn calls a function whose code is known.
func (x *Exec) callFn(st *State, fn *ssa.Function, bind []Val, args []Val, argT []types.Type, retTo ssa.Value, pos token.Pos) {
	name := x.eng.fnName(fn)
	if r, ok := x.libCall(st, fn, args, argT, retTo, pos); ok {
		if r != noResult {
			x.finishCall(st, retTo, r)
		}
		return
	}
	if con := x.eng.con.funcs[name]; con != nil && con.Abstract && !x.inits && !x.root.inlines(name) {
		x.abstractCall(st, con, fn, args, retTo, pos, false)
		return
	}
	if x.eng.con.skip[name] {
		rt := sigResult(fn.Signature)
		var r Val
		if rt != nil {
			r = x.fresh(st, fn.Name(), rt)
		}
		x.finishCall(st, retTo, r)
		return
	}
	if x.eng.isRepoFn(fn) && len(fn.Blocks) > 0 {
		x.enter(st, fn, bind, args, retTo, pos)
		return
	}
	// external function
	rt := sigResult(fn.Signature)
	var r Val
	full := fn.String()
	if x.eng.con.pure[full] && rt != nil {
		x.finishCall(st, retTo, x.pureApp(st, full, rt, args))
		return
	}
	for _, a := range args {
		if !x.eng.con.noshare[full] {
			x.shareVal(st, a)
		}
	}
	if rt != nil {
		r = x.fresh(st, fn.Name(), rt)
	}
	x.resFacts(st, full, r)
	x.emit(st, &Event{Kind: "ext", Name: full, Args: args, ArgT: argT, Res: r, ResT: rt, Pos: pos})
	x.finishCall(st, retTo, r)
}

func (x *Exec) enter(st *State, fn *ssa.Function, bind []Val, args []Val, retTo ssa.Value, pos token.Pos) *Frame {
	rec := 0
	for _, f := range st.frames {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 2 || len(st.frames) > 40 {
		unsup("recursion through %s", fn)
	}
	if !x.inits {
		x.inlined[x.eng.fnName(fn)] = true
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], retTo: retTo}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = bind[i]
	}
	st.frames = append(st.frames, f)
	return f
}

func (x *Exec) spawn(st *State, call *ssa.CallCommon, fn Val, args []Val, pos token.Pos) {
	for _, a := range args {
		x.shareVal(st, a)
	}
	if call.IsInvoke() {
		x.emit(st, &Event{Kind: "go", Name: typeName(call.Value.Type()) + "." + call.Method.Name(), Args: args, ArgT: callArgTypes(call), Pos: pos})
		return
	}
	if t, ok := fn.(*Term); ok {
		if cl := x.c.fns[t]; cl != nil {
			fn = cl
		}
	}
	cl, ok := fn.(*ClosureV)
	if !ok {
		x.emit(st, &Event{Kind: "go", Name: "dynamic", Args: args, ArgT: callArgTypes(call), Pos: pos})
		return
	}
	x.shareVal(st, cl)
	name := x.eng.fnName(cl.Fn)
	if con := x.eng.con.funcs[name]; con != nil && con.Abstract {
		held := st.held
		st.held = nil
		x.checkPre(st, con, cl.Fn, args, pos)
		// the call happens in its own goroutine
		st.async++
		rt := sigResult(cl.Fn.Signature)
		var r Val
		if rt != nil {
			r = x.fresh(st, cl.Fn.Name(), rt)
		}
		x.emit(st, &Event{Kind: "call", Name: name, Args: args, ArgT: callArgTypes(call), Res: r, ResT: rt, Pos: pos})
		st.async--
		st.held = held
		return
	}
	x.emit(st, &Event{Kind: "go", Name: name, Args: args, ArgT: callArgTypes(call), Pos: pos})
	if !x.eng.isRepoFn(cl.Fn) || len(cl.Fn.Blocks) == 0 {
		return
	}
	f := x.enter(st, cl.Fn, cl.Bind, args, nil, pos)
	f.async = true
	f.saved = st.held
	st.held = nil
	st.async++
}

func (x *Exec) checkPre(st *State, con *Contract, fn *ssa.Function, args []Val, pos token.Pos) {
	if fn.Signature.Recv() != nil && len(args) > 0 && !con.NilRecv {
		if t, ok := args[0].(*Term); ok && t.Sort == SRef {
			x.nonNilTerm(st, t, pos, "nil receiver")
		}
	}
	for _, cl := range con.Requires {
		env := x.specEnv(st)
		x.bindParams(env, con, fn, args)
		if x.root != nil && x.root.NoPre {
			st.assume(x.evalBool(env, cl.Expr))
			continue
		}
		x.oblige(st, "pre", "precondition of "+con.Name+": "+cl.Src, x.evalBool(env, cl.Expr), pos)
	}
	for _, d := range con.EachReq {
		env := x.specEnv(st)
		x.bindParams(env, con, fn, args)
		coll, ok := x.tryEval(env, d.Coll)
		cv, isSlice := coll.V.(*SliceV)
		if !ok || !isSlice {
			unsup("eachreq of %s: not a slice", con.Name)
		}
		k := x.term(st, x.fresh(st, "k", types.Typ[types.Int]))
		env.vars[d.V] = TV{x.loadRaw(st, st.heap, st.objs, &PtrV{Slice: cv, Idx: k, T: cv.Elem}), cv.Elem}
		in := x.c.And(x.c.Le(x.c.Int(0), k), x.c.Lt(k, cv.Len))
		x.oblige(st, "pre", "precondition of "+con.Name+" for each: "+d.Src, x.c.Imp(in, x.evalBool(env, d.Expr)), pos)
	}
}

func (x *Exec) abstractCall(st *State, con *Contract, fn *ssa.Function, args []Val, retTo ssa.Value, pos token.Pos, async bool) {
	x.checkPre(st, con, fn, args, pos)
	// locks the callee takes must not be held
	tl := x.eng.locksOf(fn)
	for _, h := range st.held {
		if tl[h.Name] {
			x.oblige(st, "locks", "call of "+con.Name+" which takes "+h.Name+" while it is held", x.c.False(), pos)
		}
	}
	if len(st.held) > 0 && x.eng.callsUser(fn) {
		x.userCall(st, "function", con.Name, pos)
	}
	for _, a := range args {
		x.shareVal(st, a)
	}
	rt := sigResult(fn.Signature)
	var r Val
	if rt != nil {
		r = x.fresh(st, "r_"+fn.Name(), rt)
	}
	env := x.specEnv(st)
	x.bindParams(env, con, fn, args)
	x.bindResults(env, con, fn, r)
	for _, cl := range con.Ensures {
		if cl.Assumable {
			if v, ok := x.definition(env, con, fn, cl.Expr); ok {
				if t, isT := r.(*Term); isT && t.Sort == v.Sort && t.Op == "const" {
					r = v
					x.bindResults(env, con, fn, r)
					continue
				}
			}
			st.assume(x.evalBool(env, cl.Expr))
		}
	}
	var ats []types.Type
	for _, p := range fn.Params {
		ats = append(ats, p.Type())
	}
	x.fnhits[con.Name] = true
	x.emit(st, &Event{Kind: "call", Name: con.Name, Args: args, ArgT: ats, Res: r, ResT: rt, Pos: pos})
	for _, en := range con.Enumerates {
		env := x.specEnv(st)
		x.bindParams(env, con, fn, args)
		x.bindResults(env, con, fn, r)
		sv := x.eval(env, en.a)
		mv := x.eval(env, en.b)
		st.enums = append(st.enums, EnumFact{Slice: sv.V.(*SliceV), Map: x.term(st, mv.V), MT: mv.T, Keys: en.keys})
	}
	x.finishCall(st, retTo, r)
}

// definition recognises a postcondition of the form result == E, with E about the arguments only.
func (x *Exec) definition(env *Env, con *Contract, fn *ssa.Function, e ast.Expr) (*Term, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	b, ok := e.(*ast.BinaryExpr)
	if !ok || b.Op != token.EQL || fn.Signature.Results().Len() != 1 {
		return nil, false
	}
	isRes := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return ok && (id.Name == "result" || len(con.Results) > 0 && id.Name == con.Results[0])
	}
	if !isRes(b.X) {
		return nil, false
	}
	used := false
	ast.Inspect(b.Y, func(n ast.Node) bool {
		if ex, ok := n.(ast.Expr); ok && isRes(ex) {
			used = true
		}
		return true
	})
	if used {
		return nil, false
	}
	v := x.eval(env, b.Y)
	t, ok := v.V.(*Term)
	return t, ok
}

// ---- builtins ----

func (x *Exec) builtin(st *State, name string, call *ssa.CallCommon, args []Val, pos token.Pos) Val {
	c := x.c
	switch name {
	case "len":
		switch v := args[0].(type) {
		case BytesV:
			return c.Len(v.S)
		case *SliceV:
			return v.Len
		case *ArrV:
			return c.Int(int64(len(v.E)))
		case *Term:
			if v.Sort == SStr {
				return c.Len(v)
			}
			t := call.Args[0].Type()
			if _, ok := t.Underlying().(*types.Map); ok {
				if v == c.NilRef() {
					return c.Int(0)
				}
				x.mapAccess(st, t, v, false, pos)
				l := x.mapLenIn(st.heap, t, v)
				st.assume(c.Le(c.Int(0), l))
				if !v.Fresh {
					st.assume(c.Imp(c.Eq(v, c.NilRef()), c.Eq(l, c.Int(0))))
				}
				return l
			}
			r := c.FreshC("len", SInt)
			st.assume(c.Le(c.Int(0), r))
			return r
		}
	case "cap":
		r := c.FreshC("cap", SInt)
		switch v := args[0].(type) {
		case *SliceV:
			st.assume(c.Le(v.Len, r))
		case BytesV:
			st.assume(c.Le(c.Len(v.S), r))
		}
		return r
	case "append":
		if a, ok := args[0].(BytesV); ok {
			var b *Term
			switch y := args[1].(type) {
			case BytesV:
				b = y.S
			case *Term:
				b = y
			}
			if !x.ownsTail(st, len(st.frames)-1, call.Args[0], map[ssa.Value]bool{}) {
				x.oblige(st, "safe", "append writes no bytes that something else uses", c.False(), pos)
			}
			return BytesV{c.And(a.Nil, c.Eq(b, c.Str(""))), c.Cat(a.S, b)}
		}
		a := args[0].(*SliceV)
		b, ok := args[1].(*SliceV)
		if !ok {
			unsup("append")
		}
		r := c.FreshRef("slice")
		out := &SliceV{a.Elem, r, a.Off, c.Add(a.Len, b.Len)}
		n, lit := b.Len.int64()
		names := leafNames(a.Elem)
		if a.Len.Op == "int" && a.Len.Name == "0" {
			out.Off = c.Int(0)
		}
		for i, s := range leafSorts(a.Elem) {
			k := "E:" + typeName(a.Elem) + names[i]
			arrT := x.heapGet(st, k, arr(SRef, arr(SInt, s)))
			if lit {
				cont := c.Select(arrT, a.Arr)
				if a.Len.Op == "int" && a.Len.Name == "0" {
					cont = c.ConstArr(arr(SInt, s), x.flatten(st, x.zero(a.Elem))[i])
				}
				src := c.Select(arrT, b.Arr)
				for j := int64(0); j < n; j++ {
					cont = c.Store(cont, c.Add(c.Add(out.Off, a.Len), c.Int(j)), c.Select(src, c.Add(b.Off, c.Int(j))))
				}
				st.heap[k] = c.Store(arrT, r, cont)
			} else if a.Len.Op == "int" && a.Len.Name == "0" {
				// copy of the whole second slice
				st.heap[k] = c.Store(arrT, r, c.Select(arrT, b.Arr))
				out.Off = b.Off
			} else {
				st.heap[k] = c.Store(arrT, r, c.FreshC("app", arr(SInt, s)))
			}
		}
		if !x.isShared(st, a.Arr) || a.Arr == c.NilRef() {
			if kk, ok := st.kids[a.Arr]; ok {
				st.kids[r] = append(st.kids[r], kk...)
			}
		}
		return out
	case "delete":
		x.doMapDel(st, call.Args[0].Type(), x.term(st, args[0]), x.term(st, args[1]), pos)
		return nil
	case "close":
		ch := x.term(st, args[0])
		x.nonNilTerm(st, ch, pos, "close of a nil channel")
		if key, _ := x.mapOwner(st, ch); key != "" && !x.inits {
			if ws := x.eng.con.closers[key]; ws != nil && !x.eng.con.onStack(ws, st, x) {
				x.obligeFrame(st, "frame", key, "close of "+key+" outside "+strings.Join(ws, ", "), c.False(), pos)
			}
		}
		ct := call.Args[0].Type()
		x.sendInv(st, ch, ct, x.zero(ct.Underlying().(*types.Chan).Elem()), pos)
		x.emit(st, &Event{Kind: "close", Name: x.chanName(st, ch), Args: []Val{ch}, ArgT: []types.Type{call.Args[0].Type()}, Pos: pos})
		return nil
	case "clear":
		t := call.Args[0].Type()
		if _, ok := t.Underlying().(*types.Map); ok {
			m := x.term(st, args[0])
			x.mapAccess(st, t, m, true, pos)
			_, o := x.mapOwner(st, m)
			if o == nil {
				o = m
			}
			x.emit(st, &Event{Kind: "mapclear", Name: x.mapName(st, t, m), Args: []Val{o, m}, ArgT: []types.Type{nil, t}, Pos: pos})
			ks := x.mapKeySort(t)
			comp := mapComp(t) + ".dom"
			a := x.heapGet(st, comp, arr(SRef, arr(ks, SBool)))
			st.heap[comp] = c.Store(a, m, c.ConstArr(arr(ks, SBool), c.False()))
			la := x.heapGet(st, mapComp(t)+".len", arr(SRef, SInt))
			st.heap[mapComp(t)+".len"] = c.Store(la, m, c.Int(0))
			return nil
		}
	case "print", "println":
		return nil
	case "min", "max":
		r := x.term(st, args[0])
		for _, a := range args[1:] {
			t := x.term(st, a)
			if name == "min" {
				r = c.Ite(c.Lt(t, r), t, r)
			} else {
				r = c.Ite(c.Lt(r, t), t, r)
			}
		}
		return r
	case "copy":
		if d, ok := args[0].(*SliceV); ok {
			if s, ok := args[1].(*SliceV); ok && d.Arr.Fresh && x.proves(st, c.Eq(d.Len, s.Len)) {
				names := leafNames(d.Elem)
				for i, srt := range leafSorts(d.Elem) {
					k := "E:" + typeName(d.Elem) + names[i]
					a := x.heapGet(st, k, arr(SRef, arr(SInt, srt)))
					st.heap[k] = c.Store(a, d.Arr, c.Shift(c.Select(a, s.Arr), c.Sub(s.Off, d.Off)))
				}
				return d.Len
			}
		}
	case "ssa:wrapnilchk":
		return args[0]
	}
	unsup("builtin %s", name)
	return nil
}

// appendInPlace is append to a slice that has the capacity for it.
func (x *Exec) appendInPlace(st *State, a, b *SliceV) Val {
	c := x.c
	out := &SliceV{a.Elem, a.Arr, a.Off, c.Add(a.Len, b.Len)}
	if a.Arr == b.Arr && c.Add(a.Off, a.Len) == b.Off {
		return out // the elements are there already
	}
	n, lit := b.Len.int64()
	names := leafNames(a.Elem)
	for i, s := range leafSorts(a.Elem) {
		k := "E:" + typeName(a.Elem) + names[i]
		arrT := x.heapGet(st, k, arr(SRef, arr(SInt, s)))
		cont := c.Select(arrT, a.Arr)
		if lit {
			src := c.Select(arrT, b.Arr)
			for j := int64(0); j < n; j++ {
				cont = c.Store(cont, c.Add(c.Add(out.Off, a.Len), c.Int(j)), c.Select(src, c.Add(b.Off, c.Int(j))))
			}
		} else {
			cont = c.FreshC("app", arr(SInt, s))
		}
		st.heap[k] = c.Store(arrT, a.Arr, cont)
	}
	return out
}

// chanName is the struct field a channel comes from, if any.
func (x *Exec) chanName(st *State, ch *Term) string {
	k, _ := x.mapOwner(st, ch)
	if k == "" && ch.Op == "app" && strings.HasPrefix(ch.Name, "pure:context.Context.Done#") {
		return "ctx.Done"
	}
	if k == "" && ch.Fresh {
		return "local"
	}
	return k
}

// ---- locks ----

func (x *Exec) lockName(st *State, v Val, pt types.Type) (string, *Term) {
	p, ok := v.(*PtrV)
	if ok && len(p.Path) > 0 {
		t := p.T
		for _, i := range p.Path[:len(p.Path)-1] {
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
		s := t.Underlying().(*types.Struct)
		nm := typeName(t) + "." + s.Field(p.Path[len(p.Path)-1]).Name()
		return nm, x.lockRef(st, p)
	}
	t := x.term(st, v)
	if f, _ := ownedMap(t); f != "" {
		return f, t
	}
	if t.Op == "app" && strings.HasPrefix(t.Name, "fld:") {
		return t.Name[4:], t
	}
	if strings.HasPrefix(t.Name, "glob:") {
		return "global." + t.Name[5:], t
	}
	return "mutex", t
}

// lockRef names the lock of an object without publishing the object.
func (x *Exec) lockRef(st *State, p *PtrV) *Term {
	if p.Obj > 0 && st.objs[p.Obj].Ref == nil {
		return x.c.Const(fmt.Sprintf("lockof:obj%d:%v", p.Obj, p.Path), SRef)
	}
	return x.term(st, p)
}

func (x *Exec) lock(st *State, v Val, w bool, pos token.Pos) {
	c := x.c
	name, t := x.lockName(st, v, nil)
	for _, h := range st.held {
		if h.Name != name && h.T != t {
			continue
		}
		if !w && !h.W && false {
			continue
		}
		x.oblige(st, "locks", "lock "+name+" taken twice by the same call chain", c.Not(c.Eq(h.T, t)), pos)
	}
	x.emit(st, &Event{Kind: "lock", Name: name, Args: []Val{t}, ArgT: []types.Type{nil}, Pos: pos})
	st.held = append(append([]Held{}, st.held...), Held{t, name, w})
	x.acquire(st, name, t)
}

// acquire forgets the state the lock protects: other goroutines may have changed it.
func (x *Exec) acquire(st *State, name string, t *Term) {
	c := x.c
	for _, key := range x.eng.con.guardedBy[name] {
		owner := x.lockOwner(st, name, t)
		if owner == nil || !x.isShared(st, owner) {
			continue
		}
		tn, fi := x.eng.fieldOf(key)
		if tn == nil {
			continue
		}
		p := &PtrV{Ref: owner, T: tn, Path: []int{fi}}
		ft := x.pathType(tn, p.Path)
		mutable := x.eng.con.class(key) == "guarded"
		if mutable {
			sorts, names := leafSorts(ft), leafNames(ft)
			pn := x.pathNames(tn, p.Path)
			for i := range sorts {
				k := x.compFor(p, pn) + names[i]
				a := x.heapGet(st, k, arr(SRef, sorts[i]))
				st.heap[k] = c.Store(a, owner, c.FreshC("g", sorts[i]))
			}
			x.assumeWF(st, x.loadRaw(st, st.heap, st.objs, p), ft)
		}
		if _, ok := ft.Underlying().(*types.Map); ok {
			m := x.term(st, x.loadRaw(st, st.heap, st.objs, p))
			x.mapHavoc(st, ft, m)
		}
	}
	for _, inv := range x.eng.con.lockinv[name] {
		owner := x.lockOwner(st, name, t)
		if owner == nil {
			continue
		}
		env := x.specEnv(st)
		env.vars[inv.params[0]] = TV{owner, x.eng.ptrToOwner(name)}
		st.assume(x.evalBool(env, inv.expr))
	}
}

// lockOwner finds the object whose field the mutex is.
func (x *Exec) lockOwner(st *State, name string, t *Term) *Term {
	if t.Op == "app" && strings.HasPrefix(t.Name, "fld:") {
		return t.Args[0]
	}
	if _, o := ownedMap(t); o != nil {
		return o
	}
	return nil
}

func (x *Exec) unlock(st *State, v Val, w bool, pos token.Pos) {
	name, t := x.lockName(st, v, nil)
	for i := len(st.held) - 1; i >= 0; i-- {
		h := st.held[i]
		if h.T == t {
			x.oblige(st, "locks", "unlock of "+name+" in the mode it was locked", x.c.Bool(h.W == w), pos)
			// invariants protected by the lock hold again
			for _, inv := range x.eng.con.lockinv[name] {
				owner := x.lockOwner(st, name, t)
				if owner == nil || !h.W {
					continue
				}
				env := x.specEnv(st)
				env.vars[inv.params[0]] = TV{owner, x.eng.ptrToOwner(name)}
				x.obligeFrame(st, "inv", name, "invariant of "+name+": "+inv.src, x.evalBool(env, inv.expr), pos)
			}
			nh := append([]Held{}, st.held[:i]...)
			st.held = append(nh, st.held[i+1:]...)
			x.emit(st, &Event{Kind: "unlock", Name: name, Args: []Val{t}, ArgT: []types.Type{nil}, Pos: pos})
			return
		}
	}
	x.oblige(st, "locks", "unlock of "+name+" which is not held", x.c.False(), pos)
}

// access checks the locking discipline of a field access.
func (x *Exec) access(st *State, p *PtrV, w bool, pos token.Pos) {
	if p.Ref == nil || len(p.Path) == 0 || x.inits {
		return
	}
	key := x.fieldKey(p)
	lk := x.eng.con.guards[key]
	if conf := x.eng.con.confined[key]; conf != nil {
		x.checkConfined(st, key, conf, pos)
	}
	if lk == "" || x.eng.con.class(key) != "guarded" {
		return
	}
	if !x.isShared(st, p.Ref) {
		return
	}
	x.checkHeld(st, key, lk, p.Ref, w, pos)
}

func (x *Exec) checkConfined(st *State, key string, fns map[string]bool, pos token.Pos) {
	for _, f := range st.frames {
		if fns[x.eng.fnName(f.fn)] {
			return
		}
	}
	x.obligeFrame(st, "locks", key, key+" is used outside its goroutine", x.c.False(), pos)
}

func (x *Exec) checkHeld(st *State, key, lk string, owner *Term, w bool, pos token.Pos) {
	tn, fi := x.eng.fieldOf(lk)
	if tn == nil {
		x.oblige(st, "locks", "lock "+lk+" of "+key+" exists", x.c.False(), pos)
		return
	}
	ft := tn.Underlying().(*types.Struct).Field(fi).Type()
	var want *Term
	if _, isPtr := ft.Underlying().(*types.Pointer); isPtr {
		want = x.term(st, x.loadRaw(st, st.heap, st.objs, &PtrV{Ref: owner, T: tn, Path: []int{fi}}))
	} else {
		want = x.c.App("fld:"+lk, SRef, owner)
	}
	for _, h := range st.held {
		if h.Name != lk || w && !h.W {
			continue
		}
		if h.T == want || x.proves(st, x.c.Eq(h.T, want)) {
			x.obligeFrame(st, "locks", key, "access to "+key, x.c.True(), pos)
			return
		}
	}
	what := "read"
	if w {
		what = "write"
	}
	x.obligeFrame(st, "locks", key, what+" of "+key+" without "+lk, x.c.False(), pos)
}

func (x *Exec) mapAccess(st *State, mt types.Type, m *Term, w bool, pos token.Pos) {
	if x.inits {
		return
	}
	key, owner := x.mapOwner(st, m)
	if key == "" || owner == nil {
		if w && x.isShared(st, m) {
			if _, ok := types.Unalias(mt).(*types.Named); ok && isRepoTypeName(mt) && !x.eng.con.mapWriter(typeName(mt), st, x) {
				x.obligeFrame(st, "frame", typeName(mt), "write to a published "+typeName(mt), x.c.False(), pos)
			}
		}
		return
	}
	if conf := x.eng.con.confined[key]; conf != nil {
		x.checkConfined(st, key, conf, pos)
		if ws := x.eng.con.mapwr[key]; w && ws != nil && !x.eng.con.onStack(ws, st, x) {
			x.obligeFrame(st, "frame", key, "write to the map "+key+" outside "+strings.Join(ws, ", "), x.c.False(), pos)
		}
		return
	}
	lk := x.eng.con.guards[key]
	if !x.isShared(st, owner) || strings.HasPrefix(owner.Name, "obj:") {
		return
	}
	if lk == "" {
		if w && !x.eng.con.mapWriter(key, st, x) {
			x.obligeFrame(st, "frame", key, "write to the map "+key+" of a published object", x.c.False(), pos)
		}
		return
	}
	x.checkHeld(st, key+"[]", lk, owner, w, pos)
	if ws := x.eng.con.mapwr[key]; w && ws != nil && !x.eng.con.onStack(ws, st, x) {
		x.obligeFrame(st, "frame", key, "write to the map "+key+" outside "+strings.Join(ws, ", "), x.c.False(), pos)
	}
}

func (x *Exec) mapInvAssume(st *State, mt types.Type, m, k *Term, v Val) {
	key, owner := x.mapOwner(st, m)
	name := key
	if key == "" {
		name = "type:" + typeName(mt)
		owner = m
	}
	if x.eng.con.ownent[name] {
		// only the call that created an object enters it in the map
		t, _ := v.(*Term)
		for r := range st.shared {
			if t == nil || r.Sort != t.Sort || r == t {
				continue
			}
			mine := false
			for _, e := range st.trace {
				if e.Kind == "mapset" && e.Name == name {
					if s, ok := e.Args[2].(*Term); !ok || s == r {
						mine = true
					}
				}
				if e.Kind == "loophead" && e.Kinds["mapset:"+name] {
					mine = true
				}
			}
			if !mine {
				st.assume(x.c.Not(x.c.Eq(t, r)))
			}
		}
	}
	for _, inv := range x.eng.con.mapinv[name] {
		env := x.specEnv(st)
		kt, et := mapKV(mt)
		env.vars[inv.params[0]] = TV{owner, x.eng.ptrToOwner(key)}
		env.vars[inv.params[1]] = TV{k, kt}
		env.vars[inv.params[2]] = TV{v, et}
		st.assume(x.evalBool(env, inv.expr))
	}
}

func (x *Exec) mapInvCheck(st *State, mt types.Type, m, k *Term, v Val, pos token.Pos) {
	if x.inits {
		return
	}
	key, owner := x.mapOwner(st, m)
	name := key
	if key == "" {
		return // values of the configuration maps are the user's
	}
	if x.eng.con.ownent[name] {
		x.obligeFrame(st, "inv", name, "entry of "+name+" is created by this call", x.c.Bool(x.term(st, v).Fresh), pos)
	}
	for _, inv := range x.eng.con.mapinv[name] {
		if strings.HasPrefix(owner.Name, "obj:") {
			// the owner is still local: give it its reference
			var id int
			fmt.Sscanf(owner.Name, "obj:%d", &id)
			owner = x.materialise(st, id)
		}
		env := x.specEnv(st)
		kt, et := mapKV(mt)
		env.vars[inv.params[0]] = TV{owner, x.eng.ptrToOwner(key)}
		env.vars[inv.params[1]] = TV{k, kt}
		env.vars[inv.params[2]] = TV{v, et}
		x.obligeFrame(st, "inv", name, "entry of "+name+": "+inv.src, x.evalBool(env, inv.expr), pos)
	}
}

// funcTypeName names the type of a called function value; parameter names are not part of it.
func funcTypeName(t types.Type) string {
	sg, ok := types.Unalias(t).(*types.Signature)
	if !ok {
		return typeName(types.Unalias(t))
	}
	bare := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewParam(0, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return typeName(types.NewSignatureType(nil, nil, nil, bare(sg.Params()), bare(sg.Results()), sg.Variadic()))
}
