package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type noResultT struct{}

var noResult Val = noResultT{}

func isBuilder(t types.Type) bool { return false }

func isBuf(t types.Type) bool {
	n := typeName(t)
	return n == "strings.Builder" || n == "bytes.Buffer"
}

func (x *Exec) str(st *State, v Val) *Term {
	switch w := v.(type) {
	case BytesV:
		return w.S
	case *Term:
		return w
	}
	unsup("string of %T", v)
	return nil
}

// contains with the facts the engine knows about the functions it models.
func (x *Exec) contains(st *State, s, p *Term) *Term {
	c := x.c
	if p.Op == "str" && len(p.Name) > 0 {
		if st != nil && s.Op != "str" && st.pcset[c.Eq(s, c.Str(""))] {
			return c.False()
		}
		if s.Op == "app" {
			switch s.Name {
			case "dec":
				if strings.Trim(p.Name, "0123456789") != "" {
					return c.False()
				}
			case "replaceall":
				o, n := s.Args[1], s.Args[2]
				if len(p.Name) == 1 && o == p && n.Op == "str" && !strings.Contains(n.Name, p.Name) {
					return c.False()
				}
				if len(p.Name) == 1 && o.Op == "str" && o != p && n.Op == "str" && len(o.Name) == 1 {
					// p survives exactly where it was, or comes with the replacement
					base := x.contains(st, s.Args[0], p)
					if strings.Contains(n.Name, p.Name) {
						return c.Or(base, x.contains(st, s.Args[0], o))
					}
					return base
				}
			case "substr":
				if st != nil && x.lacks(st, s.Args[0], p) {
					return c.False()
				}
			case "cat":
				if len(p.Name) == 1 {
					var ds []*Term
					for _, a := range s.Args {
						ds = append(ds, x.contains(st, a, p))
					}
					return c.Or(ds...)
				}
			}
		}
	}
	return c.Contains(s, p)
}

// lacks: s provably does not contain p.
func (x *Exec) lacks(st *State, s, p *Term) bool {
	t := x.contains(st, s, p)
	return t.isFalse() || st.pcset[x.c.Not(t)] || !t.isTrue() && x.proves(st, x.c.Not(t))
}

func (x *Exec) replaceAll(st *State, s, o, n *Term) *Term {
	c := x.c
	if o.Op == "str" && o.Name != "" {
		if s.Op == "app" && s.Name == "replaceall" && s.Args[1] == n && s.Args[2] == o && n.Op == "str" {
			// undoing an earlier replacement
			a := s.Args[0]
			for t := range st.pcset {
				if t.Op == "not" && t.Args[0].Op == "app" && t.Args[0].Name == "contains" && t.Args[0].Args[0] == a && t.Args[0].Args[1].Op == "str" {
					r := t.Args[0].Args[1].Name
					if x.roundTrip(n.Name, o.Name, r) {
						return a
					}
				}
			}
		}
		if s.Op == "str" && n.Op == "str" {
			return c.ReplaceAll(s, o, n)
		}
	}
	return c.ReplaceAll(s, o, n)
}

// roundTrip proves with the string solver that replacing one by mark and mark back by one restores any text without res.
// The induction: the first mark in a+mark+r, for a without one and without res, is the one after a.
func (x *Exec) roundTrip(one, mark, res string) bool {
	key := one + "\x00" + mark + "\x00" + res
	if r, ok := x.lemmas[key]; ok {
		return r == "unsat"
	}
	if len(one) != 1 || strings.Contains(mark, one) || !strings.Contains(mark, res) || res == "" {
		x.lemmas[key] = "no"
		return false
	}
	c := NewCtx()
	a, r := c.Const("a", SStr), c.Const("r", SStr)
	M := c.Str(mark)
	hyp := []*Term{
		c.Not(c.App("contains", SBool, a, c.Str(res))),
		c.Not(c.App("contains", SBool, a, c.Str(one))),
		c.Not(c.Eq(c.App("indexof", SInt, c.App("cat", SStr, a, M, r), M), c.App("slen", SInt, a))),
	}
	s := NewSolver("cvc5n", 60000)
	res1, _ := s.Check(c, hyp, nil)
	x.extraTime += s.Time
	s.Close()
	x.lemmas[key] = res1
	x.lemmaSrc = append(x.lemmaSrc, fmt.Sprintf("string lemma: first %q in a+%q+r is after a, for a without %q and %q: %s (cvc5 strings)", mark, mark, res, one, res1))
	return res1 == "unsat"
}

func (x *Exec) errNew(st *State, text *Term) *Term {
	r := x.c.FreshRef("error")
	b := x.c.App("box:*errors.errorString", SIface, r)
	st.assume(x.c.Eq(x.c.App("errtext", SStr, b), text))
	return b
}

func (x *Exec) varargs(st *State, v Val) ([]*Term, bool) {
	s, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	n, ok := s.Len.int64()
	if !ok {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, x.term(st, x.loadRaw(st, st.heap, st.objs, &PtrV{Slice: s, Idx: x.c.Int(i), T: s.Elem})))
	}
	return out, true
}

// atomTarget names the memory an atomic operation works on.
func (x *Exec) atomTarget(st *State, v Val, pt types.Type) (*PtrV, string) {
	p := x.ptrOf(st, v, pt)
	x.nonNil(st, p, token.NoPos)
	if p.Glob != "" {
		return p, "global." + p.Glob
	}
	k := x.fieldKey(p)
	if k == "" && p.Ref != nil {
		k, _ = x.mapOwner(st, p.Ref) // a cell pointed to by a field
	}
	if k == "" {
		k = "cell"
	}
	return p, k
}

func (x *Exec) atomRef(st *State, p *PtrV) Val {
	if p.Obj > 0 && st.objs[p.Obj].Ref == nil {
		return x.c.Const(fmt.Sprintf("obj:%d", p.Obj), SRef)
	}
	if p.Ref != nil {
		if len(p.Path) == 0 {
			if _, o := x.mapOwner(st, p.Ref); o != nil {
				return o
			}
		}
		return p.Ref
	}
	return x.term(st, p)
}

func (x *Exec) atomLocal(st *State, p *PtrV) bool {
	if p.Obj > 0 {
		o := st.objs[p.Obj]
		return o.Ref == nil || !x.isShared(st, o.Ref)
	}
	return p.Ref != nil && !x.isShared(st, p.Ref)
}

func (x *Exec) atomicOp(st *State, op string, args []Val, argT []types.Type, vt types.Type, pos token.Pos) Val {
	c := x.c
	p, key := x.atomTarget(st, args[0], argT[0])
	ev := &Event{Kind: op, Name: key, Args: []Val{x.atomRef(st, p)}, ArgT: []types.Type{types.NewPointer(p.T)}, Pos: pos}
	for _, a := range args[1:] {
		ev.Args = append(ev.Args, a)
		ev.ArgT = append(ev.ArgT, vt)
	}
	local := x.atomLocal(st, p) && len(p.Path) > 0 && !isOpaque(x.pathType(p.T, p.Path))
	fresh := func(h string) Val {
		v := x.fresh(st, h, vt)
		for _, inv := range x.eng.con.atominv[key] {
			env := x.specEnv(st)
			env.vars = map[string]TV{inv.params[0]: {ev.Args[0], ev.ArgT[0]}, inv.params[1]: {v, vt}}
			st.assume(x.evalBool(env, inv.expr))
		}
		return v
	}
	checkInv := func(v Val) {
		for _, inv := range x.eng.con.atominv[key] {
			env := x.specEnv(st)
			env.vars = map[string]TV{inv.params[0]: {ev.Args[0], ev.ArgT[0]}, inv.params[1]: {v, vt}}
			x.obligeFrame(st, "inv", key, "value of "+key+": "+inv.src, x.evalBool(env, inv.expr), pos)
		}
	}
	cur := func() Val { return x.loadRaw(st, st.heap, st.objs, p) }
	put := func(v Val) {
		if local {
			x.storeRaw(st, p, v)
		}
	}
	var r Val
	switch op {
	case "load":
		if local {
			r = cur()
		} else {
			r = fresh("ld")
		}
		ev.Res, ev.ResT = r, vt
	case "store":
		checkInv(args[1])
		put(args[1])
	case "swap":
		checkInv(args[1])
		if local {
			r = cur()
			put(args[1])
		} else {
			r = fresh("sw")
		}
		ev.Res, ev.ResT = r, vt
	case "add":
		if local {
			r = x.wrap(c.Add(x.term(st, cur()), x.term(st, args[1])), vt)
			put(r)
		} else {
			r = x.fresh(st, "add", vt)
		}
		ev.Res, ev.ResT = r, vt
	case "cas":
		checkInv(args[2])
		ok := c.FreshC("cas", SBool)
		if local {
			ok = x.valEq(st, cur(), args[1])
			if ok.isTrue() {
				put(args[2])
			} else if !ok.isFalse() {
				unsup("cas on a local")
			}
		}
		r = ok
		ev.Res, ev.ResT = r, types.Typ[types.Bool]
	}
	x.emit(st, ev)
	if r == nil {
		return noResult
	}
	return r
}

func (x *Exec) bufGet(st *State, r *Term) *Term {
	a := x.heapGet(st, "B:content", arr(SRef, SStr))
	return x.c.Select(a, r)
}

func (x *Exec) bufSet(st *State, r, s *Term) {
	a := x.heapGet(st, "B:content", arr(SRef, SStr))
	st.heap["B:content"] = x.c.Store(a, r, s)
}

func (x *Exec) libCall(st *State, fn *ssa.Function, args []Val, argT []types.Type, retTo ssa.Value, pos token.Pos) (Val, bool) {
	c := x.c
	if x.eng.isRepoFn(fn) {
		return nil, false
	}
	name := fn.String()
	ret := func(v Val) (Val, bool) { return v, true }
	bs := func(s *Term) Val { return BytesV{c.False(), s} }
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		x.lock(st, args[0], true, pos)
		return noResult, true
	case "(*sync.RWMutex).RLock":
		x.lock(st, args[0], false, pos)
		return noResult, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		x.unlock(st, args[0], true, pos)
		return noResult, true
	case "(*sync.RWMutex).RUnlock":
		x.unlock(st, args[0], false, pos)
		return noResult, true
	case "(*sync.Once).Do":
		// the first call decides like a successful compare-and-swap; the others wait for it
		run := c.FreshC("once", SBool)
		op, key := x.atomTarget(st, args[0], argT[0])
		x.emit(st, &Event{Kind: "cas", Name: key, Args: []Val{x.atomRef(st, op), c.Int(0), c.Int(1)}, ArgT: []types.Type{types.NewPointer(op.T), types.Typ[types.Uint32], types.Typ[types.Uint32]}, Res: run, ResT: types.Typ[types.Bool], Pos: pos})
		cl, ok := args[1].(*ClosureV)
		if !ok {
			unsup("once with an unknown function")
		}
		x.fork(st, run, func(s *State) { x.callFn(s, cl.Fn, cl.Bind, nil, nil, nil, pos) }, func(s *State) {})
		return noResult, true
	case "(*sync.WaitGroup).Wait":
		x.emit(st, &Event{Kind: "wait", Name: "waitgroup", Args: []Val{x.term(st, args[0])}, ArgT: []types.Type{argT[0]}, Pos: pos})
		return noResult, true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "time.Sleep", "runtime.Gosched":
		x.emit(st, &Event{Kind: "ext", Name: name, Args: args, ArgT: argT, Pos: pos})
		return noResult, true
	case "strings.Replace", "bytes.Replace":
		if n, ok := x.term(st, args[3]).int64(); ok && n < 0 {
			s := x.replaceAll(st, x.str(st, args[0]), x.str(st, args[1]), x.str(st, args[2]))
			if name == "bytes.Replace" {
				return ret(bs(s))
			}
			return ret(s)
		}
	case "strings.ReplaceAll":
		return ret(x.replaceAll(st, x.str(st, args[0]), x.str(st, args[1]), x.str(st, args[2])))
	case "bytes.ReplaceAll":
		return ret(bs(x.replaceAll(st, x.str(st, args[0]), x.str(st, args[1]), x.str(st, args[2]))))
	case "strings.HasPrefix", "bytes.HasPrefix":
		return ret(c.Prefix(x.str(st, args[0]), x.str(st, args[1])))
	case "strings.HasSuffix", "bytes.HasSuffix":
		a, b := x.str(st, args[0]), x.str(st, args[1])
		if a.Op == "str" && b.Op == "str" {
			return ret(c.Bool(strings.HasSuffix(a.Name, b.Name)))
		}
		return ret(c.App("suffixof", SBool, a, b))
	case "strings.Contains", "bytes.Contains":
		return ret(x.contains(st, x.str(st, args[0]), x.str(st, args[1])))
	case "strings.ContainsRune":
		if n, ok := x.term(st, args[1]).int64(); ok {
			return ret(x.contains(st, x.str(st, args[0]), c.Str(string(rune(n)))))
		}
	case "strings.TrimPrefix":
		s, p := x.str(st, args[0]), x.str(st, args[1])
		has := c.Prefix(s, p)
		if has.isFalse() {
			return ret(s)
		}
		cut := x.substr(st, s, c.Len(p), c.Len(s))
		return ret(c.Ite(has, cut, s))
	case "strings.Join", "bytes.Join":
		sv, ok := args[0].(*SliceV)
		if !ok {
			break
		}
		n, ok := sv.Len.int64()
		if !ok {
			break
		}
		sep := x.str(st, args[1])
		var parts []*Term
		for i := int64(0); i < n; i++ {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, x.str(st, x.loadRaw(st, st.heap, st.objs, &PtrV{Slice: sv, Idx: c.Int(i), T: sv.Elem})))
		}
		if name == "bytes.Join" {
			return ret(bs(c.Cat(parts...)))
		}
		return ret(c.Cat(parts...))
	case "bytes.Equal":
		return ret(c.Eq(x.str(st, args[0]), x.str(st, args[1])))
	case "bytes.Repeat", "strings.Repeat":
		s := x.str(st, args[0])
		n, ok := x.term(st, args[1]).int64()
		if ok && n >= 0 && n < 100 {
			var ps []*Term
			for i := int64(0); i < n; i++ {
				ps = append(ps, s)
			}
			if name == "bytes.Repeat" {
				return ret(bs(c.Cat(ps...)))
			}
			return ret(c.Cat(ps...))
		}
	case "bytes.SplitN", "strings.SplitN", "bytes.Split", "strings.Split":
		n := int64(-1)
		if strings.HasSuffix(name, "N") {
			k, ok := x.term(st, args[2]).int64()
			if !ok {
				break
			}
			n = k
		}
		sep := x.str(st, args[1])
		if sep.Op != "str" || len(sep.Name) != 1 || n < 1 || n > 16 {
			break
		}
		et := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		x.splitN(st, x.str(st, args[0]), sep, int(n), et, nil, retTo)
		return noResult, true
	case "strings.Cut", "bytes.Cut":
		sep := x.str(st, args[1])
		if sep.Op != "str" || len(sep.Name) != 1 || retTo == nil {
			break
		}
		s := x.str(st, args[0])
		isB := strings.HasPrefix(name, "bytes")
		w := func(t *Term) Val {
			if isB {
				return bs(t)
			}
			return t
		}
		x.cut(st, s, sep, func(q *State, h, t *Term) {
			x.set(q, retTo, TupleV{w(h), w(t), c.True()})
		}, func(q *State) {
			x.set(q, retTo, TupleV{w(s), x.zero(fn.Signature.Results().At(1).Type()), c.False()})
		})
		return noResult, true
	case "strings.EqualFold", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Index", "strings.IndexByte", "strings.LastIndexByte", "strings.LastIndex", "strings.TrimSuffix", "strings.Trim", "bytes.Index", "bytes.IndexByte", "bytes.Count", "strings.Count",
		"net/http.CanonicalHeaderKey", "net/http.StatusText", "(time.Time).Add", "(time.Time).Before", "(time.Time).After", "(time.Time).Sub", "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).IsZero":
		r := x.pureApp(st, name, sigResult(fn.Signature), args)
		if name == "net/http.CanonicalHeaderKey" {
			st.assume(c.Eq(c.Len(r.(*Term)), c.Len(x.str(st, args[0]))))
		}
		// times are points on one line, read off by an uninterpreted function of the value.
		switch name {
		case "(time.Time).Add":
			st.assume(c.Eq(x.instant(st, r), c.Add(x.instant(st, args[0]), x.term(st, args[1]))))
		case "(time.Time).Sub":
			st.assume(c.Eq(r.(*Term), c.Sub(x.instant(st, args[0]), x.instant(st, args[1]))))
		case "(time.Time).Before":
			st.assume(c.Eq(r.(*Term), c.Lt(x.instant(st, args[0]), x.instant(st, args[1]))))
		case "(time.Time).After":
			st.assume(c.Eq(r.(*Term), c.Lt(x.instant(st, args[1]), x.instant(st, args[0]))))
		}
		if strings.Contains(name, "Index") {
			st.assume(c.Le(c.Int(-1), r.(*Term)))
			st.assume(c.Lt(r.(*Term), c.Add(c.Len(x.str(st, args[0])), c.Int(1))))
		}
		return ret(r)
	case "time.Until", "time.Since":
		// the distance to a reading of the clock
		tt := fn.Signature.Params().At(0).Type()
		now := x.fresh(st, "Now", tt)
		x.emit(st, &Event{Kind: "ext", Name: "time.Now", Res: now, ResT: tt, Pos: pos})
		d := c.Sub(x.instant(st, args[0]), x.instant(st, now))
		if name == "time.Since" {
			d = c.Sub(x.instant(st, now), x.instant(st, args[0]))
		}
		return ret(d)
	case "(github.com/gobwas/ws.OpCode).IsData":
		t := x.term(st, args[0])
		return ret(c.Not(c.And(c.Le(c.Int(8), t), c.Lt(t, c.Int(16)))))
	case "(github.com/gobwas/ws.OpCode).IsReserved":
		t := x.term(st, args[0])
		return ret(c.Or(c.And(c.Le(c.Int(3), t), c.Le(t, c.Int(7))), c.And(c.Le(c.Int(11), t), c.Le(t, c.Int(15)))))
	case "(github.com/gobwas/ws.OpCode).IsControl":
		t := x.term(st, args[0])
		return ret(c.And(c.Le(c.Int(8), t), c.Lt(t, c.Int(16))))
	case "strconv.FormatUint", "strconv.FormatInt":
		if b, ok := x.term(st, args[1]).int64(); ok {
			t := x.term(st, args[0])
			if name == "strconv.FormatInt" {
				return ret(c.App("decs", SStr, t))
			}
			if b == 10 {
				return ret(c.App("dec", SStr, t))
			}
			return ret(c.App(fmt.Sprintf("fmtuint%d", b), SStr, t))
		}
	case "strconv.Itoa":
		return ret(c.App("decs", SStr, x.term(st, args[0])))
	case "errors.New":
		return ret(x.errNew(st, x.str(st, args[0])))
	case "fmt.Errorf":
		if as, ok := x.varargs(st, args[1]); ok {
			return ret(x.errNew(st, c.App("sprintf", SStr, append([]*Term{x.str(st, args[0])}, as...)...)))
		}
		return ret(x.errNew(st, c.FreshC("errorf", SStr)))
	case "errors.Is":
		a, b := x.term(st, args[0]), x.term(st, args[1])
		if a == c.NilI() || b == c.NilI() {
			return ret(c.Eq(a, b))
		}
		u := c.App("errorsIs", SBool, a, b)
		if isBox(a) && a.Name == "box:*errors.errorString" {
			return ret(c.Eq(a, b))
		}
		return ret(c.Or(c.Eq(a, b), c.And(c.Not(c.Eq(a, c.NilI())), u)))
	case "fmt.Sprintf":
		if as, ok := x.varargs(st, args[1]); ok {
			f := x.str(st, args[0])
			if f.Op == "str" && f.Name == "%d" && len(as) == 1 {
				if a := as[0]; isBox(a) && strings.HasPrefix(a.Name, "box:uint") && len(a.Args) == 1 && a.Args[0].Sort == SInt {
					return ret(c.App("dec", SStr, a.Args[0]))
				}
			}
			r := c.App("sprintf", SStr, append([]*Term{f}, as...)...)
			if f.Op == "str" {
				if lit := f.Name; strings.IndexByte(lit, '%') > 0 {
					// the text before the first verb comes first
					lit = lit[:strings.IndexByte(lit, '%')]
					st.assume(c.Eq(r, c.Cat(c.Str(lit), c.FreshC("formatted", SStr))))
				}
			}
			return ret(r)
		}
	case "fmt.Sprint":
		if as, ok := x.varargs(st, args[0]); ok {
			return ret(c.App("sprint", SStr, as...))
		}
	case "context.Background", "context.TODO":
		return ret(c.App("box:ctx", SIface, c.Const("glob:"+name, SRef)))
	case "reflect.ValueOf", "reflect.TypeOf", "reflect.Indirect":
		return ret(x.pureApp(st, name, sigResult(fn.Signature), args))
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		op := name[len("sync/atomic."):]
		for _, o := range [][2]string{{"Load", "load"}, {"Store", "store"}, {"Add", "add"}, {"CompareAndSwap", "cas"}, {"Swap", "swap"}} {
			if strings.HasPrefix(op, o[0]) {
				vt := argT[0].Underlying().(*types.Pointer).Elem()
				return x.atomicOp(st, o[1], args, argT, vt, pos), true
			}
		}
	}
	if strings.HasPrefix(name, "(*sync/atomic.") {
		i := strings.Index(name, ").")
		tn := name[len("(*sync/atomic."):i]
		vt := map[string]types.Type{"Bool": types.Typ[types.Bool], "Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64]}[tn]
		if vt != nil {
			op := map[string]string{"Load": "load", "Store": "store", "Add": "add", "CompareAndSwap": "cas", "Swap": "swap"}[name[i+2:]]
			if op != "" && tn == "Bool" {
				// a flag: kept as 0 and 1 like the integer cells
				vt = types.Typ[types.Uint32]
				as := append([]Val{}, args...)
				for i := 1; i < len(as); i++ {
					as[i] = c.Ite(x.term(st, as[i]), c.Int(1), c.Int(0))
				}
				r := x.atomicOp(st, op, as, argT, vt, pos)
				if t, ok := r.(*Term); ok && op != "cas" {
					st.assume(c.Or(c.Eq(t, c.Int(0)), c.Eq(t, c.Int(1))))
					return c.Not(c.Eq(t, c.Int(0))), true
				}
				return r, true
			}
			if op != "" {
				return x.atomicOp(st, op, args, argT, vt, pos), true
			}
		}
	}
	if i := strings.Index(name, ")."); i > 0 && (name[:i] == "(*strings.Builder" || name[:i] == "(*bytes.Buffer") {
		if r, ok := args[0].(*Term); ok && r.Fresh {
			cur := x.bufGet(st, r)
			switch name[i+2:] {
			case "WriteString", "Write":
				s := x.str(st, args[1])
				x.bufSet(st, r, c.Cat(cur, s))
				return ret(TupleV{c.Len(s), c.NilI()})
			case "WriteByte":
				x.bufSet(st, r, c.Cat(cur, x.byteStr(st, x.term(st, args[1]))))
				return ret(c.NilI())
			case "WriteRune":
				if n, ok := x.term(st, args[1]).int64(); ok {
					s := c.Str(string(rune(n)))
					x.bufSet(st, r, c.Cat(cur, s))
					return ret(TupleV{c.Len(s), c.NilI()})
				}
			case "String":
				return ret(cur)
			case "Bytes":
				return ret(bs(cur))
			case "Len":
				return ret(c.Len(cur))
			case "Reset":
				x.bufSet(st, r, c.Str(""))
				return noResult, true
			case "Grow":
				return noResult, true
			}
		}
	}
	return nil, false
}

// cut splits s at the first sep (one character).
func (x *Exec) cut(st *State, s, sep *Term, yes func(*State, *Term, *Term), no func(*State)) {
	c := x.c
	// syntactic: leading parts free of sep, then a literal with sep
	parts := []*Term{s}
	if s.Op == "app" && s.Name == "cat" {
		parts = s.Args
	}
	var head []*Term
	for i, p := range parts {
		if p.Op == "str" {
			if k := strings.Index(p.Name, sep.Name); k >= 0 {
				h := append(append([]*Term{}, head...), c.Str(p.Name[:k]))
				t := append([]*Term{c.Str(p.Name[k+1:])}, parts[i+1:]...)
				yes(st, c.Cat(h...), c.Cat(t...))
				return
			}
			head = append(head, p)
			continue
		}
		if !x.lacks(st, p, sep) {
			break
		}
		head = append(head, p)
		if i == len(parts)-1 {
			no(st)
			return
		}
	}
	has := x.contains(st, s, sep)
	if has.isFalse() {
		no(st)
		return
	}
	x.fork(st, has, func(q *State) {
		h, t := c.App("shead", SStr, s, sep), c.App("stail", SStr, s, sep)
		q.assume(c.Eq(s, c.Cat(h, sep, t)))
		q.assume(c.Not(c.Contains(h, sep)))
		yes(q, h, t)
	}, no)
}

func (x *Exec) splitN(st *State, s, sep *Term, n int, et types.Type, acc []*Term, retTo ssa.Value) {
	c := x.c
	done := func(q *State, parts []*Term) {
		if retTo == nil {
			return
		}
		var vals []Val
		for _, p := range parts {
			if isByteSlice(et) {
				vals = append(vals, BytesV{c.False(), p})
			} else {
				vals = append(vals, p)
			}
		}
		x.set(q, retTo, x.mkSlice(q, et, vals))
	}
	if n == 1 {
		done(st, append(acc[:len(acc):len(acc)], s))
		return
	}
	x.cut(st, s, sep, func(q *State, h, t *Term) {
		x.splitN(q, t, sep, n-1, et, append(acc[:len(acc):len(acc)], h), retTo)
	}, func(q *State) {
		done(q, append(acc[:len(acc):len(acc)], s))
	})
}

func (x *Exec) instant(st *State, t Val) *Term {
	return x.c.App("time.instant", SInt, x.flatten(st, t)...)
}
