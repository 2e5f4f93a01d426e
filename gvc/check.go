package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// hasStr: does the query use string functions the native solver knows more about?
func hasStr(ts []*Term) bool {
	for _, t := range collect(ts) {
		if t.Op == "app" {
			switch t.Name {
			case "cat", "substr", "prefixof", "contains", "replaceall", "at", "shead", "stail", "slen", "suffixof", "chr":
				return true
			}
		}
	}
	return false
}

// provesAny tries the back ends in turn.
func (x *Exec) provesAny(st *State, t *Term) bool {
	if t.isTrue() || st.pcset[t] || st.dead {
		return true
	}
	as := append(append([]*Term{}, st.pc...), x.c.Not(t))
	r, _ := x.s.Check(x.c, as, nil)
	if r == "unsat" {
		return true
	}
	rel := as
	if hasStr([]*Term{t}) || r == "unknown" && hasStr(as) {
		if x.sn == nil {
			x.sn = NewSolver("cvc5n", 10000)
		}
		rel = relevant(x.c, st.pc, x.c.Not(t))
		r, _ = x.sn.Check(x.c, rel, nil)
		return r == "unsat"
	}
	return false
}

// relevant keeps the conjuncts connected to the goal through shared constants.
func relevant(c *Ctx, pc []*Term, goal *Term) []*Term {
	consts := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		for _, s := range collect([]*Term{t}) {
			if s.Op == "const" && s != c.NilRef() && s != c.NilI() && s != c.NilF() {
				m[s] = true
			}
		}
		return m
	}
	have := consts(goal)
	used := make([]bool, len(pc))
	sets := make([]map[*Term]bool, len(pc))
	for i, p := range pc {
		sets[i] = consts(p)
	}
	for changed := true; changed; {
		changed = false
		for i := range pc {
			if used[i] {
				continue
			}
			for k := range sets[i] {
				if have[k] {
					used[i] = true
					changed = true
					for k2 := range sets[i] {
						have[k2] = true
					}
					break
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return append(out, goal)
}

func (x *Exec) obl(name, clause string, tags []string) *Obl {
	o := x.obls[name]
	if o == nil {
		o = &Obl{Name: name, Clause: clause, Tags: tags, Solvers: map[string]int{}}
		x.obls[name] = o
		x.order = append(x.order, name)
	}
	return o
}

func (x *Exec) rootName() string {
	if x.root == nil {
		return "?"
	}
	return x.root.Name
}

// oblige records an implicit obligation (safety, locks, frame, preconditions, invariants).
func (x *Exec) oblige(st *State, label, text string, cond *Term, pos token.Pos) {
	if x.dry > 0 || x.inits || x.root == nil || st.dead {
		return
	}
	if label == "safe" && x.root.NoSafe {
		return
	}
	pos = x.curPosSafe(st, pos)
	name := fmt.Sprintf("%s/%s: %s @%s", x.rootName(), label, text, x.posStr(pos))
	var tags []string
	switch label {
	case "locks":
		tags = append([]string{"C22"}, x.eng.con.about[strings.TrimSuffix(x.about, "[]")]...)
		if strings.HasPrefix(text, "lock ") && strings.HasSuffix(text, "call chain") || strings.HasPrefix(text, "call of ") {
			tags = append(tags, "C23")
		}
	case "nolocks":
		tags = []string{"C23"}
	case "frame", "inv":
		tags = append([]string{"*"}, x.eng.con.about[x.about]...)
	default:
		tags = []string{"*"}
	}
	o := x.obl(name, text, tags)
	o.Label = label
	x.discharge(st, o, cond, pos)
}

// obligeFrame is oblige for an obligation about the named field or invariant.
func (x *Exec) obligeFrame(st *State, label, key, text string, cond *Term, pos token.Pos) {
	x.about = key
	x.oblige(st, label, text, cond, pos)
	x.about = ""
}

func (x *Exec) curPosSafe(st *State, pos token.Pos) token.Pos {
	if pos != token.NoPos || len(st.frames) == 0 {
		return pos
	}
	return x.curPos(st, pos)
}

func (x *Exec) obligeClause(st *State, cl *Clause, env *Env, kind string, pos token.Pos) {
	name := fmt.Sprintf("%s/%s:%s", x.rootName(), kind, cl.Label)
	o := x.obl(name, cl.Src, cl.Tags)
	o.Label = kind
	var cond *Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					o.Why = u.msg
					cond = x.c.False()
					return
				}
				if verbose {
					panic(r)
				}
				o.Why = fmt.Sprint("the clause does not fit the code: ", r)
				cond = x.c.False()
			}
		}()
		cond = x.evalBool(env, cl.Expr)
	}()
	x.discharge(st, o, cond, pos)
}

func (x *Exec) discharge(st *State, o *Obl, cond *Term, pos token.Pos) {
	o.Checks++
	if o.Failed {
		return
	}
	if cond.isTrue() || st.pcset[cond] {
		o.Solvers["simplifier"]++
		return
	}
	parts := []*Term{cond}
	if cond.Op == "and" {
		parts = cond.Args
	}
	for _, p := range parts {
		if p.isTrue() || st.pcset[p] {
			continue
		}
		as := append(append([]*Term{}, st.pc...), x.c.Not(p))
		r, _ := x.s.Check(x.c, as, nil)
		by := "z3"
		if r != "unsat" && !(r == "sat" && !hasStr([]*Term{p})) {
			if hasStr(as) {
				if x.sn == nil {
					x.sn = NewSolver("cvc5n", 10000*x.scale())
				}
				rel := relevant(x.c, st.pc, x.c.Not(p))
				if r2, _ := x.sn.Check(x.c, rel, nil); r2 == "unsat" || r == "unknown" {
					r, by = r2, "cvc5-strings"
				}
			}
			if r == "unknown" {
				if x.s2 == nil {
					x.s2 = NewSolver("cvc5", 20000*x.scale())
				}
				r, _ = x.s2.Check(x.c, as, nil)
				by = "cvc5"
			}
		}
		if r == "unsat" {
			o.Solvers[by]++
			if thorough && by == "z3" {
				if x.s2 == nil {
					x.s2 = NewSolver("cvc5", 20000)
				}
				r2, _ := x.s2.Check(x.c, as, nil)
				switch r2 {
				case "unsat":
					o.CrossOK++
				case "unknown":
					o.CrossUnk++
				default:
					o.CrossBad++
				}
			}
			continue
		}
		// failed
		o.Failed = true
		o.Undec = r == "unknown"
		o.Goal = p.String()
		o.Pos = x.posStr(x.curPosSafe(st, pos))
		var vals []*Term
		var names []string
		for _, pn := range x.modelTerms(st) {
			vals = append(vals, pn.t)
			names = append(names, pn.n)
		}
		if r == "sat" {
			_, ms := x.s.Check(x.c, as, vals)
			for i, m := range ms {
				o.Model = append(o.Model, names[i]+" = "+m)
			}
		}
		for _, t := range st.pc {
			o.PC = append(o.PC, t.String())
		}
		for _, e := range st.trace {
			o.Path = append(o.Path, x.eventStr(st, e))
		}
		return
	}
}

func (x *Exec) scale() int {
	if thorough {
		return 6
	}
	return 1
}

var thorough bool

type namedTerm struct {
	n string
	t *Term
}

func (x *Exec) modelTerms(st *State) []namedTerm {
	var out []namedTerm
	var ks []string
	for k := range x.bindV {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		v := x.bindV[k]
		for i, l := range leavesOf(v.V) {
			if t, ok := l.(*Term); ok && !strings.HasPrefix(t.Sort, "(") {
				out = append(out, namedTerm{fmt.Sprintf("%s#%d", k, i), t})
			}
		}
	}
	return out
}

func (x *Exec) valStr(v Val) string {
	switch w := v.(type) {
	case nil:
		return "-"
	case *Term:
		s := w.String()
		if len(s) > 160 {
			s = s[:160] + "…"
		}
		return s
	case BytesV:
		return "bytes(" + x.valStr(w.S) + ")"
	case *SliceV:
		return "slice(len " + x.valStr(w.Len) + ")"
	case *StructV:
		var fs []string
		s := w.T.Underlying().(*types.Struct)
		for i, f := range w.F {
			fv := x.valStr(f)
			if fv == `""` || fv == "false" || fv == "0" || fv == "nilR" || fv == "nilI" || fv == "nilF" || fv == `bytes("")` {
				continue
			}
			fs = append(fs, s.Field(i).Name()+":"+fv)
		}
		return typeName(w.T) + "{" + strings.Join(fs, " ") + "}"
	case TupleV:
		var fs []string
		for _, f := range w {
			fs = append(fs, x.valStr(f))
		}
		return "(" + strings.Join(fs, ", ") + ")"
	case *PtrV:
		return fmt.Sprintf("&%s%v", typeName(w.T), w.Path)
	case *ClosureV:
		return "func " + w.Fn.Name()
	}
	return fmt.Sprintf("%T", v)
}

func (x *Exec) eventStr(st *State, e *Event) string {
	var as []string
	for _, a := range e.Args {
		as = append(as, x.valStr(a))
	}
	s := e.Kind + " " + e.Name + "(" + strings.Join(as, ", ") + ")"
	if e.Res != nil {
		s += " = " + x.valStr(e.Res)
	}
	if e.Kind == "loophead" {
		var ks []string
		for k := range e.Kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s += " {" + strings.Join(ks, " ") + "}"
	}
	if len(e.Held) > 0 {
		var hs []string
		for _, h := range e.Held {
			hs = append(hs, h.Name)
		}
		s += " [" + strings.Join(hs, ",") + "]"
	}
	if e.Async {
		s += " (go)"
	}
	return x.posStr(e.Pos) + " " + s
}

func (x *Exec) bindEvent(env *Env, d *EventDef, e *Event, i int) {
	ref := &EvRef{e, d, i}
	tv := TV{ref, nil}
	for _, p := range d.Params {
		if p == "_" {
			continue
		}
		env.vars[p] = x.field(env, tv, p)
	}
	for _, p := range strings.Split(d.Res, "+") {
		if p != "" && p != "_" && e.Res != nil {
			env.vars[p] = x.field(env, tv, p)
		}
	}
	env.vars["this"] = tv
}

func (x *Exec) checkOn(st *State, e *Event) {
	for i := range x.root.On {
		cl := &x.root.On[i]
		d := x.eng.con.events[cl.Event]
		if d == nil {
			panic("unknown event " + cl.Event + " in " + x.root.File)
		}
		if !d.match(e) {
			continue
		}
		env := x.specEnv(st)
		env.heap = e.Heap
		x.bindEvent(env, d, e, len(st.trace)-1)
		if cl.Label == "" {
			cl.Label = cl.Event
		}
		x.cover["on:"+cl.Label]++
		x.obligeClause(st, cl, env, "on", e.Pos)
	}
}

func (x *Exec) finish(st *State) {
	x.paths++
	if x.root.Lemma {
		return
	}
	if len(st.held) > 0 {
		var hs []string
		for _, h := range st.held {
			hs = append(hs, h.Name)
		}
		x.oblige(st, "locks", "locks released at return: "+strings.Join(hs, ","), x.c.False(), x.rootFn.Pos())
	} else if x.eng.hasLocks(x.rootFn) {
		x.oblige(st, "locks", "every lock is released at return", x.c.True(), x.rootFn.Pos())
	}
	if st.status == "panic" {
		return
	}
	for i := range x.root.Ensures {
		cl := &x.root.Ensures[i]
		env := x.specEnv(st)
		x.bindResultsRoot(env, st)
		x.obligeClause(st, cl, env, "ensures", x.rootFn.Pos())
	}
	for i, en := range x.root.Enumerates {
		cl := &x.root.EnumClause[i]
		env := x.specEnv(st)
		x.bindResultsRoot(env, st)
		o := x.obl(fmt.Sprintf("%s/enumerates:%s", x.rootName(), cl.Label), cl.Src, cl.Tags)
		ok := x.c.False()
		sv, ok1 := x.tryEval(env, en.a)
		mv, ok2 := x.tryEval(env, en.b)
		if ok1 && ok2 {
			s := sv.V.(*SliceV)
			m := x.term(st, mv.V)
			for _, f := range st.enums {
				if f.Keys == en.keys && f.Slice.Arr == s.Arr && f.Slice.Off == s.Off && f.Slice.Len == s.Len && (f.Map == m || x.proves(st, x.c.Eq(f.Map, m))) {
					ok = x.c.True()
				}
			}
			if !ok.isTrue() && x.proves(st, x.c.Eq(s.Len, x.c.Int(0))) && x.proves(st, x.c.Eq(x.mapLenIn(st.heap, mv.T, m), x.c.Int(0))) {
				ok = x.c.True()
			}
		}
		x.discharge(st, o, ok, x.rootFn.Pos())
	}
}

func (x *Exec) bindResultsRoot(env *Env, st *State) {
	if st.ret == nil {
		return
	}
	vars := env.vars
	x.bindResults(env, x.root, x.rootFn, st.ret)
	for k, v := range vars {
		if _, ok := env.vars[k]; !ok {
			env.vars[k] = v
		}
	}
}

func (e *Engine) hasLocks(fn *ssa.Function) bool { return len(e.locksOf(fn)) > 0 }

// ---- roots ----

type RootResult struct {
	Name    string
	File    string
	Tags    map[string]bool
	Obls    []*Obl
	Err     string
	Paths   int
	Turns   int
	Steps   int
	Events  int
	Queries int
	Solver  time.Duration
	Wall    time.Duration
	Inlined []string
	Hits    []string
	Lemmas  []string
	Trusted bool
	Lemma   bool
	NoCover []string
	Lo, Hi  int
	SrcFile string
}

func newExec(e *Engine) *Exec {
	x := &Exec{c: NewCtx(), eng: e, obls: map[string]*Obl{}, globs: map[string]Val{}, bindV: map[string]TV{}, lemmas: map[string]string{},
		fnhits: map[string]bool{}, warns: map[string]bool{}, cover: map[string]int{}, inlined: map[string]bool{}, coverN: map[string]int{}, impHit: map[ast.Expr]bool{}}
	for k := range e.owned {
		x.c.owned[k] = true
	}
	to := 10000
	if thorough {
		to = 60000
	}
	x.s = NewSolver("z3", to)
	return x
}

func (x *Exec) close() {
	for _, s := range []*Solver{x.s, x.sn, x.s2} {
		if s != nil {
			s.Close()
		}
	}
}

// initGlobals runs the package initialisers symbolically.
func (x *Exec) initGlobals() *State {
	x.inits = true
	st := newState()
	for _, p := range x.eng.pkgs {
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		st.status = ""
		st.frames = nil
		f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0]}
		st.frames = append(st.frames, f)
		base := len(x.work)
		x.initPath(st)
		x.work = x.work[:base]
		st.frames = nil
	}
	x.inits = false
	st.status = ""
	st.dead = false
	st.ret = nil
	st.trace = nil
	for k := range x.eng.stored {
		delete(x.globs, k)
	}
	var gs []string
	for g := range x.globs {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		x.shareVal(st, x.globs[g])
	}
	return st
}

// initPath runs one initialiser; the guard branch is the only decision and is taken towards running.
func (x *Exec) initPath(st *State) {
	for st.status == "" && !st.dead {
		x.steps++
		f := st.top()
		in := f.block.Instrs[f.pc]
		switch in := in.(type) {
		case *ssa.If:
			if len(st.frames) == 1 {
				f.pc++
				if u, ok := in.Cond.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && g.Name() == "init$guard" {
						x.jump(st, f.block.Succs[1])
						continue
					}
				}
				unsup("branch in an initialiser")
			}
		case *ssa.Call:
			if cal := in.Call.StaticCallee(); cal != nil && cal.Name() == "init" && cal.Synthetic == "package initializer" {
				f.pc++
				continue
			}
			if cal := in.Call.StaticCallee(); cal != nil && !x.eng.isRepoFn(cal) {
				break
			}
		}
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, isU := r.(Unsupported); isU {
						ok = false
						return
					}
					panic(r)
				}
			}()
			x.step(st)
			return true
		}()
		if !ok {
			// leave the value unknown and drop inner frames
			st.frames = st.frames[:1]
			if v, isV := in.(ssa.Value); isV && len(st.frames) == 1 && st.top() == f {
				if _, has := f.env[v]; !has {
					f.env[v] = x.fresh(st, "init", v.Type())
				}
			}
		}
	}
}

func (e *Engine) runRoot(con *Contract) (res *RootResult) {
	t0 := time.Now()
	x := newExec(e)
	res = &RootResult{Name: con.Name, File: con.File, Tags: con.tags(), Trusted: con.Trusted, Lemma: con.Lemma}
	defer func() {
		res.Wall = time.Since(t0)
		for _, s := range []*Solver{x.s, x.sn, x.s2} {
			if s != nil {
				res.Queries += s.Queries
				res.Solver += s.Time
			}
		}
		res.Solver += x.extraTime
		x.close()
		res.Paths, res.Turns, res.Steps, res.Events = x.paths, x.backs, x.steps, x.nevents
		for _, n := range x.order {
			res.Obls = append(res.Obls, x.obls[n])
		}
		for k := range x.inlined {
			if k != con.Name {
				res.Inlined = append(res.Inlined, k)
			}
		}
		for k := range x.fnhits {
			res.Hits = append(res.Hits, k)
		}
		sort.Strings(res.Inlined)
		sort.Strings(res.Hits)
		res.Lemmas = x.lemmaSrc
	}()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				res.Err = u.msg
				return
			}
			if verbose {
				panic(r)
			}
			res.Err = fmt.Sprint("generator failure: ", r)
		}
	}()
	st := x.initGlobals()
	x.root = con
	x.steps = 0
	if con.Lemma {
		st.ghost = map[string]TV{}
		for _, g := range con.Ghosts {
			t := e.specType(g.typ)
			if t == nil {
				unsup("lemma: unknown type %s", g.typ)
			}
			st.ghost[g.name] = TV{x.fresh(st, g.name, t), t}
		}
		x.entry = st.clone()
		x.lemmaStep(st, 0)
		x.push(st)
		x.runAll(0)
	} else {
		fn := e.fns[con.Name]
		if fn == nil {
			res.Err = "no function " + con.Name + " in the source"
			return
		}
		p := e.fset.Position(fn.Pos())
		res.SrcFile = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, e.repo+"/"), p.Line)
		x.rootFn = fn
		var args []Val
		for i, p := range fn.Params {
			nm := p.Name()
			if i < len(con.Params) {
				nm = con.Params[i]
			}
			v := x.fresh(st, nm, p.Type())
			args = append(args, v)
			if i < len(con.Params) {
				x.bindV[con.Params[i]] = TV{v, p.Type()}
			}
			if i == 0 && fn.Signature.Recv() != nil && !con.NilRecv {
				if t, ok := v.(*Term); ok && t.Sort == SRef {
					st.assume(x.c.Not(x.c.Eq(t, x.c.NilRef())))
				}
			}
		}
		if len(fn.FreeVars) > 0 && !con.Auto {
			unsup("a contract on a closure")
		}
		for _, g := range con.Ghosts {
			t := e.specType(g.typ)
			if t == nil {
				unsup("ghost: unknown type %s", g.typ)
			}
			x.bindV[g.name] = TV{x.fresh(st, g.name, t), t}
		}
		for _, cl := range con.Requires {
			st.assume(x.evalBool(x.specEnv(st), cl.Expr))
		}
		x.entry = st.clone()
		x.params = args
		f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0]}
		for i, p := range fn.Params {
			f.env[p] = args[i]
		}
		for _, fv := range fn.FreeVars {
			v := x.fresh(st, fv.Name(), fv.Type())
			if t, ok := v.(*Term); ok && t.Sort == SRef {
				st.assume(x.c.Not(x.c.Eq(t, x.c.NilRef())))
			}
			f.env[fv] = v
		}
		st.frames = append(st.frames, f)
		if x.sat(st) == "unsat" {
			unsup("the preconditions of %s are contradictory", con.Name)
		}
		x.push(st)
		x.runAll(0)
	}
	for _, l := range [][]Clause{con.Ensures, con.On, con.Turn} {
		for _, cl := range l {
			ast.Inspect(cl.Expr, func(n ast.Node) bool {
				if ce, ok := n.(*ast.CallExpr); ok {
					if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "imp" && !x.impHit[ce] {
						res.NoCover = append(res.NoCover, "implication in ["+cl.Label+"]: "+exprStr(ce.Args[0]))
					}
				}
				return true
			})
		}
	}
	// every clause must have been reached on some path
	for i := range con.On {
		if x.cover["on:"+con.On[i].Label] == 0 {
			res.NoCover = append(res.NoCover, "on "+con.On[i].Event+" ["+con.On[i].Label+"]")
		}
	}
	return
}

func (x *Exec) lemmaStep(st *State, i int) {
	for ; i < len(x.root.Steps); i++ {
		s := &x.root.Steps[i]
		switch s.Kind {
		case "let":
			st.ghost[s.Name] = x.eval(x.specEnv(st), s.Expr)
		case "assume":
			st.assume(x.evalBool(x.specEnv(st), s.Expr))
			if st.dead {
				return
			}
		case "ensures":
			var cl *Clause
			for k := range x.root.Ensures {
				if x.root.Ensures[k].Label == s.Name {
					cl = &x.root.Ensures[k]
				}
			}
			if x.dry == 0 {
				x.obligeClause(st, cl, x.specEnv(st), "lemma", token.NoPos)
			}
		case "call":
			fn := x.eng.fns[s.Fn]
			var bind []Val
			if g, ok := st.ghost[s.Fn]; ok { // a function value of the lemma
				switch v := g.V.(type) {
				case *ClosureV:
					fn, bind = v.Fn, v.Bind
				default:
					unsup("lemma: %s is not a known function", s.Fn)
				}
			}
			if fn == nil {
				unsup("lemma: no function %s", s.Fn)
			}
			var args []Val
			for k, a := range s.Args {
				tv := x.eval(x.specEnv(st), a)
				v := tv.V
				if k < len(fn.Params) {
					pt := fn.Params[k].Type()
					if _, ok := v.(nilVal); ok {
						v = x.zero(pt)
					}
					if t, ok := v.(*Term); ok && isByteSlice(pt) && t.Sort == SStr {
						v = BytesV{x.c.False(), t}
					}
				}
				args = append(args, v)
			}
			next := i + 1
			f := x.enter(st, fn, bind, args, nil, token.NoPos)
			nm := s.Name
			sig := fn.Signature
			f.cont = func(x *Exec, st *State, ret Val) {
				if nm != "" && ret != nil {
					if tv, ok := ret.(TupleV); ok {
						for k, n := range strings.Split(nm, ",") {
							if k < len(tv) {
								st.ghost[strings.TrimSpace(n)] = TV{tv[k], sig.Results().At(k).Type()}
							}
						}
					} else {
						st.ghost[nm] = TV{ret, sig.Results().At(0).Type()}
					}
				}
				x.lemmaStep(st, next)
			}
			return
		}
	}
	st.status = "return"
}

func (e *Engine) specType(n string) types.Type {
	switch n {
	case "string":
		return types.Typ[types.String]
	case "int":
		return types.Typ[types.Int]
	case "uint64":
		return types.Typ[types.Uint64]
	case "bool":
		return types.Typ[types.Bool]
	case "bytes":
		return types.NewSlice(types.Typ[types.Uint8])
	case "error":
		return types.Universe.Lookup("error").Type()
	}
	return e.typeByName(n)
}

// pureType is the result type of a pure external function or interface method.
func (e *Engine) pureType(n string) types.Type { return e.pureT[n] }
