package main

import (
	"os"
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leaf modes of loop-carried values
const (
	lmSame = iota
	lmStep
	lmHavoc
)

type leafMode struct {
	mode   int
	d      int64
	nonnil bool         // candidate fact: never nil
	dead   map[int]bool // loop invariants of the contract that do not hold for it
}

type compMod struct {
	all  bool
	sort string
	idx  map[*Term]bool
}

// modset is what one turn of a loop may change.
type modset struct {
	phi    map[*ssa.Phi]map[int]*leafMode
	objs   map[int]map[int]*leafMode
	heap   map[string]*compMod
	mat    map[int]bool
	shared map[*Term]bool
	kids   map[*Term][]*Term
	kinds  map[string]bool
	idead  map[iterCand]bool
}

// iterCand is a counted loop invariant of the contract, taken for one slice the function has at hand.
type iterCand struct {
	i int
	v ssa.Value
}

type iterInv struct {
	k iterCand
	g *Term
}

// iterInvs states the counted loop invariants of the contract for the slices of a frame.
func (x *Exec) iterInvs(st *State, f *Frame, done *Term, only map[ssa.Value]bool) []iterInv {
	if x.root == nil {
		return nil
	}
	var out []iterInv
	for i, d := range x.root.LoopInv {
		if d.iter == "" {
			continue
		}
		var svs []ssa.Value
		for sv, v := range f.env {
			if _, ok := v.(*SliceV); ok {
				svs = append(svs, sv)
			}
		}
		sort.Slice(svs, func(a, b int) bool { return svs[a].Name() < svs[b].Name() })
		for _, sv := range svs {
			v := f.env[sv]
			if _, ok := v.(*SliceV); !ok || typeName(sv.Type()) != d.typ || only != nil && !only[sv] {
				continue
			}
			env := x.specEnv(st)
			env.vars[d.v] = TV{v, sv.Type()}
			env.vars[d.iter] = TV{done, types.Typ[types.Int]}
			if g, ok := x.tryEval(env, d.expr); ok {
				if os.Getenv("GVC_V") == "3" {
					fmt.Fprintln(os.Stderr, "INV", i, sv.Name(), done, g.V.(*Term), x.proves(st, g.V.(*Term)))
				}
				out = append(out, iterInv{iterCand{i, sv}, g.V.(*Term)})
			}
		}
	}
	return out
}

func newModset() *modset {
	return &modset{idead: map[iterCand]bool{}, phi: map[*ssa.Phi]map[int]*leafMode{}, objs: map[int]map[int]*leafMode{}, heap: map[string]*compMod{}, mat: map[int]bool{}, shared: map[*Term]bool{}, kids: map[*Term][]*Term{}, kinds: map[string]bool{}}
}

// leavesOf lists the leaves of a value without publishing local objects.
func leavesOf(v Val) []Val {
	switch v := v.(type) {
	case BytesV:
		return []Val{v.Nil, v.S}
	case *SliceV:
		return []Val{v.Arr, v.Off, v.Len}
	case *StructV:
		var out []Val
		for _, f := range v.F {
			out = append(out, leavesOf(f)...)
		}
		return out
	case *ArrV:
		var out []Val
		for _, f := range v.E {
			out = append(out, leavesOf(f)...)
		}
		return out
	case TupleV:
		var out []Val
		for _, f := range v {
			out = append(out, leavesOf(f)...)
		}
		return out
	}
	return []Val{v}
}

func mapLeaves(v Val, n *int, f func(int, Val) Val) Val {
	one := func(w Val) Val {
		r := f(*n, w)
		*n++
		return r
	}
	switch v := v.(type) {
	case BytesV:
		a := one(v.Nil)
		b := one(v.S)
		return BytesV{a.(*Term), b.(*Term)}
	case *SliceV:
		a, b, c := one(v.Arr), one(v.Off), one(v.Len)
		return &SliceV{v.Elem, a.(*Term), b.(*Term), c.(*Term)}
	case *StructV:
		s := &StructV{T: v.T}
		for _, x := range v.F {
			s.F = append(s.F, mapLeaves(x, n, f))
		}
		return s
	case *ArrV:
		s := &ArrV{Elem: v.Elem}
		for _, x := range v.E {
			s.E = append(s.E, mapLeaves(x, n, f))
		}
		return s
	case TupleV:
		var s TupleV
		for _, x := range v {
			s = append(s, mapLeaves(x, n, f))
		}
		return s
	}
	return one(v)
}

func sameLeaf(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.Obj != y.Obj || x.Ref != y.Ref || x.Idx != y.Idx || x.Glob != y.Glob || len(x.Path) != len(y.Path) {
			return false
		}
		if (x.Slice == nil) != (y.Slice == nil) || x.Slice != nil && *x.Slice != *y.Slice {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case *ClosureV:
		y, ok := b.(*ClosureV)
		return ok && (x == y || x.Fn == y.Fn && len(x.Bind) == 0 && len(y.Bind) == 0)
	case *IterV:
		return a == b
	}
	return a == nil && b == nil
}

// stepOf: new = old + d.
func stepOf(c *Ctx, old, nw *Term) (int64, bool) {
	if old.Sort != SInt {
		return 0, false
	}
	split := func(t *Term) (*Term, int64) {
		if n, ok := t.int64(); ok {
			return nil, n
		}
		if t.Op == "+" && t.Args[1].Op == "int" {
			n, _ := t.Args[1].int64()
			return t.Args[0], n
		}
		return t, 0
	}
	a, n := split(old)
	b, m := split(nw)
	if a == b {
		return m - n, true
	}
	return 0, false
}

func (ms *modset) leaf(m map[int]*leafMode, i int) *leafMode {
	l := m[i]
	if l == nil {
		l = &leafMode{nonnil: true}
		m[i] = l
	}
	return l
}

// note compares a leaf at the header with its value on a back edge; reports a change of the modset.
func (x *Exec) noteLeaf(ms *modset, m map[int]*leafMode, i int, head, back Val, backSt *State, t types.Type) bool {
	l := ms.leaf(m, i)
	changed := false
	switch l.mode {
	case lmSame:
		if sameLeaf(head, back) {
			return false
		}
		h, ok1 := head.(*Term)
		b, ok2 := back.(*Term)
		if ok1 && ok2 {
			if d, ok := stepOf(x.c, h, b); ok {
				l.mode, l.d = lmStep, d
				return true
			}
		}
		l.mode = lmHavoc
		return true
	case lmStep:
		h, ok1 := head.(*Term)
		b, ok2 := back.(*Term)
		if ok1 && ok2 {
			if d, ok := stepOf(x.c, h, b); ok && d == l.d {
				for j, g := range x.loopInvs(backSt, t, back) {
					if !l.dead[j] && !x.proves(backSt, g) {
						l.kill(j)
						changed = true
					}
				}
				return changed
			}
		}
		l.mode = lmHavoc
		return true
	case lmHavoc:
		for j, g := range x.loopInvs(backSt, t, back) {
			if !l.dead[j] && !x.proves(backSt, g) {
				l.kill(j)
				changed = true
			}
		}
		if l.nonnil {
			if b, ok := back.(*Term); ok && (b.Sort == SRef || b.Sort == SIface || b.Sort == SFunc) {
				if !b.Fresh && !x.proves(backSt, x.c.Not(x.c.Eq(b, x.zeroTerm(b.Sort)))) {
					l.nonnil = false
					changed = true
				}
			}
		}
	}
	return changed
}

func (l *leafMode) kill(j int) {
	if l.dead == nil {
		l.dead = map[int]bool{}
	}
	l.dead[j] = true
}

// loopInvs states the candidate loop invariants of the contract for a loop-carried value.
func (x *Exec) loopInvs(st *State, t types.Type, v Val) map[int]*Term {
	if x.root == nil || t == nil || len(x.root.LoopInv) == 0 {
		return nil
	}
	if _, ok := v.(*Term); !ok {
		return nil
	}
	out := map[int]*Term{}
	for i, d := range x.root.LoopInv {
		if d.typ == typeName(t) && d.iter == "" {
			env := x.specEnv(st)
			env.vars[d.v] = TV{v, t}
			if g, ok := x.tryEval(env, d.expr); ok {
				out[i] = g.V.(*Term)
			}
		}
	}
	return out
}

// applyLeaf gives the value of a leaf at the header of an arbitrary turn.
func (x *Exec) applyLeaf(st *State, l *leafMode, init Val, iter *Term, ty types.Type) Val {
	c := x.c
	switch l.mode {
	case lmStep:
		t := c.Add(init.(*Term), c.Mul1(iter, l.d))
		for j, g := range x.loopInvs(st, ty, init) {
			if l.dead[j] {
				continue
			}
			if x.proves(st, g) {
				st.assume(x.loopInvs(st, ty, t)[j])
			} else {
				l.kill(j)
			}
		}
		return t
	case lmHavoc:
		it := x.term(st, init)
		t := c.FreshC("lv", it.Sort)
		for j, g := range x.loopInvs(st, ty, it) {
			if l.dead[j] {
				continue
			}
			if x.proves(st, g) {
				st.assume(x.loopInvs(st, ty, t)[j])
			} else {
				l.kill(j)
			}
		}
		if l.nonnil && (it.Sort == SRef || it.Sort == SIface || it.Sort == SFunc) {
			nn := c.Not(c.Eq(it, x.zeroTerm(it.Sort)))
			if it.Fresh || x.proves(st, nn) {
				st.assume(c.Not(c.Eq(t, x.zeroTerm(it.Sort))))
			} else {
				l.nonnil = false
			}
		}
		return t
	}
	return init
}

func (c *Ctx) Mul1(a *Term, d int64) *Term {
	if d == 0 {
		return c.Int(0)
	}
	if d == 1 {
		return a
	}
	return c.Mul(a, c.Int(d))
}

func (x *Exec) loopPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// literalGuard: does the loop condition evaluate to a literal right now?
func (x *Exec) literalGuard(st *State) bool {
	f := st.top()
	tmp := map[ssa.Value]Val{}
	get := func(v ssa.Value) (Val, bool) {
		if k, ok := v.(*ssa.Const); ok {
			return x.constVal(k), true
		}
		if r, ok := tmp[v]; ok {
			return r, true
		}
		r, ok := f.env[v]
		return r, ok
	}
	for i, in := range f.block.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			idx := -1
			for j, p := range f.block.Preds {
				if p == f.prev {
					idx = j
				}
			}
			v, ok := get(in.Edges[idx])
			if !ok {
				return false
			}
			tmp[in] = v
		case *ssa.DebugRef:
		case *ssa.BinOp:
			a, ok1 := get(in.X)
			b, ok2 := get(in.Y)
			if !ok1 || !ok2 {
				return false
			}
			ta, ok1 := a.(*Term)
			tb, ok2 := b.(*Term)
			if !ok1 || !ok2 {
				return false
			}
			tmp[in] = x.binop(st, in.Op, ta, tb, in.X.Type(), in.Type(), in.Pos())
		case *ssa.If:
			v, ok := get(in.Cond)
			if !ok {
				return false
			}
			t, ok := v.(*Term)
			return ok && t.isLit()
		default:
			_ = i
			return false
		}
	}
	return false
}

func (x *Exec) enterLoop(st *State, lp *loopInfo) {
	f := st.top()
	if x.literalGuard(st) {
		l := &LoopRec{header: lp.header, blocks: lp.blocks, unrolled: 1}
		f.loops = append(append([]*LoopRec{}, f.loops...), l)
		x.evalPhis(st)
		return
	}
	// bind the entry values of the loop variables
	x.evalPhis(st)
	ms := newModset()
	var last *LoopRec
	for round := 0; ; round++ {
		if round > 25 {
			unsup("loop analysis of %s does not settle", f.fn)
		}
		for id := range ms.mat {
			x.materialise(st, id)
		}
		l, changed := x.dryRun(st, lp, ms)
		if !changed {
			last = l
			break
		}
	}
	// the real turn
	head, l := x.headState(st, lp, ms)
	l.eachOK, l.eachColl, l.enums = last.eachOK, last.eachColl, nil
	l.lastDry = last
	_ = head
	outer := ""
	active := 0
	for _, fr := range st.frames {
		for _, o := range fr.loops {
			if o.unrolled == 0 {
				active++
			}
		}
	}
	if active == 0 {
		outer = "outer"
	}
	l.enums = x.rebindEnums(st, l, last)
	st.top().loops = append(append([]*LoopRec{}, st.top().loops...), l)
	x.emit(st, &Event{Kind: "loophead", Name: "", Kinds: ms.kinds, Loop: l, Text: outer})
	l.start = len(st.trace)
}

// headState turns st into the state at the header of an arbitrary turn.
func (x *Exec) headState(st *State, lp *loopInfo, ms *modset) (*State, *LoopRec) {
	c := x.c
	f := st.top()
	l := &LoopRec{header: lp.header, blocks: lp.blocks, held: len(st.held), lo: len(c.all), ndef: len(f.defers)}
	for _, ci := range x.iterInvs(st, f, c.Int(0), nil) {
		if !ms.idead[ci.k] && !x.proves(st, ci.g) {
			ms.idead[ci.k] = true
		}
	}
	l.atHead = map[ssa.Value]bool{}
	for v := range f.env {
		l.atHead[v] = true
	}
	l.entryHeap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		l.entryHeap[k] = v
	}
	l.entryPhi = map[*ssa.Phi]Val{}
	for _, p := range x.loopPhis(lp.header) {
		l.entryPhi[p] = f.env[p]
	}
	l.iter = c.FreshC("iter", SInt)
	st.assume(c.Le(c.Int(0), l.iter))
	for _, p := range x.loopPhis(lp.header) {
		v := f.env[p]
		m := ms.phi[p]
		pt := p.Type()
		n := 0
		nv := mapLeaves(v, &n, func(i int, w Val) Val {
			if m == nil || m[i] == nil {
				return w
			}
			return x.applyLeaf(st, m[i], w, l.iter, pt)
		})
		f.env[p] = nv
		x.assumeWF(st, nv, p.Type())
	}
	var ids []int
	for id := range ms.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o, ok := st.objs[id]
		if !ok || o.Ref != nil {
			continue
		}
		m := ms.objs[id]
		n := 0
		o.V = mapLeaves(o.V, &n, func(i int, w Val) Val {
			if m[i] == nil {
				return w
			}
			return x.applyLeaf(st, m[i], w, l.iter, o.T)
		})
		st.objs[id] = o
		x.assumeWF(st, o.V, o.T)
	}
	var ks []string
	for k := range ms.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		cm := ms.heap[k]
		a, ok := st.heap[k]
		if !ok {
			a = x.c.Const("H:"+k, cm.sort)
		}
		if cm.all || strings.HasPrefix(k, "G:") {
			c.nfr++
			st.heap[k] = c.Const(fmt.Sprintf("H:%s!%d", k, c.nfr), a.Sort)
			continue
		}
		var idx []*Term
		for t := range cm.idx {
			idx = append(idx, t)
		}
		sort.Slice(idx, func(i, j int) bool { return idx[i].id < idx[j].id })
		_, es := arrParts(a.Sort)
		for _, t := range idx {
			v := c.FreshC("hv", es)
			a = c.Store(a, t, v)
			if strings.HasSuffix(k, ".len") || strings.HasSuffix(k, "#len") && es == SInt {
				st.assume(c.Le(c.Int(0), v))
			}
		}
		st.heap[k] = a
	}
	for r := range ms.shared {
		st.shared[r] = true
	}
	for r, ks := range ms.kids {
		have := map[*Term]bool{}
		for _, t := range st.kids[r] {
			have[t] = true
		}
		for _, t := range ks {
			if !have[t] {
				st.kids[r] = append(st.kids[r], t)
			}
		}
	}
	for _, ci := range x.iterInvs(st, f, l.iter, nil) {
		if !ms.idead[ci.k] {
			st.assume(ci.g)
		}
	}
	if g := x.latchCond(lp, func(v ssa.Value) (Val, bool) {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == lp.header {
			return l.entryPhi[p], true
		}
		r, ok := f.env[v]
		return r, ok
	}, st); g != nil && x.proves(st, g) {
		// every way back to the header has just passed the test
		if g := x.latchCond(lp, func(v ssa.Value) (Val, bool) { r, ok := f.env[v]; return r, ok }, st); g != nil {
			st.assume(g)
		}
	}
	l.head = st.clone()
	return l.head, l
}

// latchCond is the test at the bottom of a loop, the only way to a further turn, stated for the values at the header.
func (x *Exec) latchCond(lp *loopInfo, env func(ssa.Value) (Val, bool), st *State) *Term {
	latch := -1
	for i, p := range lp.header.Preds {
		if lp.blocks[p] {
			if latch >= 0 {
				return nil
			}
			latch = i
		}
	}
	if latch < 0 {
		return nil
	}
	b := lp.header.Preds[latch]
	in, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] != lp.header || b.Succs[1] == lp.header {
		return nil
	}
	cond, ok := in.Cond.(*ssa.BinOp)
	if !ok || cond.Block() != b {
		return nil
	}
	val := func(v ssa.Value) (*Term, bool) {
		if k, ok := v.(*ssa.Const); ok {
			t, ok := x.constVal(k).(*Term)
			return t, ok
		}
		for _, p := range x.loopPhis(lp.header) {
			if p.Edges[latch] == v {
				r, ok := env(p)
				if !ok {
					return nil, false
				}
				t, ok := r.(*Term)
				return t, ok
			}
		}
		if d, ok := v.(ssa.Instruction); ok && lp.blocks[d.Block()] {
			return nil, false
		}
		r, ok := env(v)
		if !ok {
			return nil, false
		}
		t, ok := r.(*Term)
		return t, ok
	}
	l, ok1 := val(cond.X)
	r, ok2 := val(cond.Y)
	if !ok1 || !ok2 {
		return nil
	}
	t, _ := x.binop(st, cond.Op, l, r, cond.X.Type(), cond.Type(), cond.Pos()).(*Term)
	return t
}

func (x *Exec) dryRun(st0 *State, lp *loopInfo, ms *modset) (*LoopRec, bool) {
	c := x.c
	st := st0.clone()
	head, l := x.headState(st, lp, ms)
	l.dry = true
	f := st.top()
	f.loops = append(append([]*LoopRec{}, f.loops...), l)
	l.start = len(st.trace)
	x.dry++
	base := len(x.work)
	x.push(st)
	x.runAll(base)
	x.dry--
	changed := false
	depth := len(head.frames) - 1
	for _, b := range l.backs {
		bf := b.frames[depth]
		if len(bf.defers) != l.ndef {
			unsup("defer inside a loop in %s", bf.fn)
		}
		hf := head.frames[depth]
		for _, p := range x.loopPhis(lp.header) {
			m := ms.phi[p]
			if m == nil {
				m = map[int]*leafMode{}
				ms.phi[p] = m
			}
			hl, bl := leavesOf(hf.env[p]), leavesOf(bf.env[p])
			if len(hl) != len(bl) {
				unsup("loop variable changes shape")
			}
			for i := range hl {
				if x.noteLeaf(ms, m, i, hl[i], bl[i], b, p.Type()) {
					changed = true
				}
			}
		}
		for id, ho := range head.objs {
			bo := b.objs[id]
			if ho.Ref == nil && bo.Ref != nil {
				if !ms.mat[id] {
					ms.mat[id] = true
					changed = true
				}
				continue
			}
			if ho.Ref != nil {
				continue
			}
			hl, bl := leavesOf(ho.V), leavesOf(bo.V)
			if len(hl) != len(bl) {
				unsup("local object changes shape in a loop")
			}
			for i := range hl {
				m := ms.objs[id]
				if (m == nil || m[i] == nil) && sameLeaf(hl[i], bl[i]) {
					continue
				}
				if m == nil {
					m = map[int]*leafMode{}
					ms.objs[id] = m
				}
				if x.noteLeaf(ms, m, i, hl[i], bl[i], b, ho.T) {
					changed = true
				}
			}
		}
		for k, bt := range b.heap {
			ht, ok := head.heap[k]
			if !ok {
				ht = c.Const("H:"+k, bt.Sort)
			}
			if bt == ht {
				continue
			}
			cm := ms.heap[k]
			if cm == nil {
				cm = &compMod{idx: map[*Term]bool{}, sort: bt.Sort}
			}
			if cm.all {
				continue
			}
			if strings.HasPrefix(k, "G:") {
				cm.all = true
				ms.heap[k] = cm
				changed = true
				continue
			}
			t := bt
			// stores of the head overwritten in the turn are peeled off: their places count as changed
			peeled := map[*Term][]*Term{}
			for h, ix := ht, []*Term(nil); ; h = h.Args[0] {
				peeled[h] = ix
				if h.Op != "store" {
					break
				}
				ix = append(ix[:len(ix):len(ix)], h.Args[1])
			}
			for t != ht {
				if ix, ok := peeled[t]; ok {
					for _, i := range ix {
						if i.mentionsSince(l.lo) {
							cm.all = true
						}
						if !cm.idx[i] {
							cm.idx[i] = true
							changed = true
							ms.heap[k] = cm
						}
					}
					break
				}
				if t.Op != "store" {
					cm.all = true
					break
				}
				i := t.Args[1]
				t = t.Args[0]
				if i.Fresh && i.id >= l.lo {
					continue
				}
				if i.mentionsSince(l.lo) {
					cm.all = true
					break
				}
				if !cm.idx[i] {
					cm.idx[i] = true
					changed = true
					ms.heap[k] = cm
				}
			}
			if cm.all {
				ms.heap[k] = cm
				changed = true
			}
		}
		for r := range b.shared {
			if r.id < l.lo && !head.shared[r] && !ms.shared[r] {
				ms.shared[r] = true
				changed = true
			}
		}
		for r, ks := range b.kids {
			if r.id >= l.lo {
				continue
			}
			have := map[*Term]bool{}
			for _, t := range head.kids[r] {
				have[t] = true
			}
			for _, t := range ks {
				if !have[t] && t.id < l.lo {
					ms.kids[r] = append(ms.kids[r], t)
					changed = true
					have[t] = true
				}
			}
		}
		for _, e := range b.trace[l.start:] {
			if e.Kind == "loophead" {
				for k := range e.Kinds {
					ms.kinds[k] = true
				}
				continue
			}
			ms.kinds[e.key()] = true
		}
	}
	if !changed {
		// the counted invariants are judged once the rest of the turn is settled
		for _, b := range l.backs {
			for _, ci := range x.iterInvs(b, b.frames[depth], c.Add(l.iter, c.Int(1)), l.atHead) {
				if !ms.idead[ci.k] && !x.proves(b, ci.g) {
					ms.idead[ci.k] = true
					changed = true
				}
			}
		}
	}
	if !changed {
		x.eachResults(l)
		x.enumResults(l, lp)
	}
	return l, changed
}

// backEdge ends a turn.
func (x *Exec) backEdge(st *State, l *LoopRec) {
	f := st.top()
	if l.dry {
		x.evalPhis(st)
		if len(st.held) == l.held {
			same := true
			for i, h := range l.head.held {
				if st.held[i].T != h.T {
					same = false
				}
			}
			if !same {
				st.held = l.head.held
			}
		}
		l.backs = append(l.backs, st)
		st.status = "back"
		return
	}
	ok := len(st.held) == len(l.head.held)
	for i := range l.head.held {
		if ok && st.held[i].T != l.head.held[i].T {
			ok = false
		}
	}
	if !ok {
		x.oblige(st, "locks", "locks held at the end of a loop turn equal those at its start", x.c.False(), f.block.Instrs[0].Pos())
	}
	if x.dry == 0 && x.root != nil {
		x.evalPhis(st)
		outermost := true
		for _, fr := range st.frames {
			for _, o := range fr.loops {
				if o != l && o.unrolled == 0 {
					outermost = false
				}
			}
		}
		if outermost {
			for i := range x.root.Turn {
				cl := &x.root.Turn[i]
				env := x.specEnv(st)
				env.seg = st.trace[l.start:]
				env.loop = l
				x.obligeClause(st, cl, env, "turn", f.fn.Pos())
			}
		}
	}
	x.backs++
	st.status = "back"
}

// ---- each ----

// eachResults decides, from the turns of the last dry run, which each-definitions every turn satisfies.
func (x *Exec) eachResults(l *LoopRec) {
	l.eachOK = map[string]string{}
	l.eachColl = map[string]TV{}
	if x.root == nil {
		return
	}
	var names []string
	for n := range x.root.Each {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := x.root.Each[n]
		if len(l.backs) == 0 {
			l.eachOK[n] = "no turn completes"
			continue
		}
		ok := "slice"
		for i, b := range l.backs {
			how := x.eachTurn(l, b, d)
			if how == "" || i > 0 && how != ok {
				ok = ""
				break
			}
			ok = how
		}
		if ok != "" {
			l.eachOK[n] = ok
		}
	}
}

// eachTurn reports how a turn walks the collection of d ("slice", "map", "enum") if it satisfies d for its element.
func (x *Exec) eachTurn(l *LoopRec, b *State, d *EachDef) string {
	c := x.c
	env := x.specEnv(l.head)
	coll, ok := x.tryEval(env, d.Coll)
	if !ok {
		return ""
	}
	mk := func(k, v TV) bool {
		e2 := x.specEnv(b)
		e2.seg = b.trace[l.start:]
		e2.loop = l
		if d.K != "" && k.V != nil {
			e2.vars[d.K] = k
		}
		if v.V != nil {
			e2.vars[d.V] = v
		}
		t, ok := x.tryEval(e2, d.Expr)
		if !ok {
			return false
		}
		tt := t.V.(*Term)
		r := x.provesAny(b, tt)
		if !r && verbose {
			fmt.Printf("   each %s not satisfied: %s\n", d.Name, tt)
		}
		return r
	}
	switch cv := coll.V.(type) {
	case *SliceV:
		el := x.loadRaw(b, l.head.heap, l.head.objs, &PtrV{Slice: cv, Idx: l.iter, T: cv.Elem})
		x.assumeWF(b, el, cv.Elem)
		if !x.proves(b, c.Lt(l.iter, cv.Len)) {
			return ""
		}
		if mk(TV{l.iter, types.Typ[types.Int]}, TV{el, cv.Elem}) {
			return "slice"
		}
	case *Term:
		if coll.T == nil {
			return ""
		}
		if _, isMap := coll.T.Underlying().(*types.Map); !isMap {
			return ""
		}
		for _, e := range b.trace[l.start:] {
			if e.Kind == "next" && e.Loop == l {
				m := x.term(b, e.Args[0])
				if m == cv || x.proves(b, c.Eq(m, cv)) {
					if mk(TV{e.Args[1], e.ArgT[1]}, TV{e.Args[2], e.ArgT[2]}) {
						return "map"
					}
				}
			}
		}
		for i := range l.head.enums {
			en := &l.head.enums[i]
			if en.Map != cv && !x.proves(b, c.Eq(en.Map, cv)) {
				continue
			}
			el := x.loadRaw(b, l.head.heap, l.head.objs, &PtrV{Slice: en.Slice, Idx: l.iter, T: en.Slice.Elem})
			if !x.proves(b, c.Lt(l.iter, en.Slice.Len)) {
				continue
			}
			if en.Keys {
				if mk(TV{el, en.Slice.Elem}, TV{}) {
					return "enumkeys"
				}
				continue
			}
			if mk(TV{}, TV{el, en.Slice.Elem}) {
				return "enum"
			}
		}
	}
	return ""
}

// tryEval evaluates a specification expression; ok is false when it does not make sense in this state.
func (x *Exec) tryEval(env *Env, e ast.Expr) (tv TV, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, isU := r.(Unsupported); isU {
				if verbose {
					fmt.Println("   spec:", u.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	return x.eval(env, e), true
}

func (x *Exec) loopExit(st *State, l *LoopRec, from *ssa.BasicBlock) {
	c := x.c
	e := &Event{Kind: "loopexit", Loop: l, Kinds: map[string]bool{}}
	if x.root != nil && x.dry == 0 || x.root != nil {
		for n, how := range l.eachOK {
			d := x.root.Each[n]
			coll, ok := x.tryEval(x.specEnvAt(st, l.head), d.Coll)
			if !ok {
				continue
			}
			done := false
			switch cv := coll.V.(type) {
			case *SliceV:
				done = x.proves(st, c.Le(cv.Len, l.iter))
				if !done && how == "slice" && from != l.header && hasSucc(from, l.header) && x.proves(st, c.Le(cv.Len, c.Add(l.iter, c.Int(1)))) {
					// left by the test at the bottom: this turn is complete too
					if done = x.eachTurn(l, st.clone(), d) == how; done {
						e.Kinds["whole:"+n] = true
					}
				}
			case *Term:
				if how == "map" || how == "no turn completes" {
					for _, ev := range st.trace[l.start:] {
						if ev.Kind == "nextdone" && ev.Loop == l {
							m := x.term(st, ev.Args[0])
							if m == cv || x.proves(st, c.Eq(m, cv)) {
								done = true
							}
						}
					}
				}
				if how == "enum" || how == "enumkeys" || how == "no turn completes" {
					for i := range l.head.enums {
						en := &l.head.enums[i]
						if (how == "no turn completes" || en.Keys == (how == "enumkeys")) && (en.Map == cv || x.proves(st, c.Eq(en.Map, cv))) && x.proves(st, c.Le(en.Slice.Len, l.iter)) {
							done = true
						}
					}
				}
			}
			if done {
				e.Kinds["each:"+n] = true
			} else if verbose && x.dry == 0 {
				fmt.Printf("   each %s: not exhausted at an exit (%s)\n", n, how)
			}
		}
	}
	for _, en := range l.enums {
		for _, ev := range st.trace[l.start:] {
			if ev.Kind == "nextdone" && ev.Loop == l && x.term(st, ev.Args[0]) == en.Map {
				st.enums = append(st.enums, en)
				break
			}
		}
	}
	x.emit(st, e)
}

func hasSucc(b, to *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if s == to {
			return true
		}
	}
	return false
}

// specEnvAt evaluates names in the present but reads the heap of an earlier state.
func (x *Exec) specEnvAt(st, at *State) *Env {
	env := x.specEnv(st)
	env.heap, env.objs = at.heap, at.objs
	return env
}

func (x *Exec) evalEach(env *Env, name string, only []string) *Term {
	found := -1
	for i, e := range env.seg {
		if e.Kind == "loopexit" && e.Kinds["each:"+name] {
			found = i
		}
	}
	var l *LoopRec
	if found >= 0 {
		l = env.seg[found].Loop
	} else {
		// an unrolled or absent loop: no evidence, unless there is nothing to walk
		if x.root == nil || x.root.Each[name] == nil {
			return x.c.False()
		}
		coll, ok := x.tryEval(env, x.root.Each[name].Coll)
		if !ok {
			return x.c.False()
		}
		sv, ok := coll.V.(*SliceV)
		if !ok || !x.proves(env.st, x.c.Eq(sv.Len, x.c.Int(0))) {
			return x.c.False()
		}
	}
	for _, n := range only {
		d := x.eng.con.events[n]
		if d == nil {
			unsup("specification: unknown event %s", n)
		}
		inside := false
		for i, e := range env.seg {
			if i == found {
				inside = false
			}
			if inside {
				continue
			}
			if e.Kind == "loophead" {
				if e.Loop == l && l != nil {
					inside = env.seg[found].Kinds["whole:"+name]
					continue
				}
				for k := range e.Kinds {
					if d.matchKey(k) {
						return x.c.False()
					}
				}
				continue
			}
			if d.match(e) {
				return x.c.False()
			}
		}
	}
	return x.c.True()
}

// ---- enumeration of a map into a slice ----

func (x *Exec) enumResults(l *LoopRec, lp *loopInfo) {
	if len(l.backs) == 0 {
		return
	}
	c := x.c
	depth := len(l.head.frames) - 1
	hf := l.head.frames[depth]
	for _, p := range x.loopPhis(lp.header) {
		hs, ok := hf.env[p].(*SliceV)
		if !ok {
			continue
		}
		var m *Term
		var mt types.Type
		keys := 0 // bit 1: values, bit 2: keys
		good := true
		for bi, b := range l.backs {
			bs, ok := b.frames[depth].env[p].(*SliceV)
			if !ok || bs.Off != hs.Off || bs.Len != c.Add(hs.Len, c.Int(1)) {
				good = false
				break
			}
			bm, k, v, bmt := x.turnNext(l, b)
			if bm == nil || m != nil && bm != m {
				good = false
				break
			}
			m, mt = bm, bmt
			w := 0
			if x.appended(l, b, hs, bs, v) {
				w |= 1
			}
			if x.appended(l, b, hs, bs, k) {
				w |= 2
			}
			if bi == 0 {
				keys = w
			} else {
				keys &= w
			}
		}
		if good && keys != 0 && m != nil {
			l.enumPhis = append(l.enumPhis, enumPhi{p, m, mt, keys&1 == 0})
		}
	}
	// indexed form: out[i] = v with out of the map's length
	for v, val := range hf.env {
		hs, ok := val.(*SliceV)
		if !ok || !hs.Arr.Fresh {
			continue
		}
		if _, isPhi := v.(*ssa.Phi); isPhi {
			continue
		}
		var m *Term
		var mt types.Type
		keys := 3
		good := true
		for _, b := range l.backs {
			bm, k, vv, bmt := x.turnNext(l, b)
			if bm == nil || m != nil && bm != m {
				good = false
				break
			}
			m, mt = bm, bmt
			w := 0
			if x.indexed(l, b, hs, vv) {
				w |= 1
			}
			if x.indexed(l, b, hs, k) {
				w |= 2
			}
			keys &= w
		}
		if good && keys != 0 && m != nil && x.proves(l.head, c.Eq(hs.Len, x.mapLenIn(l.head.heap, mt, m))) {
			l.enumVals = append(l.enumVals, EnumFact{Slice: hs, Map: m, MT: mt, Keys: keys&1 == 0})
		}
	}
}

type enumPhi struct {
	p    *ssa.Phi
	m    *Term
	mt   types.Type
	keys bool
}

func (x *Exec) turnNext(l *LoopRec, b *State) (*Term, Val, Val, types.Type) {
	for _, e := range b.trace[l.start:] {
		if e.Kind == "next" && e.Loop == l {
			return x.term(b, e.Args[0]), e.Args[1], e.Args[2], e.ArgT[0]
		}
	}
	return nil, nil, nil, nil
}

func (x *Exec) appended(l *LoopRec, b *State, hs, bs *SliceV, v Val) bool {
	c := x.c
	ls := leavesOf(v)
	names, sorts := leafNames(hs.Elem), leafSorts(hs.Elem)
	if len(ls) != len(sorts) {
		return false
	}
	for i, s := range sorts {
		k := "E:" + typeName(hs.Elem) + names[i]
		h0 := heapGetIn(x, l.head.heap, k, arr(SRef, arr(SInt, s)))
		h1 := heapGetIn(x, b.heap, k, arr(SRef, arr(SInt, s)))
		t, ok := ls[i].(*Term)
		if !ok || t.Sort != s {
			return false
		}
		want := c.Store(c.Select(h0, hs.Arr), c.Add(hs.Off, hs.Len), t)
		got := c.Select(h1, bs.Arr)
		if want != got && !x.proves(b, c.Eq(want, got)) {
			return false
		}
	}
	return true
}

func (x *Exec) indexed(l *LoopRec, b *State, hs *SliceV, v Val) bool {
	c := x.c
	ls := leavesOf(v)
	names, sorts := leafNames(hs.Elem), leafSorts(hs.Elem)
	if len(ls) != len(sorts) {
		return false
	}
	for i, s := range sorts {
		k := "E:" + typeName(hs.Elem) + names[i]
		h0 := heapGetIn(x, l.head.heap, k, arr(SRef, arr(SInt, s)))
		h1 := heapGetIn(x, b.heap, k, arr(SRef, arr(SInt, s)))
		t, ok := ls[i].(*Term)
		if !ok || t.Sort != s {
			return false
		}
		if c.Select(h1, hs.Arr) != c.Store(c.Select(h0, hs.Arr), c.Add(hs.Off, l.iter), t) {
			return false
		}
	}
	return true
}

// rebindEnums states the enumeration facts of the last dry run for the real header.
func (x *Exec) rebindEnums(st *State, l, last *LoopRec) []EnumFact {
	var out []EnumFact
	for _, ep := range last.enumPhis {
		if ep.m.mentionsSince(last.lo) {
			continue
		}
		// the slice is empty on entry
		sv := st.top().env[ep.p].(*SliceV)
		if sv.Len != l.iter {
			continue
		}
		out = append(out, EnumFact{Slice: sv, Map: ep.m, MT: ep.mt, Keys: ep.keys})
	}
	for _, en := range last.enumVals {
		if !en.Map.mentionsSince(last.lo) {
			out = append(out, en)
		}
	}
	return out
}
