package main

import (
	"go/ast"

	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Held is a lock currently held by the analysed call chain.
type Held struct {
	T    *Term
	Name string // Type.field of the mutex
	W    bool
}

// Event is one observable step of a path.
type Event struct {
	Kind  string // call icall dyn ext mapset mapdel set get send recv close wait load store cas add lock unlock go next loophead loopexit panic
	Name  string
	Args  []Val
	ArgT  []types.Type
	Res   Val
	ResT  types.Type
	Pos   token.Pos
	Held  []Held
	Async bool
	Kinds map[string]bool // loophead: events of the earlier iterations
	Loop  *LoopRec
	Heap  map[string]*Term
	Objs  map[int]Obj
	NPC   int // length of the path condition when the event happened
	Text  string
}

func (e *Event) key() string { return e.Kind + ":" + e.Name }

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

// LoopRec is one activation of a loop.
type LoopRec struct {
	header    *ssa.BasicBlock
	blocks    map[*ssa.BasicBlock]bool
	dry       bool
	unrolled  int
	iter      *Term
	atHead    map[ssa.Value]bool
	depth     int // frame depth
	start     int // trace length at the start of the iteration
	head      *State
	lo        int // term id at the header
	entryHeap map[string]*Term
	entryPhi  map[*ssa.Phi]Val
	backs     []*State
	iterMap   *IterV
	enums     []EnumFact
	enumPhis  []enumPhi
	enumVals  []EnumFact
	eachOK    map[string]string
	eachColl  map[string]TV
	lastDry   *LoopRec
	held      int
	ndef      int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	loops  []*LoopRec
	retTo  ssa.Value
	async  bool
	saved  []Held // locks of the spawning goroutine
	drop   bool   // result is ignored (deferred call)
	cont   func(x *Exec, st *State, ret Val)
}

// EnumFact: the slice holds exactly the values of the map.
type EnumFact struct {
	Slice *SliceV
	Map   *Term
	MT    types.Type
	Keys  bool
}

type State struct {
	frames []*Frame
	objs   map[int]Obj
	refObj map[*Term]int
	kids   map[*Term][]*Term // unshared fresh object -> objects stored in it
	shared map[*Term]bool    // fresh references that escaped
	heap   map[string]*Term
	pc     []*Term
	pcset  map[*Term]bool
	trace  []*Event
	held   []Held
	enums  []EnumFact
	dead   bool
	ret    Val
	status string // "", "return", "panic", "back"
	async  int
	depth  int
	ghost  map[string]TV
	ownedT map[*Term]bool
}

func newState() *State {
	return &State{objs: map[int]Obj{}, refObj: map[*Term]int{}, kids: map[*Term][]*Term{}, shared: map[*Term]bool{}, heap: map[string]*Term{}, pcset: map[*Term]bool{}}
}

func (st *State) clone() *State {
	n := &State{ret: st.ret, status: st.status, async: st.async, dead: st.dead}
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env)+8)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		// loop records are shared by identity (they accumulate results)
		g.loops = append([]*LoopRec{}, f.loops...)
		n.frames = append(n.frames, &g)
	}
	n.objs = make(map[int]Obj, len(st.objs))
	for k, v := range st.objs {
		n.objs[k] = v
	}
	n.refObj = make(map[*Term]int, len(st.refObj))
	for k, v := range st.refObj {
		n.refObj[k] = v
	}
	n.kids = make(map[*Term][]*Term, len(st.kids))
	for k, v := range st.kids {
		n.kids[k] = v[:len(v):len(v)]
	}
	n.shared = make(map[*Term]bool, len(st.shared))
	for k, v := range st.shared {
		n.shared[k] = v
	}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.pcset = make(map[*Term]bool, len(st.pcset))
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	n.held = append([]Held{}, st.held...)
	n.enums = st.enums[:len(st.enums):len(st.enums)]
	if st.ghost != nil {
		n.ghost = map[string]TV{}
		for k, v := range st.ghost {
			n.ghost[k] = v
		}
	}
	if st.ownedT != nil {
		n.ownedT = map[*Term]bool{}
		for k, v := range st.ownedT {
			n.ownedT[k] = v
		}
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *Term) {
	if t == nil || t.isTrue() || st.pcset[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	st.pcset[t] = true
	st.pc = append(st.pc, t)
	if t.isFalse() {
		st.dead = true
	}
}

// ---- exec ----

type Exec struct {
	used   []usedEvent
	usedOf *Contract
	c         *Ctx
	eng       *Engine
	s         *Solver
	sn        *Solver // native strings
	s2        *Solver // cross-check
	nobj      int
	root      *Contract
	prop      string
	obls      map[string]*Obl
	order     []string
	dry       int
	entry     *State // state at the entry of the root
	params    []Val
	globs     map[string]Val
	paths     int
	backs     int
	work      []*State
	steps     int
	niter     int
	inits     bool
	rootFn    *ssa.Function
	bindV     map[string]TV
	lemmas    map[string]string
	fnhits    map[string]bool
	warns     map[string]bool
	cover     map[string]int
	inlined   map[string]bool
	nevents   int
	coverN    map[string]int
	extraTime time.Duration
	about     string // the field or invariant the next frame obligation is about
	lemmaSrc  []string
	impHit    map[ast.Expr]bool // implications whose antecedent was possible
}

// Obl is one named obligation, aggregated over all paths.
type Obl struct {
	Name                        string
	Clause                      string
	Checks                      int
	Failed                      bool
	Why                         string
	Model                       []string
	Path                        []string
	Pos                         string
	Undec                       bool
	Solvers                     map[string]int
	Tags                        []string
	Label                       string
	Goal                        string
	PC                          []string
	CrossOK, CrossUnk, CrossBad int
}

func (x *Exec) heapGet(st *State, comp, srt string) *Term {
	if t, ok := st.heap[comp]; ok {
		return t
	}
	t := x.c.Const("H:"+comp, srt)
	st.heap[comp] = t
	return t
}

func heapGetIn(x *Exec, h map[string]*Term, comp, srt string) *Term {
	if t, ok := h[comp]; ok {
		return t
	}
	return x.c.Const("H:"+comp, srt)
}

// ---- component names ----

func leafNames(t types.Type) []string {
	if isOpaque(t) {
		return []string{""}
	}
	if isByteSlice(t) {
		return []string{"#nil", "#s"}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []string{"#arr", "#off", "#len"}
	case *types.Struct:
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			for _, n := range leafNames(u.Field(i).Type()) {
				out = append(out, "."+u.Field(i).Name()+n)
			}
		}
		return out
	case *types.Array:
		var out []string
		for i := int64(0); i < u.Len(); i++ {
			for _, n := range leafNames(u.Elem()) {
				out = append(out, fmt.Sprintf("[%d]%s", i, n))
			}
		}
		return out
	}
	return []string{""}
}

func (x *Exec) pathNames(t types.Type, path []int) string {
	s := ""
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			s += "." + u.Field(i).Name()
			t = u.Field(i).Type()
		case *types.Array:
			s += fmt.Sprintf("[%d]", i)
			t = u.Elem()
		}
	}
	return s
}

// fieldKey is "Type.field" of the outermost field a pointer addresses.
func (x *Exec) fieldKey(p *PtrV) string {
	if len(p.Path) == 0 {
		return ""
	}
	if s, ok := p.T.Underlying().(*types.Struct); ok {
		return typeName(p.T) + "." + s.Field(p.Path[0]).Name()
	}
	return ""
}

// ---- loads and stores ----

func (x *Exec) loadRaw(st *State, heap map[string]*Term, objs map[int]Obj, p *PtrV) Val {
	c := x.c
	t := x.pathType(p.T, p.Path)
	if p.Obj > 0 {
		o := objs[p.Obj]
		if o.Ref == nil {
			return getPath(o.V, p.Path)
		}
		p = &PtrV{Ref: o.Ref, T: p.T, Path: p.Path}
	}
	if p.Glob != "" {
		if v, ok := x.globs[p.Glob]; ok {
			return getPath(v, p.Path)
		}
	}
	sorts, names := leafSorts(t), leafNames(t)
	pn := x.pathNames(p.T, p.Path)
	var ls []*Term
	for i := range sorts {
		switch {
		case p.Glob != "":
			ls = append(ls, heapGetIn(x, heap, "G:"+p.Glob+pn+names[i], sorts[i]))
		case p.Slice != nil:
			a := heapGetIn(x, heap, "E:"+typeName(p.T)+pn+names[i], arr(SRef, arr(SInt, sorts[i])))
			ls = append(ls, c.Select(c.Select(a, p.Slice.Arr), c.Add(p.Slice.Off, p.Idx)))
		default:
			a := heapGetIn(x, heap, x.compFor(p, pn)+names[i], arr(SRef, sorts[i]))
			ls = append(ls, c.Select(a, p.Ref))
		}
	}
	return x.unflatten(t, ls)
}

func (x *Exec) compFor(p *PtrV, pn string) string {
	if _, ok := p.T.Underlying().(*types.Struct); ok {
		return "F:" + typeName(p.T) + pn
	}
	return "C:" + typeName(p.T) + pn
}

func (x *Exec) storeRaw(st *State, p *PtrV, v Val) {
	c := x.c
	t := x.pathType(p.T, p.Path)
	if p.Obj > 0 {
		o := st.objs[p.Obj]
		if o.Ref == nil {
			o.V = setPath(o.V, p.Path, v)
			st.objs[p.Obj] = o
			return
		}
		p = &PtrV{Ref: o.Ref, T: p.T, Path: p.Path}
	}
	if _, ok := v.(*IterV); ok {
		unsup("store of iterator")
	}
	ls := x.flatten(st, v)
	sorts, names := leafSorts(t), leafNames(t)
	if len(ls) != len(sorts) {
		unsup("store shape %s", t)
	}
	into := p.Ref
	if p.Slice != nil {
		into = p.Slice.Arr
	}
	if into != nil && !x.isShared(st, into) {
		for i, l := range ls {
			if sorts[i] == SRef || sorts[i] == SIface || sorts[i] == SFunc {
				st.kids[into] = append(st.kids[into], l)
			}
		}
	} else {
		x.shareVal(st, v)
	}
	pn := x.pathNames(p.T, p.Path)
	for i := range sorts {
		switch {
		case p.Glob != "":
			st.heap["G:"+p.Glob+pn+names[i]] = ls[i]
		case p.Slice != nil:
			k := "E:" + typeName(p.T) + pn + names[i]
			a := x.heapGet(st, k, arr(SRef, arr(SInt, sorts[i])))
			in := c.Select(a, p.Slice.Arr)
			st.heap[k] = c.Store(a, p.Slice.Arr, c.Store(in, c.Add(p.Slice.Off, p.Idx), ls[i]))
		default:
			k := x.compFor(p, pn) + names[i]
			a := x.heapGet(st, k, arr(SRef, sorts[i]))
			st.heap[k] = c.Store(a, p.Ref, ls[i])
		}
	}
	// a struct of another package is kept as one value; its fields follow it, and it follows its fields
	if str, ok := p.T.Underlying().(*types.Struct); ok && p.Ref != nil && p.Glob == "" && p.Slice == nil && isOpaque(p.T) {
		vt, isT := v.(*Term)
		if len(p.Path) == 0 && isT {
			for i := 0; i < str.NumFields(); i++ {
				x.storeField(st, p, []int{i}, x.opaqueField(st, vt, p.T, str.Field(i).Name(), str.Field(i).Type()))
			}
		} else if len(p.Path) > 0 {
			x.storeField(st, p, nil, x.fresh(st, "struct", p.T))
		}
	}
}

// storeField writes the component of the object at p.Ref that path names, without the aggregate rules.
func (x *Exec) storeField(st *State, p *PtrV, path []int, v Val) {
	t := x.pathType(p.T, path)
	ls := x.flatten(st, v)
	q := &PtrV{Ref: p.Ref, T: p.T, Path: path}
	pn := x.pathNames(p.T, path)
	names := leafNames(t)
	for i, srt := range leafSorts(t) {
		k := x.compFor(q, pn) + names[i]
		st.heap[k] = x.c.Store(x.heapGet(st, k, arr(SRef, srt)), p.Ref, ls[i])
	}
}

// isShared: anything not allocated on this path, or allocated and escaped.
func (x *Exec) isShared(st *State, r *Term) bool {
	if r.Op == "app" && strings.HasPrefix(r.Name, "fld:") {
		return x.isShared(st, r.Args[0])
	}
	if !r.Fresh {
		return true
	}
	return st.shared[r]
}

// shareVal marks everything reachable from v as visible to other goroutines.
func (x *Exec) shareVal(st *State, v Val) {
	switch v := v.(type) {
	case *PtrV:
		if v.Obj > 0 {
			x.shareTerm(st, x.materialise(st, v.Obj))
		} else if v.Ref != nil {
			x.shareTerm(st, v.Ref)
		} else if v.Slice != nil {
			x.shareTerm(st, v.Slice.Arr)
		}
	case *StructV:
		for _, f := range v.F {
			x.shareVal(st, f)
		}
	case *ArrV:
		for _, f := range v.E {
			x.shareVal(st, f)
		}
	case TupleV:
		for _, f := range v {
			x.shareVal(st, f)
		}
	case *SliceV:
		x.shareTerm(st, v.Arr)
		if n, ok := v.Len.int64(); ok && n < 64 {
			for i := int64(0); i < n; i++ {
				x.shareVal(st, x.loadRaw(st, st.heap, st.objs, &PtrV{Slice: v, Idx: x.c.Int(i), T: v.Elem}))
			}
		}
	case *ClosureV:
		for _, b := range v.Bind {
			x.shareVal(st, b)
		}
	case *Term:
		x.shareTerm(st, v)
	}
}

// checkPublished: the fields declared never nil are set when an object of the repository is published.
func (x *Exec) checkPublished(st *State, t *Term) {
	id, ok := st.refObj[t]
	if !ok || x.inits {
		return
	}
	T := st.objs[id].T
	s, ok := T.Underlying().(*types.Struct)
	if !ok || !isRepoTypeName(T) {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		key := typeName(T) + "." + s.Field(i).Name()
		if !x.eng.con.nonnil[key] {
			continue
		}
		v := x.loadRaw(st, st.heap, st.objs, &PtrV{Ref: t, T: T, Path: []int{i}})
		if vt, ok := v.(*Term); ok && (vt.Sort == SRef || vt.Sort == SIface || vt.Sort == SFunc) {
			x.obligeFrame(st, "inv", key, key+" is set when the object is published", x.c.Not(x.c.Eq(vt, x.zeroTerm(vt.Sort))), token.NoPos)
		}
	}
}

func (x *Exec) shareTerm(st *State, t *Term) {
	switch {
	case t.Sort == SRef && t.Fresh:
		if st.shared[t] {
			return
		}
		x.checkPublished(st, t)
		st.shared[t] = true
		for _, k := range st.kids[t] {
			x.shareTerm(st, k)
		}
	case t.Op == "app" && (strings.HasPrefix(t.Name, "fld:") || isBox(t)):
		for _, a := range t.Args {
			x.shareTerm(st, a)
		}
	case t.Sort == SFunc:
		if cl := x.c.fns[t]; cl != nil {
			for _, b := range cl.Bind {
				x.shareVal(st, b)
			}
		}
	}
}

// ---- maps ----

func mapComp(t types.Type) string { return "M:" + typeName(t) }

func mapKV(t types.Type) (types.Type, types.Type) {
	m := t.Underlying().(*types.Map)
	return m.Key(), m.Elem()
}

func (x *Exec) mapKeySort(t types.Type) string {
	k, _ := mapKV(t)
	ls := leafSorts(k)
	if len(ls) != 1 {
		unsup("map key %s", k)
	}
	return ls[0]
}

func (x *Exec) mapHasIn(h map[string]*Term, t types.Type, m, k *Term) *Term {
	if m == x.c.NilRef() {
		return x.c.False()
	}
	d := heapGetIn(x, h, mapComp(t)+".dom", arr(SRef, arr(x.mapKeySort(t), SBool)))
	return x.c.Select(x.c.Select(d, m), k)
}

func (x *Exec) mapGetIn(h map[string]*Term, t types.Type, m, k *Term) Val {
	_, et := mapKV(t)
	var ls []*Term
	names := leafNames(et)
	for i, s := range leafSorts(et) {
		a := heapGetIn(x, h, mapComp(t)+".val"+names[i], arr(SRef, arr(x.mapKeySort(t), s)))
		ls = append(ls, x.c.Select(x.c.Select(a, m), k))
	}
	return x.unflatten(et, ls)
}

func (x *Exec) mapLenIn(h map[string]*Term, t types.Type, m *Term) *Term {
	a := heapGetIn(x, h, mapComp(t)+".len", arr(SRef, SInt))
	return x.c.Select(a, m)
}

func (x *Exec) mapSet(st *State, t types.Type, m, k *Term, v Val) {
	c := x.c
	_, et := mapKV(t)
	had := x.mapHasIn(st.heap, t, m, k)
	ks := x.mapKeySort(t)
	upd := func(comp, s string, nv *Term) {
		a := x.heapGet(st, comp, arr(SRef, arr(ks, s)))
		st.heap[comp] = c.Store(a, m, c.Store(c.Select(a, m), k, nv))
	}
	upd(mapComp(t)+".dom", SBool, c.True())
	ls := x.flatten(st, v)
	names := leafNames(et)
	for i, s := range leafSorts(et) {
		upd(mapComp(t)+".val"+names[i], s, ls[i])
	}
	la := x.heapGet(st, mapComp(t)+".len", arr(SRef, SInt))
	l := c.Select(la, m)
	st.heap[mapComp(t)+".len"] = c.Store(la, m, c.Ite(had, l, c.Add(l, c.Int(1))))
}

func (x *Exec) mapDel(st *State, t types.Type, m, k *Term) {
	c := x.c
	had := x.mapHasIn(st.heap, t, m, k)
	ks := x.mapKeySort(t)
	comp := mapComp(t) + ".dom"
	a := x.heapGet(st, comp, arr(SRef, arr(ks, SBool)))
	st.heap[comp] = c.Store(a, m, c.Store(c.Select(a, m), k, c.False()))
	la := x.heapGet(st, mapComp(t)+".len", arr(SRef, SInt))
	l := c.Select(la, m)
	st.heap[mapComp(t)+".len"] = c.Store(la, m, c.Ite(had, c.Sub(l, c.Int(1)), l))
}

func (x *Exec) mapMake(st *State, t types.Type) *Term {
	c := x.c
	r := c.FreshRef("map")
	ks := x.mapKeySort(t)
	comp := mapComp(t) + ".dom"
	a := x.heapGet(st, comp, arr(SRef, arr(ks, SBool)))
	st.heap[comp] = c.Store(a, r, c.ConstArr(arr(ks, SBool), c.False()))
	la := x.heapGet(st, mapComp(t)+".len", arr(SRef, SInt))
	st.heap[mapComp(t)+".len"] = c.Store(la, r, c.Int(0))
	return r
}

func (x *Exec) mapHavoc(st *State, t types.Type, m *Term) {
	c := x.c
	ks := x.mapKeySort(t)
	_, et := mapKV(t)
	hv := func(comp, s string) {
		a := x.heapGet(st, comp, arr(SRef, s))
		st.heap[comp] = c.Store(a, m, c.FreshC("hv", s))
	}
	hv(mapComp(t)+".dom", arr(ks, SBool))
	names := leafNames(et)
	for i, s := range leafSorts(et) {
		hv(mapComp(t)+".val"+names[i], arr(ks, s))
	}
	hv(mapComp(t)+".len", SInt)
	st.assume(c.Le(c.Int(0), x.mapLenIn(st.heap, t, m)))
}

// ownedMap recognises the map stored in a struct field: (Type.field, owner).
func ownedMap(t *Term) (string, *Term) {
	if t.Op != "select" {
		return "", nil
	}
	a := t.Args[0]
	for a.Op == "store" {
		a = a.Args[0]
	}
	if a.Op == "const" && strings.HasPrefix(a.Name, "H:F:") {
		n := a.Name[4:]
		if i := strings.IndexByte(n, '!'); i >= 0 {
			n = n[:i]
		}
		return n, t.Args[1]
	}
	return "", nil
}

// mapOwner finds field and owner of a map reference, also for maps created on this path.
func (x *Exec) mapOwner(st *State, m *Term) (string, *Term) {
	if f, o := ownedMap(m); f != "" {
		return f, o
	}
	if m.Fresh || m.Op == "const" && m != x.c.NilRef() {
		// find a field component that stores it
		var keys []string
		for k := range st.heap {
			if strings.HasPrefix(k, "F:") {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			a := st.heap[k]
			for a.Op == "store" {
				if a.Args[2] == m {
					return k[2:], a.Args[1]
				}
				a = a.Args[0]
			}
		}
		for id, o := range st.objs {
			if sv, ok := o.V.(*StructV); ok && o.Ref == nil {
				s := sv.T.Underlying().(*types.Struct)
				for i, f := range sv.F {
					if f == Val(m) {
						return typeName(sv.T) + "." + s.Field(i).Name(), x.c.Const(fmt.Sprintf("obj:%d", id), SRef)
					}
				}
			}
		}
	}
	return "", nil
}
