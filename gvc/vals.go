package main

import (
	"runtime/debug"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value. One of:
//
//	*Term      bool, integers, string, references (pointer/map/chan known only as a Ref), interface, func, opaque
//	BytesV     []byte, as an immutable value
//	*SliceV    any other slice
//	*StructV   struct of the analysed packages
//	*ArrV      array
//	*PtrV      pointer with known structure
//	*ClosureV  function with known code
//	TupleV     multiple results
//	*IterV     map/string iterator
type Val interface{}

type BytesV struct{ Nil, S *Term }
type SliceV struct {
	Elem          types.Type
	Arr, Off, Len *Term
}
type StructV struct {
	T types.Type
	F []Val
}
type ArrV struct {
	Elem types.Type
	E    []Val
}
type TupleV []Val

// PtrV: exactly one of Obj (>0), Ref, or Slice is the base. T is the type of the base object (or slice element).
type PtrV struct {
	Obj   int
	Ref   *Term
	Slice *SliceV
	Idx   *Term
	Glob  string
	T     types.Type
	Path  []int
}
type ClosureV struct {
	Fn   *ssa.Function
	Bind []Val
	Meth *ssa.Function // bound method closure resolved
	term *Term
}
type IterV struct {
	id  int
	m   *Term // map reference
	mt  types.Type
	str *Term
}

type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

var modPrefix = "github.com/kataras/neffos"

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPrefix || strings.HasPrefix(p.Path(), modPrefix+"/"))
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Path() == modPrefix {
		return ""
	}
	if strings.HasPrefix(p.Path(), modPrefix+"/") {
		return p.Path()[strings.LastIndex(p.Path(), "/")+1:] + "."
	}
	return p.Path() + "."
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return strings.TrimSuffix(shortPkg(p), ".") })
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// isOpaque reports whether values of t are kept as one uninterpreted leaf.
func isOpaque(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok && !isRepoPkg(n.Obj().Pkg()) {
			return true
		}
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsFloat|types.IsComplex) != 0
	case *types.TypeParam:
		return true
	}
	return false
}

// leafSorts flattens a type.
func leafSorts(t types.Type) []string {
	if isOpaque(t) {
		return []string{SAny}
	}
	if isByteSlice(t) {
		return []string{SBool, SStr}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []string{SBool}
		case u.Info()&types.IsInteger != 0:
			return []string{SInt}
		case u.Info()&types.IsString != 0:
			return []string{SStr}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []string{SRef}
		}
		return []string{SAny}
	case *types.Pointer, *types.Map, *types.Chan:
		return []string{SRef}
	case *types.Signature:
		return []string{SFunc}
	case *types.Interface:
		return []string{SIface}
	case *types.Slice:
		return []string{SRef, SInt, SInt}
	case *types.Struct:
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, leafSorts(u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		var out []string
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, leafSorts(u.Elem())...)
		}
		return out
	case *types.Tuple:
		var out []string
		for i := 0; i < u.Len(); i++ {
			out = append(out, leafSorts(u.At(i).Type())...)
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

// unflatten rebuilds a value of type t from leaves.
func (x *Exec) unflatten(t types.Type, ls []*Term) Val {
	if isOpaque(t) {
		return ls[0]
	}
	if isByteSlice(t) {
		return BytesV{ls[0], ls[1]}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{u.Elem(), ls[0], ls[1], ls[2]}
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			n := len(leafSorts(u.Field(i).Type()))
			s.F = append(s.F, x.unflatten(u.Field(i).Type(), ls[:n]))
			ls = ls[n:]
		}
		return s
	case *types.Array:
		a := &ArrV{Elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			n := len(leafSorts(u.Elem()))
			a.E = append(a.E, x.unflatten(u.Elem(), ls[:n]))
			ls = ls[n:]
		}
		return a
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			n := len(leafSorts(u.At(i).Type()))
			tv = append(tv, x.unflatten(u.At(i).Type(), ls[:n]))
			ls = ls[n:]
		}
		return tv
	}
	return ls[0]
}

// flatten turns a value into leaves (materialising local objects it points to).
func (x *Exec) flatten(st *State, v Val) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case BytesV:
		return []*Term{v.Nil, v.S}
	case *SliceV:
		return []*Term{v.Arr, v.Off, v.Len}
	case *StructV:
		var out []*Term
		for _, f := range v.F {
			out = append(out, x.flatten(st, f)...)
		}
		return out
	case *ArrV:
		var out []*Term
		for _, f := range v.E {
			out = append(out, x.flatten(st, f)...)
		}
		return out
	case TupleV:
		var out []*Term
		for _, f := range v {
			out = append(out, x.flatten(st, f)...)
		}
		return out
	case *PtrV:
		return []*Term{x.ptrTerm(st, v)}
	case *ClosureV:
		return []*Term{x.fnTerm(st, v)}
	}
	unsup("flatten %T", v)
	return nil
}

func (x *Exec) term(st *State, v Val) *Term {
	ls := x.flatten(st, v)
	if len(ls) != 1 {
		if verbose {
			debug.PrintStack()
		}
		unsup("term of %T", v)
	}
	return ls[0]
}

func (x *Exec) fnTerm(st *State, v *ClosureV) *Term {
	if v.term != nil {
		return v.term
	}
	name := "fn:" + v.Fn.RelString(nil)
	var t *Term
	if len(v.Bind) == 0 {
		t = x.c.Const(name, SFunc)
	} else {
		x.c.nfr++
		t = x.c.Const(fmt.Sprintf("%s!%d", name, x.c.nfr), SFunc)
	}
	v.term = t
	x.c.fns[t] = v
	return t
}

// ptrTerm encodes a pointer as a Ref.
func (x *Exec) ptrTerm(st *State, p *PtrV) *Term {
	var base *Term
	switch {
	case p.Obj > 0:
		base = x.materialise(st, p.Obj)
	case p.Slice != nil:
		base = x.c.App("elm:"+typeName(p.T), SRef, p.Slice.Arr, x.c.Add(p.Slice.Off, p.Idx))
	case p.Glob != "":
		base = x.c.Const("glob:"+p.Glob, SRef)
	default:
		base = p.Ref
	}
	t := p.T
	for _, i := range p.Path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			base = x.c.App("fld:"+typeName(t)+"."+u.Field(i).Name(), SRef, base)
			t = u.Field(i).Type()
		case *types.Array:
			base = x.c.App(fmt.Sprintf("idx:%d", i), SRef, base)
			t = u.Elem()
		}
	}
	return base
}

// Obj is a locally allocated object not (yet) moved to the heap arrays.
type Obj struct {
	T      types.Type
	V      Val
	Ref    *Term // set once materialised
	Shared bool
	Once   bool // captured variable assigned exactly once: immutable afterwards
}

func (x *Exec) newObj(st *State, t types.Type, v Val) *PtrV {
	x.nobj++
	st.objs[x.nobj] = Obj{T: t, V: v}
	return &PtrV{Obj: x.nobj, T: t}
}

// materialise moves a local object to the heap arrays at a fresh reference.
func (x *Exec) materialise(st *State, id int) *Term {
	o := st.objs[id]
	if o.Ref != nil {
		return o.Ref
	}
	r := x.c.FreshRef(typeName(o.T))
	v := o.V
	o.Ref = r
	o.V = nil
	st.objs[id] = o
	st.refObj[r] = id
	x.storeRaw(st, &PtrV{Ref: r, T: o.T}, v)
	return r
}

// ptrOf views a pointer value of type *T structurally.
func (x *Exec) ptrOf(st *State, v Val, pt types.Type) *PtrV {
	switch v := v.(type) {
	case *PtrV:
		if v.Obj > 0 {
			if o := st.objs[v.Obj]; o.Ref != nil {
				return &PtrV{Ref: o.Ref, T: v.T, Path: v.Path}
			}
		}
		return v
	case *Term:
		// an encoded inner pointer keeps its structure
		if v.Op == "app" && strings.HasPrefix(v.Name, "fld:") {
			if bt, idx, ok := x.fieldByName(v.Name[4:]); ok {
				in := x.ptrOf(st, v.Args[0], types.NewPointer(bt))
				return &PtrV{Obj: in.Obj, Ref: in.Ref, Slice: in.Slice, Idx: in.Idx, Glob: in.Glob, T: in.T, Path: append(append([]int{}, in.Path...), idx)}
			}
		}
		if v.Op == "app" && strings.HasPrefix(v.Name, "elm:") {
			if p, ok := pt.Underlying().(*types.Pointer); ok {
				return &PtrV{Slice: &SliceV{p.Elem(), v.Args[0], x.c.Int(0), x.c.FreshC("n", SInt)}, Idx: v.Args[1], T: p.Elem()}
			}
		}
		if v.Op == "const" && strings.HasPrefix(v.Name, "glob:") {
			if g := x.eng.globals[v.Name[5:]]; g != nil {
				return &PtrV{Glob: v.Name[5:], T: g.Type().(*types.Pointer).Elem()}
			}
		}
		p, ok := pt.Underlying().(*types.Pointer)
		if !ok {
			unsup("pointer of type %s", pt)
		}
		return &PtrV{Ref: v, T: p.Elem()}
	}
	unsup("pointer value %T", v)
	return nil
}

func (x *Exec) fieldByName(qual string) (types.Type, int, bool) {
	i := strings.LastIndex(qual, ".")
	tn, fn := qual[:i], qual[i+1:]
	t := x.eng.typeByName(tn)
	if t == nil {
		return nil, 0, false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, 0, false
	}
	for k := 0; k < s.NumFields(); k++ {
		if s.Field(k).Name() == fn {
			return t, k, true
		}
	}
	return nil, 0, false
}

func (x *Exec) pathType(t types.Type, path []int) types.Type {
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		default:
			unsup("path into %s", t)
		}
	}
	return t
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		switch w := v.(type) {
		case *StructV:
			v = w.F[i]
		case *ArrV:
			v = w.E[i]
		default:
			unsup("path into %T", v)
		}
	}
	return v
}

func setPath(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		return n
	}
	switch w := v.(type) {
	case *StructV:
		f := append([]Val{}, w.F...)
		f[path[0]] = setPath(f[path[0]], path[1:], n)
		return &StructV{w.T, f}
	case *ArrV:
		f := append([]Val{}, w.E...)
		f[path[0]] = setPath(f[path[0]], path[1:], n)
		return &ArrV{w.Elem, f}
	}
	unsup("path into %T", v)
	return nil
}

// zero value of a type
func (x *Exec) zero(t types.Type) Val {
	c := x.c
	if isOpaque(t) {
		return c.Const("zero:"+typeName(t), SAny)
	}
	if isByteSlice(t) {
		return BytesV{c.True(), c.Str("")}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch leafSorts(t)[0] {
		case SBool:
			return c.False()
		case SInt:
			return c.Int(0)
		case SStr:
			return c.Str("")
		case SRef:
			return c.NilRef()
		}
		return c.Const("zero:"+typeName(t), SAny)
	case *types.Pointer, *types.Map, *types.Chan:
		return c.NilRef()
	case *types.Signature:
		return c.NilF()
	case *types.Interface:
		return c.NilI()
	case *types.Slice:
		return &SliceV{u.Elem(), c.NilRef(), c.Int(0), c.Int(0)}
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{Elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, x.zero(u.Elem()))
		}
		return a
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(u.At(i).Type()))
		}
		return tv
	}
	unsup("zero of %s", t)
	return nil
}

// fresh symbolic value of a type; well-formedness facts are assumed.
func (x *Exec) fresh(st *State, hint string, t types.Type) Val {
	var ls []*Term
	for _, s := range leafSorts(t) {
		ls = append(ls, x.c.FreshC(hint, s))
	}
	v := x.unflatten(t, ls)
	x.assumeWF(st, v, t)
	return v
}

// assumeWF adds the facts that hold of every Go value of the type.
func (x *Exec) assumeWF(st *State, v Val, t types.Type) {
	c := x.c
	switch v := v.(type) {
	case BytesV:
		st.assume(c.Imp(v.Nil, c.Eq(v.S, c.Str(""))))
	case *SliceV:
		st.assume(c.Le(c.Int(0), v.Len))
		st.assume(c.Le(c.Int(0), v.Off))
		st.assume(c.Imp(c.Eq(v.Arr, c.NilRef()), c.Eq(v.Len, c.Int(0))))
	case *StructV:
		s := v.T.Underlying().(*types.Struct)
		for i, f := range v.F {
			x.assumeWF(st, f, s.Field(i).Type())
		}
	case TupleV:
		tt, _ := t.(*types.Tuple)
		for i, f := range v {
			if tt != nil {
				x.assumeWF(st, f, tt.At(i).Type())
			}
		}
	case *Term:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			st.assume(c.Le(c.Int(0), v))
			if b.Kind() == types.Uint8 {
				st.assume(c.Le(v, c.Int(255)))
			}
		}
	}
}

// valEq: Go's == (bytes compared by content for specifications).
func (x *Exec) valEq(st *State, a, b Val) *Term {
	c := x.c
	if ba, ok := a.(BytesV); ok {
		bb, ok := b.(BytesV)
		if !ok {
			unsup("compare bytes with %T", b)
		}
		return c.Eq(ba.S, bb.S)
	}
	if sa, ok := a.(*StructV); ok {
		sb, ok := b.(*StructV)
		if !ok || len(sa.F) != len(sb.F) {
			unsup("compare structs")
		}
		var cs []*Term
		for i := range sa.F {
			cs = append(cs, x.valEq(st, sa.F[i], sb.F[i]))
		}
		return c.And(cs...)
	}
	if pa, ok := a.(*PtrV); ok {
		if pb, ok := b.(*PtrV); ok && pa.Obj > 0 && pb.Obj > 0 {
			if pa.Obj != pb.Obj {
				return c.False()
			}
			if len(pa.Path) == 0 && len(pb.Path) == 0 {
				return c.True()
			}
		}
		if tb, ok := b.(*Term); ok && tb == c.NilRef() {
			return c.Bool(false)
		}
	}
	if _, ok := b.(*PtrV); ok {
		if ta, ok := a.(*Term); ok && ta == c.NilRef() {
			return c.Bool(false)
		}
	}
	if _, ok := a.(*ClosureV); ok {
		if tb, ok := b.(*Term); ok && tb == c.NilF() {
			return c.False()
		}
	}
	if _, ok := b.(*ClosureV); ok {
		if ta, ok := a.(*Term); ok && ta == c.NilF() {
			return c.False()
		}
	}
	la, lb := x.flatten(st, a), x.flatten(st, b)
	if len(la) != len(lb) {
		unsup("compare values of different shape")
	}
	var cs []*Term
	for i := range la {
		cs = append(cs, c.Eq(la[i], lb[i]))
	}
	return c.And(cs...)
}
