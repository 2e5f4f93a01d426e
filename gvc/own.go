package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ownsTail reports whether appending to the slice value v of frame fi cannot write memory that something else can
// see: v is nil, freshly allocated here, or has no spare capacity.
func (x *Exec) ownsTail(st *State, fi int, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Convert:
		b, ok := v.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	case *ssa.ChangeType:
		return x.ownsTail(st, fi, v.X, seen)
	case *ssa.Slice:
		if v.High != nil {
			return v.Max == v.High // nothing left to append to
		}
		if _, ok := v.X.(*ssa.Alloc); ok {
			return true // composite literal
		}
		return x.ownsTail(st, fi, v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !x.ownsTail(st, fi, e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return x.ownsTail(st, fi, v.Call.Args[0], seen)
		}
		if f := v.Call.StaticCallee(); f != nil && f.Pkg != nil {
			switch f.Pkg.Pkg.Path() + "." + f.Name() {
			case "bytes.Join", "bytes.Repeat", "bytes.Clone", "bytes.Replace", "bytes.ReplaceAll", "bytes.ToLower", "bytes.ToUpper", "slices.Clone", "slices.Clip":
				return true
			}
		}
		return false
	case *ssa.Parameter:
		if fi == 0 || st.frames[fi].fn != v.Parent() {
			return false
		}
		up := st.frames[fi-1]
		if up.pc == 0 || up.block == nil {
			return false
		}
		call, ok := up.block.Instrs[up.pc-1].(*ssa.Call)
		if !ok || call.Call.StaticCallee() != v.Parent() {
			return false
		}
		for i, p := range v.Parent().Params {
			if p == v && i < len(call.Call.Args) {
				return x.ownsTail(st, fi-1, call.Call.Args[i], seen)
			}
		}
		return false
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		switch a := v.X.(type) {
		case *ssa.Global:
			return x.eng.clipped(a)
		case *ssa.Alloc: // a local variable that a closure shares or that is stored piecewise
			if a.Heap {
				return false
			}
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr != a || !x.ownsTail(st, fi, r.Val, seen) {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return true
		}
		return false
	}
	return false
}

// clipped reports whether a global slice is only ever set to a composite literal or a conversion (no spare capacity).
func (e *Engine) clipped(g *ssa.Global) bool {
	for _, v := range e.gvals[g] {
		switch v := v.(type) {
		case *ssa.Slice:
			if _, ok := v.X.(*ssa.Alloc); !ok || v.High != nil {
				return false
			}
		case *ssa.Convert:
			if b, ok := v.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return false
			}
		default:
			return false
		}
	}
	return len(e.gvals[g]) == 1
}
