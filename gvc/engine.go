package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the loaded program and the contracts; it is shared (read-only) by all verification tasks.
type Engine struct {
	varFn map[*ssa.Function]string
	gvals map[*ssa.Global][]ssa.Value // what the globals are set to
	prog    *ssa.Program
	fset    *token.FileSet
	pkgs    []*ssa.Package
	globals map[string]*ssa.Global
	con     *Contracts
	types   map[string]types.Type
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	fns     map[string]*ssa.Function
	locks   map[*ssa.Function]map[string]bool
	user    map[*ssa.Function]bool
	owned   map[string]bool
	stored  map[string]bool // globals stored outside of init
	repo    string
	pureT   map[string]types.Type
	mu      sync.Mutex
	overlay map[string][]byte    // the files in which names were given back
	renamed []string             // what was renamed
	dropped map[string]*Contract // contracts whose function is gone or changed its signature
	base, cur []*nameRec
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func goEnv() []string {
	e := os.Environ()
	return append(e, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
}

func loadPkgs(dir string, overlay map[string][]byte) ([]*packages.Package, *token.FileSet, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Fset: fset, Env: goEnv(), Overlay: overlay}
	ps, err := packages.Load(cfg, "./...")
	return ps, fset, err
}

func loadEngine(dir, names string) (*Engine, error) {
	ps, fset, err := loadPkgs(dir, nil)
	if err != nil {
		return nil, err
	}
	base := loadNames(names)
	cur := collectNames(ps)
	var overlay map[string][]byte
	var renamed []string
	if ren := matchRenames(base, cur); len(ren) > 0 && len(base) > 0 {
		ov := renameBack(ps, ren)
		qs, f2, err := loadPkgs(dir, ov)
		ok := err == nil && len(ov) > 0
		for _, q := range qs {
			if len(q.Errors) > 0 && !strings.Contains(q.PkgPath, "/_examples") {
				ok = false
			}
		}
		if ok {
			for o, n := range ren {
				renamed = append(renamed, o.Name()+" (was "+n+")")
			}
			sort.Strings(renamed)
			ps, fset, overlay, cur = qs, f2, ov, collectNames(qs)
		}
	}
	var keep []*packages.Package
	for _, p := range ps {
		if strings.Contains(p.PkgPath, "/_examples") {
			continue
		}
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
		keep = append(keep, p)
	}
	prog, spkgs := ssautil.Packages(keep, ssa.InstantiateGenerics)
	e := &Engine{overlay: overlay, renamed: renamed, base: base, cur: cur, prog: prog, fset: fset, globals: map[string]*ssa.Global{}, types: map[string]types.Type{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, fns: map[string]*ssa.Function{}, locks: map[*ssa.Function]map[string]bool{},
		user: map[*ssa.Function]bool{}, owned: map[string]bool{}, stored: map[string]bool{}, repo: dir, pureT: map[string]types.Type{}, gvals: map[*ssa.Global][]ssa.Value{}}
	sort.Slice(spkgs, func(i, j int) bool { return spkgs[i].Pkg.Path() < spkgs[j].Pkg.Path() })
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		p.Build()
		e.pkgs = append(e.pkgs, p)
	}
	for _, p := range e.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Global:
				e.globals[e.globName(m)] = m
			case *ssa.Type:
				e.addType(m.Type())
				e.addType(types.NewPointer(m.Type()))
				if s, ok := m.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						ft := s.Field(i).Type()
						if _, ok := ft.(*types.Map); ok {
							e.owned[typeName(m.Type())+"."+s.Field(i).Name()] = true
						}
					}
				}
			}
		}
	}
	// a function literal that initialises a package variable goes by the name of the variable
	e.varFn = map[*ssa.Function]string{}
	for fn := range ssautil.AllFunctions(prog) {
		if !e.isRepoFn(fn) || fn.Name() != "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				v := s.Val
				if c, ok := v.(*ssa.ChangeType); ok {
					v = c.X
				}
				f, ok := v.(*ssa.Function)
				if g, isG := s.Addr.(*ssa.Global); ok && isG && f.Parent() != nil {
					e.varFn[f] = shortPkg(fn.Pkg.Pkg) + g.Name()
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if !e.isRepoFn(fn) {
			continue
		}
		nm := e.fnName(fn)
		if _, ok := e.fns[nm]; !ok || fn.Synthetic == "" {
			e.fns[nm] = fn
		}
		e.findLoops(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						e.gvals[g] = append(e.gvals[g], s.Val)
					}
					if g := rootGlobal(s.Addr); g != nil && !strings.HasPrefix(fn.Name(), "init") {
						e.stored[e.globName(g)] = true
					}
				}
				// a global whose address is passed somewhere may change too
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, a := range c.Common().Args {
						if g, ok := a.(*ssa.Global); ok {
							e.stored[e.globName(g)] = true
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						e.pureT[typeName(cc.Value.Type())+"."+cc.Method.Name()] = sigResult(cc.Signature())
					} else if g := cc.StaticCallee(); g != nil {
						e.pureT[g.String()] = sigResult(cc.Signature())
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					e.collectTypes((*op).Type())
				}
				if v, ok := in.(ssa.Value); ok {
					e.collectTypes(v.Type())
				}
			}
		}
	}
	return e, nil
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (e *Engine) collectTypes(t types.Type) {
	switch u := t.(type) {
	case *types.Named, *types.Alias:
		e.addType(t)
	case *types.Pointer:
		e.addType(t)
		e.collectTypes(u.Elem())
	case *types.Basic:
		e.addType(t)
	}
}

func (e *Engine) addType(t types.Type) {
	n := typeName(t)
	if _, ok := e.types[n]; !ok {
		e.types[n] = t
	}
}

func (e *Engine) typeByName(n string) types.Type {
	if t, ok := e.types[n]; ok {
		return t
	}
	return nil
}

func (e *Engine) globName(g *ssa.Global) string { return shortPkg(g.Pkg.Pkg) + g.Name() }

func (e *Engine) isRepoFn(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return isRepoPkg(fn.Pkg.Pkg)
	}
	if fn.Parent() != nil {
		return e.isRepoFn(fn.Parent())
	}
	if o := fn.Object(); o != nil {
		return isRepoPkg(o.Pkg())
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return isRepoPkg(n.Obj().Pkg())
		}
	}
	return false
}

// fnName: "Conn.Write", "publishMessages", "gobwas.Socket.write", closures "Conn.ask$1".
func (e *Engine) fnName(fn *ssa.Function) string {
	if n := e.varFn[fn]; n != "" {
		return n
	}
	if fn.Parent() != nil {
		return e.fnName(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if o := fn.Object(); o != nil {
		pkg = o.Pkg()
	}
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			recv = n.Obj().Name() + "."
			pkg = n.Obj().Pkg()
		}
	}
	return shortPkg(pkg) + recv + fn.Name()
}

func (e *Engine) findLoops(fn *ssa.Function) {
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				li := m[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = li
				}
				var stack []*ssa.BasicBlock
				if !li.blocks[b] {
					li.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !li.blocks[p] {
							li.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	e.loops[fn] = m
}

func (e *Engine) loopOf(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo { return e.loops[fn][b] }

// fieldOf resolves "Type.field".
func (e *Engine) fieldOf(key string) (types.Type, int) {
	i := strings.LastIndex(key, ".")
	if i < 0 {
		return nil, 0
	}
	t := e.typeByName(key[:i])
	if t == nil {
		return nil, 0
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, 0
	}
	for k := 0; k < s.NumFields(); k++ {
		if s.Field(k).Name() == key[i+1:] {
			return t, k
		}
	}
	return nil, 0
}

func (e *Engine) ptrToOwner(key string) types.Type {
	i := strings.LastIndex(key, ".")
	if i < 0 {
		return nil
	}
	t := e.typeByName(key[:i])
	if t == nil {
		return nil
	}
	return types.NewPointer(t)
}

// locksOf: names of the locks a function may take (transitively, goroutines excluded).
func (e *Engine) locksOf(fn *ssa.Function) map[string]bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	if r, ok := e.locks[fn]; ok {
		return r
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || !e.isRepoFn(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if cl, ok := cc.Value.(*ssa.MakeClosure); ok {
					walk(cl.Fn.(*ssa.Function))
				}
				g := cc.StaticCallee()
				if g == nil {
					continue
				}
				switch g.String() {
				case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
					out[staticLockName(cc.Args[0])] = true
				}
				walk(g)
			}
		}
	}
	walk(fn)
	e.locks[fn] = out
	return out
}

func staticLockName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		return typeName(t) + "." + t.Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.UnOp:
		return staticLockName(x.X)
	}
	return "mutex"
}

// callsUser: may the function call code outside the analysed packages that a user supplies?
func (e *Engine) callsUser(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] || !e.isRepoFn(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if cc.IsInvoke() {
					nm := typeName(cc.Value.Type()) + "." + cc.Method.Name()
					if cc.Method.Name() != "Error" && !e.con.pure[nm] && !e.con.trusted(nm) {
						return true
					}
					continue
				}
				if cl, ok := cc.Value.(*ssa.MakeClosure); ok {
					if walk(cl.Fn.(*ssa.Function)) {
						return true
					}
					continue
				}
				g := cc.StaticCallee()
				if g == nil {
					if _, ok := cc.Value.(*ssa.Builtin); !ok {
						return true
					}
					continue
				}
				if walk(g) {
					return true
				}
			}
		}
		return false
	}
	return walk(fn)
}
