package main

import (
	"encoding/json"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The contracts name unexported functions, fields, types and variables. An edit that only renames
// one of them changes no behaviour: the current source is compared with the table of names the
// contracts were written for (contracts/names.json), and what was renamed is renamed back, by an
// overlay, before the source is analysed and before the scenarios are compiled with it.

type nameRec struct {
	Pkg   string   `json:"pkg"`
	Kind  string   `json:"kind"` // type, field, func, var, const
	Owner string   `json:"owner,omitempty"`
	Name  string   `json:"name"`
	Type  string   `json:"type"`
	Idx   int      `json:"idx,omitempty"`
	Body  []string `json:"body,omitempty"`

	obj types.Object
}

func (r *nameRec) key() string { return r.Pkg + "\x00" + r.Kind + "\x00" + r.Owner + "\x00" + r.Name }

func collectNames(ps []*packages.Package) (out []*nameRec) {
	for _, p := range ps {
		if !isRepoPkg(p.Types) || strings.Contains(p.PkgPath, "/_examples") {
			continue
		}
		bodies := map[types.Object][]string{}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				set := map[string]bool{}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						set[id.Name] = true
					}
					return true
				})
				var l []string
				for s := range set {
					l = append(l, s)
				}
				sort.Strings(l)
				bodies[p.TypesInfo.Defs[fd.Name]] = l
			}
		}
		short := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPrefix), "/")
		add := func(kind, owner string, o types.Object, t string, idx int) {
			out = append(out, &nameRec{Pkg: short, Kind: kind, Owner: owner, Name: o.Name(), Type: t, Idx: idx, Body: bodies[o], obj: o})
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				add("type", "", o, typeName(o.Type().Underlying()), 0)
				if o.IsAlias() {
					continue
				}
				if s, ok := o.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if !s.Field(i).Embedded() {
							add("field", n, s.Field(i), typeName(s.Field(i).Type()), i)
						}
					}
				}
				if nm, ok := o.Type().(*types.Named); ok {
					for i := 0; i < nm.NumMethods(); i++ {
						m := nm.Method(i)
						add("func", n, m, sigString(m), 0)
					}
				}
			case *types.Func:
				add("func", "", o, sigString(o), 0)
			case *types.Var:
				add("var", "", o, typeName(o.Type()), 0)
			case *types.Const:
				add("const", "", o, o.Val().ExactString(), 0)
			}
		}
	}
	return
}

// sigString is the signature without the names of the parameters.
func sigString(f *types.Func) string {
	s := f.Type().(*types.Signature)
	var b strings.Builder
	if r := s.Recv(); r != nil {
		b.WriteString("(" + typeName(r.Type()) + ") ")
	}
	tup := func(t *types.Tuple) {
		b.WriteString("(")
		for i := 0; i < t.Len(); i++ {
			b.WriteString(typeName(t.At(i).Type()) + ",")
		}
		b.WriteString(")")
	}
	tup(s.Params())
	if s.Variadic() {
		b.WriteString("...")
	}
	tup(s.Results())
	return b.String()
}

func writeNames(ps []*packages.Package, file string) {
	b, _ := json.Marshal(collectNames(ps))
	s := strings.Replace(string(b), "},{\"pkg\"", "},\n{\"pkg\"", -1)
	os.WriteFile(file, []byte(s+"\n"), 0644)
}

func loadNames(file string) (out []*nameRec) {
	b, err := os.ReadFile(file)
	if err == nil {
		json.Unmarshal(b, &out)
	}
	return
}

var wordRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

func similarity(a, b []string) float64 {
	if len(a) == 0 && len(b) == 0 {
		return 1
	}
	in := map[string]bool{}
	for _, s := range a {
		in[s] = true
	}
	n := 0
	for _, s := range b {
		if in[s] {
			n++
		}
	}
	return float64(n) / float64(len(a)+len(b)-n)
}

// matchRenames pairs the names that are gone with new ones of the same kind, place and type.
func matchRenames(base, cur []*nameRec) map[types.Object]string {
	had, has := map[string]bool{}, map[string]bool{}
	for _, r := range base {
		had[r.key()] = true
	}
	for _, r := range cur {
		has[r.key()] = true
	}
	res := map[types.Object]string{}
	back := map[string]string{} // new type name -> old
	old := func(s string) string {
		return wordRe.ReplaceAllStringFunc(s, func(w string) string {
			if o, ok := back[w]; ok {
				return o
			}
			return w
		})
	}
	for _, kind := range []string{"type", "other"} {
		type group struct{ gone, fresh []*nameRec }
		gs := map[string]*group{}
		at := func(k string) *group {
			if gs[k] == nil {
				gs[k] = &group{}
			}
			return gs[k]
		}
		for _, r := range base {
			if (r.Kind == "type") != (kind == "type") || has[r.key()] || token.IsExported(r.Name) {
				continue
			}
			t := r.Type
			if kind == "type" {
				t = wordRe.ReplaceAllStringFunc(t, func(w string) string {
					if w == r.Name {
						return "self"
					}
					return w
				})
			}
			g := at(r.Pkg + "|" + r.Kind + "|" + r.Owner + "|" + t)
			g.gone = append(g.gone, r)
		}
		for _, r := range cur {
			if (r.Kind == "type") != (kind == "type") || token.IsExported(r.Name) {
				continue
			}
			c := *r
			c.Owner, c.Type = old(r.Owner), old(r.Type)
			if had[c.key()] {
				continue
			}
			t := c.Type
			if kind == "type" {
				t = wordRe.ReplaceAllStringFunc(t, func(w string) string {
					if w == r.Name {
						return "self"
					}
					return w
				})
			}
			g := at(c.Pkg + "|" + c.Kind + "|" + c.Owner + "|" + t)
			g.fresh = append(g.fresh, r)
		}
		for _, g := range gs {
			pair := func(a, b *nameRec) {
				res[b.obj] = a.Name
				if kind == "type" {
					back[b.Name] = a.Name
				}
			}
			if len(g.gone) == 0 || len(g.fresh) == 0 {
				continue
			}
			switch g.gone[0].Kind {
			case "func":
				used := map[*nameRec]bool{}
				for _, a := range g.gone {
					var best *nameRec
					bs := 0.35
					for _, b := range g.fresh {
						if s := similarity(a.Body, b.Body); !used[b] && s > bs {
							best, bs = b, s
						}
					}
					if best != nil {
						used[best] = true
						pair(a, best)
					}
				}
			case "field":
				if len(g.gone) == len(g.fresh) {
					sort.Slice(g.gone, func(i, j int) bool { return g.gone[i].Idx < g.gone[j].Idx })
					sort.Slice(g.fresh, func(i, j int) bool { return g.fresh[i].Idx < g.fresh[j].Idx })
					for i := range g.gone {
						pair(g.gone[i], g.fresh[i])
					}
				}
			default:
				if len(g.gone) == 1 && len(g.fresh) == 1 {
					pair(g.gone[0], g.fresh[0])
				}
			}
		}
	}
	return res
}

// renameBack returns the source files with the renamed objects under their old names.
func renameBack(ps []*packages.Package, ren map[types.Object]string) map[string][]byte {
	out := map[string][]byte{}
	name := func(o types.Object) (string, bool) {
		if o == nil {
			return "", false
		}
		if n, ok := ren[o]; ok {
			return n, true
		}
		if v, ok := o.(*types.Var); ok && v.Embedded() {
			t := v.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if nt, ok := types.Unalias(t).(*types.Named); ok {
				n, ok := ren[nt.Obj()]
				return n, ok
			}
		}
		return "", false
	}
	for _, p := range ps {
		if !isRepoPkg(p.Types) || strings.Contains(p.PkgPath, "/_examples") {
			continue
		}
		// a name that something else of the package bears by now is not given back
		taken := map[string]bool{}
		for id, o := range p.TypesInfo.Defs {
			if o == nil {
				continue
			}
			if v, ok := o.(*types.Var); ok && v.IsField() {
				continue
			}
			if f, ok := o.(*types.Func); ok && f.Type().(*types.Signature).Recv() != nil {
				continue
			}
			taken[id.Name] = true
		}
		for _, f := range p.Syntax {
			file := p.Fset.Position(f.Pos()).Filename
			src, err := os.ReadFile(file)
			if err != nil {
				return nil
			}
			type edit struct {
				at, n int
				s     string
			}
			var es []edit
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				o := p.TypesInfo.Defs[id]
				if o == nil {
					o = p.TypesInfo.Uses[id]
				}
				s, ok := name(o)
				if !ok {
					return true
				}
				member := false
				if v, ok := o.(*types.Var); ok && v.IsField() {
					member = true
				}
				if f, ok := o.(*types.Func); ok && f.Type().(*types.Signature).Recv() != nil {
					member = true
				}
				if taken[s] && !member {
					return true
				}
				es = append(es, edit{p.Fset.Position(id.Pos()).Offset, len(id.Name), s})
				return true
			})
			if len(es) == 0 {
				continue
			}
			sort.Slice(es, func(i, j int) bool { return es[i].at > es[j].at })
			for _, e := range es {
				src = append(src[:e.at:e.at], append([]byte(e.s), src[e.at+e.n:]...)...)
			}
			out[file] = src
		}
	}
	return out
}

// dropStale takes out the contracts of unexported functions that are gone or have another
// signature now: they are analysed as part of their callers, and the properties they carried are
// judged by the other contracts and the concrete scenarios.
func (e *Engine) dropStale(base []*nameRec, cur []*nameRec) {
	sig := map[string]string{}
	for _, r := range cur {
		if r.Kind == "func" {
			sig[r.fn()] = r.Type
		}
	}
	was := map[string]string{}
	for _, r := range base {
		if r.Kind == "func" {
			was[r.fn()] = r.Type
		}
	}
	e.dropped = map[string]*Contract{}
	for n, c := range e.con.funcs {
		i := strings.LastIndex(n, ".")
		if token.IsExported(n[i+1:]) || was[n] == "" || sig[n] == was[n] {
			continue
		}
		e.dropped[n] = c
		delete(e.con.funcs, n)
	}
	var order []string
	for _, n := range e.con.order {
		if e.dropped[n] == nil {
			order = append(order, n)
		}
	}
	e.con.order = order
}

func (r *nameRec) fn() string {
	s := r.Name
	if r.Owner != "" {
		s = r.Owner + "." + s
	}
	if r.Pkg != "" {
		s = filepath.Base(r.Pkg) + "." + s
	}
	return s
}
