package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// uncovered lists the functions of the repository that no root's analysis went through.
func (e *Engine) uncovered(rs []*RootResult) []*ssa.Function {
	seen := map[string]bool{}
	for _, r := range rs {
		if !r.Lemma {
			seen[r.Name] = true
		}
		for _, n := range r.Inlined {
			seen[n] = true
		}
	}
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(e.prog) {
		if !e.isRepoFn(fn) || fn.Synthetic != "" || len(fn.Blocks) == 0 || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || fn.Name() == "main" {
			continue
		}
		if n := e.fnName(fn); !seen[n] && !e.con.skip[n] {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return e.fnName(out[i]) < e.fnName(out[j]) })
	return out
}

// runAuto runs the functions outside every root without a contract: what holds for them is the
// discipline of shared state (guards, classes, writers, closers) and of locks.
func (e *Engine) runAuto(rs []*RootResult, par int) []*RootResult {
	var cons []*Contract
	for _, fn := range e.uncovered(rs) {
		n := e.fnName(fn)
		if e.fns[n] == nil {
			e.fns[n] = fn
		}
		cons = append(cons, &Contract{Name: n, NoSafe: true, NoPre: true, Auto: true})
	}
	return e.runRoots(cons, par)
}
