package main

import (
	"go/ast"
	"sort"
)

// A contract speaks of what the function does before it returns. An event that happens in a goroutine the
// function starts is outside that: it may happen later or never. Such an event fails an obligation of its own
// unless the contract says about it where it happens (sync) or lists it as `async`.

type usedEvent struct {
	def  *EventDef
	name string
	tags []string
	free bool
}

func (e *Engine) usedEvents(con *Contract) []usedEvent {
	tags := map[string]map[string]bool{}
	free := map[string]bool{}
	visit := func(cl *Clause, x ast.Expr, ts []string) {
		evs := map[string]bool{}
		if cl != nil && cl.Event != "" {
			evs[cl.Event] = true
		}
		syncs := map[string]bool{} // variables whose place is constrained
		vars := map[string]string{}
		seen := map[string]bool{}
		var walk func(n ast.Node)
		walk = func(n ast.Node) {
			ast.Inspect(n, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				id, ok := c.Fun.(*ast.Ident)
				if !ok {
					return true
				}
				if id.Name == "sync" && len(c.Args) == 1 {
					if v, ok := c.Args[0].(*ast.Ident); ok {
						syncs[v.Name] = true
					}
				}
				for i, a := range c.Args {
					if b, ok := a.(*ast.Ident); ok && e.con.events[b.Name] != nil {
						evs[b.Name] = true
						if i > 0 {
							if v, ok := c.Args[i-1].(*ast.Ident); ok {
								vars[v.Name] = b.Name
							}
						}
					}
				}
				if d, ok := e.con.defs[id.Name]; ok && !seen[id.Name] {
					seen[id.Name] = true
					walk(d.expr)
				}
				return true
			})
		}
		walk(x)
		for n := range evs {
			if tags[n] == nil {
				tags[n] = map[string]bool{}
			}
			for _, t := range ts {
				tags[n][t] = true
			}
		}
		for v := range syncs {
			if v == "this" && cl != nil {
				free[cl.Event] = true
			}
			if n := vars[v]; n != "" {
				free[n] = true
			}
		}
	}
	all := map[string]bool{}
	for _, l := range [][]Clause{con.Ensures, con.On, con.Turn, con.EnumClause} {
		for i := range l {
			if l[i].Expr != nil {
				visit(&l[i], l[i].Expr, l[i].Tags)
			}
			for _, t := range l[i].Tags {
				all[t] = true
			}
		}
	}
	var at []string
	for t := range all {
		at = append(at, t)
	}
	for _, ea := range con.Each {
		visit(nil, ea.Expr, at)
	}
	var us []usedEvent
	for n, ts := range tags {
		u := usedEvent{def: e.con.events[n], name: n, free: free[n] || con.AsyncOK[n]}
		for t := range ts {
			u.tags = append(u.tags, t)
		}
		sort.Strings(u.tags)
		us = append(us, u)
	}
	sort.Slice(us, func(i, j int) bool { return us[i].name < us[j].name })
	return us
}

func (x *Exec) checkSpawned(st *State, e *Event) {
	if !e.Async || x.root.Lemma || st.dead {
		return
	}
	if x.usedOf != x.root {
		x.used, x.usedOf = x.eng.usedEvents(x.root), x.root
	}
	for _, u := range x.used {
		if u.free || !u.def.match(e) {
			continue
		}
		o := x.obl(x.rootName()+"/spawned:"+u.name, "the event happens before the function returns", u.tags)
		o.Label = "spawned"
		x.discharge(st, o, x.c.False(), e.Pos)
	}
}

// spawnedIn: does a function value run by `runs` leave an event of the condition to a goroutine?
func (x *Exec) spawnedIn(seg []*Event, cond ast.Expr) bool {
	c := &Contract{Ensures: []Clause{{Expr: cond}}}
	us := x.eng.usedEvents(c)
	for _, e := range seg {
		if !e.Async {
			continue
		}
		for _, u := range us {
			if !u.free && u.def.match(e) {
				return true
			}
		}
	}
	return false
}
