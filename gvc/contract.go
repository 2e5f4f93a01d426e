package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Clause is one specification clause.
type Clause struct {
	Label     string
	Tags      []string
	Expr      ast.Expr
	Src       string
	Event     string // on-clauses
	Assumable bool
	Local     bool
}

// EachDef: for every element of a collection, Expr holds over the events of its iteration.
type EachDef struct {
	Name string
	K, V string
	Coll ast.Expr
	Expr ast.Expr
	Src  string
}

type enumPair struct {
	a, b ast.Expr
	keys bool
}

// Step is one step of a lemma.
type Step struct {
	Kind string // let, call, assume
	Name string
	Fn   string
	Args []ast.Expr
	Expr ast.Expr
	Src  string
}

type loopInv struct {
	typ, v string
	expr   ast.Expr
	iter   string // name of the turn counter: the invariant is about slices and how many turns are done
}

type Contract struct {
	Name       string
	Params     []string
	Results    []string
	Abstract   bool
	Lemma      bool
	Ghosts     []ghost
	Steps      []Step
	Requires   []Clause
	EachReq    []*EachDef // required of every element of a slice
	Ensures    []Clause
	On         []Clause
	Turn       []Clause
	Each       map[string]*EachDef
	LoopInv    []loopInv
	Enumerates []enumPair
	EnumClause []Clause
	Inline     map[string]bool
	AsyncOK    map[string]bool // events the function may leave to a goroutine
	Extra      []string // tags for the implicit obligations
	NoSafe     bool
	NoPre      bool
	NilRecv    bool
	Auto       bool // no contract: only the discipline of shared state and locks
	Trusted    bool // contract assumed, body not verified
	File       string
	Skip       bool
}

type ghost struct{ name, typ string }

func (c *Contract) inlines(n string) bool { return c != nil && (c.Inline[n] || c.Inline["*"]) }

// tags of all clauses
func (c *Contract) tags() map[string]bool {
	m := map[string]bool{}
	for _, l := range [][]Clause{c.Ensures, c.On, c.Turn, c.EnumClause} {
		for _, cl := range l {
			for _, t := range cl.Tags {
				m[t] = true
			}
		}
	}
	for _, t := range c.Extra {
		m[t] = true
	}
	return m
}

type invDef struct {
	params []string
	expr   ast.Expr
	src    string
}

// boundDef is a function the verifier does not reach and the bounded check that stands in for it.
type boundDef struct {
	Fn    string `json:"functions"`
	Bound string `json:"bound"`
}

type EventDef struct {
	Name   string
	Kind   string
	Target string
	Params []string
	Res    string
}

type macro struct {
	params []string
	expr   ast.Expr
}

type Contracts struct {
	funcs     map[string]*Contract
	lemmas    []*Contract
	order     []string
	classes   map[string]string
	nonnil    map[string]bool
	traced    map[string]bool
	writers   map[string][]string
	mapwr     map[string][]string
	closers   map[string][]string
	callers   map[string][]string
	underlock map[string]bool
	lockfor   map[string]bool
	noshare   map[string]bool
	bounded   map[string][]boundDef
	extfacts  map[string][]invDef
	pure      map[string]bool
	nonnilRes map[string]bool
	skip      map[string]bool
	trust     []string
	guards    map[string]string
	guardedBy map[string][]string
	confined  map[string]map[string]bool
	lockinv   map[string][]invDef
	chaninv   map[string][]invDef
	mapinv    map[string][]invDef
	ownent    map[string]bool
	atominv   map[string][]invDef
	events    map[string]*EventDef
	evByKey   map[string][]*EventDef
	defs      map[string]macro
	monotone  map[string]string
	about     map[string][]string // field or invariant name -> properties that rest on its frame
	assumes   []string            // declared assumptions, for evidence
	files     []string
}

func (c *Contracts) class(k string) string { return c.classes[k] }

func (c *Contracts) trusted(name string) bool {
	for _, p := range c.trust {
		if p == name || strings.HasSuffix(p, "*") && strings.HasPrefix(name, p[:len(p)-1]) {
			return true
		}
	}
	return false
}

func (c *Contracts) mayWrite(key string, root *Contract, st *State) bool {
	return c.onStack(c.writers[key], st, nil)
}

func (c *Contracts) onStack(names []string, st *State, x *Exec) bool {
	for _, w := range names {
		if w == "*" {
			return true
		}
		for _, f := range st.frames {
			if theEngine.fnName(f.fn) == w || strings.HasPrefix(theEngine.fnName(f.fn), w+"$") {
				return true
			}
		}
	}
	return false
}

var theEngine *Engine

func (c *Contracts) mapWriter(name string, st *State, x *Exec) bool {
	return c.onStack(c.mapwr[name], st, x)
}

var kwRe = regexp.MustCompile(`^(async|caller|bounded|extfact|lockfor|noshare|ownentries|about|event|define|class|guard|nonnil|traced|writer|closer|mapwriter|underlock|pure|nonnilres|skip|trust|confined|lockinv|chaninv|mapinv|atominv|func|lemma|mode|requires|ensures|proves|on|turn|eachreq|each|loopinv|enumerates|inline|let|call|assume|tags|assumption|ghost)\b`)

func parseExpr(s, where string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", where, err, s))
	}
	return e
}

func parseSig(s string) (name string, params []string, results []string) {
	i := strings.Index(s, "(")
	if i < 0 {
		return strings.TrimSpace(s), nil, nil
	}
	name = strings.TrimSpace(s[:i])
	j := strings.Index(s, ")")
	params = splitNames(s[i+1 : j])
	rest := strings.TrimSpace(s[j+1:])
	if rest != "" {
		results = splitNames(strings.Trim(rest, "()"))
	}
	return
}

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

var labelRe = regexp.MustCompile(`^\[([^\]]+)\]\s*`)
var tagRe = regexp.MustCompile(`^\{([^}]*)\}\s*`)

func parseClause(s, where string) Clause {
	var c Clause
	s = strings.TrimSpace(s)
	if m := labelRe.FindStringSubmatch(s); m != nil {
		c.Label = m[1]
		s = s[len(m[0]):]
	}
	if m := tagRe.FindStringSubmatch(s); m != nil {
		c.Tags = splitNames(m[1])
		s = s[len(m[0]):]
	}
	c.Src = s
	c.Expr = parseExpr(s, where)
	return c
}

func loadContracts(dir string) *Contracts {
	c := &Contracts{funcs: map[string]*Contract{}, classes: map[string]string{}, nonnil: map[string]bool{}, traced: map[string]bool{},
		writers: map[string][]string{}, mapwr: map[string][]string{}, closers: map[string][]string{}, callers: map[string][]string{}, underlock: map[string]bool{}, lockfor: map[string]bool{}, noshare: map[string]bool{}, bounded: map[string][]boundDef{}, extfacts: map[string][]invDef{}, pure: map[string]bool{}, nonnilRes: map[string]bool{},
		skip: map[string]bool{}, guards: map[string]string{}, guardedBy: map[string][]string{}, confined: map[string]map[string]bool{},
		lockinv: map[string][]invDef{}, chaninv: map[string][]invDef{}, mapinv: map[string][]invDef{}, ownent: map[string]bool{}, atominv: map[string][]invDef{}, events: map[string]*EventDef{},
		evByKey: map[string][]*EventDef{}, defs: map[string]macro{}, monotone: map[string]string{}, about: map[string][]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		c.files = append(c.files, f)
		c.loadFile(f)
	}
	for _, con := range c.funcs {
		for i := range con.Ensures {
			con.Ensures[i].Assumable = !con.Ensures[i].Local && c.assumable(con.Ensures[i].Expr, 0)
		}
	}
	return c
}

func (c *Contracts) loadFile(path string) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	type line struct {
		s string
		n int
	}
	var lines []line
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	n := 0
	for sc.Scan() {
		n++
		s := sc.Text()
		if t := strings.TrimSpace(s); t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		t := strings.TrimSpace(s)
		if kwRe.MatchString(t) {
			lines = append(lines, line{t, n})
		} else if len(lines) > 0 {
			lines[len(lines)-1].s += " " + t
		}
	}
	var cur *Contract
	for _, l := range lines {
		where := fmt.Sprintf("%s:%d", filepath.Base(path), l.n)
		kw := kwRe.FindString(l.s)
		rest := strings.TrimSpace(l.s[len(kw):])
		fields := strings.Fields(rest)
		switch kw {
		case "event":
			// event NAME = kind target(params) res
			i := strings.Index(rest, "=")
			d := &EventDef{Name: strings.TrimSpace(rest[:i])}
			r := strings.TrimSpace(rest[i+1:])
			sp := strings.SplitN(r, " ", 2)
			d.Kind = sp[0]
			pre := ""
			if strings.HasPrefix(sp[1], "func(") { // a function type: func(...)(params)
				j := strings.LastIndex(sp[1], "(")
				pre, sp[1] = sp[1][:j], "x"+sp[1][j:]
			}
			if d.Kind == "ext" && strings.HasPrefix(sp[1], "(") { // a method: (*pkg.Type).Name(params)
				j := strings.Index(sp[1], ")")
				j += strings.Index(sp[1][j:], "(")
				pre, sp[1] = sp[1][:j], "x"+sp[1][j:]
			}
			tn, ps, rs := parseSig(sp[1])
			if pre != "" {
				tn = pre
			}
			d.Target, d.Params = tn, ps
			if len(rs) > 0 {
				d.Res = strings.Join(rs, "+")
			}
			if d.Target == "_" {
				d.Target = ""
			}
			c.events[d.Name] = d
			k := d.Kind + ":" + d.Target
			c.evByKey[k] = append(c.evByKey[k], d)
		case "define":
			i := strings.Index(rest, "=")
			for i+1 < len(rest) && (rest[i+1] == '=' || i > 0 && strings.ContainsRune("!<>=", rune(rest[i-1]))) {
				i += 1 + strings.Index(rest[i+1:], "=")
			}
			nm, ps, _ := parseSig(rest[:i])
			if _, dup := c.defs[nm]; dup {
				panic(where + ": " + nm + " is defined twice")
			}
			c.defs[nm] = macro{ps, parseExpr(rest[i+1:], where)}
		case "class":
			for _, k := range fields[1:] {
				c.classes[k] = fields[0]
			}
		case "guard": // guard Type.field by Type.mutex [map]
			c.guards[fields[0]] = fields[2]
			c.guardedBy[fields[2]] = append(c.guardedBy[fields[2]], fields[0])
			if len(fields) < 4 {
				c.classes[fields[0]] = "guarded"
			}
		case "about": // about C01 C02: T.f T.g ...
			i := strings.Index(rest, ":")
			for _, k := range strings.Fields(rest[i+1:]) {
				c.about[k] = append(c.about[k], strings.Fields(rest[:i])...)
			}
		case "nonnil":
			for _, k := range fields {
				c.nonnil[k] = true
			}
		case "ownentries":
			for _, k := range fields {
				c.ownent[k] = true
			}
		case "traced":
			for _, k := range fields {
				c.traced[k] = true
			}
		case "caller":
			c.callers[fields[0]] = append(c.callers[fields[0]], fields[1:]...)
		case "closer":
			c.closers[fields[0]] = append(c.closers[fields[0]], fields[1:]...)
		case "writer":
			c.writers[fields[0]] = append(c.writers[fields[0]], fields[1:]...)
		case "mapwriter":
			c.mapwr[fields[0]] = append(c.mapwr[fields[0]], fields[1:]...)
		case "underlock":
			for _, k := range fields {
				c.underlock[k] = true
			}
		case "pure":
			if strings.HasPrefix(rest, "interface{") {
				fields = []string{rest}
			}
			for _, k := range fields {
				c.pure[k] = true
			}
		case "nonnilres":
			if strings.HasPrefix(rest, "func(") {
				c.nonnilRes[rest] = true
				continue
			}
			for _, k := range fields {
				c.nonnilRes[k] = true
			}
		case "skip":
			for _, k := range fields {
				c.skip[k] = true
			}
		case "trust":
			c.trust = append(c.trust, fields...)
		case "extfact": // extfact EVENT: expr, assumed about a call outside the repository
			i := strings.Index(rest, ":")
			n := strings.TrimSpace(rest[:i])
			c.extfacts[n] = append(c.extfacts[n], invDef{nil, parseExpr(rest[i+1:], where), strings.TrimSpace(rest[i+1:])})
			c.assumes = append(c.assumes, "assumed of "+c.events[n].Kind+" "+c.events[n].Target+": "+strings.TrimSpace(rest[i+1:]))
		case "noshare": // calls that only keep their arguments
			for _, k := range fields {
				c.noshare[k] = true
			}
			c.assumes = append(c.assumes, "only keep their arguments, starting nothing: "+rest)
		case "lockfor": // lockfor LOCK CALL...: the lock exists to serialise those calls
			for _, k := range fields[1:] {
				c.lockfor[fields[0]+" "+k] = true
			}
		case "bounded": // bounded Cxx FUNC[,FUNC]: what is enumerated; decided by the TestBounded_Cxx_ scenarios
			i := strings.Index(rest, ":")
			f := strings.Fields(rest[:i])
			c.bounded[f[0]] = append(c.bounded[f[0]], boundDef{strings.Join(f[1:], " "), strings.TrimSpace(rest[i+1:])})
		case "assumption":
			c.assumes = append(c.assumes, rest)
		case "confined":
			m := map[string]bool{}
			for _, k := range fields[1:] {
				m[k] = true
			}
			c.confined[fields[0]] = m
		case "lockinv", "chaninv", "mapinv", "atominv":
			// NAME(params): expr
			i := strings.Index(rest, "):")
			nm, ps, _ := parseSig(rest[:i+1])
			d := invDef{ps, parseExpr(rest[i+2:], where), strings.TrimSpace(rest[i+2:])}
			switch kw {
			case "lockinv":
				c.lockinv[nm] = append(c.lockinv[nm], d)
			case "atominv":
				c.atominv[nm] = append(c.atominv[nm], d)
			case "chaninv":
				c.chaninv[nm] = append(c.chaninv[nm], d)
			default:
				c.mapinv[nm] = append(c.mapinv[nm], d)
			}
		case "func":
			nm, ps, rs := parseSig(rest)
			cur = &Contract{Name: nm, Params: ps, Results: rs, Each: map[string]*EachDef{}, Inline: map[string]bool{}, File: where}
			if c.funcs[nm] != nil {
				panic(where + ": duplicate contract " + nm)
			}
			c.funcs[nm] = cur
			c.order = append(c.order, nm)
		case "lemma":
			i := strings.Index(rest, "(")
			j := strings.LastIndex(rest, ")")
			cur = &Contract{Name: strings.TrimSpace(rest[:i]), Lemma: true, Each: map[string]*EachDef{}, Inline: map[string]bool{}, File: where}
			for _, g := range splitNames(rest[i+1 : j]) {
				p := strings.Fields(g)
				cur.Ghosts = append(cur.Ghosts, ghost{p[0], p[1]})
			}
			c.lemmas = append(c.lemmas, cur)
		case "mode":
			for _, m := range fields {
				switch m {
				case "abstract":
					cur.Abstract = true
				case "trusted":
					cur.Trusted, cur.Abstract = true, true
				case "nilrecv":
					cur.NilRecv = true
				case "nosafe":
					cur.NoSafe = true
				case "nopre": // the preconditions of what it calls are assumed
					cur.NoPre = true
					c.assumes = append(c.assumes, "assumed, not proved: in "+cur.Name+", the preconditions of the functions it calls")
				default:
					panic(where + ": mode " + m)
				}
			}
		case "requires":
			cur.Requires = append(cur.Requires, parseClause(rest, where))
		case "ensures", "proves": // proves: checked, but not assumed by callers
			cl := parseClause(rest, where)
			cl.Local = kw == "proves"
			if cl.Label == "" {
				cl.Label = fmt.Sprintf("post%d", len(cur.Ensures)+1)
			}
			cur.Ensures = append(cur.Ensures, cl)
			if cur.Lemma {
				cl2 := cl
				cur.Steps = append(cur.Steps, Step{Kind: "ensures", Expr: cl2.Expr, Src: cl2.Src, Name: cl2.Label})
			}
		case "on":
			i := strings.IndexAny(rest, " \t")
			cl := parseClause(rest[i+1:], where)
			cl.Event = rest[:i]
			cur.On = append(cur.On, cl)
		case "turn":
			cur.Turn = append(cur.Turn, parseClause(rest, where))
		case "eachreq":
			// eachreq v in COLL: expr
			d := &EachDef{}
			j := strings.Index(rest, " in ")
			k := j + strings.Index(rest[j:], ":")
			d.V = strings.TrimSpace(rest[:j])
			d.Coll = parseExpr(rest[j+4:k], where)
			d.Src = strings.TrimSpace(rest[k+1:])
			d.Expr = parseExpr(rest[k+1:], where)
			cur.EachReq = append(cur.EachReq, d)
		case "each":
			// each NAME: k, v in COLL: expr
			i := strings.Index(rest, ":")
			d := &EachDef{Name: strings.TrimSpace(rest[:i])}
			r := rest[i+1:]
			j := strings.Index(r, " in ")
			vs := splitNames(r[:j])
			if len(vs) == 1 {
				d.V = vs[0]
			} else {
				d.K, d.V = vs[0], vs[1]
			}
			r = r[j+4:]
			k := strings.Index(r, ":")
			d.Coll = parseExpr(r[:k], where)
			d.Src = strings.TrimSpace(r[k+1:])
			d.Expr = parseExpr(r[k+1:], where)
			cur.Each[d.Name] = d
		case "loopinv":
			// loopinv TYPE v: expr   (about loop-carried values of the type)
			i := strings.Index(rest, ":")
			fs := strings.Fields(rest[:i])
			li := loopInv{fs[0], fs[1], parseExpr(rest[i+1:], where), ""}
			if len(fs) > 2 { // loopinv []TYPE v done: expr
				li.iter = fs[2]
			}
			cur.LoopInv = append(cur.LoopInv, li)
		case "enumerates": // [label] {tags} pair(result, map)
			cl := parseClause(rest, where)
			ce := cl.Expr.(*ast.CallExpr)
			cur.Enumerates = append(cur.Enumerates, enumPair{ce.Args[0], ce.Args[1], ce.Fun.(*ast.Ident).Name == "keys"})
			if cl.Label == "" {
				cl.Label = "enumerates"
			}
			cur.EnumClause = append(cur.EnumClause, cl)
		case "async":
			if cur.AsyncOK == nil {
				cur.AsyncOK = map[string]bool{}
			}
			for _, k := range fields {
				cur.AsyncOK[k] = true
			}
		case "inline":
			for _, k := range fields {
				cur.Inline[k] = true
			}
		case "tags":
			cur.Extra = append(cur.Extra, splitNames(rest)...)
		case "ghost":
			p := strings.Fields(rest)
			cur.Ghosts = append(cur.Ghosts, ghost{p[0], p[1]})
		case "let":
			i := strings.Index(rest, "=")
			cur.Steps = append(cur.Steps, Step{Kind: "let", Name: strings.TrimSpace(rest[:i]), Expr: parseExpr(rest[i+1:], where), Src: rest})
		case "assume":
			cur.Steps = append(cur.Steps, Step{Kind: "assume", Expr: parseExpr(rest, where), Src: rest})
		case "call":
			i := strings.Index(rest, "=")
			j := strings.Index(rest, "(")
			st := Step{Kind: "call", Src: rest}
			r := rest
			if i >= 0 && i < j {
				st.Name = strings.TrimSpace(rest[:i])
				r = strings.TrimSpace(rest[i+1:])
			}
			k := strings.Index(r, "(")
			st.Fn = r[:k]
			ce := parseExpr("f"+r[k:], where).(*ast.CallExpr)
			st.Args = ce.Args
			cur.Steps = append(cur.Steps, st)
		}
	}
}

// assumable: the clause speaks about arguments, results and state only, not about the callee's events.
func (c *Contracts) assumable(e ast.Expr, d int) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		if ce, isC := n.(*ast.CallExpr); isC {
			if id, isI := ce.Fun.(*ast.Ident); isI {
				switch id.Name {
				case "count", "exists", "forall", "none", "before", "followed", "allbefore", "each", "last", "first", "sofar", "old", "at", "one", "isfresh":
					ok = false
				}
				if m, isM := c.defs[id.Name]; isM && d < 20 && !c.assumable(m.expr, d+1) {
					ok = false
				}
			}
		}
		if id, isI := n.(*ast.Ident); isI {
			if m, isM := c.defs[id.Name]; isM && len(m.params) == 0 && d < 20 && !c.assumable(m.expr, d+1) {
				ok = false
			}
		}
		return true
	})
	return ok
}
