package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Solver is one SMT process plus the encoding of terms for it.
type Solver struct {
	name    string
	native  bool // real string theory (cvc5); otherwise strings are an uninterpreted sort with ground axioms
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	timeout int // ms
	Queries int
	Time    time.Duration
}

var totalQueries int64

func NewSolver(name string, timeoutMs int) *Solver {
	s := &Solver{name: name, timeout: timeoutMs}
	s.native = name == "cvc5n"
	s.start()
	return s
}

func (s *Solver) start() {
	switch s.name {
	case "z3":
		s.cmd = exec.Command("z3-new", "-in", "-smt2")
	case "cvc5":
		s.cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout))
	case "cvc5n":
		s.cmd = exec.Command("cvc5", "--incremental", "--strings-exp", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout))
	default:
		panic("unknown solver")
	}
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	if s.name == "z3" {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :smt.random_seed 1)\n", s.timeout)
	}
	fmt.Fprintf(s.in, "(set-logic ALL)\n(declare-sort Ref 0)\n(declare-sort Iface 0)\n(declare-sort Func 0)\n(declare-sort Any 0)\n")
	if !s.native {
		fmt.Fprintf(s.in, "(declare-sort Str 0)\n")
	}
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() { s.Close(); s.start() }

func smtStr(v string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(v); i++ {
		b := v[i]
		if b == '"' {
			sb.WriteString(`""`)
		} else if b < 32 || b > 126 || b == '\\' {
			fmt.Fprintf(&sb, "\\u{%x}", b)
		} else {
			sb.WriteByte(b)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (s *Solver) sort(x string) string {
	if s.native {
		x = strings.ReplaceAll(x, "Str", "String")
	}
	return x
}

func q(n string) string { return "|" + n + "|" }

// encode renders a query (declarations, definitions, assertions with axioms).
func (s *Solver) encode(c *Ctx, asserts []*Term) string {
	var sb strings.Builder
	for iter := 0; ; iter++ {
		ax := axioms(c, asserts, s.native)
		n := len(asserts)
		seen := map[*Term]bool{}
		for _, a := range asserts {
			seen[a] = true
		}
		for _, a := range ax {
			if !seen[a] && !a.isTrue() {
				seen[a] = true
				asserts = append(asserts, a)
			}
		}
		if len(asserts) == n || iter > 3 {
			break
		}
	}
	terms := collect(asserts)
	declared := map[string]bool{}
	name := map[*Term]string{}
	bound := map[*Term]bool{} // terms containing bound variables: printed inline
	for _, t := range terms {
		if t.Op == "var" {
			bound[t] = true
		}
		for _, a := range t.Args {
			if bound[a] && t.Op != "forall" {
				bound[t] = true
			}
		}
	}
	var lits []string
	var expr func(t *Term) string
	render := func(t *Term) string {
		switch t.Op {
		case "const":
			return q(t.Name)
		case "var":
			return q(t.Name)
		case "int":
			if strings.HasPrefix(t.Name, "-") {
				return "(- " + t.Name[1:] + ")"
			}
			return t.Name
		case "str":
			if s.native {
				return smtStr(t.Name)
			}
			return q("lit:" + fmt.Sprint(t.id))
		case "true", "false":
			return t.Op
		case "constarr":
			return "((as const " + s.sort(t.Sort) + ") " + expr(t.Args[0]) + ")"
		case "forall":
			var vs []string
			for _, v := range t.Args[:len(t.Args)-1] {
				vs = append(vs, "("+q(v.Name)+" "+s.sort(v.Sort)+")")
			}
			return "(forall (" + strings.Join(vs, " ") + ") " + expr(t.Args[len(t.Args)-1]) + ")"
		case "app":
			var as []string
			for _, a := range t.Args {
				as = append(as, expr(a))
			}
			if s.native {
				if r, ok := nativeApp(t, as); ok {
					return r
				}
			}
			nm := appName(t)
			if len(as) == 0 {
				return q(nm)
			}
			return "(" + q(nm) + " " + strings.Join(as, " ") + ")"
		}
		var as []string
		for _, a := range t.Args {
			as = append(as, expr(a))
		}
		return "(" + t.Op + " " + strings.Join(as, " ") + ")"
	}
	expr = func(t *Term) string {
		if n, ok := name[t]; ok {
			return n
		}
		return render(t)
	}
	for _, t := range terms {
		switch t.Op {
		case "const":
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", q(t.Name), s.sort(t.Sort))
		case "str":
			if !s.native {
				fmt.Fprintf(&sb, "(declare-const %s Str)\n", q("lit:"+fmt.Sprint(t.id)))
				lits = append(lits, q("lit:"+fmt.Sprint(t.id)))
			}
		case "app":
			nm := appName(t)
			if s.native {
				if _, ok := nativeApp(t, make([]string, len(t.Args))); ok {
					break
				}
			}
			if !declared[nm] {
				declared[nm] = true
				var ss []string
				for _, a := range t.Args {
					ss = append(ss, s.sort(a.Sort))
				}
				fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", q(nm), strings.Join(ss, " "), s.sort(t.Sort))
			}
		}
		if !bound[t] && len(t.Args) > 0 && t.Op != "forall" {
			nm := fmt.Sprintf("t%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", nm, s.sort(t.Sort), render(t))
			name[t] = nm
		}
	}
	if len(lits) > 1 {
		fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", expr(a))
	}
	return sb.String()
}

// appName disambiguates overloaded uninterpreted functions by arity and sorts.
func appName(t *Term) string {
	var sb strings.Builder
	sb.WriteString(t.Name)
	for _, a := range t.Args {
		sb.WriteByte('_')
		sb.WriteString(sanitize(a.Sort))
	}
	return strings.ReplaceAll(sb.String(), "|", "_")
}

func nativeApp(t *Term, as []string) (string, bool) {
	switch t.Name {
	case "cat":
		return "(str.++ " + strings.Join(as, " ") + ")", true
	case "slen":
		return "(str.len " + as[0] + ")", true
	case "at":
		return "(str.to_code (str.at " + as[0] + " " + as[1] + "))", true
	case "substr":
		return "(str.substr " + as[0] + " " + as[1] + " (- " + as[2] + " " + as[1] + "))", true
	case "prefixof":
		return "(str.prefixof " + as[1] + " " + as[0] + ")", true
	case "suffixof":
		return "(str.suffixof " + as[1] + " " + as[0] + ")", true
	case "contains":
		return "(str.contains " + as[0] + " " + as[1] + ")", true
	case "replaceall":
		return "(str.replace_all " + as[0] + " " + as[1] + " " + as[2] + ")", true
	case "indexof":
		return "(str.indexof " + as[0] + " " + as[1] + " 0)", true
	case "chr":
		return "(str.from_code " + as[0] + ")", true
	case "shead":
		return "(str.substr " + as[0] + " 0 (str.indexof " + as[0] + " " + as[1] + " 0))", true
	case "stail":
		return "(str.substr " + as[0] + " (+ (str.len " + as[1] + ") (str.indexof " + as[0] + " " + as[1] + " 0)) (str.len " + as[0] + "))", true
	}
	return "", false
}

// axioms returns ground instances of facts about the interpreted symbols.
func axioms(c *Ctx, asserts []*Term, native bool) []*Term {
	terms := collect(asserts)
	var ax []*Term
	add := func(t *Term) { ax = append(ax, t) }
	var fresh, refs, lits []*Term
	hasLen := false
	atIdx := map[int64]bool{}
	for _, t := range terms {
		if t.Sort == SRef && !hasVar(t) {
			refs = append(refs, t)
			if t.Fresh {
				fresh = append(fresh, t)
			}
		}
		if t.Op == "str" {
			lits = append(lits, t)
		}
		if t.Op == "app" && t.Name == "slen" {
			hasLen = true
		}
		if t.Op == "app" && t.Name == "at" {
			if n, ok := t.Args[1].int64(); ok {
				atIdx[n] = true
			}
		}
	}
	for _, f := range fresh {
		for _, r := range refs {
			if r.id < f.id {
				add(c.mk("not", "", SBool, c.mk("=", "", SBool, r, f)))
			}
		}
	}
	for _, t := range terms {
		if hasVar(t) {
			continue
		}
		if isBox(t) {
			add(c.Eq(c.App("ityp", SInt, t), c.Int(int64(c.TypeID(t.Name[4:])))))
			add(c.mk("not", "", SBool, c.mk("=", "", SBool, c.NilI(), t)))
			for i, a := range t.Args {
				add(c.mk("=", "", SBool, c.App(fmt.Sprintf("unbox:%s:%d", t.Name[4:], i), a.Sort, t), a))
			}
		}
		if t == c.NilI() {
			add(c.mk("=", "", SBool, c.App("ityp", SInt, t), c.Int(0)))
		}
		if native {
			continue
		}
		if t.Op != "app" {
			continue
		}
		switch t.Name {
		case "slen":
			// built raw: the simplifier already knows these facts
			add(c.mk("not", "", SBool, c.mk("<", "", SBool, t, c.Int(0))))
			e := c.Eq(t.Args[0], c.Str(""))
			z := c.mk("=", "", SBool, c.Int(0), t)
			add(c.Imp(e, z))
			add(c.Imp(z, e))
		case "cat":
			sum := c.Int(0)
			for _, a := range t.Args {
				sum = c.Add(sum, c.App("slen", SInt, a))
			}
			add(c.mk("=", "", SBool, c.App("slen", SInt, t), sum))
		case "at":
			add(c.Le(c.Int(0), t))
			add(c.Le(t, c.Int(255)))
			if d := t.Args[0]; d.Op == "app" && d.Name == "dec" {
				if n, ok := t.Args[1].int64(); ok && n >= 0 {
					add(c.Imp(c.Lt(t.Args[1], c.Len(d)), c.And(c.Le(c.Int(48), t), c.Le(t, c.Int(57)))))
				}
			}
		case "substr":
			s, i, j := t.Args[0], t.Args[1], t.Args[2]
			ok := c.And(c.Le(c.Int(0), i), c.Le(i, j), c.Le(j, c.Len(s)))
			add(c.Imp(ok, c.Eq(c.App("slen", SInt, t), c.Sub(j, i))))
		case "prefixof":
			s, p := t.Args[0], t.Args[1]
			add(c.Imp(t, c.Le(c.Len(p), c.Len(s))))
			add(c.Imp(t, c.Not(c.Eq(s, c.Str("")))))
			if p.Op == "str" {
				for i := 0; i < len(p.Name); i++ {
					add(c.Imp(t, c.Eq(c.At(s, c.Int(int64(i))), c.Int(int64(p.Name[i])))))
				}
				if len(p.Name) == 1 {
					add(c.Imp(c.And(c.Not(c.Eq(s, c.Str(""))), c.Eq(c.At(s, c.Int(0)), c.Int(int64(p.Name[0])))), t))
				}
			}
		}
	}
	if !native {
		if hasLen {
			for _, l := range lits {
				add(c.mk("=", "", SBool, c.App("slen", SInt, l), c.Int(int64(len(l.Name)))))
			}
		}
		for _, t := range terms {
			if t.Op == "app" && t.Name == "dec" && !hasVar(t) {
				add(c.mk("not", "", SBool, c.mk("=", "", SBool, t, c.Str(""))))
				for n := range atIdx {
					if n == 0 {
						a := c.mk("app", "at", SInt, t, c.Int(n))
						add(c.And(c.Le(c.Int(48), a), c.Le(a, c.Int(57))))
					}
				}
			}
			if t.Op == "app" && t.Name == "cat" && !hasVar(t) {
				for n := range atIdx {
					if r := c.At(t, c.Int(n)); n >= 0 && !(r.Op == "app" && r.Name == "at" && r.Args[0] == t) {
						add(c.mk("=", "", SBool, c.mk("app", "at", SInt, t, c.Int(n)), r))
					}
				}
			}
		}
		for n := range atIdx {
			for _, l := range lits {
				if n >= 0 && int(n) < len(l.Name) {
					add(c.mk("=", "", SBool, c.App("at", SInt, l, c.Int(n)), c.Int(int64(l.Name[n]))))
				}
			}
		}
	}
	return ax
}

var varCache = map[*Term]bool{}

func hasVar(t *Term) bool {
	if t.Op == "var" {
		return true
	}
	if t.Op == "forall" || len(t.Args) == 0 {
		return false
	}
	for _, a := range t.Args {
		if hasVarDeep(a, 0) {
			return true
		}
	}
	return false
}

func hasVarDeep(t *Term, d int) bool {
	if t.Op == "var" {
		return true
	}
	if t.Op == "forall" || d > 12 {
		return false
	}
	for _, a := range t.Args {
		if hasVarDeep(a, d+1) {
			return true
		}
	}
	return false
}

func (c *Ctx) TypeID(name string) int {
	if id, ok := c.types[name]; ok {
		return id
	}
	id := len(c.types) + 1
	c.types[name] = id
	return id
}

// Check returns "sat", "unsat" or "unknown"; with wantModel it also returns the values of the given terms.
func (s *Solver) Check(c *Ctx, asserts []*Term, vals []*Term) (string, []string) {
	for _, a := range asserts {
		if a.isFalse() {
			return "unsat", nil
		}
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	atomic.AddInt64(&totalQueries, 1)
	all := asserts
	if len(vals) > 0 {
		// make sure the value terms are declared: assert trivial equalities
		all = append([]*Term{}, asserts...)
		for _, v := range vals {
			all = append(all, c.mk("=", "", SBool, v, v))
		}
	}
	body := s.encode(c, all)
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	sb.WriteString(body)
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.restart()
		return "unknown", nil
	}
	res, err := s.readLine()
	if err != nil {
		s.restart()
		return "unknown", nil
	}
	if strings.HasPrefix(res, "(error") {
		lastSolverError = res + "\n" + body
		s.restart()
		return "unknown", nil
	}
	var out []string
	if res == "sat" && len(vals) > 0 {
		terms := map[*Term]bool{}
		for _, t := range collect(all) {
			terms[t] = true
		}
		for _, v := range vals {
			nm := ""
			if v.Op == "const" {
				nm = q(v.Name)
			} else {
				nm = fmt.Sprintf("t%d", v.id)
			}
			fmt.Fprintf(s.in, "(get-value (%s))\n", nm)
			l, err := s.readSexp()
			if err != nil {
				s.restart()
				return res, out
			}
			out = append(out, l)
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	switch res {
	case "sat", "unsat":
		return res, out
	}
	return "unknown", nil
}

var lastSolverError string

func (s *Solver) readLine() (string, error) {
	for {
		type r struct {
			l string
			e error
		}
		ch := make(chan r, 1)
		go func() {
			l, e := s.out.ReadString('\n')
			ch <- r{l, e}
		}()
		select {
		case x := <-ch:
			if x.e != nil {
				return "", x.e
			}
			l := strings.TrimSpace(x.l)
			if l == "" {
				continue
			}
			return l, nil
		case <-time.After(time.Duration(s.timeout+5000) * time.Millisecond):
			s.cmd.Process.Kill()
			x := <-ch
			_ = x
			return "", fmt.Errorf("timeout")
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.readLine()
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
		instr := false
		for _, r := range l {
			if r == '"' {
				instr = !instr
			}
			if instr {
				continue
			}
			if r == '(' {
				depth++
			}
			if r == ')' {
				depth--
			}
		}
		if depth <= 0 {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}
