package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Finding struct {
	Property   string `json:"property"`
	Status     string `json:"status"` // "known" or "fixed"
	Obligation string `json:"obligation,omitempty"`
	Commit     string `json:"commit,omitempty"`
	What       string `json:"what"`
}

func loadFindings(verif string) []Finding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var fs []Finding
	if err := json.Unmarshal(b, &fs); err != nil {
		panic(err)
	}
	return fs
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

var posRe = regexp.MustCompile(` @\S*$`)

func hasTag(ts []string, p string) bool {
	for _, t := range ts {
		if t == p {
			return true
		}
	}
	return false
}

type violation struct {
	Obligation string   `json:"obligation"`
	Clause     string   `json:"clause"`
	Root       string   `json:"function"`
	Pos        string   `json:"position,omitempty"`
	Verifier   string   `json:"verifier_answer"`
	Goal       string   `json:"unproved_goal,omitempty"`
	Why        string   `json:"why,omitempty"`
	Model      []string `json:"counterexample,omitempty"`
	Path       []string `json:"path,omitempty"`
	PC         []string `json:"path_condition,omitempty"`
}

type replayResult struct {
	Cmd      string `json:"command"`
	Result   string `json:"result"` // failed, passed, unavailable
	Failed   string `json:"failed_scenarios,omitempty"`
	Output   string `json:"output,omitempty"`
	Duration string `json:"duration"`
}

// replay runs the concrete scenarios of the property against the real code: those of the main package
// (replay/*_test.go) and those of its other packages (replay/sub/<dir>/*_test.go).
func replay(repo, verif, prop, kind string, given map[string][]byte) replayResult {
	pre := "Test" + kind + "_" + prop + "_"
	r := replayIn(repo, filepath.Join(verif, "replay"), prop, kind, given)
	subs := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(verif, "replay", "sub", "*", "*_test.go"))
	gs, _ := filepath.Glob(filepath.Join(verif, "replay", "sub", "*", "*", "*_test.go"))
	for _, f := range append(fs, gs...) {
		if b, _ := os.ReadFile(f); strings.Contains(string(b), "func "+pre) {
			subs[filepath.Dir(f)] = true
		}
	}
	for d := range subs {
		rel, _ := filepath.Rel(filepath.Join(verif, "replay", "sub"), d)
		q := replayIn(filepath.Join(repo, rel), d, prop, kind, given)
		if q.Result == "failed" || r.Result == "unavailable" {
			if r.Result == "failed" {
				q.Failed, q.Output = r.Failed+" "+q.Failed, r.Output+"\n"+q.Output
			}
			r = q
		}
	}
	return r
}

func replayIn(repo, src, prop, kind string, given map[string][]byte) replayResult {
	pre := "Test" + kind + "_" + prop + "_"
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "gvc-replay")
	if err != nil {
		return replayResult{Result: "unavailable", Output: err.Error()}
	}
	defer os.RemoveAll(dir)
	files, _ := filepath.Glob(filepath.Join(src, "*_test.go"))
	// the repository's own tests are not part of the replay
	own, _ := filepath.Glob(filepath.Join(repo, "*_test.go"))
	of := filepath.Join(dir, "overlay.json")
	bin := filepath.Join(dir, "replay.test")
	env := append(goEnv(), "VERIF_SEED="+strconv.Itoa(seed()))
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	build := func(files []string, race bool) (string, error) {
		ov := map[string]map[string]string{"Replace": {}}
		for _, f := range files {
			ov["Replace"][filepath.Join(repo, "zz_verif_"+strings.TrimPrefix(filepath.Base(f), "cut_"))] = f
		}
		for _, f := range own {
			ov["Replace"][f] = ""
		}
		n := 0
		for f, b := range given {
			g := filepath.Join(dir, fmt.Sprintf("given%d.go", n))
			n++
			os.WriteFile(g, b, 0644)
			ov["Replace"][f] = g
		}
		b, _ := json.Marshal(ov)
		os.WriteFile(of, b, 0644)
		args := []string{"test", "-c", "-vet=off", "-gcflags=-e", "-overlay", of, "-o", bin}
		if race {
			args = append(args, "-race")
		}
		cmd := exec.CommandContext(ctx, "go", append(args, ".")...)
		cmd.Dir = repo
		cmd.Env = env
		if race {
			cmd.Env = append(append([]string{}, env...), "CGO_ENABLED=1")
		}
		out, err := cmd.CombinedOutput()
		return string(out), err
	}
	race := prop == "C17" || prop == "C20" || prop == "C21" || prop == "C22" // the guarded state is watched by the race detector
	bout, berr := build(files, race)
	for i := 0; i < 12 && berr != nil; i++ {
		// the functions that name something the change renamed or removed are left out
		var cut int
		if files, cut = cutBroken(dir, files, bout); cut == 0 {
			break
		}
		bout, berr = build(files, race)
	}
	if berr != nil && race {
		bout, berr = build(files, false)
	}
	if berr != nil {
		return replayResult{Cmd: "go test -c -overlay ...", Result: "unavailable", Output: tail(bout, 3000), Duration: time.Since(t0).String()}
	}
	run := exec.CommandContext(ctx, bin, "-test.run", "^"+pre, "-test.timeout", "150s", "-test.v", "-test.count", "1")
	run.Dir = dir
	run.Env = env
	out, err := run.CombinedOutput()
	r := replayResult{Cmd: "go test -overlay <replay/*.go> -run ^" + pre, Result: "passed", Duration: time.Since(t0).String()}
	if !strings.Contains(string(out), "=== RUN") {
		r.Result = "unavailable"
		r.Output = "no scenario for this property"
		return r
	}
	if err != nil {
		r.Result = "failed"
		var fs []string
		for _, l := range strings.Split(string(out), "\n") {
			if strings.HasPrefix(l, "--- FAIL:") {
				fs = append(fs, strings.Fields(l)[2])
			}
		}
		r.Failed = strings.Join(fs, " ")
		r.Output = tail(string(out), 6000)
	}
	return r
}

var compileErr = regexp.MustCompile(`([A-Za-z0-9_]+_test\.go):(\d+):\d+: (.*)`)

// cutBroken copies the scenario files without the functions the compiler rejects.
func cutBroken(dir string, files []string, out string) (res []string, cut int) {
	bad := map[string]map[int]string{}
	for _, m := range compileErr.FindAllStringSubmatch(out, -1) {
		f := strings.TrimPrefix(strings.TrimPrefix(m[1], "zz_verif_"), "cut_")
		if bad[f] == nil {
			bad[f] = map[int]string{}
		}
		n, _ := strconv.Atoi(m[2])
		bad[f][n] = m[3]
	}
	for _, f := range files {
		lines := bad[strings.TrimPrefix(filepath.Base(f), "cut_")]
		if len(lines) == 0 {
			res = append(res, f)
			continue
		}
		src, err := os.ReadFile(f)
		fset := token.NewFileSet()
		af, perr := parser.ParseFile(fset, f, src, 0)
		if err != nil || perr != nil {
			res = append(res, f)
			continue
		}
		blank := func(n ast.Node) {
			for i := fset.Position(n.Pos()).Offset; i < fset.Position(n.End()).Offset && i < len(src); i++ {
				if src[i] != '\n' {
					src[i] = ' '
				}
			}
			cut++
		}
		for _, d := range af.Decls {
			from, to := fset.Position(d.Pos()).Line, fset.Position(d.End()).Line
			for n := range lines {
				if n < from || n > to {
					continue
				}
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
					for _, s := range g.Specs {
						if l := fset.Position(s.Pos()).Line; lines[l] != "" {
							blank(s)
						}
					}
				} else {
					blank(d)
				}
				break
			}
		}
		o := filepath.Join(dir, "cut_"+strings.TrimPrefix(filepath.Base(f), "cut_"))
		os.WriteFile(o, src, 0644)
		res = append(res, o)
	}
	return
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

func writeJSON(path string, v interface{}) {
	os.MkdirAll(filepath.Dir(path), 0755)
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
}

func reportLoadError(verif, prop, tier string, err error, t0 time.Time) int {
	v := violation{Obligation: "load", Clause: "the source of the repository type-checks", Verifier: "not run", Why: err.Error()}
	rp := filepath.Join(verif, "evidence", "replay_"+prop+".json")
	writeJSON(rp, map[string]interface{}{"property": prop, "failed": []violation{v}})
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed(), "level": "proof", "wall_s": time.Since(t0).Seconds(), "violations": 1,
		"coverage": map[string]interface{}{"obligations": 1, "discharged": 0, "checker_cmd": "bin/gvc -prop " + prop, "trusted_base": []string{}},
	})
	fmt.Printf("cannot load the source: %v\n", err)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	return 1
}

func (e *Engine) decide(verif, prop, tier string, t0 time.Time) int {
	var bres replayResult
	bdone := make(chan bool)
	bounded := e.con.bounded[prop]
	go func() {
		if len(bounded) > 0 {
			bres = replay(e.repo, verif, prop, "Bounded", e.overlay)
		}
		close(bdone)
	}()
	rs := e.runRoots(e.allRoots(), runtime.NumCPU())
	var auto []string
	isAuto := map[string]bool{}
	for _, r := range e.runAuto(rs, runtime.NumCPU()) {
		isAuto[r.Name] = true
		if r.Err != "" {
			auto = append(auto, r.Name+": not analysable: "+r.Err)
			r.Err = ""
		} else {
			auto = append(auto, r.Name)
		}
		rs = append(rs, r)
	}
	byName := map[string]*RootResult{}
	for _, r := range rs {
		byName[r.Name] = r
	}
	// roots that state the property, and the contracts their proofs rest on
	stated := map[string]bool{}
	for _, r := range rs {
		if r.Tags[prop] {
			stated[r.Name] = true
		}
	}
	dep := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		r := byName[n]
		if r == nil {
			return
		}
		for _, h := range r.Hits {
			if !dep[h] {
				dep[h] = true
				visit(h)
			}
		}
	}
	for n := range stated {
		visit(n)
	}
	type counted struct {
		r *RootResult
		o *Obl
	}
	var obls []counted
	var errs []*RootResult
	for _, r := range rs {
		assumed := map[string]bool{}
		if dep[r.Name] {
			for _, cl := range e.con.funcs[r.Name].Ensures {
				if cl.Assumable {
					assumed[cl.Label] = true
				}
			}
		}
		if r.Err != "" && (stated[r.Name] || len(assumed) > 0 || prop == "C22" || prop == "C23") {
			errs = append(errs, r)
		}
		for _, o := range r.Obls {
			in := hasTag(o.Tags, prop) || stated[r.Name] && hasTag(o.Tags, "*") || isAuto[r.Name] && prop == "C22" && o.Label == "frame"
			if !in && o.Label == "ensures" {
				in = assumed[o.Name[strings.LastIndex(o.Name, "/ensures:")+len("/ensures:"):]]
			}
			if in {
				obls = append(obls, counted{r, o})
			}
		}
	}
	var viols []violation
	var known []string
	finds := loadFindings(verif)
	discharged := 0
	checks := 0
	solvers := map[string]int{}
	crossOK, crossUnk, crossBad := 0, 0, 0
	var names []string
	for _, c := range obls {
		checks += c.o.Checks
		crossOK += c.o.CrossOK
		crossUnk += c.o.CrossUnk
		crossBad += c.o.CrossBad
		names = append(names, c.o.Name)
		for k, n := range c.o.Solvers {
			solvers[k] += n
		}
		if !c.o.Failed {
			discharged++
			continue
		}
		isKnown := false
		for _, f := range finds {
			if f.Status == "known" && f.Property == prop && f.Obligation != "" && f.Obligation == posRe.ReplaceAllString(c.o.Name, "") {
				known = append(known, f.What)
				isKnown = true
			}
		}
		if isKnown {
			continue
		}
		ans := "a counterexample exists"
		if c.o.Undec {
			ans = "unknown"
		}
		viols = append(viols, violation{c.o.Name, c.o.Clause, c.r.Name, c.o.Pos, ans, c.o.Goal, c.o.Why, c.o.Model, c.o.Path, c.o.PC})
	}
	for _, r := range errs {
		viols = append(viols, violation{Obligation: r.Name + "/analysable", Clause: "the function's obligations can be generated from the current source", Root: r.Name, Verifier: "not generated", Why: r.Err})
	}
	<-bdone
	if len(bounded) > 0 && bres.Result != "passed" {
		why := bres.Failed
		if bres.Result == "unavailable" {
			why = "the bounded check could not be run: " + tail(bres.Output, 400)
		}
		viols = append(viols, violation{Obligation: "bounded/" + prop, Clause: "the bounded check standing in for " + bounded[0].Fn, Verifier: bres.Result, Why: why})
	}
	// the contracts whose function is gone or has another signature: the property rests on the
	// other contracts and, in place of these, on the scenarios
	var stale []string
	for n, c := range e.dropped {
		if c.tags()[prop] {
			stale = append(stale, n)
		}
	}
	sort.Strings(stale)
	var sres replayResult
	var excused []string
	if len(e.dropped) > 0 {
		body := map[string][]string{}
		for _, r := range e.base {
			if r.Kind == "func" {
				body[r.fn()] = r.Body
			}
		}
		// an obligation of a caller speaks of the function under its old interface
		var rest []violation
		for _, v := range viols {
			calls := false
			for n := range e.dropped {
				short := n[strings.LastIndex(n, ".")+1:]
				if r := byName[v.Root]; r != nil {
					calls = calls || hasTag(r.Inlined, n)
					for _, f := range append(append([]string{}, r.Inlined...), v.Root) {
						calls = calls || hasTag(body[f], short)
					}
				}
			}
			if calls {
				excused = append(excused, v.Obligation)
			} else {
				rest = append(rest, v)
			}
		}
		viols = rest
	}
	if (len(stale) > 0 || len(excused) > 0) && len(viols) == 0 {
		sres = replay(e.repo, verif, prop, "Replay", e.overlay)
		if sres.Result != "passed" {
			viols = append(viols, violation{Obligation: strings.Join(stale, " ") + "/scenarios", Clause: "the scenarios standing in for the contracts of functions that are gone or have another signature", Verifier: sres.Result, Why: sres.Failed})
		}
	}
	sort.Strings(known)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	// evidence
	var fns, lems, inl []string
	trusted := []string{}
	inlm := map[string]bool{}
	var sec float64
	queries, paths, turns := 0, 0, 0
	for _, r := range rs {
		if !stated[r.Name] && !dep[r.Name] && !(prop == "C22" || prop == "C23") {
			continue
		}
		if r.Trusted {
			trusted = append(trusted, "contract assumed, body not verified: "+r.Name)
			continue
		}
		if isAuto[r.Name] {
			// reported on its own
		} else if r.Lemma {
			lems = append(lems, r.Name)
		} else {
			fns = append(fns, r.Name+" ("+r.SrcFile+")")
		}
		for _, i := range r.Inlined {
			inlm[i] = true
		}
		sec += r.Solver.Seconds()
		queries += r.Queries
		paths += r.Paths
		turns += r.Turns
	}
	for i := range inlm {
		if e.con.funcs[i] == nil {
			inl = append(inl, i)
		}
	}
	sort.Strings(fns)
	sort.Strings(inl)
	sort.Strings(lems)
	trusted = append(trusted,
		"gvc: the obligation generator in /verif/gvc (symbolic execution of go/ssa)",
		"golang.org/x/tools/go/ssa and go/types: source to SSA",
		"z3 4.8.12, cvc5 1.1.2 (solver answers)",
		"the library models in gvc/lib.go (sync, sync/atomic, strings, bytes, errors, context, time, ...)")
	cov := map[string]interface{}{
		"obligations": len(obls), "discharged": discharged, "checker_cmd": fmt.Sprintf("bin/gvc -prop %s -tier %s", prop, tier), "trusted_base": trusted,
		"checks_on_paths": checks, "paths": paths, "loop_iterations_checked_inductively": turns, "by_back_end": solvers,
		"solver_queries": queries, "solver_s": round(sec), "functions_under_contract": fns, "inlined_functions": inl, "lemmas": lems, "obligation_names": names,
	}
	if prop == "C22" || prop == "C23" {
		cov["functions_without_contract_only_discipline_checked"] = auto
	}
	if len(bounded) > 0 {
		cov["bounded_not_proved"] = map[string]interface{}{"functions": bounded, "result": bres.Result, "duration": bres.Duration, "command": bres.Cmd}
	}
	if len(e.renamed) > 0 {
		cov["names_given_back"] = e.renamed
	}
	if len(stale) > 0 || len(excused) > 0 {
		cov["contracts_not_applicable_judged_by_scenarios"] = map[string]interface{}{"functions": stale, "obligations_of_callers": excused, "result": sres.Result, "duration": sres.Duration}
	}
	if thorough {
		cov["cross_checked_by_cvc5"] = map[string]int{"confirmed": crossOK, "undecided": crossUnk, "contradicted": crossBad}
	}
	if crossBad > 0 {
		fmt.Printf("warning: %d discharged goals are contradicted by cvc5\n", crossBad)
	}
	as := append([]string{}, generalAssumptions...)
	as = append(as, e.con.assumes...)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed(), "level": "proof", "coverage": cov, "assumptions": as,
		"wall_s": round(time.Since(t0).Seconds()), "violations": len(viols),
	}
	fmt.Printf("%s: %d obligations in %d functions and %d lemmas, %d discharged, %d queries, %.1fs\n", prop, len(obls), len(fns), len(lems), discharged, queries, time.Since(t0).Seconds())
	if len(obls) == 0 {
		fmt.Println("no obligation states this property")
		writeJSON(filepath.Join(verif, "evidence", prop+".json"), ev)
		return 2
	}
	code := 0
	if len(viols) > 0 {
		for _, v := range viols {
			fmt.Printf("failed obligation: %s\n   %s\n   %s %s %s\n", v.Obligation, v.Clause, v.Pos, v.Verifier, v.Why)
		}
		rr := replay(e.repo, verif, prop, "Replay", e.overlay)
		rp := filepath.Join(verif, "evidence", "replay_"+prop+".json")
		if bres.Result == "failed" && rr.Result != "failed" {
			rr = bres
		}
		writeJSON(rp, map[string]interface{}{"property": prop, "failed_obligations": viols, "replay_against_the_real_code": rr})
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp)
		if rr.Result != "failed" {
			line += " no-failing-input-found"
		} else {
			fmt.Printf("confirmed on the real code: %s\n", rr.Failed)
		}
		fmt.Println(line)
		code = 1
	}
	ev["wall_s"] = round(time.Since(t0).Seconds())
	writeJSON(filepath.Join(verif, "evidence", prop+".json"), ev)
	return code
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

var generalAssumptions = []string{
	"the Go memory model: goroutines interleave at the accesses the contracts declare shared (volatile, guarded, atomic); a guarded field read under its lock is stable until the unlock",
	"machine integers are treated as mathematical integers except where the code converts between sizes (no overflow of the request counter, of lengths, of process counters)",
	"user callbacks and interface implementations (handlers, Socket, StackExchange, IDGenerator, ...) may call any exported method but do not touch unexported state; they return normally",
	"an error value's Error method is deterministic and returns normally",
}
