package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

func (e *Engine) runRoots(cons []*Contract, par int) []*RootResult {
	res := make([]*RootResult, len(cons))
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i, c := range cons {
		wg.Add(1)
		go func(i int, c *Contract) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if c.Trusted {
				res[i] = &RootResult{Name: c.Name, Tags: c.tags(), Trusted: true}
				return
			}
			res[i] = e.runRoot(c)
		}(i, c)
	}
	wg.Wait()
	return res
}

func (e *Engine) allRoots() []*Contract {
	var out []*Contract
	for _, n := range e.con.order {
		out = append(out, e.con.funcs[n])
	}
	return append(out, e.con.lemmas...)
}

func printResult(r *RootResult, full bool) {
	bad := 0
	n := 0
	for _, o := range r.Obls {
		n += o.Checks
		if o.Failed {
			bad++
		}
	}
	st := "ok"
	if bad > 0 || r.Err != "" {
		st = "FAIL"
	}
	fmt.Printf("%-4s %-40s %3d obligations %5d checks %4d paths %3d turns %5d queries %6.1fs\n", st, r.Name, len(r.Obls), n, r.Paths, r.Turns, r.Queries, r.Wall.Seconds())
	if r.Err != "" {
		fmt.Println("     not analysable:", r.Err)
	}
	for _, c := range r.NoCover {
		fmt.Println("     never reached:", c)
	}
	for _, o := range r.Obls {
		if o.Failed {
			fmt.Printf("   x %s\n       %s\n       goal %s %s\n", o.Name, o.Clause, o.Goal, o.Why)
			if full {
				for _, p := range o.Path {
					fmt.Println("        |", p)
				}
				for _, m := range o.PC {
					fmt.Println("        pc", m)
				}
				for _, m := range o.Model {
					fmt.Println("        =", m)
				}
			}
		} else if full {
			fmt.Printf("   . %s  (%d) %v\n", o.Name, o.Checks, o.Solvers)
		}
	}
	if full {
		fmt.Println("     inlined:", strings.Join(r.Inlined, " "))
		fmt.Println("     contracts used:", strings.Join(r.Hits, " "))
		for _, l := range r.Lemmas {
			fmt.Println("     ", l)
		}
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	root := flag.String("root", "", "comma-separated roots (development)")
	all := flag.Bool("all", false, "run every root")
	prop := flag.String("prop", "", "property to decide")
	tier := flag.String("tier", "quick", "")
	full := flag.Bool("full", false, "print every obligation")
	verif := flag.String("verif", "/verif", "")
	names := flag.String("names", "", "write the table of names to this file (development)")
	flag.Parse()
	if *names != "" {
		ps, _, err := loadPkgs(*repo, nil)
		if err != nil {
			panic(err)
		}
		writeNames(ps, *names)
		return
	}
	thorough = *tier == "thorough"
	t0 := time.Now()
	con := loadContracts(*dir)
	e, err := loadEngine(*repo, filepath.Join(*dir, "names.json"))
	if err != nil {
		if *prop != "" {
			os.Exit(reportLoadError(*verif, *prop, *tier, err, t0))
		}
		fmt.Println("cannot load:", err)
		os.Exit(2)
	}
	e.con = con
	e.dropStale(e.base, e.cur)
	for _, r := range e.renamed {
		fmt.Println("renamed:", r)
	}
	for n := range e.dropped {
		fmt.Println("contract not used, its function is gone or has another signature:", n)
	}
	theEngine = e
	par := runtime.NumCPU()
	if *root != "" {
		want := map[string]bool{}
		for _, n := range strings.Split(*root, ",") {
			want[n] = true
		}
		var cs []*Contract
		for _, c := range e.allRoots() {
			if want[c.Name] {
				cs = append(cs, c)
			}
		}
		for _, r := range e.runRoots(cs, par) {
			printResult(r, *full)
		}
		return
	}
	if *all {
		rs := e.runRoots(e.allRoots(), par)
		rs = append(rs, e.runAuto(rs, par)...)
		sort.Slice(rs, func(i, j int) bool { return rs[i].Name < rs[j].Name })
		for _, r := range rs {
			printResult(r, *full)
		}
		fmt.Printf("%d roots, %.1fs, %d queries\n", len(rs), time.Since(t0).Seconds(), totalQueries)
		return
	}
	if *prop != "" {
		os.Exit(e.decide(*verif, *prop, *tier, t0))
	}
	flag.Usage()
}
