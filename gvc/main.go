package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gvc verify|check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "funcs":
		e, err := loadEngine("/repo", newSpec(), patterns)
		if err != nil {
			panic(err)
		}
		var ns []string
		for n, f := range e.fns {
			if e.fnInModule(f) {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Println(n)
		}
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	cdir := fs.String("contracts", "/verif/contracts", "")
	v := fs.Bool("v", false, "")
	dump := fs.String("dump", "", "dump failed obligation to file")
	dc := fs.String("dumpcand", "", "")
	names := fs.String("f", "", "functions (comma separated substrings)")
	tl := fs.Int("t", 20, "timeout s")
	fs.Parse(args)
	sp := loadSpecs(*cdir)
	t0 := time.Now()
	e, err := loadEngine(*repo, sp, patterns)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e.verbose = *v
	e.dumpCand = *dc
	e.sol = newSolver()
	e.sol.oblMS = *tl * 1000
	defer e.sol.close()
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	match := func(n string) bool {
		if *names == "" {
			return true
		}
		for _, x := range strings.Split(*names, ",") {
			if strings.Contains(n, x) {
				return true
			}
		}
		return false
	}
	for _, n := range sp.LemmaOrd {
		if sp.Lemmas[n].Proof && match("lemma "+n) {
			show(e, e.verifyLemma(n), *dump)
		}
	}
	for _, n := range sp.Order {
		c := sp.Contracts[n]
		if c.Trusted || !match(n) {
			continue
		}
		show(e, e.verify(c), *dump)
	}
	fmt.Printf("total %.1fs, %d queries, houdini %.1fs\n", time.Since(t0).Seconds(), e.sol.queries, float64(e.sol.houdMS)/1000)
}

func show(e *Engine, r *FuncResult, dump string) {
	t0 := time.Now()
	e.sol.decideAll(r.Obls)
	ok := 0
	for _, o := range r.Obls {
		if o.Status == "proved" && !o.Smoke {
			ok++
		}
	}
	fmt.Printf("%s: %d obligations, %d proved, %d invariant checks, %.1fs\n", r.Name, len(r.Obls), ok, r.InvCount, time.Since(t0).Seconds())
	if r.Err != "" {
		fmt.Println("   NOT WITHIN REACH:", r.Err)
	}
	for i, o := range r.Obls {
		if o.Smoke {
			if o.Status == "proved" {
				if o.Name != "reachable-return" {
					if false && i > 0 && r.Obls[i-1].Status == "proved" && r.Obls[i-1].Smoke {
						continue
					}
					fmt.Println("   DEAD:", o.Name)
					if dump != "" {
						e.sol.dump2(dump, o)
					}
					continue
				}
				fmt.Println("   VACUOUS: no return reachable")
				if dump != "" {
					e.sol.dump2(dump, o)
				}
			}
			continue
		}
		if o.Status != "proved" {
			fmt.Printf("   FAIL %s %s [%s] at %s: %s\n", o.Kind, o.Name, o.Status, o.Pos, o.Detail)
			if dump != "" {
				e.sol.dump2(dump, o)
			}
		} else if e.verbose {
			fmt.Printf("   ok %s %s at %s (%s %dms)\n", o.Kind, o.Name, o.Pos, o.Solver, o.TimeMS)
		}
	}
	if e.verbose {
		fmt.Println("   inlined:", r.Inlined, "\n   trusted:", r.Trusted, "\n   contracts:", r.Contracts)
		for _, a := range r.Assumed {
			fmt.Println("   assumed:", a)
		}
	}
	for _, a := range r.Warn {
		fmt.Println("   warning:", a)
	}
}

func (s *Solver) dump2(path string, o *Obl) {
	os.WriteFile(path, []byte(script(o.ctx, o.body, o.guard)+"(assert (not "+o.goal+"))\n(check-sat)\n"), 0644)
}

