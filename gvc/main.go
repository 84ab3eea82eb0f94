package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	only := flag.String("func", "", "verify only functions whose key contains this")
	prop := flag.String("prop", "", "verify the functions of this property")
	keep := flag.String("keep", "", "keep the queries in this directory")
	quick := flag.Int64("quick", 2000000, "solver resource limit per obligation, first try")
	deep := flag.Int64("deep", 12000000, "solver resource limit per obligation, retries")
	verbose := flag.Bool("v", false, "list all obligations")
	out := flag.String("json", "", "write a report")
	dbg := flag.Bool("debug", false, "debug")
	flag.Parse()
	invDebug = *dbg
	t0 := time.Now()
	specs, err := parseSpecs(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	P, err := loadProg(*repo, []string{"./..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tl := time.Since(t0)
	qdir := *keep
	if qdir == "" {
		qdir, _ = os.MkdirTemp("", "gvc")
		defer os.RemoveAll(qdir)
	} else {
		os.MkdirAll(qdir, 0o755)
	}
	s := newSolver(8, qdir)
	s.keep = *keep
	var units []*Unit
	match := func(key string, props []string) bool {
		if *only != "" && !strings.Contains(key, *only) {
			return false
		}
		if *prop != "" {
			for _, p := range props {
				if p == *prop {
					return true
				}
			}
			return false
		}
		return true
	}
	for _, k := range specs.Order {
		sp := specs.Funcs[k]
		if sp.Trusted || sp.Inline || !match(k, sp.Props) {
			continue
		}
		units = append(units, genFunc(P, specs, sp))
	}
	for _, l := range specs.Lemmas {
		if l.Trusted || !match("lemma "+l.Name, l.Props) {
			continue
		}
		units = append(units, genLemma(P, specs, l))
	}
	tg := time.Since(t0)
	var wg sync.WaitGroup
	for _, u := range units {
		wg.Add(1)
		go func(u *Unit) { defer wg.Done(); s.solveUnit(u, *quick, *deep) }(u)
	}
	wg.Wait()
	rep := report(P, specs, units, s)
	bad := 0
	for _, u := range units {
		n, k := 0, 0
		for _, o := range u.obls {
			if o.cand != nil {
				continue
			}
			n++
			if o.ok() {
				k++
			} else {
				bad++
				fmt.Printf("FAILED %s [%s] %s (%s) %dms\n", o.name, o.result, o.at, o.solver, o.ms)
			}
			if *verbose {
				fmt.Printf("  %-7s %-7s %6dms %s %s\n", o.result, o.solver, o.ms, o.name, o.at)
			}
		}
		if *verbose {
			for _, c := range u.cands {
				if c.active {
					fmt.Println("  invariant", c.name)
				} else if !c.auto || invDebug {
					fmt.Println("  dropped  ", c.name)
				}
			}
		}
		fmt.Printf("%s: %d/%d %s\n", u.name, k, n, u.err)
	}
	fmt.Printf("load %.1fs gen %.1fs total %.1fs solver %.1fs queries %d\n", tl.Seconds(), tg.Seconds(), time.Since(t0).Seconds(), s.totalS, s.nq)
	if *out != "" {
		rep.write(*out)
	}
	if bad > 0 {
		os.Exit(1)
	}
}
