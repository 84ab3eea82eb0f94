package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

func callArgs(x ast.Expr) []ast.Expr { return x.(*ast.CallExpr).Args }

// prelude collects the contract-file axioms and lemmas a unit uses.
func (u *Unit) prelude() (pre, smt []string, err error) {
	u.nblock = 0
	defer func() {
		if e := recover(); e != nil {
			if se, ok := e.(specErr); ok {
				err = se
				return
			}
			panic(e)
		}
	}()
	u.tagFacts() // registers the types of closed interfaces
	// transitive closure of used files
	var order []string
	done := map[string]bool{}
	var add func(f string)
	add = func(f string) {
		if f == "" || done[f] {
			return
		}
		done[f] = true
		sf := u.specs.Files[f]
		if sf == nil {
			panic(specErr{"unknown contract file " + f})
		}
		for _, g := range sf.Uses {
			add(g)
		}
		order = append(order, f)
	}
	for {
		n := len(done)
		for _, f := range sortedKeys(u.files) {
			add(f)
		}
		if len(done) == n {
			break
		}
	}
	mode := "int"
	if u.enc.bv {
		mode = "bv"
	}
	var ax []string
	for _, f := range order {
		sf := u.specs.Files[f]
		if sf.Mode != mode && sf.Mode != "any" {
			continue
		}
		pre = append(pre, sf.Pre...)
		smt = append(smt, sf.Smt...)
	}
	st := &State{map[string]Term{}}
	var uses []string
	if u.spec != nil {
		uses = u.spec.Uses
	}
	if u.lemma != nil {
		uses = u.lemma.Uses
	}
	for _, f := range order {
		sf := u.specs.Files[f]
		if sf.Mode != mode && sf.Mode != "any" {
			continue
		}
		env := &Env{u: u, st: st, old: st, vars: map[string]TV{}, file: f}
		if p := u.P.pkgs[repoPath+"/"+sf.Pkg]; p != nil {
			env.pkg = p.Pkg
		}
		for _, a := range sf.Axioms {
			ax = append(ax, "(assert "+u.specBool(env, a)+")")
		}
	}
	// facts about package variables that the unit reads
	gl := map[string]bool{}
	for c := range u.consts {
		if strings.HasPrefix(c, "glob$") {
			gl[c] = true
		}
	}
	if len(gl) > 0 {
		for _, f := range sortedKeys(u.specs.Files) {
			sf := u.specs.Files[f]
			if sf.Mode != mode && sf.Mode != "any" || u.initOf != nil && sf.Pkg == shortPkg(u.initOf.Path()) {
				continue
			}
			env := &Env{u: u, st: st, old: st, vars: map[string]TV{}, file: f}
			if p := u.P.pkgs[repoPath+"/"+sf.Pkg]; p != nil {
				env.pkg = p.Pkg
			}
			for _, a := range sf.Globals {
				t := u.specBool(env, a)
				used := map[string]bool{}
				u.scan(t, used)
				for c := range used {
					if strings.HasSuffix(c, "@0") {
						panic(specErr{"global fact depends on the heap: " + a.Text})
					}
				}
				for c := range used {
					if gl[c] {
						ax = append(ax, "(assert "+t+")")
						break
					}
				}
			}
		}
	}
	tdone := map[string]bool{}
	for again := true; again; {
		again = false
		for _, f := range order {
			sf := u.specs.Files[f]
			if sf.Mode != mode && sf.Mode != "any" {
				continue
			}
			env := &Env{u: u, st: st, old: st, vars: map[string]TV{}, file: f}
			if p := u.P.pkgs[repoPath+"/"+sf.Pkg]; p != nil {
				env.pkg = p.Pkg
			}
			for i, a := range sf.TAxioms {
				k := fmt.Sprint(f, i)
				if tdone[k] || !u.mentionsType(a.Type) {
					continue
				}
				tdone[k] = true
				again = true
				ax = append(ax, "(assert "+u.specBool(env, a.C)+")")
			}
		}
	}
	for _, n := range uses {
		found := false
		for _, l := range u.specs.Lemmas {
			if l.Name == n {
				found = true
				if u.lemma == l {
					panic(specErr{"lemma uses itself"})
				}
				ax = append(ax, "(assert "+u.lemmaFormula(l, &Env{u: u, st: st}, nil)+")")
			}
		}
		if !found {
			panic(specErr{"unknown lemma " + n})
		}
	}
	u.nblock = len(smt) // declarations of the contract files come before the constants
	smt = append(smt, ax...)
	return pre, smt, nil
}

// mentionsType tells whether the dynamic type (a struct or a pointer to it) has a tag in this unit.
func (u *Unit) mentionsType(n string) bool {
	if u.enc.have["impl$"+mangle(n)] {
		return true
	}
	for _, t := range u.enc.tagType {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if typeName(t) == n {
			return true
		}
	}
	return false
}

func (u *Unit) ancestors(b *VB) []*VB {
	seen := map[*VB]bool{}
	var out []*VB
	var dfs func(b *VB)
	dfs = func(b *VB) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, e := range b.preds {
			dfs(e.from)
		}
		out = append(out, b)
	}
	dfs(b)
	return out[:len(out)-1]
}

// scan finds the constants mentioned in a text.
func (u *Unit) scan(text string, used map[string]bool) {
	start := -1
	for i := 0; i <= len(text); i++ {
		var c byte = ' '
		if i < len(text) {
			c = text[i]
		}
		if c == ' ' || c == '(' || c == ')' || c == '\n' || c == '\t' {
			if start >= 0 {
				w := text[start:i]
				if _, ok := u.consts[w]; ok {
					used[w] = true
				}
				start = -1
			}
		} else if start < 0 {
			start = i
		}
	}
}

func (b *VB) emit(it Item, w *bytes.Buffer) {
	switch it.kind {
	case kDef:
		fmt.Fprintf(w, "(assert %s)\n", it.text)
	case kAssume:
		if it.cand != nil && !it.cand.active {
			return
		}
		fmt.Fprintf(w, "(assert (=> %s %s))\n", b.r, it.text)
	case kAssert:
		if it.ob.cand != nil {
			return
		}
		fmt.Fprintf(w, "(assert (=> %s %s))\n", b.r, it.text)
	}
}

type batch struct {
	u    *Unit
	obs  []*Oblig
	text string // body without prelude
	hash string
}

// script builds the query text of the obligations obs, all of block b.
func (u *Unit) script(b *VB, obs []*Oblig, pre, smt []string, single bool) string {
	var w bytes.Buffer
	if len(b.preds) > 0 {
		for _, a := range u.ancestors(b) {
			for _, it := range a.items {
				a.emit(it, &w)
			}
		}
	}
	want := map[*Oblig]bool{}
	last := 0
	for _, o := range obs {
		want[o] = true
		if o.pos > last {
			last = o.pos
		}
	}
	query := func(o *Oblig) {
		goal := fmt.Sprintf("(assert (and %s (not %s)))", b.r, o.goal)
		if single {
			fmt.Fprintf(&w, "%s\n(check-sat)\n", goal)
			return
		}
		fmt.Fprintf(&w, "(push)\n%s\n(check-sat)\n(pop)\n", goal)
	}
	covers := map[int][]*Oblig{}
	for _, o := range obs {
		if o.kind == "cover" {
			covers[o.pos] = append(covers[o.pos], o)
		}
	}
	for i := 0; i <= len(b.items); i++ {
		for _, o := range covers[i] {
			query(o)
		}
		if i == len(b.items) {
			break
		}
		it := b.items[i]
		if it.kind == kAssert && want[it.ob] {
			query(it.ob)
			if single {
				break
			}
		}
		if i < last || !single {
			b.emit(it, &w)
		}
	}
	body := w.String()
	used := map[string]bool{}
	u.scan(body, used)
	for _, a := range smt {
		u.scan(a, used)
	}
	for _, a := range u.enc.decls {
		u.scan(a, used)
	}
	var out bytes.Buffer
	for _, p := range pre {
		out.WriteString(p + "\n")
	}
	for _, d := range u.enc.decls {
		out.WriteString(d + "\n")
	}
	for _, p := range smt[:u.nblock] {
		out.WriteString(p + "\n")
	}
	var cs []string
	for c := range used {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		fmt.Fprintf(&out, "(declare-const %s %s)\n", c, u.consts[c])
	}
	for _, t := range u.tagFacts() {
		out.WriteString(t + "\n")
	}
	for _, p := range smt[u.nblock:] {
		out.WriteString(p + "\n")
	}
	out.WriteString(body)
	return out.String()
}

type Solver struct {
	sem      chan struct{}
	dir      string
	mu       sync.Mutex
	cache    map[string][]string
	nq       int
	totalS   float64
	bySolv   map[string]int
	keep     string
	deadline time.Time
}

func newSolver(par int, dir string) *Solver {
	return &Solver{sem: make(chan struct{}, par), dir: dir, cache: map[string][]string{}, bySolv: map[string]int{}, deadline: time.Now().Add(500 * time.Second)}
}

// run gives the answers of one solver to the check-sat commands of a script.
func (s *Solver) run(solver, script string, rlimit int64, tmo time.Duration, n int) []string {
	h := fmt.Sprintf("%s/%d/%x", solver, rlimit, sha256.Sum256([]byte(script)))
	s.mu.Lock()
	if r, ok := s.cache[h]; ok {
		s.mu.Unlock()
		return r
	}
	s.mu.Unlock()
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	s.mu.Lock()
	s.nq++
	id := s.nq
	s.mu.Unlock()
	f := filepath.Join(s.dir, fmt.Sprintf("q%d.smt2", id))
	head := ""
	var cmd string
	var args []string
	switch solver {
	case "z3-new", "z3":
		cmd = solver
		head = fmt.Sprintf("(set-option :rlimit %d)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.arith.solver 2)\n", rlimit)
		if solver == "z3-new" {
			head = fmt.Sprintf("(set-option :rlimit %d)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", rlimit)
		}
		args = []string{"-smt2", f}
	case "z3-bv": // quantifier light bit vector reasoning
		cmd = "z3-new"
		head = fmt.Sprintf("(set-option :rlimit %d)\n", rlimit)
		args = []string{"-smt2", f}
	case "z3-mbqi":
		cmd = "z3-new"
		head = fmt.Sprintf("(set-option :rlimit %d)\n", rlimit)
		args = []string{"-smt2", f}
	case "cvc5":
		cmd = "cvc5"
		head = "(set-logic ALL)\n"
		args = []string{"--incremental", fmt.Sprintf("--rlimit-per=%d", rlimit), "--lang=smt2", f}
	}
	os.WriteFile(f, []byte(head+script), 0o644)
	if s.keep == "" {
		defer os.Remove(f)
	}
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	c := exec.CommandContext(ctx, cmd, args...)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	c.Run()
	d := time.Since(t0).Seconds()
	var res []string
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "unsat" || l == "sat" || l == "unknown" || l == "timeout":
			res = append(res, l)
		case strings.HasPrefix(l, "(error"):
			if !strings.Contains(l, "canceled") && !strings.Contains(l, "resource") {
				res = append(res, "error: "+l)
			}
		}
	}
	for len(res) < n {
		res = append(res, "unknown")
	}
	s.mu.Lock()
	s.totalS += d
	s.cache[h] = res
	s.mu.Unlock()
	return res
}

// solveUnit discharges the obligations of a unit.
func (s *Solver) solveUnit(u *Unit, quick int64, deep int64) {
	if len(u.obls) > 0 && u.obls[0].result == "unsupported" {
		return
	}
	pre, smt, err := u.prelude()
	for _, a := range smt {
		if strings.Contains(a, "(at$Int ") {
			u.atFn("Int")
		}
	}
	if err != nil {
		u.err = err.Error()
		for _, o := range u.obls {
			o.result = "error: " + u.err
		}
		return
	}
	first := "z3-new"
	if u.enc.bv {
		first = "z3-bv"
	}
	byBlock := func(sel func(*Oblig) bool) map[*VB][]*Oblig {
		m := map[*VB][]*Oblig{}
		for _, o := range u.obls {
			if sel(o) {
				m[o.vb] = append(m[o.vb], o)
			}
		}
		return m
	}
	// Houdini: drop candidates whose obligations are not proved, to a fixpoint
	phase := 0
	for round := 0; ; round++ {
		// what fails at the entry of its loop goes first
		m := byBlock(func(o *Oblig) bool { return o.cand != nil && o.cand.active && (phase == 1 || o.kind == "inv-entry") })
		if len(m) == 0 {
			if phase == 0 {
				phase = 1
				continue
			}
			break
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		failed := map[*Cand][]*Oblig{}
		for b, obs := range m {
			const chunk = 12
			for i := 0; i < len(obs); i += chunk {
				j := i + chunk
				if j > len(obs) {
					j = len(obs)
				}
				part := obs[i:j]
				text := u.script(b, part, pre, smt, false)
				wg.Add(1)
				go func() {
					defer wg.Done()
					res := s.run(first, text, quick, 120*time.Second, len(part))
					for k, o := range part {
						o.result, o.solver = res[k], first
						if strings.HasPrefix(res[k], "error") {
							u.err = res[k]
						}
						if res[k] != "unsat" {
							mu.Lock()
							failed[o.cand] = append(failed[o.cand], o)
							mu.Unlock()
						}
					}
				}()
			}
		}
		wg.Wait()
		// user written templates get a second chance with more resources, unless a template about the same
		// variables that only compares integers has failed
		second := func(sel func(*Cand) bool) {
			var wg sync.WaitGroup
			var again []*Oblig
			for c, obs := range failed {
				if !c.auto && sel(c) {
					again = append(again, obs...)
				}
			}
			less := map[*Oblig]string{} // the script without the other candidates that failed
			if phase == 1 {
				for c := range failed {
					c.active = false
				}
				for _, o := range again {
					o.cand.active = true
					less[o] = u.script(o.vb, []*Oblig{o}, pre, smt, true)
					o.cand.active = false
				}
				for c := range failed {
					c.active = true
				}
			}
			for _, o := range again {
				o := o
				wg.Add(1)
				go func() {
					defer wg.Done()
					t := u.script(o.vb, []*Oblig{o}, pre, smt, true)
					if o.cand.arith && o.kind == "inv-entry" && !u.enc.bv {
						if r := s.run("z3-mbqi", groundOnly(t), quick/8, 10*time.Second, 1); r[0] == "sat" {
							return
						}
					}
					for _, t := range []string{less[o], t} {
						if t == "" {
							continue
						}
						if r := s.run(first, t, deep/4, 60*time.Second, 1); r[0] == "unsat" {
							o.result = "unsat"
							return
						}
						if u.spec == nil || !u.spec.Opts["cases"] {
							continue
						}
						if c := cases(t, o); c != "" {
							if r := s.run(first, c, deep, 100*time.Second, 3); r[0] == "unsat" && r[1] == "unsat" && r[2] == "unsat" {
								o.result = "unsat"
								return
							}
						}
					}
				}()
			}
			wg.Wait()
			for c, obs := range failed {
				ok := true
				for _, o := range obs {
					ok = ok && o.result == "unsat"
				}
				if ok {
					delete(failed, c)
				}
			}
		}
		second(func(c *Cand) bool { return c.arith })
		second(func(c *Cand) bool {
			if c.arith {
				return false
			}
			bad := map[string]bool{}
			good := map[string]bool{}
			for _, a := range u.cands {
				if a.arith && a.group == c.group && subset(a.binds, c.binds) {
					k := strings.Join(a.binds, " ")
					if !a.active || failed[a] != nil {
						bad[k] = true
					} else {
						good[k] = true
					}
				}
			}
			for k := range bad {
				if !good[k] {
					return false
				}
			}
			return true
		})
		if len(failed) == 0 {
			if phase == 0 {
				phase = 1
				continue
			}
			break
		}
		for c, obs := range failed {
			o := obs[0]
			for _, x := range obs {
				if x.result != "unsat" {
					o = x
				}
			}
			if invDebug && !c.auto {
				fmt.Printf("  round %d drops %s [%s] %s at %s /tmp/drop%d.smt2\n", round, c.name, o.result, o.kind, o.at, c.id)
				os.WriteFile(fmt.Sprintf("/tmp/drop%d.smt2", c.id), []byte(u.script(o.vb, []*Oblig{o}, pre, smt, true)), 0o644)
			}
			c.active = false
		}
	}
	m := byBlock(func(o *Oblig) bool { return o.cand == nil && o.kind != "cover" })
	var wg sync.WaitGroup
	for b, obs := range m {
		b, obs := b, obs
		const chunk = 10
		for i := 0; i < len(obs); i += chunk {
			j := i + chunk
			if j > len(obs) {
				j = len(obs)
			}
			part := obs[i:j]
			wg.Add(1)
			go func() {
				defer wg.Done()
				t0 := time.Now()
				text := u.script(b, part, pre, smt, false)
				res := s.run(first, text, quick*3, 200*time.Second, len(part))
				for k, o := range part {
					o.result, o.solver = res[k], first
					o.ms = time.Since(t0).Milliseconds() / int64(len(part))
				}
			}()
		}
	}
	for _, o := range u.obls {
		if o.kind != "cover" {
			continue
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			cs := "z3-mbqi"
			r := s.run(cs, u.script(o.vb, []*Oblig{o}, pre, smt, false), quick/8, 10*time.Second, 1)
			o.result, o.solver, o.ms = r[0], first, time.Since(t0).Milliseconds()
		}()
	}
	wg.Wait()
	nfail := 0
	for _, o := range u.obls {
		if o.cand != nil {
			continue
		}
		o := o
		if o.kind == "cover" && o.expect == "sat" {
			continue // anything but unsat will do
		}
		if o.result == "unsat" {
			continue
		}
		if nfail++; nfail > 6 || time.Now().After(s.deadline) {
			continue // the unit has failed already
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			text := u.script(o.vb, []*Oblig{o}, pre, smt, true)
			for _, p := range []string{first, "z3-mbqi", "cvc5", "z3"} {
				r := s.run(p, text, deep, 40*time.Second, 1)
				if r[0] == "unsat" {
					o.result, o.solver = "unsat", p
					break
				}
				if r[0] == "sat" {
					o.result, o.solver = "sat", p
					break
				}
				if strings.HasPrefix(r[0], "error") {
					o.result, o.solver = r[0], p
				}
			}
			o.ms += time.Since(t0).Milliseconds()
		}()
	}
	wg.Wait()
}

var forallGoal = regexp.MustCompile(`(?s)^\(forall \(\(([^ ()]+) Int\)\) \(! (.*) :pattern .*\)\)$`)

// cases splits the refutation of a goal forall v. ... v <= b ... into the cases below, at and above the bound b.
func cases(text string, o *Oblig) string {
	m := forallGoal.FindStringSubmatch(o.goal)
	goal := fmt.Sprintf("(assert (and %s (not %s)))\n(check-sat)\n", o.vb.r, o.goal)
	if m == nil || !strings.HasSuffix(text, goal) {
		return ""
	}
	b := regexp.MustCompile(`\((<=?) ` + regexp.QuoteMeta(m[1]) + ` (\(\+ [^() ]+ 1\)|[^ ()]+)\)`).FindStringSubmatch(m[2])
	if b == nil {
		return ""
	}
	last := b[2]
	if b[1] == "<" {
		last = "(- " + last + " 1)"
	}
	t := strings.TrimSuffix(text, goal) + fmt.Sprintf("(declare-const case$ Int)\n(assert %s)\n(assert (not %s))\n", o.vb.r, replaceWord(m[2], m[1], "case$"))
	for _, op := range []string{"<", "=", ">"} {
		t += fmt.Sprintf("(push)\n(assert (%s case$ %s))\n(check-sat)\n(pop)\n", op, last)
	}
	return t
}

func replaceWord(s, w, by string) string {
	return regexp.MustCompile(regexp.QuoteMeta(w)+`([ ()])`).ReplaceAllString(s+" ", strings.ReplaceAll(by, "$", "$$")+"$1")
}

func (o *Oblig) ok() bool {
	if o.cand != nil {
		return true
	}
	if o.expect == "sat" {
		return o.result != "unsat" && !strings.HasPrefix(o.result, "error")
	}
	return o.result == "unsat"
}

func subset(a, b []string) bool {
	for _, x := range a {
		ok := false
		for _, y := range b {
			ok = ok || x == y
		}
		if !ok {
			return false
		}
	}
	return true
}

// groundOnly drops the quantified assertions of a script.
func groundOnly(t string) string {
	var w strings.Builder
	for _, l := range strings.Split(t, "\n") {
		if strings.HasPrefix(l, "(assert") && (strings.Contains(l, "(forall ") || strings.Contains(l, "(exists ")) {
			continue
		}
		w.WriteString(l + "\n")
	}
	return w.String()
}
