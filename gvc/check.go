package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// harnessResult is what the replay harness of a property reported.
type harnessResult struct {
	ran     bool
	note    string
	fails   [][2]string // key, description
	stats   map[string]int64
	samples []string
	output  string
	cmd     string
	wall    float64
}

// runHarness runs the overlay tests of a property against the real code.
func runHarness(verif, repo, id, tier string, seed string, scratch string) *harnessResult {
	h := &harnessResult{stats: map[string]int64{}}
	dir := filepath.Join(verif, "harness", id)
	conf, err := os.ReadFile(filepath.Join(dir, "packages"))
	if err != nil {
		h.note = "no replay harness"
		return h
	}
	type ov struct{ Replace map[string]string }
	o := ov{map[string]string{}}
	addTree := func(root string) {
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(root, p)
			o.Replace[filepath.Join(repo, rel)] = p
			return nil
		})
	}
	addTree(filepath.Join(verif, "harness", "common"))
	addTree(dir)
	b, _ := json.Marshal(o)
	ovf := filepath.Join(verif, "evidence", "replay", id+"-overlay.json")
	os.MkdirAll(filepath.Dir(ovf), 0o755)
	os.WriteFile(ovf, b, 0o644)
	limit := 240 * time.Second
	if tier == "thorough" {
		limit = 700 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cur := filepath.Join(scratch, "current")
	env := append(os.Environ(), "VERIF_SEED="+seed, "VERIF_TIER="+tier, "VERIF_CURRENT="+cur, "GOFLAGS=-mod=readonly", "TMPDIR="+scratch)
	var out bytes.Buffer
	t0 := time.Now()
	// the test binaries are built apart and run in the scratch directory: the
	// packages that only exist in the overlay have no directory to run in
	for i, pkg := range strings.Fields(string(conf)) {
		bin := filepath.Join(scratch, fmt.Sprintf("harness%d.test", i))
		args := []string{"test", "-c", "-vet=off", "-o", bin, "-overlay", ovf, pkg}
		run := []string{"-test.v", "-test.run", "TestVerif", "-test.timeout", (limit - 10*time.Second).String()}
		h.cmd += "cd " + repo + " && go test -c -vet=off -o /tmp/h.test -overlay " + ovf + " " + pkg + " && cd /tmp && VERIF_SEED=" + seed + " VERIF_TIER=" + tier + " ./h.test " + strings.Join(run, " ") + "   # overlay: harness/common and harness/" + id + " laid over " + repo + "\n"
		c := exec.CommandContext(ctx, "go", args...)
		c.Dir, c.WaitDelay, c.Env, c.Stdout, c.Stderr = repo, 5*time.Second, env, &out, &out
		if err = c.Run(); err != nil {
			out.WriteString("\n[build failed]\n")
			break
		}
		if _, serr := os.Stat(bin); serr != nil {
			continue // no test files
		}
		c = exec.CommandContext(ctx, bin, run...)
		c.Dir, c.WaitDelay, c.Env, c.Stdout, c.Stderr = scratch, 5*time.Second, env, &out, &out
		if rerr := c.Run(); rerr != nil {
			err = rerr
		}
	}
	h.wall = time.Since(t0).Seconds()
	h.output = out.String()
	sc := bufio.NewScanner(bytes.NewReader(out.Bytes()))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	done := 0
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		switch {
		case strings.HasPrefix(l, "@@FAIL "):
			p := strings.SplitN(l[7:], " | ", 2)
			if len(p) < 2 {
				p = append(p, "")
			}
			h.fails = append(h.fails, [2]string{p[0], p[1]})
		case strings.HasPrefix(l, "@@STAT "):
			p := strings.SplitN(l[7:], "=", 2)
			n, _ := strconv.ParseInt(p[1], 10, 64)
			h.stats[p[0]] += n
		case strings.HasPrefix(l, "@@SAMPLE "):
			if len(h.samples) < 8 {
				h.samples = append(h.samples, l[9:])
			}
		case strings.HasPrefix(l, "@@DONE"):
			done++
		}
	}
	text := h.output
	if strings.Contains(text, "[build failed]") || strings.Contains(text, "[setup failed]") {
		h.note = "the harness does not compile against this tree: " + firstLines(text, 6)
		return h
	}
	h.ran = true
	if err != nil && len(h.fails) == 0 {
		// a crash of the test process (stack overflow, deadlock, timeout)
		curB, _ := os.ReadFile(cur)
		why := "crash"
		for _, w := range []string{"stack overflow", "test timed out", "out of memory", "concurrent map", "panic:"} {
			if strings.Contains(text, w) {
				why = w
				break
			}
		}
		if ctx.Err() != nil {
			why = "time limit of the harness"
		}
		h.fails = append(h.fails, [2]string{"crash", why + " on input: " + strings.TrimSpace(string(curB))})
	}
	if err == nil && done == 0 {
		h.ran = false
		h.note = "the harness ran no test"
	}
	return h
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type finding struct{ prop, key, text string }

// knownFindings reads /verif/known-findings.txt: "finding: property=ID key=KEY text" and "fixed: ..." lines.
func knownFindings(f string) (out []finding) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(p) < 3 {
			continue
		}
		out = append(out, finding{strings.TrimPrefix(p[0], "property="), strings.TrimPrefix(p[1], "key="), p[2]})
	}
	return out
}

func checkMain(args []string) int {
	t0 := time.Now()
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gvc check ID quick|thorough")
		return 2
	}
	id, tier := args[0], args[1]
	verif, repo := "/verif", "/repo"
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	seedN, _ := strconv.Atoi(seed)
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	specs, err := parseSpecs(filepath.Join(verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var hr *harnessResult
	var hwg sync.WaitGroup
	hwg.Add(1)
	go func() {
		defer hwg.Done()
		hr = runHarness(verif, repo, id, tier, seed, scratch)
	}()
	P, err := loadProg(repo, []string{"./..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the program:", err)
		hwg.Wait()
		return 2
	}
	s := newSolver(8, scratch)
	quick, deep := int64(2000000), int64(12000000)
	if tier == "thorough" {
		quick, deep = 6000000, 60000000
	}
	has := func(props []string) bool {
		for _, p := range props {
			if p == id {
				return true
			}
		}
		return false
	}
	var units []*Unit
	var skipped []string
	for _, k := range specs.Order {
		sp := specs.Funcs[k]
		if sp.Trusted || sp.Inline || !has(sp.Props) {
			continue
		}
		if P.funcs[k] == nil && !ast_IsExported(k) {
			skipped = append(skipped, k) // renamed or inlined helper: its callers are verified with whatever they call now
			continue
		}
		units = append(units, genFunc(P, specs, sp))
	}
	nf := len(units)
	for _, l := range specs.Lemmas {
		if l.Trusted || !has(l.Props) {
			continue
		}
		units = append(units, genLemma(P, specs, l))
	}
	var wg sync.WaitGroup
	for _, u := range units {
		wg.Add(1)
		go func(u *Unit) { defer wg.Done(); s.solveUnit(u, quick, deep) }(u)
	}
	wg.Wait()
	leanNote, leanOK, leanN := runLean(verif, repo, id, scratch)
	hwg.Wait()
	rep := report(P, specs, units, s)

	known := knownFindings(filepath.Join(verif, "known-findings.txt"))
	isKnown := func(key string) *finding {
		for i := range known {
			if known[i].prop == id && known[i].key == key {
				return &known[i]
			}
		}
		return nil
	}
	// obligations
	total, discharged := 0, 0
	back := map[string]int{}
	trusted := map[string]bool{}
	inlined := map[string]bool{}
	var failed []*Oblig
	var failedUnit []*Unit
	var funcs []string
	for _, u := range units {
		n, k := 0, 0
		for _, o := range u.obls {
			if o.cand != nil {
				if o.cand.active {
					n++
					k++
					back[o.solver]++
				}
				continue
			}
			n++
			if o.ok() {
				k++
				back[o.solver]++
			} else {
				failed = append(failed, o)
				failedUnit = append(failedUnit, u)
			}
		}
		total += n
		discharged += k
		funcs = append(funcs, fmt.Sprintf("%s: %d/%d obligations", u.name, k, n))
		for t := range u.trusted {
			trusted[t] = true
		}
		for t := range u.inlined {
			inlined[t] = true
		}
	}
	total += leanN
	if leanOK {
		discharged += leanN
	}
	if leanN > 0 {
		back["lean"] += leanN
	}
	knownSeen := map[string]bool{}
	violation := ""
	var replay bytes.Buffer
	var newFails [][2]string
	for _, f := range hr.fails {
		if k := isKnown(f[0]); k != nil {
			if !knownSeen[f[0]] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
			}
			knownSeen[f[0]] = true
			continue
		}
		newFails = append(newFails, f)
	}
	var newObl []int
	for i, o := range failed {
		if k := isKnown(o.name); k != nil {
			if !knownSeen[o.name] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
			}
			knownSeen[o.name] = true
			continue
		}
		newObl = append(newObl, i)
	}
	vac := ""
	if nf == 0 && leanN == 0 {
		vac = "no function of this property is left in the program (" + strings.Join(skipped, ", ") + ")"
	}
	rdir := filepath.Join(verif, "evidence", "replay")
	rfile := filepath.Join(rdir, id+".txt")
	if len(newFails) > 0 || len(newObl) > 0 || !leanOK || vac != "" {
		fmt.Fprintf(&replay, "property %s\n\n", id)
		if len(newFails) > 0 {
			fmt.Fprintf(&replay, "FAILING INPUTS on the real code (replay: %s)\n", hr.cmd)
			for _, f := range newFails {
				fmt.Fprintf(&replay, "  %s: %s\n", f[0], f[1])
			}
			fmt.Fprintln(&replay)
		}
		if len(newObl) > 0 {
			fmt.Fprintf(&replay, "FAILED OBLIGATIONS\n")
			for _, i := range newObl {
				o, u := failed[i], failedUnit[i]
				fmt.Fprintf(&replay, "  %s\n    at %s, verifier says %s (%s) %s\n", o.name, o.at, o.result, o.solver, u.err)
			}
		}
		if !leanOK {
			fmt.Fprintf(&replay, "FAILED LEMMA FILE\n%s\n", leanNote)
		}
		if vac != "" {
			fmt.Fprintln(&replay, vac)
		}
		if len(newFails) > 0 {
			k := len(hr.output) - 20000
			if k < 0 {
				k = 0
			}
			fmt.Fprintf(&replay, "\nHARNESS OUTPUT (end)\n%s\n", hr.output[k:])
		}
		os.MkdirAll(rdir, 0o755)
		os.WriteFile(rfile, replay.Bytes(), 0o644)
		violation = fmt.Sprintf("VIOLATION property=%s replay=%s", id, rfile)
		if len(newFails) == 0 {
			violation += " no-failing-input-found"
		}
	}
	for _, i := range newObl {
		fmt.Println("failed obligation:", failed[i].name, "["+failed[i].result+"]", failed[i].at, failedUnit[i].err)
	}
	for i, f := range newFails {
		if i < 10 {
			fmt.Println("failing input:", f[0], "|", f[1])
		}
	}
	// evidence
	var base []string
	for _, t := range sortedKeys(trusted) {
		w := ""
		if sp := specs.Funcs[t]; sp != nil {
			w = sp.Why
		}
		base = append(base, "assumed contract: "+t+" "+w)
	}
	base = append(base, "gvc (this verifier: SSA from golang.org/x/tools, weakest-precondition style generation, memory model)", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "Go compiler and runtime")
	assume := []string{"partial correctness: termination is not proved",
		"stack depth and memory are unbounded",
		"machine integers: " + intModes(rep)}
	if skipped != nil {
		assume = append(assume, "contracts of functions that no longer exist were skipped: "+strings.Join(skipped, ", "))
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": discharged,
		"checker_cmd":              fmt.Sprintf("bash /verif/check.sh %s %s", id, tier),
		"trusted_base":             base,
		"functions_under_contract": funcs,
		"inlined_functions":        sortedKeys(inlined),
		"discharged_by":            back,
		"solver_s":                 s.totalS,
		"queries":                  s.nq,
		"evaluations":              hr.stats["evaluations"],
		"distinct_nontrivial":      hr.stats["nontrivial"],
		"replay_harness":           map[string]interface{}{"ran": hr.ran, "note": hr.note, "stats": hr.stats, "wall_s": hr.wall, "role": "bounded, never counted as proved: searches for a concrete failing input on the real code"},
		"samples":                  hr.samples,
	}
	if leanN > 0 {
		cov["lean"] = leanNote
	}
	level := "proof"
	if b, err := os.ReadFile(filepath.Join(verif, "harness", id, "level")); err == nil {
		level = strings.TrimSpace(string(b))
	}
	if level == "exploration" {
		cov["rule"] = "see harness/" + id
	}
	if b, err := os.ReadFile(filepath.Join(verif, "harness", id, "explanation")); err == nil {
		cov["explanation"] = strings.TrimSpace(string(b))
	}
	nv := len(newFails) + len(newObl)
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seedN, "level": level, "coverage": cov, "assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": nv}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), eb, 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions and lemmas, harness ran=%v %s %v, %.1fs (harness %.1fs)\n", id, total, discharged, len(units), hr.ran, hr.note, hr.stats, time.Since(t0).Seconds(), hr.wall)
	if violation != "" {
		fmt.Println(violation)
		return 1
	}
	return 0
}

func intModes(r *Report) string {
	m := map[string]bool{}
	for _, u := range r.Units {
		m[u.Mode] = true
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// ast_IsExported reports whether the last element of a function key is exported.
func ast_IsExported(k string) bool {
	n := k[strings.LastIndex(k, ".")+1:]
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

// runLean checks the lemma file of a property, if it has one.
func runLean(verif, repo, id, scratch string) (note string, ok bool, n int) {
	b, err := os.ReadFile(filepath.Join(verif, "harness", id, "lean"))
	if err != nil {
		return "", true, 0
	}
	ok = true
	for _, f := range strings.Fields(string(b)) {
		p := filepath.Join(verif, "lean", f)
		src, err := os.ReadFile(p)
		if err != nil {
			return err.Error(), false, 1
		}
		n += strings.Count(string(src), "\ntheorem ") + strings.Count(string(src), "\nlemma ")
		c := exec.Command("lean", p)
		c.Dir = scratch
		out, err := c.CombinedOutput()
		if err != nil || bytes.Contains(out, []byte("sorry")) || bytes.Contains(src, []byte("sorry")) || bytes.Contains(src, []byte("axiom ")) {
			ok = false
			note += fmt.Sprintf("%s: %v %s\n", f, err, out)
		} else {
			note += f + ": accepted\n"
		}
	}
	return note, ok, n
}
