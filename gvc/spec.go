package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// Clause is one specification expression.
type Clause struct {
	Text string
	Expr ast.Expr
	Pos  string
}

// MetaVar ranges over program values of a Go type when an invariant template is instantiated.
type MetaVar struct {
	Name string
	Type ast.Expr
	Any  bool // also over values defined before the loop, not only over loop variables
	Outer bool // only the last value defined before the loop
	Last bool // only the loop variables or, without any, the last value defined before the loop
}

type Inv struct {
	Vars []MetaVar
	C    Clause
}

// FuncSpec is the contract of one function.
type FuncSpec struct {
	Key         string
	Pkg         string
	File        string
	Args        []string
	Results     []string
	Requires    []Clause
	Ensures     []Clause
	Modifies    []Clause
	Writes      []string // extra heap keys written (trusted functions)
	Invs        []Inv
	Hints       []Clause // terms evaluated at exit (and at call entry) to guide instantiation
	Lemmas      []Clause
	Trusted     bool
	Why         string
	MayPanic    bool
	NilPanic    bool  // nil pointers end the call too
	Shifts      []int // amounts of variable shifts that are interpreted in integer mode
	Mode        string
	Uses        []string
	Props       []string
	Inline      bool // only invariant templates; the body is always inlined
	Verified    bool
	NoAuto      bool
	Ghost       []string
	Pure        bool
	Timeout     int
	NoInline    map[string]bool
	ArgFacts    []Clause
	Assumes     []Clause // assumed at entry, not checked at calls
	Split       bool
	PureArgs    bool
	InlineCalls map[string]bool
	Opts        map[string]bool
	FreshOnly   bool
	ClosDefs    []Clause // definitions of the ghost functions of closures passed as arguments ("clo")
}

// Touch is a marker that holds of the objects of a type whose fields the code addresses.
type Touch struct{ Fn, File string }

type Macro struct {
	Name   string
	Params []string
	Types  []ast.Expr
	Body   Clause
	Pkg    string
	File   string
}

type LogicFn struct {
	Args []string
	Res  string
}

type Lemma struct {
	Name     string
	Pkg      string
	File     string
	Params   []MetaVar
	Requires []Clause
	Ensures  []Clause
	Induct   string
	Mode     string
	Props    []string
	Trusted  bool
	Uses     []string
	Trig     []Clause
	Hints    []Clause
}

// SpecFile is one contract file.
type SpecFile struct {
	Name    string
	Pkg     string
	Mode    string
	Smt     []string
	SmtMode string
	Axioms  []Clause // proved elsewhere or definitional
	TAxioms []TAxiom // definitional axioms about one dynamic type
	Globals []Clause // facts about package variables that only the initialisation of their package writes
	Uses    []string
	Imm     []string
	Opts    map[string]bool
	Pre     []string // raw prelude, evaluated before everything (sort declarations)
}

// TAxiom is an axiom that is only needed when the dynamic type is mentioned.
type TAxiom struct {
	Type string
	C    Clause
}

// GhostDef defines ghost functions of a freshly built object.
type GhostDef struct {
	C    Clause
	Pkg  string
	File string
}

type Specs struct {
	GhostDefs map[string][]GhostDef
	Touch     map[string]Touch
	vars      map[string][]*FuncSpec
	Files   map[string]*SpecFile
	Funcs   map[string]*FuncSpec
	Macros  map[string][]*Macro
	Logic   map[string]LogicFn // by file-independent name
	LogicOf map[string]string  // name -> file
	Sorts   map[string]bool
	Lemmas  []*Lemma
	Imm     map[string]bool // immutable struct types "relapse/ast.Pattern"
	ImmBut  map[string]bool // "relapse/intern.Pattern.hash": mutable field of an immutable type
	Ghosts  map[string]string
	Impl    map[string]string // interface -> implementation
	Consts  map[string]bool
	Guards  map[string]Clause // heap key -> store guard (macro over array id)
	Order   []string
}

// macro finds the macro that a name means in a file: its own, one of its package, or any.
func (s *Specs) macro(name, file string) *Macro {
	ms := s.Macros[name]
	for _, m := range ms {
		if m.File == file {
			return m
		}
	}
	if sf := s.Files[file]; sf != nil {
		for _, m := range ms {
			if m.Pkg == sf.Pkg {
				return m
			}
		}
		for _, x := range sf.Uses {
			for _, m := range ms {
				if m.File == x {
					return m
				}
			}
		}
	}
	if len(ms) > 1 {
		specFail("%s is defined in several files, none of them used by %s", name, file)
	}
	if len(ms) > 0 {
		return ms[0]
	}
	return nil
}


func parseSpecs(dir string) (*Specs, error) {
	s := &Specs{GhostDefs: map[string][]GhostDef{}, Files: map[string]*SpecFile{}, Funcs: map[string]*FuncSpec{}, Macros: map[string][]*Macro{}, Logic: map[string]LogicFn{}, LogicOf: map[string]string{}, Sorts: map[string]bool{},
		Imm: map[string]bool{}, ImmBut: map[string]bool{}, Ghosts: map[string]string{}, Impl: map[string]string{}, Guards: map[string]Clause{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	for _, f := range files {
		if err := s.parseFile(f); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	s.finish()
	return s, nil
}

var declFun = regexp.MustCompile(`^\(declare-fun\s+(\S+)\s+\(([^)]*(?:\([^)]*\)[^)]*)*)\)\s+(.*)\)$`)

// sexprs splits text into top-level s-expressions.
func sexprs(text string) []string {
	var out []string
	depth, start := 0, -1
	inComment := false
	for i := 0; i < len(text); i++ {
		c := text[i]
		if inComment {
			if c == '\n' {
				inComment = false
			}
			continue
		}
		switch c {
		case ';':
			inComment = true
		case '(':
			if depth == 0 {
				start = i
			}
			depth++
		case ')':
			depth--
			if depth == 0 {
				out = append(out, text[start:i+1])
			}
		}
	}
	return out
}

// sexprArgs splits "(a b (c d))" into its elements.
func sexprArgs(s string) []string {
	s = strings.TrimSpace(s)
	s = s[1 : len(s)-1]
	var out []string
	depth := 0
	cur := ""
	for _, c := range s {
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
		}
		if depth == 0 && (c == ' ' || c == '\n' || c == '\t') {
			if cur != "" {
				out = append(out, cur)
				cur = ""
			}
			continue
		}
		cur += string(c)
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

// dup reports a logic function that two files define.
func (s *Specs) dup(file, name string) {
	if f, ok := s.LogicOf[name]; ok && f != file {
		panic(name + " is defined in " + f + " and in " + file)
	}
}

func (s *Specs) addSmt(file string, text string) {
	for _, x := range sexprs(text) {
		a := sexprArgs(x)
		switch a[0] {
		case "declare-sort":
			s.Sorts[a[1]] = true
		case "declare-datatypes":
			for _, d := range sexprArgs(a[1]) {
				s.Sorts[sexprArgs(d)[0]] = true
			}
			// constructors and selectors
			for i, d := range sexprArgs(a[2]) {
				so := sexprArgs(sexprArgs(a[1])[i])[0]
				for _, c := range sexprArgs(d) {
					var ctor string
					var sorts []string
					if c[0] == '(' {
						ca := sexprArgs(c)
						ctor = ca[0]
						for _, f := range ca[1:] {
							fa := sexprArgs(f)
							s.Logic[fa[0]] = LogicFn{[]string{so}, fa[1]}
							s.LogicOf[fa[0]] = file
							sorts = append(sorts, fa[1])
						}
					} else {
						ctor = c
					}
					s.Logic[ctor] = LogicFn{sorts, so}
					s.LogicOf[ctor] = file
				}
			}
		case "define-sort":
			s.Sorts[a[1]] = true
		case "declare-fun":
			s.dup(file, a[1])
			s.Logic[a[1]] = LogicFn{sexprArgs(a[2]), a[3]}
			s.LogicOf[a[1]] = file
		case "declare-const":
			s.Logic[a[1]] = LogicFn{nil, a[2]}
			s.LogicOf[a[1]] = file
		case "define-fun", "define-fun-rec":
			var args []string
			s.dup(file, a[1])
			for _, p := range sexprArgs(a[2]) {
				args = append(args, sexprArgs(p)[1])
			}
			s.Logic[a[1]] = LogicFn{args, a[3]}
			s.LogicOf[a[1]] = file
		}
	}
}

func (s *Specs) parseFile(path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	name := strings.TrimSuffix(filepath.Base(path), ".spec")
	sf := &SpecFile{Name: name, Mode: "int"}
	s.Files[name] = sf
	lines := strings.Split(string(data), "\n")
	var cur *FuncSpec
	var lem *Lemma
	i := 0
	for i < len(lines) {
		raw := lines[i]
		line := strings.TrimRight(raw, " \t")
		if k := strings.Index(line, "//"); k >= 0 && !strings.Contains(line[:k], "\"") {
			line = strings.TrimRight(line[:k], " \t")
		}
		i++
		if strings.TrimSpace(line) == "" {
			continue
		}
		pos := fmt.Sprintf("%s:%d", name, i)
		indented := line[0] == ' ' || line[0] == '\t'
		text := strings.TrimSpace(line)
		if text == "smt {" || text == "pre {" {
			var b []string
			for i < len(lines) && strings.TrimSpace(lines[i]) != "}" {
				b = append(b, lines[i])
				i++
			}
			i++
			t := strings.Join(b, "\n")
			if text == "pre {" {
				sf.Pre = append(sf.Pre, t)
			} else {
				sf.Smt = append(sf.Smt, t)
			}
			s.addSmt(name, t)
			continue
		}
		// continuation lines: deeper indentation and no keyword
		for i < len(lines) {
			n := lines[i]
			if k := strings.Index(n, "//"); k >= 0 && !strings.Contains(n[:k], "\"") {
				n = n[:k]
			}
			nt := strings.TrimSpace(n)
			if nt == "" {
				break
			}
			ind := len(n) - len(strings.TrimLeft(n, " \t"))
			if ind < 4 {
				break
			}
			text += " " + nt
			i++
		}
		kw := text
		rest := ""
		if k := strings.IndexAny(text, " \t"); k >= 0 {
			kw, rest = text[:k], strings.TrimSpace(text[k:])
		}
		if !indented {
			cur, lem = nil, nil
			switch kw {
			case "package":
				sf.Pkg = rest
			case "mode":
				sf.Mode = rest
			case "use":
				sf.Uses = append(sf.Uses, strings.Fields(rest)...)
			case "option": // for the units of the files that use this one
				if sf.Opts == nil {
					sf.Opts = map[string]bool{}
				}
				for _, o := range strings.Fields(rest) {
					sf.Opts[o] = true
				}
			case "immutable":
				for _, t := range strings.Fields(rest) {
					s.Imm[s.qual(sf, t)] = true
				}
			case "mutable":
				for _, t := range strings.Fields(rest) {
					s.ImmBut[s.qual(sf, t)] = true
				}
			case "ghost":
				f := strings.SplitN(rest, " ", 2)
				s.Ghosts[f[0]] = strings.TrimSpace(f[1])
			case "touch":
				f := strings.Fields(rest)
				if s.Touch == nil {
					s.Touch = map[string]Touch{}
				}
				s.Touch[s.qual(sf, f[0])] = Touch{f[1], name}
			case "impl":
				f := strings.Fields(rest)
				s.Impl[s.qual(sf, f[0])] = s.qual(sf, f[1])
			case "guard":
				f := strings.SplitN(rest, " ", 2)
				c, err := clause(strings.TrimSpace(f[1]), pos)
				if err != nil {
					return err
				}
				s.Guards[f[0]] = c
			case "axiom":
				c, err := clause(rest, pos)
				if err != nil {
					return err
				}
				sf.Axioms = append(sf.Axioms, c)
			case "global":
				// global PROPS EXPR: in a package of the repository it is proved of the package initialisation
				f := strings.SplitN(rest, " ", 2)
				c, err := clause(strings.TrimSpace(f[1]), pos)
				if err != nil {
					return err
				}
				sf.Globals = append(sf.Globals, c)
				if sf.Pkg != "" && f[0] != "trusted" {
					k := sf.Pkg + ".init"
					if s.Funcs[k] == nil {
						s.Funcs[k] = &FuncSpec{Key: k, Pkg: sf.Pkg, File: name, Mode: sf.Mode, Modifies: nil}
						s.Order = append(s.Order, k)
					}
					fs := s.Funcs[k]
					fs.Ensures = append(fs.Ensures, c)
					for _, p := range strings.Split(f[0], ",") {
						fs.Props = append(fs.Props, p)
					}
				}
			case "taxiom", "ghostdef":
				f := strings.SplitN(rest, " ", 2)
				c, err := clause(strings.TrimSpace(f[1]), pos)
				if err != nil {
					return err
				}
				if kw == "taxiom" {
					sf.TAxioms = append(sf.TAxioms, TAxiom{s.qual(sf, f[0]), c})
				} else {
					t := s.qual(sf, f[0])
					s.GhostDefs[t] = append(s.GhostDefs[t], GhostDef{c, sf.Pkg, name})
				}
			case "def":
				k := strings.Index(rest, " = ")
				if k < 0 {
					return fmt.Errorf("%s: def needs =", pos)
				}
				head, err := parser.ParseExpr(rest[:k])
				if err != nil {
					return fmt.Errorf("%s: %v", pos, err)
				}
				body, err := clause(rest[k+3:], pos)
				if err != nil {
					return err
				}
				call := head.(*ast.CallExpr)
				m := &Macro{Name: call.Fun.(*ast.Ident).Name, Body: body, Pkg: sf.Pkg, File: name}
				for _, a := range call.Args {
					m.Params = append(m.Params, a.(*ast.Ident).Name)
				}
				s.Macros[m.Name] = append(s.Macros[m.Name], m)
			case "func", "inline", "iface":
				f, err := parseHeader(rest)
				if err != nil {
					return fmt.Errorf("%s: %v", pos, err)
				}
				f.Pkg = sf.Pkg
				f.File = name
				f.Mode = sf.Mode
				f.Key = s.qual(sf, f.Key)
				f.Inline = kw == "inline"
				if kw == "iface" {
					f.Trusted = true
					f.Why = "interface contract, assumed of every implementation"
				}
				if s.Funcs[f.Key] != nil {
					return fmt.Errorf("%s: duplicate contract for %s", pos, f.Key)
				}
				s.Funcs[f.Key] = f
				s.Order = append(s.Order, f.Key)
				cur = f
			case "lemma":
				l := &Lemma{Pkg: sf.Pkg, File: name, Mode: sf.Mode}
				k := strings.Index(rest, "(")
				l.Name = rest[:k]
				vs, err := parseVars(rest[k+1 : len(rest)-1])
				if err != nil {
					return fmt.Errorf("%s: %v", pos, err)
				}
				l.Params = vs
				s.Lemmas = append(s.Lemmas, l)
				lem = l
			default:
				return fmt.Errorf("%s: unknown directive %q", pos, kw)
			}
			continue
		}
		if lem != nil {
			c, err := Clause{}, error(nil)
			if kw == "requires" || kw == "ensures" || kw == "trig" || kw == "hint" {
				c, err = clause(rest, pos)
				if err != nil {
					return err
				}
			}
			switch kw {
			case "requires":
				lem.Requires = append(lem.Requires, c)
			case "ensures":
				lem.Ensures = append(lem.Ensures, c)
			case "trig":
				lem.Trig = append(lem.Trig, c)
			case "hint":
				lem.Hints = append(lem.Hints, c)
			case "induct":
				lem.Induct = rest
			case "prop":
				lem.Props = strings.Fields(rest)
			case "trusted":
				lem.Trusted = true
			case "mode":
				lem.Mode = rest
			case "uses":
				lem.Uses = strings.Fields(rest)
			default:
				return fmt.Errorf("%s: bad lemma clause %s", pos, kw)
			}
			continue
		}
		if cur == nil {
			return fmt.Errorf("%s: clause outside of a function", pos)
		}
		switch kw {
		case "requires", "ensures", "modifies", "hint", "argfact", "assumes", "closdef":
			if kw == "modifies" {
				for _, part := range splitTop(rest) {
					c, err := clause(part, pos)
					if err != nil {
						return err
					}
					cur.Modifies = append(cur.Modifies, c)
				}
				continue
			}
			c, err := clause(rest, pos)
			if err != nil {
				return err
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "hint":
				cur.Hints = append(cur.Hints, c)
			case "assumes":
				cur.Assumes = append(cur.Assumes, c)
			case "closdef":
				cur.ClosDefs = append(cur.ClosDefs, c)
			case "argfact":
				cur.ArgFacts = append(cur.ArgFacts, c)
			}
		case "option":
			if cur.Opts == nil {
				cur.Opts = map[string]bool{}
			}
			for _, o := range strings.Fields(rest) {
				cur.Opts[o] = true
			}
		case "inv":
			inv := Inv{}
			if strings.HasPrefix(rest, "[") {
				k := strings.Index(rest, "]:")
				if k < 0 {
					return fmt.Errorf("%s: inv metavariables must end with ]:", pos)
				}
				vs, err := parseVars(rest[1:k])
				if err != nil {
					return fmt.Errorf("%s: %v", pos, err)
				}
				inv.Vars = vs
				rest = strings.TrimSpace(rest[k+2:])
			}
			c, err := clause(rest, pos)
			if err != nil {
				return err
			}
			inv.C = c
			cur.Invs = append(cur.Invs, inv)
		case "trusted":
			cur.Trusted = true
			cur.Why = rest
		case "mode":
			cur.Mode = rest
		case "uses":
			cur.Uses = append(cur.Uses, strings.Fields(rest)...)
		case "prop":
			cur.Props = append(cur.Props, strings.Fields(rest)...)
		case "maypanic":
			cur.MayPanic = true
			cur.NilPanic = rest == "nil"
		case "shifts":
			for _, f := range strings.Fields(rest) {
				n, err := strconv.Atoi(f)
				if err != nil || n < 0 || n > 63 {
					return fmt.Errorf("%s: shifts", pos)
				}
				cur.Shifts = append(cur.Shifts, n)
			}
		case "noauto":
			cur.NoAuto = true
		case "split":
			cur.Split = true
		case "pure":
			cur.Pure = true
		case "pureargs":
			cur.PureArgs = true
		case "inlinecalls":
			if cur.InlineCalls == nil {
				cur.InlineCalls = map[string]bool{}
			}
			for _, f := range strings.Fields(rest) {
				cur.InlineCalls[s.qual(sf, f)] = true
			}
		case "noinline":
			if cur.NoInline == nil {
				cur.NoInline = map[string]bool{}
			}
			for _, f := range strings.Fields(rest) {
				cur.NoInline[f] = true
			}
		case "timeout":
			fmt.Sscan(rest, &cur.Timeout)
		case "writes":
			for _, k := range strings.Fields(rest) {
				if k == "fresh" { // whatever is written lies in objects allocated during the call
					cur.FreshOnly = true
					continue
				}
				cur.Writes = append(cur.Writes, k)
			}
		default:
			return fmt.Errorf("%s: unknown clause %q", pos, kw)
		}
	}
	return nil
}

func (s *Specs) qual(sf *SpecFile, n string) string {
	star := ""
	if strings.HasPrefix(n, "*") {
		star, n = "*", n[1:]
	}
	if strings.Contains(n, "/") && !strings.HasPrefix(n, "!") {
		return star + n
	}
	// "strings.Contains" style names of other packages carry an explicit "!" prefix
	if strings.HasPrefix(n, "!") {
		return star + n[1:]
	}
	if star != "" && strings.Contains(n, ".") {
		return sf.Pkg + ".*" + n
	}
	if star != "" {
		return "*" + sf.Pkg + "." + n
	}
	return sf.Pkg + "." + n
}

// parseHeader reads "Bits.Get(bs, i) (r)".
func parseHeader(s string) (*FuncSpec, error) {
	f := &FuncSpec{}
	k := strings.Index(s, "(")
	if strings.HasPrefix(s, "value.func(") { // the parameters of the type come first
		depth := 0
		for i := k; i < len(s); i++ {
			if s[i] == '(' {
				depth++
			}
			if s[i] == ')' {
				if depth--; depth == 0 {
					if j := strings.Index(s[i:], "("); j >= 0 {
						k = i + j
					}
					break
				}
			}
		}
	}
	if k < 0 {
		return nil, fmt.Errorf("bad header %q", s)
	}
	f.Key = strings.TrimSpace(s[:k])
	rest := s[k:]
	k = strings.Index(rest, ")")
	f.Args = fieldsComma(rest[1:k])
	rest = strings.TrimSpace(rest[k+1:])
	if rest != "" {
		rest = strings.Trim(rest, "()")
		f.Results = fieldsComma(rest)
	}
	return f, nil
}

func fieldsComma(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

func parseVars(s string) ([]MetaVar, error) {
	var out []MetaVar
	for _, p := range splitTop(s) {
		f := strings.SplitN(strings.TrimSpace(p), " ", 2)
		if len(f) != 2 {
			return nil, fmt.Errorf("bad variable %q", p)
		}
		v := MetaVar{Name: f[0]}
		t := strings.TrimSpace(f[1])
		if strings.HasPrefix(t, "any ") {
			v.Any = true
			t = strings.TrimSpace(t[4:])
		}
		if strings.HasPrefix(t, "last ") {
			v.Any, v.Last = true, true
			t = strings.TrimSpace(t[5:])
		}
		if strings.HasPrefix(t, "outer ") {
			v.Any, v.Outer = true, true
			t = strings.TrimSpace(t[6:])
		}
		e, err := parser.ParseExpr(t)
		if err != nil {
			return nil, err
		}
		v.Type = e
		out = append(out, v)
	}
	return out, nil
}

// splitTop splits at top-level commas.
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

func clause(text, pos string) (Clause, error) {
	t := implies(text)
	e, err := parser.ParseExpr(t)
	if err != nil {
		return Clause{}, fmt.Errorf("%s: %v in %q", pos, err, t)
	}
	return Clause{Text: text, Expr: e, Pos: pos}, nil
}

// implies rewrites A ==> B and A <==> B (lowest precedence, right associative) into calls.
func implies(s string) string {
	// first inside brackets
	var b strings.Builder
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			b.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if c == '(' || c == '[' {
			d := 0
			j := i
			for ; j < len(s); j++ {
				if s[j] == '(' || s[j] == '[' {
					d++
				}
				if s[j] == ')' || s[j] == ']' {
					d--
					if d == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				return s
			}
			parts := splitTop(s[i+1 : j])
			for k := range parts {
				parts[k] = implies(parts[k])
			}
			b.WriteByte(c)
			b.WriteString(strings.Join(parts, ", "))
			b.WriteByte(s[j])
			i = j + 1
			continue
		}
		b.WriteByte(c)
		i++
	}
	s = b.String()
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		}
		if d == 0 && strings.HasPrefix(s[i:], "<==>") {
			return "iff(" + s[:i] + ", " + implies(s[i+4:]) + ")"
		}
		if d == 0 && strings.HasPrefix(s[i:], "==>") {
			return "imp(" + s[:i] + ", " + implies(s[i+3:]) + ")"
		}
	}
	return s
}

// variants are the contracts of a library function that depend on the dynamic type of its first argument.
func (s *Specs) variants(key string) (r []*FuncSpec) {
	if s.vars == nil {
		s.vars = map[string][]*FuncSpec{}
		for k, sp := range s.Funcs {
			if i := strings.Index(k, "@"); i > 0 {
				s.vars[k[:i]] = append(s.vars[k[:i]], sp)
			}
		}
	}
	return s.vars[key]
}

// finish adds what follows from the clauses of the contracts.
func (s *Specs) finish() {
	for _, sp := range s.Funcs {
		if !sp.Trusted {
			continue
		}
		for _, c := range sp.Ensures {
			if strings.Contains(c.Text, "fresh(") {
				sp.Writes = append(sp.Writes, "al") // it allocates
				break
			}
		}
	}
}
