package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State maps heap keys, local cells and ghosts to terms; an absent key has its initial value.
type State struct{ m map[string]Term }

func (s *State) clone() *State {
	n := &State{make(map[string]Term, len(s.m)+4)}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

type Edge struct {
	from *VB
	e    string // boolean term: this edge is taken
}

type itemKind int

const (
	kDef itemKind = iota
	kAssume
	kAssert
)

type Item struct {
	kind itemKind
	text string
	cand *Cand
	ob   *Oblig
}

// VB is a verification block: a node of the acyclic graph of passified code.
type VB struct {
	id    int
	preds []*Edge
	items []Item
	r     string
}

// Cand is one instance of a loop invariant template.
type Cand struct {
	id     int
	name   string
	active bool
	auto   bool
	sym    string
	weak   *Cand
	group  int      // the loop
	binds  []string // what the variables of the template stand for
	arith  bool     // only integer comparisons of variables and lengths
}

// Oblig is one proof obligation.
type Oblig struct {
	id     int
	name   string
	kind   string
	vb     *VB
	pos    int
	goal   string
	cand   *Cand
	at     string
	split  string
	result string // unsat, sat, unknown
	solver string
	ms     int64
	expect string
}

// Unit is one function (or lemma) under verification.
type Unit struct {
	ngroups int
	iterKey string // of the loop being instantiated
	P        *Prog
	specs    *Specs
	enc      *Enc
	spec     *FuncSpec
	fn       *ssa.Function
	name     string
	file     string
	consts   map[string]string
	keySort  map[string]string
	blocks   []*VB
	obls     []*Oblig
	cands    []*Cand
	nfresh   int
	qn       int
	nvb      int
	written  []map[string]bool
	logic    map[string]bool
	files    map[string]bool
	cur      *VB
	names    map[string]int
	clos     map[string]*Clos
	entrySt  *State
	top      *Frame
	trusted  map[string]bool
	inlined  map[string]bool
	called   map[string]bool
	extra    []string // unit-level axioms
	atDecl   map[string]bool
	maypanic bool
	localTy  map[string]types.Type
	dry      int
	nlocal   int
	frozen   map[string]bool
	entryVar map[string]TV
	dynv     map[string]dynVal
	usef     map[string]bool
	clofacts map[string]bool
	topMods  map[string][]modLoc
	effCache map[*ssa.Function]map[string]bool
	lemma    *Lemma
	err      string
	parts    map[string][3]string // array, offset and length of slices made by slicing
	initOf   *types.Package // the package whose initialisation is verified
	nblock   int
}

func newUnit(P *Prog, specs *Specs, name, mode string) *Unit {
	u := &Unit{P: P, specs: specs, enc: newEnc(mode == "bv"), name: name, consts: map[string]string{}, keySort: map[string]string{}, logic: map[string]bool{}, files: map[string]bool{},
		names: map[string]int{}, parts: map[string][3]string{}, clos: map[string]*Clos{}, trusted: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, atDecl: map[string]bool{}, localTy: map[string]types.Type{}, frozen: map[string]bool{}}
	u.keySort["al"] = "Int"
	for g, s := range specs.Ghosts {
		u.keySort["G!"+g] = s
	}
	return u
}

// part is the array, offset or length of a slice.
func (u *Unit) part(s Term, i int) string {
	if p, ok := u.parts[s.S]; ok {
		return p[i]
	}
	return fmt.Sprintf("(%s %s)", [3]string{"s-arr", "s-off", "s-len"}[i], s.S)
}

// the heap of a 64 bit Go program spans at most 2^48 bytes
const addrSpace = "281474976710656"

func maxCap(elem types.Type) string {
	if types.SizesFor("gc", "amd64").Sizeof(elem) == 0 {
		return "9223372036854775807"
	}
	return addrSpace
}

func (u *Unit) useLogic(n string) { u.logic[n] = true; u.files[u.specs.LogicOf[n]] = true }

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '@' || c == '$' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (u *Unit) fresh(prefix, sort string) Term {
	u.nfresh++
	n := fmt.Sprintf("%s!%d", sanitize(prefix), u.nfresh)
	u.consts[n] = sort
	return Term{n, sort}
}

func isAtom(s string) bool { return !strings.ContainsAny(s, " (") }

// define names a term.
func (u *Unit) define(prefix string, t Term) Term {
	if isAtom(t.S) || len(t.S) < 24 && !strings.Contains(t.S, "select") {
		return t
	}
	c := u.fresh(prefix, t.Sort)
	u.cur.items = append(u.cur.items, Item{kind: kDef, text: fmt.Sprintf("(= %s %s)", c.S, t.S)})
	return c
}

func (u *Unit) assume(s string) {
	if s == "" || s == "true" {
		return
	}
	u.cur.items = append(u.cur.items, Item{kind: kAssume, text: s})
}

// assert adds an obligation at the current point.
func (u *Unit) assert(goal, kind, what, at string) *Oblig {
	n := u.name + "/" + kind
	if what != "" {
		n += "/" + what
	}
	if u.dry == 0 {
		u.names[n]++
		if k := u.names[n]; k > 1 {
			n = fmt.Sprintf("%s#%d", n, k)
		}
	}
	o := &Oblig{id: len(u.obls), name: n, kind: kind, vb: u.cur, pos: len(u.cur.items), goal: goal, at: at}
	u.obls = append(u.obls, o)
	u.cur.items = append(u.cur.items, Item{kind: kAssert, text: goal, ob: o})
	return o
}

func (u *Unit) newVB() *VB {
	vb := &VB{id: len(u.blocks)}
	u.nvb++
	vb.r = fmt.Sprintf("R!%d", u.nvb)
	u.consts[vb.r] = "Bool"
	u.blocks = append(u.blocks, vb)
	return vb
}

// follow creates a block reached from the given edges.
func (u *Unit) joinVB(edges []*Edge) *VB {
	vb := u.newVB()
	vb.preds = edges
	var es []string
	for _, e := range edges {
		es = append(es, e.e)
	}
	d := es[0]
	if len(es) > 1 {
		d = "(or " + strings.Join(es, " ") + ")"
	}
	vb.items = append(vb.items, Item{kind: kDef, text: fmt.Sprintf("(= %s %s)", vb.r, d)})
	return vb
}

// edge leaves block vb under cond.
func (u *Unit) edge(vb *VB, cond string) *Edge {
	if cond == "true" {
		return &Edge{vb, vb.r}
	}
	c := u.fresh("E", "Bool")
	vb.items = append(vb.items, Item{kind: kDef, text: fmt.Sprintf("(= %s (and %s %s))", c.S, vb.r, cond)})
	return &Edge{vb, c.S}
}

func (u *Unit) initTerm(key string) Term {
	s, ok := u.keySort[key]
	if !ok {
		panic(unsupported("no sort for key " + key))
	}
	n := mangleKey(key) + "@0"
	u.consts[n] = s
	return Term{n, s}
}

func mangleKey(k string) string {
	return sanitize(strings.NewReplacer("[]", "l.", "*", "p.", "|", ".", "/", ".").Replace(k))
}

func (u *Unit) read(st *State, key string) Term {
	if t, ok := st.m[key]; ok {
		return t
	}
	return u.initTerm(key)
}

func (u *Unit) write(st *State, key string, t Term) {
	t = u.define(mangleKey(key), t)
	st.m[key] = t
	for _, w := range u.written {
		w[key] = true
	}
}

// mergeStates joins states along edges.
func (u *Unit) mergeStates(vb *VB, edges []*Edge, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.m {
			keys[k] = true
		}
	}
	out := &State{map[string]Term{}}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "L|") {
			// a local that does not exist on some path is dead after the join
			ok := true
			for _, s := range sts {
				if _, h := s.m[k]; !h {
					ok = false
				}
			}
			if !ok {
				continue
			}
		}
		var ts []Term
		same := true
		for _, s := range sts {
			t := u.read(s, k)
			ts = append(ts, t)
			if t.S != ts[0].S {
				same = false
			}
		}
		if same {
			out.m[k] = ts[0]
			continue
		}
		out.m[k] = u.mergeTerms(vb, edges, ts, mangleKey(k))
	}
	return out
}

func (u *Unit) mergeTerms(vb *VB, edges []*Edge, ts []Term, name string) Term {
	same := true
	for _, t := range ts {
		if t.S != ts[0].S {
			same = false
		}
	}
	if same {
		return ts[0]
	}
	x := ts[len(ts)-1].S
	for i := len(ts) - 2; i >= 0; i-- {
		x = fmt.Sprintf("(ite %s %s %s)", edges[i].e, ts[i].S, x)
	}
	c := u.fresh(name, ts[0].Sort)
	vb.items = append(vb.items, Item{kind: kDef, text: fmt.Sprintf("(= %s %s)", c.S, x)})
	return c
}

// ---- heap keys ----

func (u *Unit) structName(t types.Type) string { return typeName(t) }

func (u *Unit) fieldKey(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	k := "F|" + u.structName(t) + "." + st.Field(i).Name()
	if _, ok := u.keySort[k]; !ok {
		u.keySort[k] = "(Array Int " + u.enc.sortOf(st.Field(i).Type()) + ")"
	}
	return k
}

func (u *Unit) elemKey(t types.Type) string {
	k := "E|" + typeName(t)
	if _, ok := u.keySort[k]; !ok {
		u.keySort[k] = "(Array Int (Array " + u.enc.I() + " " + u.enc.sortOf(t) + "))"
	}
	return k
}

func (u *Unit) cellKey(t types.Type) string {
	k := "C|" + typeName(t)
	if _, ok := u.keySort[k]; !ok {
		u.keySort[k] = "(Array Int " + u.enc.sortOf(t) + ")"
	}
	return k
}

func (u *Unit) mapKey(p string, m *types.Map) string {
	k := p + "|" + typeName(m)
	if _, ok := u.keySort[k]; !ok {
		s := "Bool"
		if p == "MV" {
			s = u.enc.sortOf(m.Elem())
		}
		u.keySort[k] = "(Array Int (Array " + u.enc.sortOf(m.Key()) + " " + s + "))"
	}
	return k
}

func (u *Unit) isImmutable(t types.Type, field string) bool {
	n := u.structName(t)
	return u.specs.Imm[n] && !u.specs.ImmBut[n+"."+field]
}

func (u *Unit) loadField(st *State, ref Term, t types.Type, i int) Term {
	stt := t.Underlying().(*types.Struct)
	f := stt.Field(i)
	s := u.enc.sortOf(f.Type())
	if u.isImmutable(t, f.Name()) {
		n := "fld$" + mangle(u.structName(t)) + "." + f.Name()
		u.enc.decl(n, fmt.Sprintf("(declare-fun %s (Int) %s)", n, s))
		return T(s, "(%s %s)", n, ref.S)
	}
	return T(s, "(select %s %s)", u.read(st, u.fieldKey(t, i)).S, ref.S)
}

func (u *Unit) loadPtr(st *State, ref Term, t types.Type) Term {
	if s, ok := t.Underlying().(*types.Struct); ok {
		so := u.enc.sortOf(t)
		if s.NumFields() == 0 {
			return Term{"mk$" + so, so}
		}
		x := "(mk$" + so
		for i := 0; i < s.NumFields(); i++ {
			x += " " + u.loadField(st, ref, t, i).S
		}
		return Term{x + ")", so}
	}
	return T(u.enc.sortOf(t), "(select %s %s)", u.read(st, u.cellKey(t)).S, ref.S)
}

// atFn declares the element access function of an element sort.
func (u *Unit) atFn(sort string) string {
	n := "at$" + mangleSort(sort)
	I := u.enc.I()
	u.enc.decl(n, fmt.Sprintf("(declare-fun %s ((Array %s %s) %s %s) %s)", n, I, sort, I, I, sort))
	u.enc.decl("ax"+n, fmt.Sprintf("(assert (forall ((A (Array %s %s)) (o %s) (i %s)) (! (= (%s A o i) (select A %s)) :pattern ((%s A o i)))))", I, sort, I, I, n, u.plus("o", "i"), n))
	return n
}

func (u *Unit) plus(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	if u.enc.bv {
		return "(bvadd " + a + " " + b + ")"
	}
	return "(+ " + a + " " + b + ")"
}

func (u *Unit) minus(a, b string) string {
	if u.enc.bv {
		return "(bvsub " + a + " " + b + ")"
	}
	return "(- " + a + " " + b + ")"
}

func (u *Unit) le(a, b string) string {
	if u.enc.bv {
		return "(bvsle " + a + " " + b + ")"
	}
	return "(<= " + a + " " + b + ")"
}

func (u *Unit) lt(a, b string) string {
	if u.enc.bv {
		return "(bvslt " + a + " " + b + ")"
	}
	return "(< " + a + " " + b + ")"
}

func mangleSort(s string) string {
	return strings.NewReplacer("(", "", ")", "", " ", "-").Replace(s)
}

func (u *Unit) elt(st *State, s, i Term, t types.Type) Term {
	so := u.enc.sortOf(t)
	h := u.read(st, u.elemKey(t))
	return T(so, "(%s (select %s (s-arr %s)) (s-off %s) %s)", u.atFn(so), h.S, s.S, s.S, i.S)
}

// storeElem writes one element.
func (u *Unit) storeElem(st *State, arr, off, idx Term, t types.Type, v Term) {
	so := u.enc.sortOf(t)
	k := u.elemKey(t)
	h := u.read(st, k)
	at := u.atFn(so)
	I := u.enc.I()
	old := u.define("A", T(arrayElem(h.Sort), "(select %s %s)", h.S, arr.S))
	nw := u.fresh("A", old.Sort)
	pos := u.plus(off.S, idx.S)
	u.cur.items = append(u.cur.items, Item{kind: kDef, text: fmt.Sprintf("(= %s (store %s %s %s))", nw.S, old.S, pos, v.S)})
	// the same fact through the access function, so that quantified facts about the old contents are found
	u.cur.items = append(u.cur.items, Item{kind: kDef, text: fmt.Sprintf("(forall ((o? %s) (j? %s)) (! (= (%s %s o? j?) (ite (= %s %s) %s (%s %s o? j?))) :pattern ((%s %s o? j?))))", I, I, at, nw.S, u.plus("o?", "j?"), pos, v.S, at, old.S, at, nw.S)})
	u.write(st, k, T(h.Sort, "(store %s %s %s)", h.S, arr.S, nw.S))
}

func (u *Unit) global(st *State, o types.Object) Term {
	n := "glob$" + mangle(shortPkg(o.Pkg().Path())+"."+o.Name())
	g, _ := u.P.pkgs[o.Pkg().Path()].Members[o.Name()].(*ssa.Global)
	if g != nil && (u.P.mods[g] || u.initOf != nil && u.initOf == o.Pkg()) {
		k := "V|" + shortPkg(o.Pkg().Path()) + "." + o.Name()
		u.keySort[k] = u.enc.sortOf(o.Type())
		return u.read(st, k)
	}
	s := u.enc.sortOf(o.Type())
	u.consts[n] = s
	return Term{n, s}
}

// typeFacts are facts every value of a type satisfies in a state.
func (u *Unit) typeFacts(st *State, v Term, t types.Type) []string {
	var out []string
	switch ut := t.Underlying().(type) {
	case *types.Basic:
		if f := u.enc.rangeFact(v, t); f != "" {
			out = append(out, f)
		}
		if v.Sort == "Str" {
			z := u.enc.num(64, 0)
			out = append(out, u.le(z, "(strlen "+v.S+")"))
			if !u.enc.bv {
				out = append(out, fmt.Sprintf("(<= (strlen %s) %s)", v.S, addrSpace))
			}
		}
	case *types.Slice:
		z := u.enc.num(64, 0)
		out = append(out, fmt.Sprintf("(and (<= 0 (s-arr %s)) (< (s-arr %s) %s) %s %s %s)", v.S, v.S, u.read(st, "al").S, u.le(z, "(s-off "+v.S+")"), u.le(z, "(s-len "+v.S+")"), u.le("(s-len "+v.S+")", "(s-cap "+v.S+")")))
		out = append(out, fmt.Sprintf("(=> (= (s-arr %s) 0) (= (s-cap %s) %s))", v.S, v.S, z))
		if u.enc.bv {
			m := u.enc.num(64, 1<<62)
			out = append(out, u.le("(s-cap "+v.S+")", m), u.le("(s-off "+v.S+")", m))
		} else {
			out = append(out, fmt.Sprintf("(<= (s-cap %s) %s)", v.S, maxCap(ut.Elem())))
		}
	case *types.Pointer, *types.Map, *types.Signature:
		if !isAtom(v.S) || v.S[0] > '9' {
			out = append(out, fmt.Sprintf("(and (<= 0 %s) (< %s %s))", v.S, v.S, u.read(st, "al").S))
		}
	case *types.Interface:
		if n, ok := t.(*types.Named); ok && ut.NumMethods() > 0 && n.Obj().Pkg() != nil && isRepo(n.Obj().Pkg().Path()) {
			out = append(out, fmt.Sprintf("(=> (not (= (i-tag %s) 0)) %s)", v.S, u.implements(v, t).S))
		}
		out = append(out, fmt.Sprintf("(and (<= 0 (i-tag %s)) (=> (= (i-tag %s) 0) (= (i-val %s) 0)))", v.S, v.S, v.S))
		u.enc.decl("ptag", "(declare-fun ptag (Int) Bool)")
		out = append(out, fmt.Sprintf("(=> (ptag (i-tag %s)) (and (<= 0 (i-val %s)) (< (i-val %s) %s)))", v.S, v.S, v.S, u.read(st, "al").S))
	case *types.Struct:
		so := u.enc.sortOf(t)
		for i := 0; i < ut.NumFields(); i++ {
			ft := ut.Field(i).Type()
			out = append(out, u.typeFacts(st, T(u.enc.sortOf(ft), "(%s %s)", u.enc.accessor(so, i), v.S), ft)...)
		}
	}
	return out
}

func (u *Unit) assumeType(st *State, v Term, t types.Type) {
	for _, f := range u.typeFacts(st, v, t) {
		u.assume(f)
	}
}

func (u *Unit) implements(v Term, t types.Type) Term {
	n := "impl$" + mangle(typeName(t))
	u.enc.decl(n, "(declare-fun "+n+" (Int) Bool)")
	u.enc.decl("z"+n, fmt.Sprintf("(assert (not (%s 0)))", n))
	return T("Bool", "(%s (i-tag %s))", n, v.S)
}

// tagFacts are emitted for every dynamic type mentioned in the unit.
func (u *Unit) tagFacts() []string {
	var out []string
	// an interface with an unexported method is only implemented by the types of its package
	for _, k := range sortedKeys(u.enc.have) {
		if !strings.HasPrefix(k, "impl$") {
			continue
		}
		it := u.implType(k)
		if it == nil {
			continue
		}
		var pkg *types.Package
		for i := 0; i < it.NumMethods(); i++ {
			if m := it.Method(i); !m.Exported() {
				pkg = m.Pkg()
			}
		}
		if pkg == nil {
			continue
		}
		or := ""
		for _, n := range pkg.Scope().Names() {
			tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, it) {
					or += fmt.Sprintf(" (= t? %d)", u.enc.tag(t))
				}
			}
		}
		out = append(out, fmt.Sprintf("(assert (forall ((t? Int)) (! (=> (%s t?) (or false%s)) :pattern ((%s t?)))))", k, or, k))
	}
	for _, n := range sortedKeys(u.enc.tags) {
		t := u.enc.tagType[n]
		id := u.enc.tags[n]
		if u.enc.have["ptag"] {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				out = append(out, fmt.Sprintf("(assert (ptag %d))", id))
			}
		}
		for k := range u.enc.have {
			if !strings.HasPrefix(k, "impl$") {
				continue
			}
			it := u.implType(k)
			if it == nil {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, fmt.Sprintf("(assert (%s %d))", k, id))
			} else {
				out = append(out, fmt.Sprintf("(assert (not (%s %d)))", k, id))
			}
		}
	}
	sort.Strings(out)
	return out
}

func (u *Unit) implType(k string) *types.Interface {
	for _, p := range u.P.pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok && "impl$"+mangle(typeName(tn.Type())) == k {
					return it
				}
			}
		}
	}
	return nil
}

// alloc returns a fresh reference.
func (u *Unit) alloc(st *State) Term {
	a := u.read(st, "al")
	r := u.fresh("new", "Int")
	u.cur.items = append(u.cur.items, Item{kind: kDef, text: fmt.Sprintf("(= %s %s)", r.S, a.S)})
	u.write(st, "al", T("Int", "(+ %s 1)", r.S))
	return r
}

func (u *Unit) bvResize(t Term, w int, signed bool) Term {
	var cw int
	fmt.Sscanf(t.Sort, "(_ BitVec %d)", &cw)
	s := u.enc.intSort(w)
	switch {
	case cw == w:
		return t
	case cw > w:
		return T(s, "((_ extract %d 0) %s)", w-1, t.S)
	case signed:
		return T(s, "((_ sign_extend %d) %s)", w-cw, t.S)
	}
	return T(s, "((_ zero_extend %d) %s)", w-cw, t.S)
}

// cmp compares strings or floats.
func (u *Unit) cmp(op token.Token, a, b Term) Term {
	if a.Sort == "Str" {
		switch op {
		case token.LSS:
			return T("Bool", "(strlt %s %s)", a.S, b.S)
		case token.GTR:
			return T("Bool", "(strlt %s %s)", b.S, a.S)
		case token.LEQ:
			return T("Bool", "(not (strlt %s %s))", b.S, a.S)
		}
		return T("Bool", "(not (strlt %s %s))", a.S, b.S)
	}
	switch op {
	case token.LSS:
		return T("Bool", "(fltlt %s %s)", a.S, b.S)
	case token.GTR:
		return T("Bool", "(fltlt %s %s)", b.S, a.S)
	case token.LEQ:
		return T("Bool", "(fltle %s %s)", a.S, b.S)
	}
	return T("Bool", "(fltle %s %s)", b.S, a.S)
}

// papply applies a function value that is known to be pure.
func (u *Unit) papply(f Term, sig *types.Signature, args []string) TV {
	n := "papply"
	var sorts []string
	for i := 0; i < sig.Params().Len(); i++ {
		s := u.enc.sortOf(sig.Params().At(i).Type())
		sorts = append(sorts, s)
		n += "$" + mangleSort(s)
	}
	rt := sig.Results().At(0).Type()
	rs := u.enc.sortOf(rt)
	n += "$$" + mangleSort(rs)
	u.enc.decl(n, fmt.Sprintf("(declare-fun %s (Int %s) %s)", n, strings.Join(sorts, " "), rs))
	return TV{T(rs, "(%s %s %s)", n, f.S, strings.Join(args, " ")), rt}
}
