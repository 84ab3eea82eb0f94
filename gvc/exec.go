package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Tuple []Val

// Clos is a function value whose code is known.
type Clos struct {
	fn    *ssa.Function
	binds []Val
	id    Term
}

// Iter is a map or string iterator.
type Iter struct {
	m   Term
	typ *types.Map
	key string // local key of the visited set
	str *Term
	pos string
	dom Term
}

type sel struct {
	typ   types.Type // container type
	field int
	index *Term
}

// Addr is a symbolic address.
type Addr struct {
	kind byte // L local, F field, E element, C cell, P whole struct behind a pointer, V global
	key  string
	ref  Term
	off  Term
	idx  Term
	st   types.Type // struct type of F
	fi   int
	base types.Type // type of the root location
	path []sel
	typ  types.Type // type of the addressed location
}

type Frame struct {
	fn      *ssa.Function
	vals    map[ssa.Value]Val
	parent  *Frame
	depth   int
	spec    *FuncSpec
	entry   *State
	vars    map[string]TV // parameters by contract name
	litInit map[*ssa.Alloc]bool
}

type Exit struct {
	vb  *VB
	st  *State
	res []Val
	pos token.Pos
}

type incoming struct {
	edge *Edge
	st   *State
	pred *ssa.BasicBlock
	nth  int // occurrence among the preds
}

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	ctx  *LoopCtx
}

type LoopCtx struct {
	insts []*invInst
	fr    *Frame
	head  *ssa.BasicBlock
}

// invInst is an instantiated invariant: text computes its formula for given loop variable values.
type invInst struct {
	cand *Cand
	eval func(phis map[*ssa.Phi]Val, st *State) (string, error)
}

func (u *Unit) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := u.P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	return loops
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

type runner struct {
	u       *Unit
	fr      *Frame
	loops   map[*ssa.BasicBlock]*Loop
	order   []*ssa.BasicBlock
	pending map[*ssa.BasicBlock][]incoming
	exits   []Exit
	only    map[*ssa.BasicBlock]bool // dry run of one loop
	dryHead *ssa.BasicBlock
	st      *State
}

// execFunc runs fn from the current block; u.cur and st are consumed.
func (u *Unit) execFunc(fr *Frame, st *State) []Exit {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + fn.String()))
	}
	if fn.Recover != nil {
		panic(unsupported("recover in " + fn.String()))
	}
	r := &runner{u: u, fr: fr, loops: loopsOf(fn), order: rpo(fn), pending: map[*ssa.BasicBlock][]incoming{}}
	fr.entry = st.clone()
	r.st = st
	r.runBlock(fn.Blocks[0], nil)
	for _, b := range r.order[1:] {
		r.enter(b)
	}
	return r.exits
}

func (r *runner) enter(b *ssa.BasicBlock) {
	u := r.u
	ins := r.pending[b]
	if len(ins) == 0 {
		return
	}
	delete(r.pending, b)
	var edges []*Edge
	var sts []*State
	for _, i := range ins {
		edges = append(edges, i.edge)
		sts = append(sts, i.st)
	}
	vb := u.joinVB(edges)
	u.cur = vb
	r.st = u.mergeStates(vb, edges, sts)
	// phi values at entry
	entry := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for _, i := range ins {
			vs = append(vs, u.val(r.fr, p.Edges[r.predIndex(b, i)]))
		}
		entry[p] = u.mergeVals(vb, edges, vs, p.Comment, p.Type())
	}
	l := r.loops[b]
	if l == nil {
		for p, v := range entry {
			r.fr.vals[p] = v
		}
		r.runBlock(b, nil)
		return
	}
	r.loop(l, entry)
}

func (r *runner) predIndex(b *ssa.BasicBlock, i incoming) int {
	n := 0
	for k, p := range b.Preds {
		if p == i.pred {
			if n == i.nth {
				return k
			}
			n++
		}
	}
	panic("predIndex")
}

func (u *Unit) mergeVals(vb *VB, edges []*Edge, vs []Val, name string, t types.Type) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	allTerm := true
	for _, v := range vs {
		if _, ok := v.(Term); !ok {
			allTerm = false
		}
	}
	if allTerm {
		var ts []Term
		for _, v := range vs {
			ts = append(ts, v.(Term))
		}
		if name == "" {
			name = "phi"
		}
		return u.mergeTerms(vb, edges, ts, name)
	}
	same := true
	for _, v := range vs {
		if !sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	var ts []Term
	for _, v := range vs {
		ts = append(ts, u.term(v))
	}
	return u.mergeTerms(vb, edges, ts, "phi")
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case Term:
		y, ok := b.(Term)
		return ok && x.S == y.S
	case *Addr:
		y, ok := b.(*Addr)
		return ok && fmt.Sprint(*x) == fmt.Sprint(*y)
	case *Clos:
		return a == b
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// ---- loops ----

func (r *runner) loop(l *Loop, entry map[*ssa.Phi]Val) {
	u := r.u
	fr := r.fr
	pre := r.st
	preVB := u.cur
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	// dry run: which keys does the body write?
	nb, no, nc := len(u.blocks), len(u.obls), len(u.cands)
	w := map[string]bool{}
	u.written = append(u.written, w)
	u.dry++
	{
		d := &runner{u: u, fr: fr, loops: r.loops, order: r.order, pending: map[*ssa.BasicBlock][]incoming{}, only: l.body, dryHead: l.head, st: pre.clone()}
		nItems := len(preVB.items)
		u.cur = u.joinVB([]*Edge{{preVB, preVB.r}})
		for _, p := range phis {
			fr.vals[p] = u.havocPhi(p, entry[p])
		}
		d.runBlock(l.head, nil)
		for _, b := range r.order {
			if b != l.head && l.body[b] {
				d.enter(b)
			}
		}
		preVB.items = preVB.items[:nItems]
	}
	u.dry--
	u.written = u.written[:len(u.written)-1]
	u.blocks, u.obls, u.cands = u.blocks[:nb], u.obls[:no], u.cands[:nc]

	// the loop head, with everything the loop changes unknown
	u.cur = preVB
	head := u.joinVB([]*Edge{{preVB, preVB.r}})
	u.cur = head
	st := pre.clone()
	var keys []string
	for k := range w {
		if strings.HasPrefix(k, "L|") {
			if _, ok := pre.m[k]; !ok {
				continue
			}
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		st.m[k] = u.fresh(mangleKey(k), u.read(pre, k).Sort)
		for _, w := range u.written {
			w[k] = true
		}
	}
	if w["al"] {
		u.assume(fmt.Sprintf("(>= %s %s)", u.read(st, "al").S, u.read(pre, "al").S))
	}
	for _, k := range keys {
		if t, ok := u.localTy[k]; ok && t != nil {
			u.assumeType(st, st.m[k], t)
		}
	}
	hv := map[*ssa.Phi]Val{}
	for _, p := range phis {
		v := u.havocPhi(p, entry[p])
		hv[p] = v
		fr.vals[p] = v
		if t, ok := v.(Term); ok {
			u.assumeType(st, t, p.Type())
		}
	}
	ctx := &LoopCtx{fr: fr, head: l.head}
	l.ctx = ctx
	ctx.insts = u.instantiate(fr, l, phis, entry, hv, pre, st, keys)
	// entry obligations
	u.cur = preVB
	for _, ii := range ctx.insts {
		s, err := ii.eval(entry, pre)
		if err != nil {
			ii.cand.active = false
			continue
		}
		o := u.assert(s, "inv-entry", ii.cand.name, u.pos(l.head.Instrs[0].Pos()))
		o.cand = ii.cand
	}
	u.cur = head
	for _, ii := range ctx.insts {
		s, err := ii.eval(hv, st)
		if err != nil {
			ii.cand.active = false
			continue
		}
		u.cur.items = append(u.cur.items, Item{kind: kAssume, text: s, cand: ii.cand})
	}
	r.st = st
	r.runBlock(l.head, nil)
}

func (u *Unit) havocPhi(p *ssa.Phi, entry Val) Val {
	if _, ok := entry.(Term); !ok {
		if _, isC := entry.(*Clos); isC {
			if allSame(p) {
				return entry
			}
		}
		if a, ok := entry.(*Addr); ok {
			_ = a
			panic(unsupported("loop variable holding an interior address"))
		}
	}
	n := p.Comment
	if n == "" {
		n = p.Name()
	}
	return u.fresh(n, u.enc.sortOf(p.Type()))
}

func allSame(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if e != p && e != p.Edges[0] {
			return false
		}
	}
	return true
}

func (r *runner) goTo(from *ssa.BasicBlock, to *ssa.BasicBlock, cond string, nth int) {
	u := r.u
	if to.Dominates(from) && r.loops[to] != nil {
		// back edge
		if to == r.dryHead {
			return
		}
		ctx := r.loops[to].ctx
		if ctx == nil {
			return
		}
		save := u.cur
		e := u.edge(u.cur, cond)
		vb := u.joinVB([]*Edge{e})
		u.cur = vb
		vals := map[*ssa.Phi]Val{}
		k := r.predIndex(to, incoming{pred: from, nth: nth})
		for _, in := range to.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals[p] = u.val(r.fr, p.Edges[k])
		}
		for _, ii := range ctx.insts {
			s, err := ii.eval(vals, r.st)
			if err != nil {
				ii.cand.active = false
				continue
			}
			o := u.assert(s, "inv-kept", ii.cand.name, u.pos(from.Instrs[len(from.Instrs)-1].Pos()))
			o.cand = ii.cand
		}
		u.cur = save
		return
	}
	if r.only != nil && !r.only[to] {
		return
	}
	e := u.edge(u.cur, cond)
	r.pending[to] = append(r.pending[to], incoming{edge: e, st: r.st.clone(), pred: from, nth: nth})
}

// runBlock executes the instructions of b in the current verification block.
func (r *runner) runBlock(b *ssa.BasicBlock, _ interface{}) {
	u := r.u
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := u.define("c", u.term(u.val(r.fr, x.Cond)))
			if b.Succs[0] == b.Succs[1] {
				r.goTo(b, b.Succs[0], c.S, 0)
				r.goTo(b, b.Succs[1], "(not "+c.S+")", 1)
				return
			}
			if c.S != "false" {
				r.goTo(b, b.Succs[0], c.S, 0)
			}
			if c.S != "true" {
				n := "(not " + c.S + ")"
				if c.S == "false" {
					n = "true"
				}
				r.goTo(b, b.Succs[1], n, 0)
			}
			return
		case *ssa.Jump:
			r.goTo(b, b.Succs[0], "true", 0)
			return
		case *ssa.Return:
			var res []Val
			for _, v := range x.Results {
				res = append(res, u.val(r.fr, v))
				if a, ok := v.(*ssa.Alloc); ok {
					if t, ok := u.val(r.fr, a).(Term); ok {
						u.ghostDefs(r.st, a, t)
					}
				}
			}
			r.exits = append(r.exits, Exit{u.cur, r.st, res, x.Pos()})
			return
		case *ssa.Panic:
			if !u.maypanic {
				u.assert("false", "no-panic", r.fr.where()+u.panicText(x), u.pos(x.Pos()))
			}
			return
		default:
			r.instr(in)
		}
	}
}

func (u *Unit) panicText(x *ssa.Panic) string {
	if mi, ok := x.X.(*ssa.MakeInterface); ok {
		if c, ok := mi.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
			return " " + c.Value.ExactString()
		}
	}
	return ""
}

func (fr *Frame) where() string {
	if fr.parent == nil {
		return ""
	}
	return "in " + fr.fn.Name() + " "
}

// val returns the value of an SSA value in a frame.
func (u *Unit) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return u.enc.constant(x.Value, x.Type())
	case *ssa.Function:
		if c, ok := u.clos["fn$"+x.String()]; ok {
			return c
		}
		n := "fn$" + mangle(x.String())
		u.consts[n] = "Int"
		c := &Clos{fn: x, id: Term{n, "Int"}}
		u.clos["fn$"+x.String()] = c
		return c
	case *ssa.Global:
		return u.globalAddr(x)
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.vals[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)))
	}
	return r
}

func (u *Unit) globalAddr(g *ssa.Global) *Addr {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	return &Addr{kind: 'V', key: shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name(), base: t, typ: t, ref: Term{g.Pkg.Pkg.Path(), ""}}
}

// term converts a value to an SMT term.
func (u *Unit) term(v Val) Term {
	switch x := v.(type) {
	case Term:
		return x
	case *Clos:
		if x.id.S == "" {
			x.id = u.fresh("clos", "Int")
			u.clos[x.id.S] = x
		}
		return x.id
	case *Addr:
		if x.kind == 'P' && len(x.path) == 0 {
			return x.ref
		}
		panic(unsupported("interior address used as a value (" + x.key + ")"))
	}
	panic(unsupported(fmt.Sprintf("value %T as term", v)))
}

func (u *Unit) ptrAddr(t Term, elem types.Type) *Addr {
	if _, ok := elem.Underlying().(*types.Struct); ok {
		return &Addr{kind: 'P', ref: t, base: elem, typ: elem}
	}
	if at, ok := elem.Underlying().(*types.Array); ok {
		_ = at
		return &Addr{kind: 'A', ref: t, base: elem, typ: elem}
	}
	return &Addr{kind: 'C', key: u.cellKey(elem), ref: t, base: elem, typ: elem}
}

func (u *Unit) rootLoad(st *State, a *Addr) Term {
	switch a.kind {
	case 'L':
		t, ok := st.m[a.key]
		if !ok {
			panic(unsupported("dead local " + a.key))
		}
		return t
	case 'F':
		return u.loadField(st, a.ref, a.st, a.fi)
	case 'E':
		so := u.enc.sortOf(a.base)
		h := u.read(st, u.elemKey(a.base))
		return T(so, "(%s (select %s %s) %s %s)", u.atFn(so), h.S, a.ref.S, a.off.S, a.idx.S)
	case 'C':
		return T(u.enc.sortOf(a.base), "(select %s %s)", u.read(st, a.key).S, a.ref.S)
	case 'P':
		return u.loadPtr(st, a.ref, a.base)
	case 'V':
		p := u.P.pkgs[a.ref.S]
		k := strings.LastIndex(a.key, ".")
		g := p.Members[a.key[k+1:]].(*ssa.Global)
		if g.Object() == nil {
			if g.Name() == "init$guard" && u.initOf != nil {
				return Term{"false", "Bool"}
			}
			panic(unsupported("global " + a.key))
		}
		return u.global(st, g.Object())
	case 'A':
		h := u.read(st, u.elemKey(a.base.Underlying().(*types.Array).Elem()))
		return T(u.enc.sortOf(a.base), "(select %s %s)", h.S, a.ref.S)
	}
	panic("rootLoad")
}

func (u *Unit) load(st *State, a *Addr) Term {
	t := u.rootLoad(st, a)
	for _, s := range a.path {
		t = u.selTerm(t, s)
	}
	return t
}

func (u *Unit) selTerm(t Term, s sel) Term {
	if s.index != nil {
		return T(u.enc.sortOf(s.typ.Underlying().(*types.Array).Elem()), "(select %s %s)", t.S, s.index.S)
	}
	ft := s.typ.Underlying().(*types.Struct).Field(s.field).Type()
	return T(u.enc.sortOf(ft), "(%s %s)", u.enc.accessor(u.enc.sortOf(s.typ), s.field), t.S)
}

func (u *Unit) updPath(root Term, path []sel, v Term) Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	inner := u.updPath(u.selTerm(root, s), path[1:], v)
	so := u.enc.sortOf(s.typ)
	if s.index != nil {
		return T(so, "(store %s %s %s)", root.S, s.index.S, inner.S)
	}
	st := s.typ.Underlying().(*types.Struct)
	x := "(mk$" + so
	for i := 0; i < st.NumFields(); i++ {
		if i == s.field {
			x += " " + inner.S
		} else {
			x += fmt.Sprintf(" (%s %s)", u.enc.accessor(so, i), root.S)
		}
	}
	return Term{x + ")", so}
}

func (u *Unit) store(st *State, a *Addr, v Term) {
	if len(a.path) > 0 {
		v = u.updPath(u.define("s", u.rootLoad(st, a)), a.path, v)
	}
	v = u.define("v", v)
	switch a.kind {
	case 'L':
		u.write(st, a.key, v)
	case 'F':
		u.storeField(st, a.ref, a.st, a.fi, v)
	case 'E':
		u.guardStore(st, u.elemKey(a.base), a.ref)
		u.storeElem(st, a.ref, a.off, a.idx, a.base, v)
	case 'C':
		h := u.read(st, a.key)
		u.write(st, a.key, T(h.Sort, "(store %s %s %s)", h.S, a.ref.S, v.S))
	case 'P':
		s := a.base.Underlying().(*types.Struct)
		so := u.enc.sortOf(a.base)
		for i := 0; i < s.NumFields(); i++ {
			u.storeField(st, a.ref, a.base, i, T(u.enc.sortOf(s.Field(i).Type()), "(%s %s)", u.enc.accessor(so, i), v.S))
		}
	case 'V':
		k := "V|" + a.key
		u.keySort[k] = u.enc.sortOf(a.base)
		u.write(st, k, v)
	case 'A':
		k := u.elemKey(a.base.Underlying().(*types.Array).Elem())
		h := u.read(st, k)
		u.write(st, k, T(h.Sort, "(store %s %s %s)", h.S, a.ref.S, v.S))
	}
}

func (u *Unit) storeField(st *State, ref Term, t types.Type, i int, v Term) {
	f := t.Underlying().(*types.Struct).Field(i)
	if u.isImmutable(t, f.Name()) {
		if u.frozen[ref.S] {
			// initialisation of a new object: its field function value is chosen here
			x := u.loadField(st, ref, t, i)
			u.cur.items = append(u.cur.items, Item{kind: kAssume, text: fmt.Sprintf("(= %s %s)", x.S, v.S)})
			return
		}
		if u.spec != nil && u.spec.Opts["builds"] {
			// still under construction in this function, which allocated it: the field function is its value at the end
			u.assert(fmt.Sprintf("(>= %s %s)", ref.S, u.read(u.entrySt, "al").S), "immutable", "store to "+u.structName(t)+"."+f.Name(), "")
			return
		}
		u.assert("false", "immutable", "store to "+u.structName(t)+"."+f.Name(), "")
		return
	}
	k := u.fieldKey(t, i)
	h := u.read(st, k)
	u.write(st, k, T(h.Sort, "(store %s %s %s)", h.S, ref.S, v.S))
}

// guardStore checks the declared guard of an element heap.
func (u *Unit) guardStore(st *State, key string, arr Term) {
	c, ok := u.specs.Guards[key]
	if !ok {
		return
	}
	env := &Env{u: u, st: st, old: u.entrySt, vars: map[string]TV{"array": {arr, nil}}, pkg: u.pkgTypes(), file: u.file}
	u.assert(env.bool(c.Expr), "guard", c.Text, "")
}

func (u *Unit) pkgTypes() *types.Package {
	if u.fn != nil && u.fn.Pkg != nil {
		return u.fn.Pkg.Pkg
	}
	if u.spec != nil {
		if p := u.P.pkgs[repoPath+"/"+u.spec.Pkg]; p != nil {
			return p.Pkg
		}
	}
	return nil
}

// addrOnly reports whether a pointer value is only used to load and store through.
func (P *Prog) addrOnly(v ssa.Value, seen map[ssa.Value]bool, specs *Specs) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !P.addrOnly(x, seen, specs) {
				return false
			}
		case *ssa.IndexAddr:
			if !P.addrOnly(x, seen, specs) {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v && !P.addrOnly(x.Fn.(*ssa.Function).FreeVars[i], seen, specs) {
					return false
				}
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || len(f.Blocks) == 0 || x.Call.IsInvoke() {
				return false
			}
			if x.Call.Value == v {
				return false
			}
			for i, a := range x.Call.Args {
				if a == v && !P.addrOnly(f.Params[i], seen, specs) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func hasSliceUse(v ssa.Value) bool {
	for _, in := range *v.Referrers() {
		if _, ok := in.(*ssa.Slice); ok {
			return true
		}
	}
	return false
}
