package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *runner) instr(in ssa.Instruction) {
	u, fr, st := r.u, r.fr, r.st
	switch x := in.(type) {
	case *ssa.Alloc:
		fr.vals[x] = u.allocInstr(fr, st, x)
	case *ssa.Store:
		a := u.addr(fr, x.Addr)
		v := u.val(fr, x.Val)
		u.nilCheckAddr(fr, a, x.Pos())
		if a.kind == 'F' && u.isImmutable(a.st, a.st.Underlying().(*types.Struct).Field(a.fi).Name()) {
			if fr.isLitStore(x) {
				t := u.loadField(st, a.ref, a.st, a.fi)
				for _, s := range a.path {
					t = u.selTerm(t, s)
				}
				u.assume(fmt.Sprintf("(= %s %s)", t.S, u.term(v).S))
				return
			}
		}
		if c, ok := v.(*Clos); ok && a.kind == 'L' {
			v = u.term(c)
		}
		u.store(st, a, u.term(v))
	case *ssa.UnOp:
		fr.vals[x] = r.unop(x)
	case *ssa.BinOp:
		fr.vals[x] = u.define(name(x), u.binop(fr, x))
	case *ssa.FieldAddr:
		b := u.val(fr, x.X)
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		stt := pt.Underlying().(*types.Struct)
		ft := stt.Field(x.Field).Type()
		switch p := b.(type) {
		case Term:
			u.nilCheck(fr, p, x.Pos(), "field "+stt.Field(x.Field).Name())
			u.touch(p, pt)
			fr.vals[x] = u.fieldAddr(p, pt, x.Field)
		case *Addr:
			if p.kind == 'P' && len(p.path) == 0 {
				fr.vals[x] = u.fieldAddr(p.ref, p.base, x.Field)
				return
			}
			n := *p
			n.path = append(append([]sel{}, p.path...), sel{typ: pt, field: x.Field})
			n.typ = ft
			fr.vals[x] = &n
		case *Unsafe:
			n := *p
			n.fields = append(append([]int{}, p.fields...), x.Field)
			fr.vals[x] = &n
		default:
			panic(unsupported("field address"))
		}
	case *ssa.Field:
		t := u.term(u.val(fr, x.X))
		fr.vals[x] = u.selTerm(t, sel{typ: x.X.Type(), field: x.Field})
	case *ssa.IndexAddr:
		i := u.toInt(u.term(u.val(fr, x.Index)), x.Index.Type())
		b := u.val(fr, x.X)
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := u.term(b)
			u.assert(u.inBounds(i.S, "(s-len "+s.S+")"), "index", fr.where()+"element access", u.pos(x.Pos()))
			fr.vals[x] = &Addr{kind: 'E', ref: u.define("arr", T("Int", "(s-arr %s)", s.S)), off: u.define("off", T(u.enc.I(), "(s-off %s)", s.S)), idx: i, base: t.Elem(), typ: t.Elem()}
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			u.assert(u.inBounds(i.S, u.enc.num(64, at.Len())), "index", fr.where()+"array access", u.pos(x.Pos()))
			switch p := b.(type) {
			case *Addr:
				if p.kind == 'A' {
					fr.vals[x] = &Addr{kind: 'E', ref: p.ref, off: Term{u.enc.num(64, 0), u.enc.I()}, idx: i, base: at.Elem(), typ: at.Elem()}
					return
				}
				n := *p
				ii := i
				n.path = append(append([]sel{}, p.path...), sel{typ: t.Elem(), index: &ii})
				n.typ = at.Elem()
				fr.vals[x] = &n
			case Term:
				fr.vals[x] = &Addr{kind: 'E', ref: p, off: Term{u.enc.num(64, 0), u.enc.I()}, idx: i, base: at.Elem(), typ: at.Elem()}
			}
		}
	case *ssa.Index:
		i := u.toInt(u.term(u.val(fr, x.Index)), x.Index.Type())
		s := u.term(u.val(fr, x.X))
		switch t := x.X.Type().Underlying().(type) {
		case *types.Basic: // string
			u.assert(u.inBounds(i.S, "(strlen "+s.S+")"), "index", fr.where()+"string access", u.pos(x.Pos()))
			v := T(u.enc.intSort(8), "(strat %s %s)", s.S, i.S)
			u.assumeType(st, v, x.Type())
			fr.vals[x] = v
		case *types.Array:
			u.assert(u.inBounds(i.S, u.enc.num(64, t.Len())), "index", fr.where()+"array access", u.pos(x.Pos()))
			fr.vals[x] = T(u.enc.sortOf(t.Elem()), "(select %s %s)", s.S, i.S)
		}
	case *ssa.Lookup:
		m := u.term(u.val(fr, x.X))
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			i := u.toInt(u.term(u.val(fr, x.Index)), x.Index.Type())
			u.assert(u.inBounds(i.S, "(strlen "+m.S+")"), "index", fr.where()+"string access", u.pos(x.Pos()))
			v := T(u.enc.intSort(8), "(strat %s %s)", m.S, i.S)
			u.assumeType(st, v, x.Type())
			fr.vals[x] = v
			return
		}
		mt := x.X.Type().Underlying().(*types.Map)
		k := u.term(u.val(fr, x.Index))
		d := u.read(st, u.mapKey("MD", mt))
		v := u.read(st, u.mapKey("MV", mt))
		has := u.define("has", T("Bool", "(select (select %s %s) %s)", d.S, m.S, k.S))
		u.assume(fmt.Sprintf("(=> (= %s 0) (not %s))", m.S, has.S)) // a nil map has no keys
		z := u.enc.zero(mt.Elem())
		val := u.define("mv", T(z.Sort, "(ite %s (select (select %s %s) %s) %s)", has.S, v.S, m.S, k.S, z.S))
		u.assumeType(st, val, mt.Elem())
		if x.CommaOk {
			fr.vals[x] = Tuple{val, has}
		} else {
			fr.vals[x] = val
		}
	case *ssa.MapUpdate:
		m := u.term(u.val(fr, x.Map))
		mt := x.Map.Type().Underlying().(*types.Map)
		u.nilCheck(fr, m, x.Pos(), "assignment to map")
		u.mapStore(st, m, mt, u.term(u.val(fr, x.Key)), u.term(u.val(fr, x.Value)))
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		ref := u.alloc(st)
		d := u.read(st, u.mapKey("MD", mt))
		u.write(st, u.mapKey("MD", mt), T(d.Sort, "(store %s %s ((as const %s) false))", d.S, ref.S, arrayElem(d.Sort)))
		fr.vals[x] = ref
	case *ssa.MakeSlice:
		l := u.define("len", u.toInt(u.term(u.val(fr, x.Len)), x.Len.Type()))
		c := u.define("cap", u.toInt(u.term(u.val(fr, x.Cap)), x.Cap.Type()))
		z := u.enc.num(64, 0)
		u.assert(fmt.Sprintf("(and %s %s)", u.le(z, l.S), u.le(l.S, c.S)), "makeslice", fr.where()+"size", u.pos(x.Pos()))
		if u.enc.bv { // a slice of 2^62 elements does not fit in memory
			u.assume(u.le(c.S, u.enc.num(64, 1<<62)))
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		ref := u.newArray(st, et)
		fr.vals[x] = u.define("mk", T("Slice", "(mk-slice %s %s %s %s)", ref.S, z, l.S, c.S))
	case *ssa.Slice:
		fr.vals[x] = r.slice(x)
	case *ssa.MakeInterface:
		v := u.val(fr, x.X)
		if a, ok := v.(*Addr); ok && !(a.kind == 'P' && len(a.path) == 0) {
			panic(unsupported("interior address converted to interface"))
		}
		t := u.term(v)
		d := u.define("if", T("Iface", "(mk-iface %d %s)", u.enc.tag(x.X.Type()), u.enc.box(t, x.X.Type()).S))
		fr.vals[x] = d
		u.dyn(d.S, x.X.Type(), v)
		u.ghostDefs(st, x.X, t)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var y ssa.Value
		switch c := x.(type) {
		case *ssa.ChangeInterface:
			y = c.X
		case *ssa.ChangeType:
			y = c.X
		}
		v := u.val(fr, y)
		if t, ok := v.(Term); ok {
			so := u.enc.sortOf(x.(ssa.Value).Type())
			if so != t.Sort {
				v = u.restruct(t, y.Type(), x.(ssa.Value).Type())
			}
		}
		fr.vals[x.(ssa.Value)] = v
	case *ssa.Convert:
		fr.vals[x] = r.convert(x)
	case *ssa.TypeAssert:
		fr.vals[x] = r.typeAssert(x)
	case *ssa.Extract:
		tu := u.val(fr, x.Tuple)
		tp, ok := tu.(Tuple)
		if !ok {
			panic(unsupported("extract"))
		}
		fr.vals[x] = tp[x.Index]
	case *ssa.MakeClosure:
		c := &Clos{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, u.val(fr, b))
		}
		fr.vals[x] = c
	case *ssa.Call:
		fr.vals[x] = r.call(x, &x.Call)
	case *ssa.Range:
		switch mt := x.X.Type().Underlying().(type) {
		case *types.Map:
			m := u.term(u.val(fr, x.X))
			u.nlocal++
			k := fmt.Sprintf("L|it%d", u.nlocal)
			so := "(Array " + u.enc.sortOf(mt.Key()) + " Bool)"
			u.keySort[k] = so
			d := u.define("dom", T(so, "(select %s %s)", u.read(st, u.mapKey("MD", mt)).S, m.S))
			u.write(st, k, T(so, "((as const %s) false)", so))
			fr.vals[x] = &Iter{m: m, typ: mt, key: k, dom: d}
		default:
			panic(unsupported("range over string"))
		}
	case *ssa.Next:
		it := u.val(fr, x.Iter).(*Iter)
		ok := u.fresh("ok", "Bool")
		kt := it.typ.Key()
		k := u.fresh("k", u.enc.sortOf(kt))
		u.assumeType(st, k, kt)
		vis := u.read(st, it.key)
		// the domain is read again: only keys present when the loop began or now are produced
		cur := T(it.dom.Sort, "(select %s %s)", u.read(st, u.mapKey("MD", it.typ)).S, it.m.S)
		u.assume(fmt.Sprintf("(=> %s (and (select %s %s) (not (select %s %s)) (not (= %s 0))))", ok.S, cur.S, k.S, vis.S, k.S, it.m.S))
		u.assume(fmt.Sprintf("(=> (and (not %s) (= %s %s) (not (= %s 0))) (forall ((k? %s)) (! (=> (select %s k?) (select %s k?)) :pattern ((select %s k?)))))", ok.S, cur.S, it.dom.S, it.m.S, k.Sort, it.dom.S, vis.S, it.dom.S))
		v := u.define("mv", T(u.enc.sortOf(it.typ.Elem()), "(select (select %s %s) %s)", u.read(st, u.mapKey("MV", it.typ)).S, it.m.S, k.S))
		u.assumeType(st, v, it.typ.Elem())
		u.write(st, it.key, T(vis.Sort, "(ite %s (store %s %s true) %s)", ok.S, vis.S, k.S, vis.S))
		fr.vals[x] = Tuple{ok, k, v}
	default:
		panic(unsupported(fmt.Sprintf("instruction %T in %s", in, fr.fn)))
	}
}

func name(v ssa.Value) string { return v.Name() }

// restruct converts between struct types with identical underlying types.
func (u *Unit) restruct(t Term, from, to types.Type) Term {
	sf, ok := from.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("change type"))
	}
	so := u.enc.sortOf(to)
	x := "(mk$" + so
	for i := 0; i < sf.NumFields(); i++ {
		x += " " + u.selTerm(t, sel{typ: from, field: i}).S
	}
	return Term{x + ")", so}
}

// touch marks an object whose fields the code addresses.
func (u *Unit) touch(p Term, t types.Type) {
	if len(u.specs.Touch) == 0 {
		return
	}
	n, ok := t.(*types.Named)
	if !ok {
		return
	}
	m, ok := u.specs.Touch[typeName(n)]
	if !ok || !u.usesFile(m.File) {
		return
	}
	u.useLogic(m.Fn)
	u.assume(fmt.Sprintf("(%s %s)", m.Fn, p.S))
}

// option: a file that the unit uses asks for the option.
func (u *Unit) option(o string) bool {
	for n, f := range u.specs.Files {
		if f.Opts[o] && u.usesFile(n) {
			return true
		}
	}
	return false
}

func (u *Unit) usesFile(f string) bool {
	if u.usef == nil {
		u.usef = map[string]bool{}
		var add func(string)
		add = func(n string) {
			if u.usef[n] || u.specs.Files[n] == nil {
				return
			}
			u.usef[n] = true
			for _, g := range u.specs.Files[n].Uses {
				add(g)
			}
		}
		add(u.file)
	}
	return u.usef[f]
}

func (u *Unit) fieldAddr(ref Term, t types.Type, i int) *Addr {
	f := t.Underlying().(*types.Struct).Field(i)
	k := ""
	if !u.isImmutable(t, f.Name()) {
		k = u.fieldKey(t, i)
	}
	return &Addr{kind: 'F', key: k, ref: ref, st: t, fi: i, base: f.Type(), typ: f.Type()}
}

func (u *Unit) inBounds(i, n string) string {
	return fmt.Sprintf("(and %s %s)", u.le(u.enc.num(64, 0), i), u.lt(i, n))
}

func (u *Unit) nilCheck(fr *Frame, p Term, pos token.Pos, what string) {
	c := fmt.Sprintf("(not (= %s 0))", p.S)
	if u.spec != nil && u.spec.NilPanic {
		u.assume(c)
		return
	}
	u.assert(c, "nil", fr.where()+what, u.pos(pos))
}

func (u *Unit) nilCheckAddr(fr *Frame, a *Addr, pos token.Pos) {
	if a.kind == 'P' || a.kind == 'C' {
		u.nilCheck(fr, a.ref, pos, "store")
	}
}

func (u *Unit) addr(fr *Frame, v ssa.Value) *Addr {
	switch a := u.val(fr, v).(type) {
	case *Addr:
		return a
	case Term:
		return u.ptrAddr(a, v.Type().Underlying().(*types.Pointer).Elem())
	}
	panic(unsupported("address"))
}

var dynTypes = map[string]types.Type{}

type dynVal struct {
	t types.Type
	v Val
}

func (u *Unit) dyn(term string, t types.Type, v Val) {
	if u.dynv == nil {
		u.dynv = map[string]dynVal{}
	}
	u.dynv[term] = dynVal{t, v}
}

// ghostDefs assumes the definitions of the ghost functions of an object that was just built.
func (u *Unit) ghostDefs(st *State, v ssa.Value, t Term) {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return
	}
	et := a.Type().Underlying().(*types.Pointer).Elem()
	for _, g := range u.specs.GhostDefs[typeName(et)] {
		env := &Env{u: u, st: st, old: st, vars: map[string]TV{"this": {t, a.Type()}}, file: g.File}
		if p := u.P.pkgs[repoPath+"/"+g.Pkg]; p != nil {
			env.pkg = p.Pkg
		}
		u.assume(u.specBool(env, g.C))
	}
}

func (fr *Frame) isLitStore(s *ssa.Store) bool {
	fa, ok := s.Addr.(*ssa.FieldAddr)
	for ok {
		if a, isA := fa.X.(*ssa.Alloc); isA {
			return litStores(a)[s]
		}
		fa, ok = fa.X.(*ssa.FieldAddr)
	}
	return false
}

// litStores returns the stores that initialise a freshly allocated struct: those that run at most
// once per allocation and before the pointer is used for anything but addressing fields for such stores.
func litStores(a *ssa.Alloc) map[*ssa.Store]bool {
	out := map[*ssa.Store]bool{}
	fas := map[ssa.Value]bool{}
	// scan goes through the instructions and reports whether the end is reached without another use
	scan := func(ins []ssa.Instruction) bool {
		for _, in := range ins {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if x.X == a || fas[x.X] {
					fas[x] = true
					continue
				}
			case *ssa.Store:
				if fas[x.Addr] && x.Val != a && !fas[x.Val] {
					out[x] = true
					continue
				}
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(a) || fas[*op] {
					return false
				}
			}
		}
		return true
	}
	b0 := a.Block()
	clean := map[*ssa.BasicBlock]bool{}
	for i, in := range b0.Instrs {
		if in == ssa.Instruction(a) {
			if !scan(b0.Instrs[i+1:]) {
				return out
			}
			clean[b0] = true
			break
		}
	}
	visited := map[*ssa.BasicBlock]bool{b0: true}
	for changed := true; changed; {
		changed = false
		for _, b := range b0.Parent().Blocks {
			if visited[b] || len(b.Preds) == 0 || !b0.Dominates(b) {
				continue
			}
			ok := true
			for _, p := range b.Preds {
				if !clean[p] {
					ok = false
				}
			}
			if ok {
				visited[b] = true
				changed = true
				clean[b] = scan(b.Instrs)
			}
		}
	}
	// a field that is stored more than once is not initialised by a literal
	n := map[string]int{}
	path := func(s *ssa.Store) string {
		p := ""
		v := s.Addr
		for {
			fa, ok := v.(*ssa.FieldAddr)
			if !ok {
				return p
			}
			p = fmt.Sprintf(".%d", fa.Field) + p
			v = fa.X
		}
	}
	for s := range out {
		n[path(s)]++
	}
	for s := range out {
		if n[path(s)] > 1 {
			delete(out, s)
		}
	}
	return out
}

func (u *Unit) allocInstr(fr *Frame, st *State, x *ssa.Alloc) Val {
	t := x.Type().Underlying().(*types.Pointer).Elem()
	if at, ok := t.Underlying().(*types.Array); ok && hasSliceUse(x) {
		ref := u.newArray(st, at.Elem())
		return &Addr{kind: 'A', ref: ref, base: t, typ: t}
	}
	if u.P.addrOnly(x, map[ssa.Value]bool{}, u.specs) {
		u.nlocal++
		k := fmt.Sprintf("L|%d.%s", u.nlocal, x.Comment)
		u.keySort[k] = u.enc.sortOf(t)
		u.localTy[k] = t
		u.write(st, k, u.enc.zero(t))
		return &Addr{kind: 'L', key: k, base: t, typ: t}
	}
	ref := u.alloc(st)
	u.touch(ref, t)
	if s, ok := t.Underlying().(*types.Struct); ok {
		lits := litStores(x)
		done := map[int]bool{}
		for ls := range lits {
			fa := ls.Addr.(*ssa.FieldAddr)
			for fa.X != ssa.Value(x) {
				fa = fa.X.(*ssa.FieldAddr)
			}
			done[fa.Field] = true
		}
		for i := 0; i < s.NumFields(); i++ {
			if u.isImmutable(t, s.Field(i).Name()) {
				if !done[i] {
					u.assume(fmt.Sprintf("(= %s %s)", u.loadField(st, ref, t, i).S, u.enc.zero(s.Field(i).Type()).S))
				}
				continue
			}
			u.storeField(st, ref, t, i, u.enc.zero(s.Field(i).Type()))
		}
		return ref
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		panic(unsupported("escaping array"))
	}
	k := u.cellKey(t)
	h := u.read(st, k)
	u.write(st, k, T(h.Sort, "(store %s %s %s)", h.S, ref.S, u.enc.zero(t).S))
	return ref
}

func (u *Unit) newArray(st *State, et types.Type) Term {
	ref := u.alloc(st)
	k := u.elemKey(et)
	h := u.read(st, k)
	so := arrayElem(h.Sort)
	z := u.enc.zero(et)
	u.write(st, k, T(h.Sort, "(store %s %s ((as const %s) %s))", h.S, ref.S, so, z.S))
	return ref
}

func (u *Unit) mapStore(st *State, m Term, mt *types.Map, k, v Term) {
	dk, vk := u.mapKey("MD", mt), u.mapKey("MV", mt)
	d, h := u.read(st, dk), u.read(st, vk)
	u.write(st, dk, T(d.Sort, "(store %s %s (store (select %s %s) %s true))", d.S, m.S, d.S, m.S, k.S))
	u.write(st, vk, T(h.Sort, "(store %s %s (store (select %s %s) %s %s))", h.S, m.S, h.S, m.S, k.S, v.S))
}

func (u *Unit) toInt(t Term, ty types.Type) Term {
	if u.enc.bv {
		_, s, _ := isInt(ty)
		return u.bvResize(t, 64, s)
	}
	return t
}

func (r *runner) unop(x *ssa.UnOp) Val {
	u, fr, st := r.u, r.fr, r.st
	switch x.Op {
	case token.MUL:
		if p, ok := u.val(fr, x.X).(*Unsafe); ok {
			return r.unsafeLoad(x, p)
		}
		a := u.addr(fr, x.X)
		if a.kind == 'P' || a.kind == 'C' {
			u.nilCheck(fr, a.ref, x.Pos(), "load")
		}
		t := u.define(name(x), u.load(st, a))
		if c, ok := u.clos[t.S]; ok {
			return c
		}
		if a.kind != 'L' {
			u.assumeType(st, t, x.Type())
		}
		return t
	case token.NOT:
		return T("Bool", "(not %s)", u.term(u.val(fr, x.X)).S)
	case token.SUB:
		t := u.term(u.val(fr, x.X))
		if t.Sort == "Float" {
			u.enc.decl("fltneg", "(declare-fun fltneg (Float) Float)")
			return T("Float", "(fltneg %s)", t.S)
		}
		if u.enc.bv {
			return T(t.Sort, "(bvneg %s)", t.S)
		}
		return u.wrap(T("Int", "(- %s)", t.S), x.Type())
	case token.XOR:
		t := u.term(u.val(fr, x.X))
		if u.enc.bv {
			return T(t.Sort, "(bvnot %s)", t.S)
		}
		w, s, _ := isInt(x.Type())
		if s {
			return T("Int", "(- (- %s) 1)", t.S)
		}
		_, hi := rangeOf(w, s)
		return T("Int", "(- %s %s)", u.enc.numBig(w, hi), t.S)
	}
	panic(unsupported("unary " + x.Op.String()))
}

// wrap models machine arithmetic in integer mode: exact when in range, any value of the type otherwise.
func (u *Unit) wrap(t Term, ty types.Type) Term {
	c := u.fresh("w", "Int")
	in := strings.ReplaceAll(u.enc.rangeFact(Term{"\x00", "Int"}, ty), "\x00", t.S)
	u.assume(u.enc.rangeFact(c, ty))
	u.assume(fmt.Sprintf("(=> %s (= %s %s))", in, c.S, t.S))
	w, s, _ := isInt(ty)
	f := fmt.Sprintf("wrap$%v%d", s, w)
	u.enc.decl(f, "(declare-fun "+f+" (Int) Int)")
	u.assume(fmt.Sprintf("(= %s (%s %s))", c.S, f, t.S))
	return c
}

// wrapExact is the exact machine conversion in integer mode.
func (u *Unit) wrapExact(t Term, ty types.Type) Term {
	w, s, _ := isInt(ty)
	lo, hi := rangeOf(w, s)
	m := "1" + strings.Repeat("", 0)
	m = pow2(w)
	var ex string
	if s {
		ex = fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", t.S, pow2(w-1), m, pow2(w-1))
	} else {
		ex = fmt.Sprintf("(mod %s %s)", t.S, m)
	}
	return T("Int", "(ite (and (<= %s %s) (<= %s %s)) %s %s)", u.enc.numBig(w, lo), t.S, t.S, u.enc.numBig(w, hi), t.S, ex)
}

func pow2(w int) string {
	_, hi := rangeOf(w, false)
	return hi.Add(hi, bigOne).String()
}

func (u *Unit) binop(fr *Frame, x *ssa.BinOp) Term {
	a, b := u.val(fr, x.X), u.val(fr, x.Y)
	if x.Op == token.EQL || x.Op == token.NEQ {
		s := u.eq(a, b, x.X.Type())
		if x.Op == token.NEQ {
			s = "(not " + s + ")"
		}
		return Term{s, "Bool"}
	}
	ta, tb := u.term(a), u.term(b)
	if _, ok := cmpInt[x.Op]; ok {
		if ta.Sort == "Float" || ta.Sort == "Str" {
			return u.cmp(x.Op, ta, tb)
		}
		_, s, _ := isInt(x.X.Type())
		if u.enc.bv {
			return Term{bvCmp(x.Op, s, ta.S, tb.S), "Bool"}
		}
		return T("Bool", "(%s %s %s)", cmpInt[x.Op], ta.S, tb.S)
	}
	switch ta.Sort {
	case "Str":
		u.enc.decl("strcatlen", "(assert (forall ((a Str) (b Str)) (! (= (strlen (strcat a b)) (+ (strlen a) (strlen b))) :pattern ((strcat a b)))))")
		return T("Str", "(strcat %s %s)", ta.S, tb.S)
	case "Float":
		n := "flt" + map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[x.Op]
		u.enc.decl(n, "(declare-fun "+n+" (Float Float) Float)")
		return T("Float", "(%s %s %s)", n, ta.S, tb.S)
	case "Bool":
		op := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor"}[x.Op]
		return T("Bool", "(%s %s %s)", op, ta.S, tb.S)
	}
	w, signed, _ := isInt(x.Type())
	if x.Op == token.QUO || x.Op == token.REM {
		u.assert(fmt.Sprintf("(not (= %s %s))", tb.S, u.enc.num(w, 0)), "division", fr.where()+"by zero", u.pos(x.Pos()))
	}
	if u.enc.bv {
		return u.bvBinop(fr, x, ta, tb, w, signed)
	}
	switch x.Op {
	case token.ADD:
		return u.wrap(T("Int", "(+ %s %s)", ta.S, tb.S), x.Type())
	case token.SUB:
		return u.wrap(T("Int", "(- %s %s)", ta.S, tb.S), x.Type())
	case token.MUL:
		return u.wrap(T("Int", "(* %s %s)", ta.S, tb.S), x.Type())
	case token.QUO:
		q := fmt.Sprintf("(ite (>= %s 0) (ite (> %s 0) (div %s %s) (- (div %s (- %s)))) (ite (> %s 0) (- (div (- %s) %s)) (div (- %s) (- %s))))", ta.S, tb.S, ta.S, tb.S, ta.S, tb.S, tb.S, ta.S, tb.S, ta.S, tb.S)
		return u.wrap(Term{q, "Int"}, x.Type())
	case token.REM:
		if _, ok := x.Y.(*ssa.Const); !ok {
			q := fmt.Sprintf("(ite (>= %s 0) (emod %s (ite (> %s 0) %s (- %s))) (- (emod (- %s) (ite (> %s 0) %s (- %s)))))", ta.S, ta.S, tb.S, tb.S, tb.S, ta.S, tb.S, tb.S, tb.S)
			return Term{q, "Int"}
		}
		q := fmt.Sprintf("(ite (>= %s 0) (mod %s (ite (> %s 0) %s (- %s))) (- (mod (- %s) (ite (> %s 0) %s (- %s)))))", ta.S, ta.S, tb.S, tb.S, tb.S, ta.S, tb.S, tb.S, tb.S)
		return Term{q, "Int"}
	case token.SHL:
		if c, ok := x.Y.(*ssa.Const); ok && c.Uint64() < 64 {
			return u.wrapExact(T("Int", "(* %s %s)", ta.S, pow2(int(c.Uint64()))), x.Type())
		}
	case token.SHR:
		if c, ok := x.Y.(*ssa.Const); ok && c.Uint64() < 64 {
			return T("Int", "(div %s %s)", ta.S, pow2(int(c.Uint64())))
		}
	case token.AND:
		if c, ok := x.Y.(*ssa.Const); ok && c.Int64() >= 0 && (c.Int64()&(c.Int64()+1)) == 0 {
			return T("Int", "(mod %s %d)", ta.S, c.Int64()+1)
		}
	}
	// not interpreted in integer mode: a function of its operands, in the range of the type
	n := "op$" + map[token.Token]string{token.SHL: "shl", token.SHR: "shr", token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[x.Op] + fmt.Sprint(w)
	u.enc.decl(n, "(declare-fun "+n+" (Int Int) Int)")
	t := u.define("b", T("Int", "(%s %s %s)", n, ta.S, tb.S))
	u.assume(u.enc.rangeFact(t, x.Type()))
	if u.spec != nil {
		for _, k := range u.spec.Shifts {
			p := pow2(k)
			switch x.Op {
			case token.SHL:
				u.assume(fmt.Sprintf("(=> (= %s %d) (= %s %s))", tb.S, k, t.S, u.wrapExact(T("Int", "(* %s %s)", ta.S, p), x.Type()).S))
			case token.SHR:
				u.assume(fmt.Sprintf("(=> (= %s %d) (= %s (div %s %s)))", tb.S, k, t.S, ta.S, p))
			case token.OR:
				if !signed {
					u.assume(fmt.Sprintf("(=> (and (< %s %s) (= (mod %s %s) 0)) (= %s (+ %s %s)))", ta.S, p, tb.S, p, t.S, ta.S, tb.S))
					u.assume(fmt.Sprintf("(=> (and (< %s %s) (= (mod %s %s) 0)) (= %s (+ %s %s)))", tb.S, p, ta.S, p, t.S, ta.S, tb.S))
				}
			}
		}
	}
	if x.Op == token.XOR && !signed {
		_, hi := rangeOf(w, signed)
		u.assume(fmt.Sprintf("(=> (= %s %s) (= %s (- %s %s)))", tb.S, hi.String(), t.S, hi.String(), ta.S))
	}
	if x.Op == token.XOR || x.Op == token.OR {
		u.assume(fmt.Sprintf("(and (=> (= %s 0) (= %s %s)) (=> (= %s 0) (= %s %s)))", tb.S, t.S, ta.S, ta.S, t.S, tb.S))
	}
	if x.Op == token.XOR {
		// all bits set in one operand: the complement of the other
		ones := "-1"
		if !signed {
			_, hi := rangeOf(w, false)
			ones = hi.String()
		}
		if ones == "-1" {
			ones = "(- 1)"
		}
		u.assume(fmt.Sprintf("(and (=> (= %s %s) (= %s (- %s %s))) (=> (= %s %s) (= %s (- %s %s))))", tb.S, ones, t.S, ones, ta.S, ta.S, ones, t.S, ones, tb.S))
	}
	return t
}

func (u *Unit) bvBinop(fr *Frame, x *ssa.BinOp, a, b Term, w int, signed bool) Term {
	if x.Op == token.SHL || x.Op == token.SHR {
		bw, bs, _ := isInt(x.Y.Type())
		if bs {
			u.assert(fmt.Sprintf("(bvsle %s %s)", u.enc.num(bw, 0), b.S), "shift", fr.where()+"negative shift count", u.pos(x.Pos()))
		}
		// a count that does not fit is at least the width
		var c Term
		if bw > w {
			c = u.define("sh", T(a.Sort, "(ite (bvult %s %s) %s %s)", b.S, u.enc.num(bw, int64(w)), u.bvResize(b, w, false).S, u.enc.num(w, int64(w))))
		} else {
			c = u.bvResize(b, w, false)
		}
		op := "bvshl"
		if x.Op == token.SHR {
			op = "bvlshr"
			if signed {
				op = "bvashr"
			}
		}
		return T(a.Sort, "(%s %s %s)", op, a.S, c.S)
	}
	op := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}[x.Op]
	switch x.Op {
	case token.QUO:
		op = "bvudiv"
		if signed {
			op = "bvsdiv"
		}
	case token.REM:
		op = "bvurem"
		if signed {
			op = "bvsrem"
		}
	case token.AND_NOT:
		return T(a.Sort, "(bvand %s (bvnot %s))", a.S, b.S)
	}
	return T(a.Sort, "(%s %s %s)", op, a.S, b.S)
}

func (u *Unit) eq(a, b Val, t types.Type) string {
	if ca, ok := a.(*Addr); ok {
		if tb, ok := b.(Term); ok && tb.S == "0" && ca.kind != 'P' {
			return "false"
		}
	}
	if _, ok := a.(*Clos); ok {
		if tb, ok := b.(Term); ok && tb.S == "0" {
			return "false"
		}
	}
	ta, tb := u.term(a), u.term(b)
	if ta.Sort == "Slice" { // only against nil
		if tb.S == u.enc.zero(types.NewSlice(types.Typ[types.Int])).S {
			return fmt.Sprintf("(= (s-arr %s) 0)", ta.S)
		}
		return fmt.Sprintf("(= (s-arr %s) 0)", tb.S)
	}
	if ta.Sort == "Float" {
		return fmt.Sprintf("(flteq %s %s)", ta.S, tb.S)
	}
	return fmt.Sprintf("(= %s %s)", ta.S, tb.S)
}

func (r *runner) slice(x *ssa.Slice) Val {
	u, fr, st := r.u, r.fr, r.st
	b := u.val(fr, x.X)
	get := func(v ssa.Value, def string) string {
		if v == nil {
			return def
		}
		return u.define("ix", u.toInt(u.term(u.val(fr, v)), v.Type())).S
	}
	z := u.enc.num(64, 0)
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := u.term(b)
		n := "(strlen " + s.S + ")"
		lo, hi := get(x.Low, z), get(x.High, n)
		u.assert(fmt.Sprintf("(and %s %s %s)", u.le(z, lo), u.le(lo, hi), u.le(hi, n)), "slice", fr.where()+"string bounds", u.pos(x.Pos()))
		u.enc.decl("strsub", fmt.Sprintf("(declare-fun strsub (Str %s %s) Str)", u.enc.I(), u.enc.I()))
		v := u.define("sub", T("Str", "(strsub %s %s %s)", s.S, lo, hi))
		u.assume(fmt.Sprintf("(= (strlen %s) %s)", v.S, u.minus(hi, lo)))
		u.assume(fmt.Sprintf("(forall ((i? %s)) (! (=> (and %s %s) (= (strat %s i?) (strat %s %s))) :pattern ((strat %s i?))))", u.enc.I(), u.le(z, "i?"), u.lt("i?", u.minus(hi, lo)), v.S, s.S, u.plus(lo, "i?"), v.S))
		return v
	case *types.Slice:
		s := u.term(b)
		lo, hi := get(x.Low, z), get(x.High, "(s-len "+s.S+")")
		mx := get(x.Max, "(s-cap "+s.S+")")
		u.assert(fmt.Sprintf("(and %s %s %s %s)", u.le(z, lo), u.le(lo, hi), u.le(hi, mx), u.le(mx, "(s-cap "+s.S+")")), "slice", fr.where()+"slice bounds", u.pos(x.Pos()))
		v := u.define("sl", T("Slice", "(mk-slice (s-arr %s) %s %s %s)", s.S, u.plus("(s-off "+s.S+")", lo), u.minus(hi, lo), u.minus(mx, lo)))
		if !u.enc.bv {
			u.parts[v.S] = [3]string{u.part(s, 0), u.plus(u.part(s, 1), lo), u.minus(hi, lo)}
		}
		if lo != z {
			// access through the sub slice is access through the slice
			so := u.enc.sortOf(t.Elem())
			at := u.atFn(so)
			I := u.enc.I()
			h := u.read(st, u.elemKey(t.Elem()))
			u.cur.items = append(u.cur.items, Item{kind: kDef, text: fmt.Sprintf("(forall ((A? %s) (j? %s)) (! (= (%s A? (s-off %s) j?) (%s A? (s-off %s) %s)) :pattern ((%s A? (s-off %s) j?))))", arrayElem(h.Sort), I, at, v.S, at, s.S, u.plus(lo, "j?"), at, v.S)})
			u.cur.items = append(u.cur.items, Item{kind: kDef, text: fmt.Sprintf("(= (s-off %s) %s)", v.S, u.plus("(s-off "+s.S+")", lo))})
		}
		return v
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		n := u.enc.num(64, at.Len())
		lo, hi, mx := get(x.Low, z), get(x.High, n), get(x.Max, n)
		u.assert(fmt.Sprintf("(and %s %s %s %s)", u.le(z, lo), u.le(lo, hi), u.le(hi, mx), u.le(mx, n)), "slice", fr.where()+"array bounds", u.pos(x.Pos()))
		var ref Term
		switch p := b.(type) {
		case *Addr:
			if p.kind != 'A' {
				panic(unsupported("slice of a local array"))
			}
			ref = p.ref
		case Term:
			ref = p
		}
		return u.define("sl", T("Slice", "(mk-slice %s %s %s %s)", ref.S, lo, u.minus(hi, lo), u.minus(mx, lo)))
	}
	panic(unsupported("slice expression"))
}

func (r *runner) convert(x *ssa.Convert) Val {
	u, fr, st := r.u, r.fr, r.st
	if isUnsafe(x.Type()) {
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			p := &Unsafe{src: u.val(fr, x.X), from: pt.Elem()}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
					p.slice, p.idx = u.term(u.val(fr, ia.X)), u.toInt(u.term(u.val(fr, ia.Index)), ia.Index.Type())
				}
			}
			return p
		}
		panic(unsupported("conversion to unsafe.Pointer"))
	}
	if isUnsafe(x.X.Type()) {
		p, ok := u.val(fr, x.X).(*Unsafe)
		pt, isP := x.Type().Underlying().(*types.Pointer)
		if !ok || !isP {
			panic(unsupported("conversion of unsafe.Pointer"))
		}
		if types.Identical(pt.Elem(), p.from) {
			return p.src
		}
		n := *p
		n.to = pt.Elem()
		return &n
	}
	v := u.term(u.val(fr, x.X))
	from, to := x.X.Type(), x.Type()
	fw, fs, fi := isInt(from)
	tw, ts, ti := isInt(to)
	switch {
	case fi && ti:
		if u.enc.bv {
			return u.define(name(x), u.bvResize(v, tw, fs))
		}
		if tw > fw && (ts || !fs) || tw == fw && ts == fs {
			return v
		}
		return u.define(name(x), u.wrapExact(v, to))
	}
	uninterp := func(n, from, to string) Val {
		if _, ok := u.specs.Logic[n]; ok {
			u.useLogic(n)
		} else {
			u.enc.decl(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, from, to))
		}
		c := u.define(name(x), T(to, "(%s %s)", n, v.S))
		u.assumeType(st, c, x.Type())
		return c
	}
	so := u.enc.sortOf(to)
	if ti && v.Sort == "Float" {
		return uninterp(fmt.Sprintf("flt2int%d%v", tw, ts), "Float", so)
	}
	if so == "Float" {
		if fi {
			return uninterp(fmt.Sprintf("int2flt%d%v", fw, fs), v.Sort, "Float")
		}
		return uninterp("flt2flt_"+mangle(typeName(to)), "Float", "Float")
	}
	if so == "Str" && v.Sort == "Slice" {
		h := u.read(st, u.elemKey(from.Underlying().(*types.Slice).Elem()))
		es := arrayElem(arrayElem(h.Sort))
		I := u.enc.I()
		n := "bytes2str$" + mangleSort(es)
		u.enc.decl(n, fmt.Sprintf("(declare-fun %s ((Array %s %s) %s %s) Str)", n, I, es, I, I))
		c := u.define(name(x), T("Str", "(%s (select %s (s-arr %s)) (s-off %s) (s-len %s))", n, h.S, v.S, v.S, v.S))
		if w, _, _ := isInt(from.Underlying().(*types.Slice).Elem()); w == 8 {
			u.assume(fmt.Sprintf("(= (strlen %s) (s-len %s))", c.S, v.S))
			at := u.atFn(es)
			u.assume(fmt.Sprintf("(forall ((i? %s)) (! (=> (and %s %s) (= (strat %s i?) (%s (select %s (s-arr %s)) (s-off %s) i?))) :pattern ((strat %s i?))))", I, u.le(u.enc.num(64, 0), "i?"), u.lt("i?", "(s-len "+v.S+")"), c.S, at, h.S, v.S, v.S, c.S))
		}
		u.assumeType(st, c, x.Type())
		return c
	}
	if so == "Slice" && v.Sort == "Str" {
		et := to.Underlying().(*types.Slice).Elem()
		ref := u.alloc(st)
		k := u.elemKey(et)
		h := u.read(st, k)
		A := u.fresh("A", arrayElem(h.Sort))
		u.write(st, k, T(h.Sort, "(store %s %s %s)", h.S, ref.S, A.S))
		z := u.enc.num(64, 0)
		if w, _, _ := isInt(et); w == 8 {
			at := u.atFn(u.enc.sortOf(et))
			u.assume(fmt.Sprintf("(forall ((i? %s)) (! (=> (and %s %s) (= (%s %s %s i?) (strat %s i?))) :pattern ((%s %s %s i?))))", u.enc.I(), u.le(z, "i?"), u.lt("i?", "(strlen "+v.S+")"), at, A.S, z, v.S, at, A.S, z))
			return u.define(name(x), T("Slice", "(mk-slice %s %s (strlen %s) (strlen %s))", ref.S, z, v.S, v.S))
		}
		l := u.fresh("len", u.enc.I())
		s := u.define(name(x), T("Slice", "(mk-slice %s %s %s %s)", ref.S, z, l.S, l.S))
		u.assumeType(st, s, to)
		return s
	}
	if so == "Str" && fi {
		return uninterp("rune2str", v.Sort, "Str")
	}
	if so == v.Sort {
		return v
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}

func (r *runner) typeAssert(x *ssa.TypeAssert) Val {
	u, fr, st := r.u, r.fr, r.st
	v := u.term(u.val(fr, x.X))
	t := x.AssertedType
	if _, ok := t.Underlying().(*types.Interface); ok {
		var c Term
		if types.Implements(x.X.Type(), t.Underlying().(*types.Interface)) {
			c = T("Bool", "(not (= (i-tag %s) 0))", v.S)
		} else if d, ok := u.dynv[v.S]; ok {
			c = Term{fmt.Sprint(types.Implements(d.t, t.Underlying().(*types.Interface))), "Bool"}
		} else {
			c = u.define("is", u.implements(v, t))
		}
		if !x.CommaOk {
			u.assert(c.S, "assertion", fr.where()+"to "+typeName(t), u.pos(x.Pos()))
			return v
		}
		return Tuple{u.define("ta", T("Iface", "(ite %s %s (mk-iface 0 0))", c.S, v.S)), c}
	}
	tag := u.enc.tag(t)
	c := u.define("is", T("Bool", "(= (i-tag %s) %d)", v.S, tag))
	val := u.define("ta", u.enc.unbox(T("Int", "(i-val %s)", v.S), t))
	if !x.CommaOk {
		u.assert(c.S, "assertion", fr.where()+"to "+typeName(t), u.pos(x.Pos()))
		u.assumeType(st, val, t)
		return val
	}
	for _, f := range u.typeFacts(st, val, t) {
		u.assume("(=> " + c.S + " " + f + ")")
	}
	if !isRefType(t) {
		// a value of a boxed type is determined by its payload
		u.assume(fmt.Sprintf("(=> %s (= (i-val %s) %s))", c.S, v.S, u.enc.box(val, t).S))
	}
	z := u.enc.zero(t)
	return Tuple{u.define("ta", T(val.Sort, "(ite %s %s %s)", c.S, val.S, z.S)), c}
}
