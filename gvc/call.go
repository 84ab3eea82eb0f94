package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var bigOne = big.NewInt(1)

const maxInline = 14

func (r *runner) call(x ssa.Value, c *ssa.CallCommon) Val {
	u, fr := r.u, r.fr
	var args []Val
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for _, a := range c.Args {
			args = append(args, u.val(fr, a))
		}
		return r.builtin(x, b.Name(), c, args)
	}
	if c.IsInvoke() {
		recv := u.val(fr, c.Value)
		rt := u.term(recv)
		for _, a := range c.Args {
			args = append(args, u.val(fr, a))
		}
		// known dynamic type
		if d, ok := u.dynv[rt.S]; ok {
			if m := u.P.prog.LookupMethod(d.t, c.Method.Pkg(), c.Method.Name()); m != nil {
				return r.callFunc(x, m, append([]Val{d.v}, args...), nil)
			}
		}
		it := c.Value.Type()
		key := ""
		if n, ok := it.(*types.Named); ok {
			p := ""
			if n.Obj().Pkg() != nil {
				p = shortPkg(n.Obj().Pkg().Path()) + "."
			}
			key = p + n.Obj().Name()
			if im, ok := u.specs.Impl[key]; ok {
				return r.devirtualise(x, rt, im, c, args)
			}
		}
		u.assert(fmt.Sprintf("(not (= (i-tag %s) 0))", rt.S), "nil", fr.where()+"call of "+c.Method.Name(), u.pos(x.Pos()))
		for _, k := range []string{key, ifaceOwner(c.Method)} {
			if sp := u.specs.Funcs[k+"."+c.Method.Name()]; sp != nil {
				return r.callContract(x, sp, nil, c.Method.Type().(*types.Signature), append([]Val{rt}, args...), it)
			}
		}
		panic(unsupported("call of interface method " + key + "." + c.Method.Name() + " without contract"))
	}
	for _, a := range c.Args {
		args = append(args, u.val(fr, a))
	}
	if f := c.StaticCallee(); f != nil {
		var binds []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = u.val(fr, mc).(*Clos).binds
		}
		return r.callFunc(x, f, args, binds)
	}
	v := u.val(fr, c.Value)
	if t, ok := v.(Term); ok {
		if cl, ok := u.clos[t.S]; ok {
			v = cl
		}
	}
	switch f := v.(type) {
	case *Clos:
		return r.callFunc(x, f.fn, args, f.binds)
	case Term:
		// an unknown function value
		sig := c.Signature()
		if sp := u.specs.Funcs[valueKey(c.Value.Type())]; sp != nil {
			return r.callContract(x, sp, nil, sig, append([]Val{f}, args...), c.Value.Type())
		}
		if u.spec != nil && u.spec.PureArgs && sig.Results().Len() == 1 {
			u.assert(fmt.Sprintf("(not (= %s 0))", f.S), "nil", fr.where()+"call of function value", u.pos(x.Pos()))
			var as []string
			for _, a := range args {
				as = append(as, u.term(a).S)
			}
			t := u.define(x.Name(), u.papply(f, sig, as).Term)
			u.assumeType(r.st, t, x.Type())
			return t
		}
		panic(unsupported("call of unknown function value"))
	}
	panic(unsupported("call"))
}

func ifaceOwner(m *types.Func) string {
	// methods of embedded interfaces are keyed by the interface that declares them
	sig := m.Type().(*types.Signature)
	if sig.Recv() != nil {
		if n, ok := sig.Recv().Type().(*types.Named); ok {
			p := ""
			if n.Obj().Pkg() != nil {
				p = shortPkg(n.Obj().Pkg().Path()) + "."
			}
			return p + n.Obj().Name()
		}
	}
	return ""
}

func (r *runner) devirtualise(x ssa.Value, rt Term, impl string, c *ssa.CallCommon, args []Val) Val {
	u, fr := r.u, r.fr
	star := strings.HasPrefix(impl, "*")
	n := strings.TrimPrefix(impl, "*")
	k := strings.LastIndex(n, ".")
	p := u.P.pkgs[repoPath+"/"+n[:k]]
	t := p.Pkg.Scope().Lookup(n[k+1:]).Type()
	if star {
		t = types.NewPointer(t)
	}
	u.assert(fmt.Sprintf("(= (i-tag %s) %d)", rt.S, u.enc.tag(t)), "impl", fr.where()+"receiver of "+c.Method.Name()+" is "+typeName(t), u.pos(x.Pos()))
	m := u.P.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
	recv := u.define("recv", u.enc.unbox(T("Int", "(i-val %s)", rt.S), t))
	u.assumeType(r.st, recv, t)
	return r.callFunc(x, m, append([]Val{recv}, args...), nil)
}

func (r *runner) callFunc(x ssa.Value, f *ssa.Function, args []Val, binds []Val) Val {
	u, fr := r.u, r.fr
	if f.Name() == "init" && f.Synthetic != "" && u.initOf != nil {
		return nil // imported packages are initialised before
	}
	key := funcKey(f)
	if f.Origin() != nil {
		key = funcKey(f.Origin())
	}
	if len(args) > 0 && f.Pkg != nil && !isBody(f.Pkg.Pkg.Path()) {
		// contracts of library functions may depend on the dynamic type of the first argument
		if t, ok := args[0].(Term); ok {
			if d, ok := u.dynv[t.S]; ok {
				if sp := u.specs.Funcs[key+"@"+typeName(d.t)]; sp != nil {
					return r.callContract(x, sp, nil, types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "v", d.t)), f.Signature.Results(), false), []Val{d.v}, nil)
				}
			}
		}
	}
	if sp := u.specs.Funcs[key]; sp != nil && !sp.Inline && key != "" && !(u.spec != nil && u.spec.InlineCalls[key]) {
		return r.callContract(x, sp, f, f.Signature, args, nil)
	}
	if v, ok := r.intrinsic(x, key, args); ok {
		return v
	}
	if f.Synthetic != "" && len(f.Blocks) > 0 || f.Pkg == nil || isBody(f.Pkg.Pkg.Path()) || key == "" {
		if len(f.Blocks) == 0 {
			panic(unsupported("no body and no contract: " + f.String()))
		}
		for p := fr; p != nil; p = p.parent {
			if p.fn == f {
				panic(unsupported("recursive call of " + f.Name() + " needs a contract"))
			}
		}
		if fr.depth > maxInline {
			panic(unsupported("inlining too deep at " + f.Name()))
		}
		return r.inline(x, f, key, args, binds)
	}
	panic(unsupported("call of " + key + " without contract"))
}

func (r *runner) inline(x ssa.Value, f *ssa.Function, key string, args []Val, binds []Val) Val {
	u, fr := r.u, r.fr
	if u.dry == 0 {
		u.inlined[f.String()] = true
	}
	n := &Frame{fn: f, vals: map[ssa.Value]Val{}, parent: fr, depth: fr.depth + 1, vars: map[string]TV{}}
	n.spec = u.specs.Funcs[key]
	for i, p := range f.Params {
		n.vals[p] = args[i]
	}
	for i, v := range f.FreeVars {
		n.vals[v] = binds[i]
	}
	if n.spec != nil {
		for i, a := range n.spec.Args {
			if i < len(f.Params) {
				if t, ok := args[i].(Term); ok {
					n.vars[a] = TV{t, f.Params[i].Type()}
				} else if c, ok := args[i].(*Clos); ok {
					n.vars[a] = TV{u.term(c), f.Params[i].Type()}
				}
			}
		}
	}
	exits := u.execFunc(n, r.st)
	if len(exits) == 0 {
		// the callee never returns
		u.cur = u.newVB()
		u.cur.items = append(u.cur.items, Item{kind: kDef, text: fmt.Sprintf("(= %s false)", u.cur.r)})
		var res Tuple
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, u.fresh("dead", u.enc.sortOf(rs.At(i).Type())))
		}
		if len(res) == 1 {
			return res[0]
		}
		return res
	}
	if len(exits) == 1 {
		u.cur = exits[0].vb
		r.st = exits[0].st
		if len(exits[0].res) == 1 {
			return exits[0].res[0]
		}
		return Tuple(exits[0].res)
	}
	var edges []*Edge
	var sts []*State
	for _, e := range exits {
		edges = append(edges, &Edge{e.vb, e.vb.r})
		sts = append(sts, e.st)
	}
	vb := u.joinVB(edges)
	u.cur = vb
	r.st = u.mergeStates(vb, edges, sts)
	var res Tuple
	for i := range exits[0].res {
		var vs []Val
		for _, e := range exits {
			vs = append(vs, e.res[i])
		}
		res = append(res, u.mergeVals(vb, edges, vs, "r", f.Signature.Results().At(i).Type()))
	}
	if len(res) == 1 {
		return res[0]
	}
	return res
}

// callContract checks the callee's precondition and assumes its postcondition.
func (r *runner) callContract(x ssa.Value, sp *FuncSpec, f *ssa.Function, sig *types.Signature, args []Val, recvT types.Type) Val {
	u, st := r.u, r.st
	if u.dry == 0 {
		u.called[sp.Key] = true
		if sp.Trusted {
			u.trusted[sp.Key] = true
		}
	}
	pkg := u.P.pkgs[repoPath+"/"+sp.Pkg]
	env := &Env{u: u, st: st, old: st, vars: map[string]TV{}, file: sp.File}
	if pkg != nil {
		env.pkg = pkg.Pkg
	}
	var ptypes []types.Type
	if f != nil && len(f.Params) > 0 {
		for _, p := range f.Params {
			ptypes = append(ptypes, p.Type())
		}
	} else {
		if recvT != nil {
			ptypes = append(ptypes, recvT)
		} else if sig.Recv() != nil {
			ptypes = append(ptypes, sig.Recv().Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ptypes = append(ptypes, sig.Params().At(i).Type())
		}
	}
	// interior addresses: copy in, copy out
	type cio struct {
		a   *Addr
		ref Term
	}
	var cios []cio
	for i := range args {
		if a, ok := args[i].(*Addr); ok && !(a.kind == 'P' && len(a.path) == 0) {
			if stt, ok := a.typ.Underlying().(*types.Struct); ok && a.kind != 'A' {
				ref := u.alloc(st)
				v := u.define("ci", u.load(st, a))
				so := u.enc.sortOf(a.typ)
				for k := 0; k < stt.NumFields(); k++ {
					u.storeField(st, ref, a.typ, k, T(u.enc.sortOf(stt.Field(k).Type()), "(%s %s)", u.enc.accessor(so, k), v.S))
				}
				args[i] = ref
				cios = append(cios, cio{a, ref})
			} else if a.kind == 'A' {
				args[i] = a.ref
			} else {
				ref := u.alloc(st)
				k := u.cellKey(a.typ)
				h := u.read(st, k)
				u.write(st, k, T(h.Sort, "(store %s %s %s)", h.S, ref.S, u.load(st, a).S))
				args[i] = ref
				cios = append(cios, cio{a, ref})
			}
		}
	}
	env.st, env.old = st, st
	var targs []string
	for i, n := range sp.Args {
		if i >= len(args) {
			break
		}
		t := u.term(args[i])
		targs = append(targs, t.S)
		env.vars[n] = TV{t, ptypes[i]}
	}
	for i, c := range args {
		if cl, ok := c.(*Clos); ok {
			if u.specs.Funcs[valueKey(ptypes[i])] == nil {
				u.closureFacts(r, cl, env, ptypes[i])
				continue
			}
			id := u.term(cl)
			u.assume(fmt.Sprintf("(not (= %s 0))", id.S))
			for _, d := range u.spec.ClosDefs {
				denv := &Env{u: u, st: st, old: st, vars: map[string]TV{"clo": {id, ptypes[i]}}, file: u.spec.File, pkg: u.fn.Pkg.Pkg}
				u.assume(u.specBool(denv, d))
			}
		}
	}
	short := sp.Key[strings.LastIndex(sp.Key, "/")+1:]
	for _, q := range sp.Requires {
		u.assert(u.specBool(env, q), "requires", r.fr.where()+short+": "+q.Text, u.pos(x.Pos()))
	}
	pre := st.clone()
	// effects
	eff := map[string]bool{}
	if f != nil && len(f.Blocks) > 0 && !sp.Trusted {
		for k := range u.P.effects(f, u) {
			eff[k] = true
		}
	}
	for _, k := range sp.Writes {
		eff[k] = true
		if k == "al" {
			continue
		}
		if _, ok := u.keySort[k]; !ok {
			u.resolveKey(k)
		}
	}
	mods := u.modifies(env, sp, pre)
	for k := range mods {
		if strings.HasPrefix(k, "G!") {
			eff[k] = true
		}
		if sp.Trusted && !eff[k] {
			panic(unsupported("the trusted contract of " + sp.Key + " modifies " + k + " but does not list it under writes"))
		}
		eff[k] = true
	}
	keys := sortedKeys(eff)
	for _, k := range keys {
		if strings.HasPrefix(k, "G!") && mods[k] == nil {
			continue
		}
		old := u.read(pre, k)
		nw := u.fresh(mangleKey(k), old.Sort)
		st.m[k] = nw
		for _, w := range u.written {
			w[k] = true
		}
		if k == "al" {
			u.assume(fmt.Sprintf("(>= %s %s)", nw.S, old.S))
			continue
		}
		if fr := u.frame(k, old, nw, u.read(pre, "al"), mods[k]); fr != "" {
			u.assume(fr)
		}
	}
	if u.dry == 0 {
		for i, c := range args {
			if cl, ok := c.(*Clos); ok {
				if vsp := u.specs.Funcs[valueKey(ptypes[i])]; vsp != nil {
					r.checkClosure(x, cl, vsp, ptypes[i])
					st = r.st
				}
			}
		}
	}
	var res Tuple
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		so := u.enc.sortOf(rt)
		var t Term
		if sp.Pure {
			n := fmt.Sprintf("pf$%s.%d", mangle(sp.Key), i)
			var ss []string
			for k := range targs {
				ss = append(ss, u.term(args[k]).Sort)
			}
			u.enc.decl(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), so))
			if len(targs) == 0 {
				t = Term{n, so}
			} else {
				t = u.define("r", T(so, "(%s %s)", n, strings.Join(targs, " ")))
			}
		} else {
			t = u.fresh("r", so)
		}
		u.assumeType(st, t, rt)
		res = append(res, t)
		if i < len(sp.Results) {
			env.vars[sp.Results[i]] = TV{t, rt}
		}
	}
	post := *env
	post.st, post.old = st, pre
	for _, q := range sp.Ensures {
		u.assume(u.specBool(&post, q))
	}
	for _, q := range sp.Hints {
		func() {
			defer func() { recover() }()
			t := post.eval(q.Expr)
			h := u.fresh("hint", t.Sort)
			u.assume(fmt.Sprintf("(= %s %s)", h.S, t.S))
		}()
	}
	for _, c := range cios {
		if stt, ok := c.a.typ.Underlying().(*types.Struct); ok {
			so := u.enc.sortOf(c.a.typ)
			v := "(mk$" + so
			for k := 0; k < stt.NumFields(); k++ {
				v += " " + u.loadField(st, c.ref, c.a.typ, k).S
			}
			u.store(st, c.a, u.define("co", Term{v + ")", so}))
			continue
		}
		u.store(st, c.a, T(u.enc.sortOf(c.a.typ), "(select %s %s)", u.read(st, u.cellKey(c.a.typ)).S, c.ref.S))
	}
	if len(res) == 1 {
		return res[0]
	}
	return res
}

// checkClosure proves that a closure passed as an argument meets the contract of its function type, when it is
// called in any state that the callee can reach.
func (r *runner) checkClosure(x ssa.Value, c *Clos, sp *FuncSpec, t types.Type) {
	u := r.u
	saveCur, saveSt := u.cur, r.st
	defer func() { u.cur, r.st = saveCur, saveSt }()
	u.cur = u.joinVB([]*Edge{u.edge(saveCur, "true")})
	r.st = saveSt.clone()
	sig := t.Underlying().(*types.Signature)
	env := &Env{u: u, st: r.st, old: r.st, vars: map[string]TV{}, file: sp.File}
	if pkg := u.P.pkgs[repoPath+"/"+sp.Pkg]; pkg != nil {
		env.pkg = pkg.Pkg
	}
	var args []Val
	env.vars[sp.Args[0]] = TV{u.term(c), t}
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		a := u.fresh("clo", u.enc.sortOf(pt))
		u.assumeType(r.st, a, pt)
		args = append(args, a)
		if i+1 < len(sp.Args) {
			env.vars[sp.Args[i+1]] = TV{a, pt}
		}
	}
	for _, q := range sp.Requires {
		u.assume(u.specBool(env, q))
	}
	allowed := map[string]bool{}
	for _, k := range sp.Writes {
		allowed[k] = true
	}
	for k := range u.P.effects(c.fn, u) {
		if !allowed[k] && !sp.FreshOnly && !strings.HasPrefix(k, "L|") {
			panic(unsupported("closure " + c.fn.Name() + " writes " + k + ", which the contract of its type does not allow"))
		}
	}
	pre := r.st.clone()
	where := r.fr.where() + c.fn.Name() + " "
	res := r.inline(x, c.fn, funcKey(c.fn), args, c.binds)
	post := *env
	post.vars = map[string]TV{}
	for k, v := range env.vars {
		post.vars[k] = v
	}
	post.st, post.old = r.st, pre
	rs := Tuple{res}
	if t, ok := res.(Tuple); ok {
		rs = t
	}
	for i, n := range sp.Results {
		post.vars[n] = TV{u.term(rs[i]), sig.Results().At(i).Type()}
	}
	for _, q := range sp.Ensures {
		u.assert(u.specBool(&post, q), "closure", where+q.Text, u.pos(c.fn.Pos()))
	}
	for _, k := range sortedKeys(r.st.m) {
		if k == "al" || strings.HasPrefix(k, "L|") {
			continue
		}
		old, nw := u.read(pre, k), r.st.m[k]
		if old.S == nw.S {
			continue
		}
		if allowed[k] && (strings.HasPrefix(k, "G!") || strings.HasPrefix(k, "V|")) {
			continue
		}
		fm := u.frame(k, old, nw, u.read(pre, "al"), nil)
		if fm == "" {
			fm = fmt.Sprintf("(= %s %s)", old.S, nw.S)
		}
		u.assert(fm, "closure-frame", where+k, u.pos(c.fn.Pos()))
	}
}

func (u *Unit) specBool(env *Env, q Clause) (s string) {
	defer func() {
		if e := recover(); e != nil {
			if se, ok := e.(specErr); ok {
				panic(specErr{q.Pos + ": " + se.msg + " in " + q.Text})
			}
			panic(e)
		}
	}()
	return env.bool(q.Expr)
}

// modLoc is one modifiable location of a heap key (ref == "" means all of it).
type modLoc struct{ ref string }

func (u *Unit) modifies(env *Env, sp *FuncSpec, pre *State) map[string][]modLoc {
	out := map[string][]modLoc{}
	e := *env
	e.st = pre
	for _, c := range sp.Modifies {
		switch x := c.Expr.(type) {
		case *ast.Ident:
			out["G!"+x.Name] = append(out["G!"+x.Name], modLoc{})
		case *ast.SelectorExpr:
			v := e.eval(x.X)
			p := v.typ.Underlying().(*types.Pointer).Elem()
			s := p.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == x.Sel.Name {
					k := u.fieldKey(p, i)
					out[k] = append(out[k], modLoc{v.S})
				}
			}
		case *ast.CallExpr:
			fn := x.Fun.(*ast.Ident).Name
			switch fn {
			case "elems":
				v := e.eval(x.Args[0])
				k := u.elemKey(v.typ.Underlying().(*types.Slice).Elem())
				// nothing can be written through a slice without capacity
				if !u.option("rows") {
					out[k] = append(out[k], modLoc{"(s-arr " + v.S + ")"})
					continue
				}
				out[k] = append(out[k], modLoc{fmt.Sprintf("(ite (= (s-cap %s) 0) %s (s-arr %s))", v.S, u.read(pre, "al").S, v.S)})
			case "fields":
				v := e.eval(x.Args[0])
				p := v.typ.Underlying().(*types.Pointer).Elem()
				s := p.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if u.isImmutable(p, s.Field(i).Name()) {
						continue
					}
					k := u.fieldKey(p, i)
					out[k] = append(out[k], modLoc{v.S})
				}
			case "mapof":
				v := e.eval(x.Args[0])
				m := v.typ.Underlying().(*types.Map)
				for _, p := range []string{"MD", "MV"} {
					k := u.mapKey(p, m)
					out[k] = append(out[k], modLoc{v.S})
				}
			case "deref":
				v := e.eval(x.Args[0])
				k := u.cellKey(v.typ.Underlying().(*types.Pointer).Elem())
				out[k] = append(out[k], modLoc{v.S})
			case "key":
				k := strings.Trim(x.Args[0].(*ast.BasicLit).Value, "\"`")
				if _, ok := u.keySort[k]; !ok {
					u.resolveKey(k)
				}
				out[k] = append(out[k], modLoc{})
			case "ifield": // ifield(ifaceValue, T, field): a field of the object behind an interface
				v := e.eval(x.Args[0])
				ty, _ := u.P.resolveType(x.Args[1], e.pkg, u.specs)
				s := ty.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == x.Args[2].(*ast.Ident).Name {
						k := u.fieldKey(ty, i)
						out[k] = append(out[k], modLoc{"(i-val " + v.S + ")"})
					}
				}
			default:
				specFail("%s: bad modifies clause %s", c.Pos, c.Text)
			}
		}
	}
	return out
}

// frame says that everything allocated before and not listed is unchanged.
func (u *Unit) frame(k string, old, nw, al Term, mods []modLoc) string {
	if strings.HasPrefix(k, "V|") || strings.HasPrefix(k, "G!") {
		if len(mods) == 0 {
			return fmt.Sprintf("(= %s %s)", nw.S, old.S)
		}
		return ""
	}
	g := "(and (< r? " + al.S + ")"
	for _, m := range mods {
		if m.ref == "" {
			return ""
		}
		g += fmt.Sprintf(" (not (= r? %s))", m.ref)
	}
	g += ")"
	return fmt.Sprintf("(forall ((r? Int)) (! (=> %s (= (select %s r?) (select %s r?))) :pattern ((select %s r?))))", g, nw.S, old.S, nw.S)
}

// resolveKey finds the sort of a heap key given by name.
func (u *Unit) resolveKey(k string) {
	for _, t := range u.P.heapTypes() {
		switch k[:2] {
		case "F|":
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if "F|"+u.structName(t)+"."+s.Field(i).Name() == k {
						u.fieldKey(t, i)
						return
					}
				}
			}
		case "E|":
			if "E|"+typeName(t) == k {
				u.elemKey(t)
				return
			}
			if "E|*"+typeName(t) == k {
				u.elemKey(types.NewPointer(t))
				return
			}
		}
	}
	if strings.HasPrefix(k, "E|") {
		for _, b := range types.Typ {
			if b.Name() == k[2:] {
				u.elemKey(b)
				return
			}
		}
		if k == "E|byte" {
			u.elemKey(types.Typ[types.Uint8])
			u.keySort[k] = u.keySort["E|uint8"]
			return
		}
	}
	specFail("unknown heap key %s", k)
}

func (P *Prog) heapTypes() []types.Type {
	var out []types.Type
	var paths []string
	for p := range P.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sc := P.pkgs[p].Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				out = append(out, tn.Type())
			}
		}
	}
	return out
}

// closureFacts gives the body of a pure closure as an axiom about its application.
func (u *Unit) closureFacts(r *runner, c *Clos, env *Env, t types.Type) {
	sig, ok := t.Underlying().(*types.Signature)
	if !ok || sig.Results().Len() != 1 {
		return
	}
	if u.clofacts == nil {
		u.clofacts = map[string]bool{}
	}
	id := u.term(c)
	u.assume(fmt.Sprintf("(not (= %s 0))", id.S))
	key := id.S
	_ = key
	// evaluate the body on bound variables; only loop free bodies whose calls are pure work
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("GVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "closureFacts:", c.fn, e)
			}
		}
	}()
	pe := &pureEval{u: u, st: r.st, seen: map[*ssa.Function]bool{}}
	var bound, as []string
	var vals []Val
	for i := 0; i < sig.Params().Len(); i++ {
		so := u.enc.sortOf(sig.Params().At(i).Type())
		u.qn++
		b := fmt.Sprintf("x?%d", u.qn)
		bound = append(bound, fmt.Sprintf("(%s %s)", b, so))
		as = append(as, b)
		vals = append(vals, Term{b, so})
	}
	res := pe.run(c.fn, vals, c.binds)
	ap := u.papply(id, sig, as)
	u.assume(fmt.Sprintf("(forall (%s) (! (= %s %s) :pattern (%s)))", strings.Join(bound, " "), ap.S, res.S, ap.S))
}

// ---- builtins ----

func (r *runner) builtin(x ssa.Value, name string, c *ssa.CallCommon, args []Val) Val {
	u, fr, st := r.u, r.fr, r.st
	switch name {
	case "len", "cap":
		t := u.term(args[0])
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return T(u.enc.I(), "(s-%s %s)", name, t.S)
		case *types.Basic:
			v := T(u.enc.I(), "(strlen %s)", t.S)
			u.assumeType(st, t, c.Args[0].Type())
			return v
		case *types.Map:
			mt := c.Args[0].Type().Underlying().(*types.Map)
			d := u.read(st, u.mapKey("MD", mt))
			n := "maplen$" + mangleSort(arrayElem(d.Sort))
			u.enc.decl(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, arrayElem(d.Sort), u.enc.I()))
			v := u.define("maplen", T(u.enc.I(), "(%s (select %s %s))", n, d.S, t.S))
			u.assume(u.le(u.enc.num(64, 0), v.S))
			return v
		case *types.Array:
			return Term{u.enc.num(64, c.Args[0].Type().Underlying().(*types.Array).Len()), u.enc.I()}
		}
	case "append":
		st0 := c.Args[0].Type().Underlying().(*types.Slice)
		s := u.term(args[0])
		if bt, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			t := u.term(args[1])
			return u.appendN(st, st0.Elem(), s, "(strlen "+t.S+")", func(j string) string { return fmt.Sprintf("(strat %s %s)", t.S, j) })
		}
		t := u.term(args[1])
		so := u.enc.sortOf(st0.Elem())
		h := u.read(st, u.elemKey(st0.Elem()))
		at := u.atFn(so)
		src := u.define("src", T(arrayElem(h.Sort), "(select %s (s-arr %s))", h.S, t.S))
		r := u.appendN(st, st0.Elem(), s, "(s-len "+t.S+")", func(j string) string {
			return fmt.Sprintf("(%s %s (s-off %s) %s)", at, src.S, t.S, j)
		})
		if u.spec != nil && u.spec.Opts["concats"] && so == "Int" {
			// concats(A, o, B, p, l, C, q, n): the elements at o.. of A are the l at p.. of B, then the n at q.. of C
			u.useLogic("concats")
			rs := r.(Term).S
			k := u.elemKey(st0.Elem())
			u.assume(fmt.Sprintf("(concats (select %s (s-arr %s)) (s-off %s) (select %s (s-arr %s)) (s-off %s) (s-len %s) %s (s-off %s) (s-len %s))",
				u.read(st, k).S, rs, rs, h.S, s.S, s.S, s.S, src.S, t.S, t.S))
		}
		return r
	case "copy":
		d := u.term(args[0])
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		so := u.enc.sortOf(et)
		k := u.elemKey(et)
		h := u.read(st, k)
		at := u.atFn(so)
		s := u.term(args[1])
		var n string
		var src func(j string) string
		if s.Sort == "Str" {
			n = "(strlen " + s.S + ")"
			src = func(j string) string { return fmt.Sprintf("(strat %s %s)", s.S, j) }
		} else {
			n = "(s-len " + s.S + ")"
			a := u.define("src", T(arrayElem(h.Sort), "(select %s (s-arr %s))", h.S, s.S))
			src = func(j string) string { return fmt.Sprintf("(%s %s (s-off %s) %s)", at, a.S, s.S, j) }
		}
		cnt := u.define("n", T(u.enc.I(), "(ite %s %s (s-len %s))", u.le(n, "(s-len "+d.S+")"), n, d.S))
		u.guardStore(st, k, Term{"(s-arr " + d.S + ")", "Int"})
		old := u.define("A", T(arrayElem(h.Sort), "(select %s (s-arr %s))", h.S, d.S))
		A := u.fresh("A", old.Sort)
		z := u.enc.num(64, 0)
		u.assume(fmt.Sprintf("(forall ((j? %s)) (! (= (%s %s (s-off %s) j?) (ite (and %s %s) %s (%s %s (s-off %s) j?))) :pattern ((%s %s (s-off %s) j?))))", u.enc.I(), at, A.S, d.S, u.le(z, "j?"), u.lt("j?", cnt.S), src("j?"), at, old.S, d.S, at, A.S, d.S))
		u.assume(fmt.Sprintf("(forall ((p? %s)) (! (=> (not (and %s %s)) (= (select %s p?) (select %s p?))) :pattern ((select %s p?))))", u.enc.I(), u.le("(s-off "+d.S+")", "p?"), u.lt("p?", u.plus("(s-off "+d.S+")", cnt.S)), A.S, old.S, A.S))
		if u.option("rows") {
			u.write(st, k, T(h.Sort, "(ite %s %s (store %s (s-arr %s) %s))", u.le(cnt.S, z), h.S, h.S, d.S, A.S))
		} else {
			u.write(st, k, T(h.Sort, "(store %s (s-arr %s) %s)", h.S, d.S, A.S))
		}
		return cnt
	case "delete":
		m := u.term(args[0])
		mt := c.Args[0].Type().Underlying().(*types.Map)
		k := u.term(args[1])
		d := u.read(st, u.mapKey("MD", mt))
		u.write(st, u.mapKey("MD", mt), T(d.Sort, "(store %s %s (store (select %s %s) %s false))", d.S, m.S, d.S, m.S, k.S))
		return nil
	case "panic":
		if !u.maypanic {
			u.assert("false", "no-panic", fr.where(), u.pos(x.Pos()))
		}
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		a, b := u.term(args[0]), u.term(args[1])
		if !u.enc.bv && a.Sort == "Int" {
			op := "<="
			if name == "max" {
				op = ">="
			}
			return T("Int", "(ite (%s %s %s) %s %s)", op, a.S, b.S, a.S, b.S)
		}
	}
	panic(unsupported("builtin " + name))
}

// appendN models append: in place when the capacity suffices, in a new array otherwise.
func (u *Unit) appendN(st *State, et types.Type, s Term, n string, src func(j string) string) Val {
	so := u.enc.sortOf(et)
	at := u.atFn(so)
	k := u.elemKey(et)
	h := u.read(st, k)
	I := u.enc.I()
	z := u.enc.num(64, 0)
	n = u.define("n", Term{n, I}).S
	nl := u.define("nl", Term{u.plus("(s-len "+s.S+")", n), I})
	if u.enc.bv {
		u.assume(u.le(z, nl.S))
		u.assume(u.le(nl.S, u.enc.num(64, 1<<62)))
	} else { // no slice has more than MaxInt elements
		u.assume(fmt.Sprintf("(<= %s %s)", nl.S, maxCap(et)))
	}
	inp := u.define("inplace", T("Bool", "%s", u.le(nl.S, "(s-cap "+s.S+")")))
	nw := u.alloc(st)
	arr := u.define("arr", T("Int", "(ite %s (s-arr %s) %s)", inp.S, s.S, nw.S))
	off := u.define("off", T(I, "(ite %s (s-off %s) %s)", inp.S, s.S, z))
	cp := u.fresh("cap", I)
	u.assume(fmt.Sprintf("(ite %s (= %s (s-cap %s)) %s)", inp.S, cp.S, s.S, u.le(nl.S, cp.S)))
	if u.enc.bv {
		u.assume(u.le(cp.S, u.enc.num(64, 1<<62)))
	} else {
		u.assume(fmt.Sprintf("(<= %s %s)", cp.S, maxCap(et)))
	}
	if _, ok := u.specs.Guards[k]; ok {
		env := &Env{u: u, st: st, old: u.entrySt, vars: map[string]TV{"array": {Term{"(s-arr " + s.S + ")", "Int"}, nil}}, pkg: u.pkgTypes(), file: u.file}
		c := u.specs.Guards[k]
		u.assert(fmt.Sprintf("(=> (and %s %s) %s)", inp.S, u.lt(z, n), env.bool(c.Expr)), "guard", "append "+c.Text, "")
	}
	olds := u.define("A", T(arrayElem(h.Sort), "(select %s (s-arr %s))", h.S, s.S))
	A := u.fresh("A", olds.Sort)
	ln := "(s-len " + s.S + ")"
	if n == u.enc.num(64, 1) && false {
		_ = ln
	}
	u.assume(fmt.Sprintf("(forall ((j? %s)) (! (and (=> (and %s %s) (= (%s %s %s j?) (%s %s (s-off %s) j?))) (=> (and %s %s) (= (%s %s %s j?) %s))) :pattern ((%s %s %s j?))))", I,
		u.le(z, "j?"), u.lt("j?", ln), at, A.S, off.S, at, olds.S, s.S,
		u.le(ln, "j?"), u.lt("j?", nl.S), at, A.S, off.S, src(u.minus("j?", ln)),
		at, A.S, off.S))
	// the same, for elements that are known of the old slice
	if u.spec != nil && u.spec.Opts["appendx"] {
		u.assume(fmt.Sprintf("(forall ((j? %s)) (! (=> (and %s %s) (= (%s %s %s j?) (%s %s (s-off %s) j?))) :pattern ((%s %s (s-off %s) j?))))", I,
			u.le(z, "j?"), u.lt("j?", ln), at, A.S, off.S, at, olds.S, s.S, at, olds.S, s.S))
		u.assume(fmt.Sprintf("(=> %s (= (%s %s %s %s) %s))", u.lt(z, n), at, A.S, off.S, ln, src(z)))
	}
	// in place: the rest of the array is unchanged
	u.assume(fmt.Sprintf("(=> %s (forall ((p? %s)) (! (=> (not (and %s %s)) (= (select %s p?) (select %s p?))) :pattern ((select %s p?)))))", inp.S, I,
		u.le(u.plus("(s-off "+s.S+")", ln), "p?"), u.lt("p?", u.plus("(s-off "+s.S+")", nl.S)), A.S, olds.S, A.S))
	// appending nothing in place writes nothing
	if !u.option("rows") {
		u.write(st, k, T(h.Sort, "(ite (= %s 0) %s (store %s %s %s))", arr.S, h.S, h.S, arr.S, A.S))
		return u.define("app", T("Slice", "(mk-slice %s %s %s %s)", arr.S, off.S, nl.S, cp.S))
	}
	u.write(st, k, T(h.Sort, "(ite (or (= %s 0) (and %s %s)) %s (store %s %s %s))", arr.S, inp.S, u.le(n, z), h.S, h.S, arr.S, A.S))
	return u.define("app", T("Slice", "(mk-slice %s %s %s %s)", arr.S, off.S, nl.S, cp.S))
}
