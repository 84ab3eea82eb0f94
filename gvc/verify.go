package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// genFunc generates the obligations of one function against its contract.
func genFunc(P *Prog, specs *Specs, sp *FuncSpec) (u *Unit) {
	mode := sp.Mode
	u = newUnit(P, specs, sp.Key, mode)
	u.spec = sp
	u.file = sp.File
	u.files[sp.File] = true
	u.maypanic = sp.MayPanic
	defer func() {
		if e := recover(); e != nil {
			u.obls = nil
			switch x := e.(type) {
			case unsupportedErr:
				u.err = x.Error()
			case specErr:
				u.err = "specification: " + x.msg
			default:
				u.err = fmt.Sprint("internal: ", e)
				if invDebug {
					debug.PrintStack()
				}
			}
			u.cur = u.newVB()
			o := u.assert("false", "subset", "the function is within the verified subset ("+u.err+")", "")
			o.result = "unsupported"
		}
	}()
	f := P.funcs[sp.Key]
	if f == nil {
		panic(unsupported("function " + sp.Key + " does not exist"))
	}
	u.fn = f
	if f.Name() == "init" {
		u.initOf = f.Pkg.Pkg
	}
	vb := u.newVB()
	vb.items = append(vb.items, Item{kind: kDef, text: fmt.Sprintf("(= %s true)", vb.r)})
	u.cur = vb
	st := &State{map[string]Term{}}
	u.entrySt = st.clone()
	u.assume(fmt.Sprintf("(>= %s 1)", u.read(st, "al").S))
	fr := &Frame{fn: f, vals: map[ssa.Value]Val{}, spec: sp, vars: map[string]TV{}}
	u.top = fr
	env := &Env{u: u, st: st, old: st, vars: map[string]TV{}, file: sp.File, pkg: f.Pkg.Pkg}
	for i, p := range f.Params {
		n := fmt.Sprintf("arg%d", i)
		if i < len(sp.Args) {
			n = sp.Args[i]
		}
		so := u.enc.sortOf(p.Type())
		c := sanitize(n) + "@arg"
		u.consts[c] = so
		t := Term{c, so}
		u.assumeType(st, t, p.Type())
		fr.vals[p] = t
		fr.vars[n] = TV{t, p.Type()}
		env.vars[n] = TV{t, p.Type()}
	}
	for _, q := range sp.Requires {
		u.assume(u.specBool(env, q))
	}
	for _, q := range sp.Assumes {
		u.assume(u.specBool(env, q))
		u.trusted[sp.Key+" assumes "+q.Text] = true
	}
	u.topMods = u.modifies(env, sp, st)
	for _, h := range sp.Hints {
		u.hint(env, h)
	}
	entryVB := u.cur
	cov := &Oblig{name: u.name + "/cover/precondition is satisfiable", kind: "cover", vb: entryVB, pos: len(entryVB.items), goal: "false", expect: "sat"}
	u.obls = append(u.obls, cov)
	exits := u.execFunc(fr, st.clone())
	for xi, e := range exits {
		u.cur = u.joinVB([]*Edge{{e.vb, e.vb.r}})
		post := &Env{u: u, st: e.st, old: u.entrySt, vars: map[string]TV{}, file: sp.File, pkg: f.Pkg.Pkg}
		for k, v := range env.vars {
			post.vars[k] = v
		}
		if len(sp.Results) > len(e.res) {
			panic(specErr{"contract names more results than the function has"})
		}
		for i, n := range sp.Results {
			rt := f.Signature.Results().At(i).Type()
			t := u.term(e.res[i])
			post.vars[n] = TV{t, rt}
		}
		for _, h := range sp.Hints {
			u.hint(post, h)
		}
		at := u.pos(e.pos)
		for _, q := range sp.Ensures {
			u.assert(u.specBool(post, q), "ensures", fmt.Sprintf("%s @exit%d", q.Text, xi), at)
		}
		for _, k := range sortedKeys(e.st.m) {
			if k == "al" || strings.HasPrefix(k, "L|") {
				continue
			}
			if u.initOf != nil && strings.HasPrefix(k, "V|") {
				continue
			}
			old := u.read(u.entrySt, k)
			nw := e.st.m[k]
			if old.S == nw.S {
				continue
			}
			if fm := u.frame(k, old, nw, u.read(u.entrySt, "al"), u.topMods[k]); fm != "" {
				u.assert(fm, "frame", fmt.Sprintf("%s @exit%d", k, xi), at)
			}
		}
	}
	if len(exits) == 0 {
		u.cur = vb
		u.assert("false", "cover", "the function returns", "")
	} else {
		var edges []*Edge
		for _, e := range exits {
			edges = append(edges, &Edge{e.vb, e.vb.r})
		}
		vb := u.joinVB(edges)
		u.obls = append(u.obls, &Oblig{name: u.name + "/cover/some exit is reachable", kind: "cover", vb: vb, pos: len(vb.items), goal: "false", expect: "sat"})
	}
	return u
}

// hint names a term so that the solver can use it in instantiations.
func (u *Unit) hint(env *Env, h Clause) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(specErr); !ok {
				panic(e)
			}
		}
	}()
	t := env.eval(h.Expr)
	c := u.fresh("hint", t.Sort)
	u.cur.items = append(u.cur.items, Item{kind: kDef, text: fmt.Sprintf("(= %s %s)", c.S, t.S)})
}

// genLemma generates the obligations of a lemma over the contracts.
func genLemma(P *Prog, specs *Specs, l *Lemma) (u *Unit) {
	u = newUnit(P, specs, "lemma "+l.Name, l.Mode)
	u.lemma = l
	u.file = l.File
	u.files[l.File] = true
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case unsupportedErr:
				u.err = x.Error()
			case specErr:
				u.err = "specification: " + x.msg
			default:
				panic(e)
			}
			u.cur = u.newVB()
			u.obls = nil
			o := u.assert("false", "subset", "the lemma can be expressed ("+u.err+")", "")
			o.result = "unsupported"
		}
	}()
	vb := u.newVB()
	vb.items = append(vb.items, Item{kind: kDef, text: fmt.Sprintf("(= %s true)", vb.r)})
	u.cur = vb
	st := &State{map[string]Term{}}
	u.entrySt = st
	u.assume(fmt.Sprintf("(>= %s 1)", u.read(st, "al").S))
	env := &Env{u: u, st: st, old: st, vars: map[string]TV{}, file: l.File}
	if p := P.pkgs[repoPath+"/"+l.Pkg]; p != nil {
		env.pkg = p.Pkg
	}
	for _, p := range l.Params {
		typ, so := P.resolveType(p.Type, env.pkg, specs)
		if typ != nil {
			so = u.enc.sortOf(typ)
		} else {
			typ = env.sortType(so)
		}
		c := p.Name + "@arg"
		u.consts[c] = so
		env.vars[p.Name] = TV{Term{c, so}, typ}
		if typ != nil {
			if _, isB := typ.Underlying().(*types.Basic); !isB {
				u.assumeType(st, env.vars[p.Name].Term, typ)
			}
		}
	}
	for _, q := range l.Requires {
		u.assume(u.specBool(env, q))
	}
	u.obls = append(u.obls, &Oblig{name: u.name + "/cover/hypotheses are satisfiable", kind: "cover", vb: vb, pos: len(vb.items), goal: "false", expect: "sat"})
	if l.Induct != "" {
		// strong induction on a measure: the lemma holds for smaller values of it
		m, err := clause(l.Induct, l.Name)
		if err != nil {
			panic(specErr{err.Error()})
		}
		u.assume(u.lemmaFormula(l, env, func(ih *Env) string {
			return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", ih.eval(m.Expr).S, ih.eval(m.Expr).S, env.eval(m.Expr).S)
		}))
	}
	for _, h := range l.Hints {
		u.hint(env, h)
	}
	for _, q := range l.Ensures {
		u.assert(u.specBool(env, q), "lemma", q.Text, q.Pos)
	}
	return u
}

// lemmaFormula is the universally quantified lemma.
func (u *Unit) lemmaFormula(l *Lemma, base *Env, guard func(*Env) string) string {
	env := &Env{u: u, st: base.st, old: base.st, vars: map[string]TV{}, file: l.File}
	if p := u.P.pkgs[repoPath+"/"+l.Pkg]; p != nil {
		env.pkg = p.Pkg
	}
	var bs []string
	for _, p := range l.Params {
		typ, so := u.P.resolveType(p.Type, env.pkg, u.specs)
		if typ != nil {
			so = u.enc.sortOf(typ)
		} else {
			typ = env.sortType(so)
		}
		u.qn++
		b := fmt.Sprintf("%s?%d", p.Name, u.qn)
		env.vars[p.Name] = TV{Term{b, so}, typ}
		bs = append(bs, fmt.Sprintf("(%s %s)", b, so))
	}
	pre := "true"
	for _, q := range l.Requires {
		pre = fmt.Sprintf("(and %s %s)", pre, u.specBool(env, q))
	}
	if guard != nil {
		pre = fmt.Sprintf("(and %s %s)", pre, guard(env))
	}
	post := "true"
	for _, q := range l.Ensures {
		post = fmt.Sprintf("(and %s %s)", post, u.specBool(env, q))
	}
	body := fmt.Sprintf("(=> %s %s)", pre, post)
	if len(l.Trig) > 0 {
		pats := ""
		for _, t := range l.Trig {
			pats += " :pattern ("
			c, err := clause("trig("+t.Text+")", t.Pos)
			if err != nil {
				panic(specErr{err.Error()})
			}
			for i, a := range callArgs(c.Expr) {
				if i > 0 {
					pats += " "
				}
				pats += env.eval(a).S
			}
			pats += ")"
		}
		body = "(! " + body + pats + ")"
	}
	if len(bs) == 0 {
		return body
	}
	return fmt.Sprintf("(forall (%s) %s)", strings.Join(bs, " "), body)
}
