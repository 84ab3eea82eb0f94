package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mval is a program value an invariant metavariable can stand for.
type mval struct {
	name string
	src  []string // names of variables of the source that it may be the value of
	typ  types.Type
	get  func(phis map[*ssa.Phi]Val, st *State) (Term, bool)
	loop bool // changes in the loop
}

const maxInst = 600

// instantiate makes the invariant candidates of one loop.
func (u *Unit) instantiate(fr *Frame, l *Loop, phis []*ssa.Phi, entry, hv map[*ssa.Phi]Val, pre, st *State, keys []string) []*invInst {
	u.iterKey = ""
	for _, in := range l.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := u.val(fr, nx.Iter).(*Iter); ok {
				u.iterKey = it.key
			}
		}
	}
	var vals []mval
	for _, p := range phis {
		p := p
		if _, ok := hv[p].(Term); !ok {
			continue
		}
		n := p.Comment
		if n == "" || n == "rangeindex" {
			n = "i"
		}
		get := func(ph map[*ssa.Phi]Val, st *State) (Term, bool) {
			t, ok := ph[p].(Term)
			return t, ok
		}
		src := []string{n}
		if p.Comment == "rangeindex" {
			src = []string{"rangeindex"}
		}
		vals = append(vals, mval{n, src, p.Type(), get, true})
		if w, _, ok := isInt(p.Type()); ok {
			var src1 []string
			if p.Comment == "rangeindex" {
				src1 = src
			}
			vals = append(vals, mval{n + "+1", src1, p.Type(), func(ph map[*ssa.Phi]Val, st *State) (Term, bool) {
				t, ok := ph[p].(Term)
				return Term{u.plus1(t.S, w), t.Sort}, ok
			}, true})
		}
	}
	for _, k := range keys {
		if !strings.HasPrefix(k, "L|") {
			continue
		}
		k := k
		t := u.localTy[k]
		if t == nil {
			continue
		}
		vals = append(vals, mval{k[2:], nil, t, func(ph map[*ssa.Phi]Val, st *State) (Term, bool) {
			v, ok := st.m[k]
			return v, ok
		}, true})
	}
	nloop := len(vals)
	// values defined before the loop
	seen := map[string]bool{}
	add := func(n string, src []string, t types.Type, v Val) {
		tm, ok := v.(Term)
		if !ok || seen[tm.S] {
			return
		}
		seen[tm.S] = true
		vals = append(vals, mval{n, src, t, func(map[*ssa.Phi]Val, *State) (Term, bool) { return tm, true }, false})
	}
	for f := fr; f != nil; f = f.parent {
		for _, p := range f.fn.Params {
			add(p.Name(), []string{p.Name()}, p.Type(), f.vals[p])
		}
		for _, p := range f.fn.FreeVars {
			add(p.Name(), []string{p.Name()}, p.Type(), f.vals[p])
		}
	}
	for f, at := fr, l.head; f != nil; f = f.parent {
		var vs []ssa.Value
		for v := range f.vals {
			if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && (f != fr || in.Block() != at && in.Block().Dominates(at)) {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool {
			a, b := vs[i].(ssa.Instruction), vs[j].(ssa.Instruction)
			if a.Block() != b.Block() {
				if a.Block().Dominates(b.Block()) {
					return true
				}
				if b.Block().Dominates(a.Block()) {
					return false
				}
				return a.Block().Index < b.Block().Index
			}
			for _, in := range a.Block().Instrs {
				if in == a || in == b {
					return in == a
				}
			}
			return false
		})
		for _, v := range vs {
			add(v.Name(), srcNames(v), v.Type(), f.vals[v])
		}
	}
	for _, k := range sortedKeys(st.m) {
		if strings.HasPrefix(k, "L|") && u.localTy[k] != nil {
			found := false
			for _, w := range keys {
				if w == k {
					found = true
				}
			}
			if !found {
				add(k[2:], nil, u.localTy[k], st.m[k])
			}
		}
	}
	var out []*invInst
	names := map[string]int{}
	u.ngroups++
	group := u.ngroups
	newCand := func(n string, auto bool, f func(ph map[*ssa.Phi]Val, st *State) (string, error)) {
		names[n]++
		if names[n] > 1 {
			n = fmt.Sprintf("%s~%d", n, names[n])
		}
		c := &Cand{id: len(u.cands), name: n, active: true, auto: auto, group: group}
		u.cands = append(u.cands, c)
		out = append(out, &invInst{c, f})
	}
	where := fr.fn.Name()
	// templates of the function and of everything it is inlined into
	done := map[*FuncSpec]bool{}
	for f := fr; f != nil; f = f.parent {
		sp := f.spec
		if sp == nil || done[sp] {
			continue
		}
		done[sp] = true
		f := f
		for _, inv := range sp.Invs {
			inv := inv
			u.instOne(f, where, inv, vals, nloop, pre, entry, newCand)
		}
	}
	if !(u.spec != nil && u.spec.NoAuto) {
		u.autoCands(fr, l, phis, vals, nloop, entry, pre, keys, newCand)
	}
	return out
}

// srcNames finds the variables that the source assigns a value to, from the position of the value.
func srcNames(v ssa.Value) []string {
	if p, ok := v.(*ssa.Phi); ok {
		return []string{p.Comment}
	}
	fn := v.Parent()
	if fn == nil || fn.Syntax() == nil {
		return nil
	}
	pos := v.Pos()
	if ex, ok := v.(*ssa.Extract); ok {
		pos = ex.Tuple.Pos()
	}
	if !pos.IsValid() {
		return nil
	}
	var out []string
	ast.Inspect(fn.Syntax(), func(n ast.Node) bool {
		as, ok := n.(*ast.AssignStmt)
		if !ok {
			return true
		}
		for i, l := range as.Lhs {
			id, ok := l.(*ast.Ident)
			if !ok {
				continue
			}
			r := as.Rhs[0]
			if len(as.Rhs) == len(as.Lhs) {
				r = as.Rhs[i]
			}
			if r.Pos() <= pos && pos <= r.End() {
				out = append(out, id.Name)
			}
		}
		return true
	})
	return out
}

// declares tells whether the source of a function mentions a variable of that name.
func declares(fn *ssa.Function, name string) bool {
	found := false
	if fn.Syntax() != nil {
		ast.Inspect(fn.Syntax(), func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && id.Name == name {
				found = true
			}
			return !found
		})
	}
	return found
}

func (u *Unit) plus1(s string, w int) string {
	if u.enc.bv {
		return fmt.Sprintf("(bvadd %s %s)", s, u.enc.num(w, 1))
	}
	return "(+ " + s + " 1)"
}

func (u *Unit) instOne(f *Frame, where string, inv Inv, vals []mval, nloop int, pre *State, entry map[*ssa.Phi]Val, newCand func(string, bool, func(map[*ssa.Phi]Val, *State) (string, error))) {
	pkg := u.pkgTypes()
	if f.fn.Pkg != nil {
		pkg = f.fn.Pkg.Pkg
	}
	var choices [][]mval
	for _, mv := range inv.Vars {
		typ, _ := u.P.resolveType(mv.Type, pkg, u.specs)
		if typ == nil {
			return
		}
		var c []mval
		for i, v := range vals {
			if i >= nloop && !mv.Any {
				break
			}
			if types.Identical(v.typ, typ) {
				c = append(c, v)
			}
		}
		if u.spec != nil && u.spec.Opts["names"] {
			// the value of the variable of that name, when there is one
			var named, index []mval
			for _, v := range c {
				for _, s := range v.src {
					if s == mv.Name {
						named = append(named, v)
						break
					}
					if s == "rangeindex" {
						index = append(index, v)
					}
				}
			}
			if len(named) == 0 && !mv.Any {
				named = index
			}
			if len(named) == 0 && declares(f.fn, mv.Name) {
				return
			}
			if len(named) > 0 {
				c = named
			}
		}
		if (mv.Last || mv.Outer) && len(c) > 1 {
			own := 0
			for _, v := range c {
				for _, w := range vals[:nloop] {
					if w.name == v.name {
						own++
						break
					}
				}
			}
			if mv.Outer {
				c = c[own:]
				if len(c) > 1 {
					c = c[len(c)-1:]
				}
			} else if own > 0 {
				c = c[:own]
			} else {
				c = c[len(c)-1:]
			}
		}
		choices = append(choices, c)
	}
	n := 1
	for _, c := range choices {
		n *= len(c)
	}
	if n > maxInst {
		n = maxInst
	}
	for k := 0; k < n; k++ {
		var pick []mval
		x := k
		dup := false
		label := inv.C.Text
		for i := range choices {
			m := choices[i][x%len(choices[i])]
			x /= len(choices[i])
			for j, p := range pick {
				if p.name == m.name && types.Identical(p.typ, m.typ) && p.loop == m.loop && inv.Vars[j].Name != inv.Vars[i].Name {
					dup = true
				}
			}
			pick = append(pick, m)
			label += fmt.Sprintf(" [%s=%s]", inv.Vars[i].Name, m.name)
		}
		if dup {
			continue
		}
		ik := u.iterKey
		ev := func(ph map[*ssa.Phi]Val, st *State) (s string, err error) {
			defer func() {
				if e := recover(); e != nil {
					if se, ok := e.(specErr); ok {
						err = se
						if invDebug {
							fmt.Println("invariant", inv.C.Pos, "not instantiated:", se.msg)
						}
						return
					}
					panic(e)
				}
			}()
			mk := func(ph map[*ssa.Phi]Val, st *State) *Env {
				env := &Env{u: u, st: st, old: f.entry, vars: map[string]TV{}, pkg: pkg, file: u.file, iter: ik}
				for n, v := range f.vars {
					env.vars[n] = v
				}
				for i, mv := range inv.Vars {
					t, ok := pick[i].get(ph, st)
					if !ok {
						specFail("no value")
					}
					env.vars[mv.Name] = TV{t, pick[i].typ}
				}
				return env
			}
			env := mk(ph, st)
			env.loopEntry = func() *Env { return mk(entry, pre) }
			return env.bool(inv.C.Expr), nil
		}
		newCand(where+": "+label, false, ev)
		c := u.cands[len(u.cands)-1]
		c.binds = strings.Fields(strings.TrimPrefix(label, inv.C.Text))
		c.arith = !strings.ContainsAny(strings.ReplaceAll(inv.C.Text, "len(", ""), "([.")
	}
}

var invDebug = false

func (u *Unit) autoCands(fr *Frame, l *Loop, phis []*ssa.Phi, vals []mval, nloop int, entry map[*ssa.Phi]Val, pre *State, keys []string, newCand func(string, bool, func(map[*ssa.Phi]Val, *State) (string, error))) {
	where := fr.fn.Name()
	term := func(p *ssa.Phi, ph map[*ssa.Phi]Val) (Term, error) {
		t, ok := ph[p].(Term)
		if !ok {
			return Term{}, fmt.Errorf("no term")
		}
		return t, nil
	}
	// bounds that appear in comparisons with a loop variable
	for _, p := range phis {
		p := p
		w, signed, ok := isInt(p.Type())
		if !ok {
			continue
		}
		et, ok := entry[p].(Term)
		if !ok {
			continue
		}
		le := func(a, b string) string {
			if u.enc.bv {
				return bvCmp(token.LEQ, signed, a, b)
			}
			return "(<= " + a + " " + b + ")"
		}
		n := p.Comment
		if n == "" {
			n = "i"
		}
		newCand(where+": auto "+n+">=entry", true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
			t, err := term(p, ph)
			return le(et.S, t.S), err
		})
		newCand(where+": auto "+n+"<=entry", true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
			t, err := term(p, ph)
			return le(t.S, et.S), err
		})
		if _, isC := isConstTerm(et.S); !isC {
			newCand(where+": auto "+n+">=0", true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
				t, err := term(p, ph)
				return le(u.enc.num(w, 0), t.S), err
			})
		}
		for _, b := range u.boundsOf(fr, l, p) {
			b := b
			newCand(where+": auto "+n+"<="+b.name, true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
				t, err := term(p, ph)
				x, ok := b.get(ph, st)
				if !ok {
					err = fmt.Errorf("no bound")
				}
				return le(t.S, x.S), err
			})
			newCand(where+": auto "+n+"<"+b.name, true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
				t, err := term(p, ph)
				x, ok := b.get(ph, st)
				if !ok {
					err = fmt.Errorf("no bound")
				}
				return "(not " + le(x.S, t.S) + ")", err
			})
		}
	}
	// slices that grow
	var sl []mval
	for _, v := range vals[:nloop] {
		if _, ok := v.typ.Underlying().(*types.Slice); ok {
			sl = append(sl, v)
		}
	}
	z := u.enc.num(64, 0)
	al0 := u.read(u.entrySt, "al").S
	alP := u.read(pre, "al").S
	for i, v := range sl {
		v := v
		newCand(where+": auto fresh "+v.name, true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
			t, ok := v.get(ph, st)
			if !ok {
				return "", fmt.Errorf("none")
			}
			return fmt.Sprintf("(or (>= (s-arr %s) %s) (= (s-cap %s) %s))", t.S, al0, t.S, z), nil
		})
		newCand(where+": auto newer "+v.name, true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
			t, ok := v.get(ph, st)
			if !ok {
				return "", fmt.Errorf("none")
			}
			return fmt.Sprintf("(or (>= (s-arr %s) %s) (= (s-cap %s) %s))", t.S, alP, t.S, z), nil
		})
		newCand(where+": auto off0 "+v.name, true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
			t, ok := v.get(ph, st)
			if !ok {
				return "", fmt.Errorf("none")
			}
			return fmt.Sprintf("(= (s-off %s) %s)", t.S, z), nil
		})
		newCand(where+": auto valid "+v.name, true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
			t, ok := v.get(ph, st)
			if !ok {
				return "", fmt.Errorf("none")
			}
			return "(and " + strings.Join(u.typeFacts(st, t, v.typ), " ") + ")", nil
		})
		for _, w := range sl[i+1:] {
			w := w
			newCand(where+": auto distinct "+v.name+" "+w.name, true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
				a, ok1 := v.get(ph, st)
				b, ok2 := w.get(ph, st)
				if !ok1 || !ok2 {
					return "", fmt.Errorf("none")
				}
				return fmt.Sprintf("(or (not (= (s-arr %s) (s-arr %s))) (= (s-cap %s) %s) (= (s-cap %s) %s))", a.S, b.S, a.S, z, b.S, z), nil
			})
			newCand(where+": auto samelen "+v.name+" "+w.name, true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
				a, ok1 := v.get(ph, st)
				b, ok2 := w.get(ph, st)
				if !ok1 || !ok2 {
					return "", fmt.Errorf("none")
				}
				return fmt.Sprintf("(= (s-len %s) (s-len %s))", a.S, b.S), nil
			})
		}
		for _, n := range vals[:nloop] {
			n := n
			if b, ok := n.typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
				continue
			}
			for _, op := range []string{"=", "<="} {
				op := op
				newCand(where+": auto len "+v.name+op+n.name, true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
					a, ok1 := v.get(ph, st)
					b, ok2 := n.get(ph, st)
					if !ok1 || !ok2 {
						return "", fmt.Errorf("none")
					}
					if op == "=" {
						return fmt.Sprintf("(= (s-len %s) %s)", a.S, b.S), nil
					}
					return u.le("(s-len "+a.S+")", b.S), nil
				})
			}
		}
	}
	// frames
	for _, k := range keys {
		k := k
		if !(strings.HasPrefix(k, "F|") || strings.HasPrefix(k, "E|") || strings.HasPrefix(k, "C|") || strings.HasPrefix(k, "M")) {
			continue
		}
		newCand(where+": auto frame-entry "+k, true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
			s := u.frame(k, u.read(u.entrySt, k), u.read(st, k), Term{al0, "Int"}, u.topMods[k])
			if s == "" {
				return "", fmt.Errorf("none")
			}
			return s, nil
		})
		if al0 != alP {
			newCand(where+": auto frame-loop "+k, true, func(ph map[*ssa.Phi]Val, st *State) (string, error) {
				return u.frame(k, u.read(pre, k), u.read(st, k), Term{alP, "Int"}, nil), nil
			})
		}
	}
}

func isConstTerm(s string) (string, bool) {
	return s, len(s) > 0 && (s[0] >= '0' && s[0] <= '9' || strings.HasPrefix(s, "(- ") || strings.HasPrefix(s, "(_ bv"))
}

type bound struct {
	name string
	get  func(ph map[*ssa.Phi]Val, st *State) (Term, bool)
}

// boundsOf finds what a loop variable (or its successor) is compared with.
func (u *Unit) boundsOf(fr *Frame, l *Loop, p *ssa.Phi) []bound {
	var out []bound
	related := map[ssa.Value]bool{p: true}
	for _, e := range p.Edges {
		related[e] = true
	}
	var blocks []*ssa.BasicBlock
	for b := range l.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	seen := map[ssa.Value]bool{}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			if _, ok := cmpInt[c.Op]; !ok && c.Op != token.EQL && c.Op != token.NEQ {
				continue
			}
			for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
				o := pr[1]
				if !related[pr[0]] || seen[o] {
					continue
				}
				seen[o] = true
				if cs, ok := o.(*ssa.Const); ok {
					t := u.enc.constant(cs.Value, cs.Type())
					out = append(out, bound{"const", func(map[*ssa.Phi]Val, *State) (Term, bool) { return t, true }})
					continue
				}
				if v, ok := fr.vals[o].(Term); ok {
					if oin, ok := o.(ssa.Instruction); !ok || !l.body[oin.Block()] {
						out = append(out, bound{o.Name(), func(map[*ssa.Phi]Val, *State) (Term, bool) { return v, true }})
						continue
					}
				}
				// len(s) computed inside the loop
				if call, ok := o.(*ssa.Call); ok {
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						arg := call.Call.Args[0]
						var base func(ph map[*ssa.Phi]Val, st *State) (Term, bool)
						if ap, ok := arg.(*ssa.Phi); ok && ap.Block() == l.head {
							base = func(ph map[*ssa.Phi]Val, st *State) (Term, bool) { t, ok := ph[ap].(Term); return t, ok }
						} else if v, ok := fr.vals[arg].(Term); ok {
							if oin, ok := arg.(ssa.Instruction); !ok || !l.body[oin.Block()] {
								base = func(map[*ssa.Phi]Val, *State) (Term, bool) { return v, true }
							}
						}
						if base == nil {
							if un, ok := arg.(*ssa.UnOp); ok && un.Op == token.MUL {
								x := un.X
								base = func(ph map[*ssa.Phi]Val, st *State) (t Term, ok bool) {
									defer func() {
										if recover() != nil {
											ok = false
										}
									}()
									return u.loadChain(fr, l, x, st), true
								}
							}
						}
						if base != nil {
							out = append(out, bound{"len", func(ph map[*ssa.Phi]Val, st *State) (Term, bool) {
								t, ok := base(ph, st)
								if t.Sort == "Str" {
									return T(u.enc.I(), "(strlen %s)", t.S), ok
								}
								return T(u.enc.I(), "(s-len %s)", t.S), ok
							}})
						}
					}
				}
			}
		}
	}
	return out
}

// loadChain re-evaluates a field load whose base is defined before the loop.
func (u *Unit) loadChain(fr *Frame, l *Loop, x ssa.Value, st *State) Term {
	switch a := x.(type) {
	case *ssa.FieldAddr:
		in, isIn := a.X.(ssa.Instruction)
		if isIn && l.body[in.Block()] {
			panic("in loop")
		}
		t := fr.vals[a.X].(Term)
		pt := a.X.Type().Underlying().(*types.Pointer).Elem()
		return u.loadField(st, t, pt, a.Field)
	}
	if ad, ok := fr.vals[x].(*Addr); ok && ad.kind == 'L' {
		return u.load(st, ad)
	}
	panic("no chain")
}

// ---- static effects ----

func (P *Prog) effects(f *ssa.Function, u *Unit) map[string]bool {
	if e, ok := u.effCache[f]; ok {
		return e
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	store := func(a ssa.Value) {
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				switch x.X.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr:
					a = x.X
					continue
				}
				if al, ok := x.X.(*ssa.Alloc); ok && P.addrOnly(al, map[ssa.Value]bool{}, u.specs) {
					return
				}
				t := x.X.Type().Underlying().(*types.Pointer).Elem()
				if !u.isImmutable(t, t.Underlying().(*types.Struct).Field(x.Field).Name()) {
					out[u.fieldKey(t, x.Field)] = true
				}
				return
			case *ssa.IndexAddr:
				switch t := x.X.Type().Underlying().(type) {
				case *types.Slice:
					out[u.elemKey(t.Elem())] = true
					return
				case *types.Pointer:
					switch x.X.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr:
						a = x.X
						continue
					}
					out[u.elemKey(t.Elem().Underlying().(*types.Array).Elem())] = true
				}
				return
			case *ssa.Global:
				k := "V|" + shortPkg(x.Pkg.Pkg.Path()) + "." + x.Name()
				u.keySort[k] = u.enc.sortOf(x.Type().Underlying().(*types.Pointer).Elem())
				out[k] = true
				return
			case *ssa.Alloc:
				if P.addrOnly(x, map[ssa.Value]bool{}, u.specs) {
					return
				}
			}
			t := a.Type().Underlying().(*types.Pointer).Elem()
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if !u.isImmutable(t, s.Field(i).Name()) {
						out[u.fieldKey(t, i)] = true
					}
				}
				return
			}
			if at, ok := t.Underlying().(*types.Array); ok {
				out[u.elemKey(at.Elem())] = true
				return
			}
			out[u.cellKey(t)] = true
			return
		}
	}
	spec := func(sp *FuncSpec) {
		for _, k := range sp.Writes {
			if k != "al" {
				if _, ok := u.keySort[k]; !ok {
					u.resolveKey(k)
				}
			}
			out[k] = true
		}
		for _, c := range sp.Modifies {
			if id, ok := c.Expr.(*ast.Ident); ok {
				out["G!"+id.Name] = true
			}
		}
	}
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					store(x.Addr)
				case *ssa.Alloc:
					t := x.Type().Underlying().(*types.Pointer).Elem()
					if at, ok := t.Underlying().(*types.Array); ok && hasSliceUse(x) {
						out["al"] = true
						out[u.elemKey(at.Elem())] = true
					} else if !P.addrOnly(x, map[ssa.Value]bool{}, u.specs) {
						out["al"] = true
						store(x)
					}
				case *ssa.MakeSlice:
					out["al"] = true
					out[u.elemKey(x.Type().Underlying().(*types.Slice).Elem())] = true
				case *ssa.MakeMap:
					out["al"] = true
					out[u.mapKey("MD", x.Type().Underlying().(*types.Map))] = true
				case *ssa.MapUpdate:
					mt := x.Map.Type().Underlying().(*types.Map)
					out[u.mapKey("MD", mt)] = true
					out[u.mapKey("MV", mt)] = true
				case *ssa.Convert:
					if s, ok := x.Type().Underlying().(*types.Slice); ok {
						out["al"] = true
						out[u.elemKey(s.Elem())] = true
					}
				case *ssa.MakeClosure:
					visit(x.Fn.(*ssa.Function))
				case *ssa.Call:
					c := x.Call
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy":
							out["al"] = true
							out[u.elemKey(c.Args[0].Type().Underlying().(*types.Slice).Elem())] = true
						case "delete":
							out[u.mapKey("MD", c.Args[0].Type().Underlying().(*types.Map))] = true
						}
						continue
					}
					for _, a := range c.Args {
						if fn, ok := a.(*ssa.Function); ok {
							visit(fn)
						}
						// copying a local in and out allocates a temporary
						if _, ok := a.Type().Underlying().(*types.Pointer); ok {
							switch a.(type) {
							case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr:
								out["al"] = true
							}
						}
					}
					if c.IsInvoke() {
						key := ""
						if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
							key = shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
						} else if ok {
							key = n.Obj().Name()
						}
						if im, ok := u.specs.Impl[key]; ok {
							if m := P.implMethod(im, c.Method); m != nil {
								visit(m)
							}
							continue
						}
						for _, k := range []string{key, ifaceOwner(c.Method)} {
							if sp := u.specs.Funcs[k+"."+c.Method.Name()]; sp != nil {
								spec(sp)
								break
							}
						}
						continue
					}
					fn := c.StaticCallee()
					if fn == nil {
						if sp := u.specs.Funcs[valueKey(c.Value.Type())]; sp != nil {
							spec(sp)
						}
						continue
					}
					if sp := u.specs.Funcs[funcKey(fn)]; sp != nil && !sp.Inline {
						spec(sp)
						if sp.Trusted {
							continue
						}
					}
					for _, sp := range u.specs.variants(funcKey(fn)) {
						spec(sp)
					}
					if fn.Pkg == nil || isBody(fn.Pkg.Pkg.Path()) || fn.Synthetic != "" {
						visit(fn)
					} else {
						out["al"] = true
					}
				}
			}
		}
	}
	visit(f)
	if u.effCache == nil {
		u.effCache = map[*ssa.Function]map[string]bool{}
	}
	u.effCache[f] = out
	return out
}

func (P *Prog) implMethod(impl string, m *types.Func) *ssa.Function {
	star := strings.HasPrefix(impl, "*")
	n := strings.TrimPrefix(impl, "*")
	k := strings.LastIndex(n, ".")
	p := P.pkgs[repoPath+"/"+n[:k]]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(n[k+1:])
	if o == nil {
		return nil
	}
	t := o.Type()
	if star {
		t = types.NewPointer(t)
	}
	return P.prog.LookupMethod(t, m.Pkg(), m.Name())
}

// ---- evaluation of pure closures on symbolic arguments ----

type pureEval struct {
	u    *Unit
	st   *State
	seen map[*ssa.Function]bool
}

func (p *pureEval) run(f *ssa.Function, args []Val, binds []Val) Term {
	if len(loopsOf(f)) > 0 || len(f.Blocks) == 0 || p.seen[f] {
		panic(unsupported("closure too complex"))
	}
	p.seen[f] = true
	defer delete(p.seen, f)
	vals := map[ssa.Value]Val{}
	for i, a := range f.Params {
		vals[a] = args[i]
	}
	for i, a := range f.FreeVars {
		vals[a] = binds[i]
	}
	return p.block(f, f.Blocks[0], nil, vals)
}

func (p *pureEval) block(f *ssa.Function, b, from *ssa.BasicBlock, vals map[ssa.Value]Val) Term {
	u := p.u
	fr := &Frame{fn: f, vals: vals}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			for i, q := range b.Preds {
				if q == from {
					vals[x] = u.val(fr, x.Edges[i])
				}
			}
		case *ssa.Return:
			return u.term(u.val(fr, x.Results[0]))
		case *ssa.Jump:
			return p.block(f, b.Succs[0], b, vals)
		case *ssa.If:
			c := u.term(u.val(fr, x.Cond))
			v2 := map[ssa.Value]Val{}
			for k, v := range vals {
				v2[k] = v
			}
			t := p.block(f, b.Succs[0], b, vals)
			e := p.block(f, b.Succs[1], b, v2)
			return T(t.Sort, "(ite %s %s %s)", c.S, t.S, e.S)
		case *ssa.FieldAddr:
			pt := x.X.Type().Underlying().(*types.Pointer).Elem()
			switch q := u.val(fr, x.X).(type) {
			case Term:
				vals[x] = u.fieldAddr(q, pt, x.Field)
			case *Addr:
				n := *q
				n.path = append(append([]sel{}, q.path...), sel{typ: pt, field: x.Field})
				vals[x] = &n
			}
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				t := u.load(p.st, u.addr(fr, x.X))
				if c, ok := u.clos[t.S]; ok {
					vals[x] = c
				} else {
					vals[x] = t
				}
			case token.NOT:
				vals[x] = T("Bool", "(not %s)", u.term(u.val(fr, x.X)).S)
			default:
				panic(unsupported("pure unop"))
			}
		case *ssa.BinOp:
			a, c := u.val(fr, x.X), u.val(fr, x.Y)
			switch {
			case x.Op == token.EQL:
				vals[x] = Term{u.eq(a, c, x.X.Type()), "Bool"}
			case x.Op == token.NEQ:
				vals[x] = Term{"(not " + u.eq(a, c, x.X.Type()) + ")", "Bool"}
			case cmpInt[x.Op] != "" && u.term(a).Sort == "Int":
				vals[x] = T("Bool", "(%s %s %s)", cmpInt[x.Op], u.term(a).S, u.term(c).S)
			default:
				panic(unsupported("pure binop"))
			}
		case *ssa.Call:
			if x.Call.IsInvoke() {
				panic(unsupported("pure invoke"))
			}
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				t := u.term(u.val(fr, x.Call.Args[0]))
				vals[x] = T(u.enc.I(), "(s-len %s)", t.S)
				continue
			}
			fn := x.Call.StaticCallee()
			var args []Val
			for _, a := range x.Call.Args {
				args = append(args, u.val(fr, a))
			}
			if fn == nil {
				if c, ok := u.val(fr, x.Call.Value).(*Clos); ok {
					vals[x] = p.run(c.fn, args, c.binds)
					continue
				}
				panic(unsupported("pure dynamic call"))
			}
			if sp := u.specs.Funcs[funcKey(fn)]; sp != nil && sp.Pure && x.Call.Signature().Results().Len() == 1 {
				n := fmt.Sprintf("pf$%s.0", mangle(sp.Key))
				var ss, as []string
				for _, a := range args {
					t := u.term(a)
					ss = append(ss, t.Sort)
					as = append(as, t.S)
				}
				so := u.enc.sortOf(x.Type())
				u.enc.decl(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), so))
				vals[x] = T(so, "(%s %s)", n, strings.Join(as, " "))
				continue
			}
			if fn.Pkg != nil && isRepo(fn.Pkg.Pkg.Path()) {
				vals[x] = p.run(fn, args, nil)
				continue
			}
			panic(unsupported("pure call"))
		default:
			panic(unsupported(fmt.Sprintf("pure %T", in)))
		}
	}
	panic(unsupported("pure block"))
}
