package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// TV is a specification value: a term with its Go type (nil for logic sorts).
type TV struct {
	Term
	typ types.Type
}

// Env is the evaluation environment of a specification expression.
type Env struct {
	u         *Unit
	vars      map[string]TV
	st        *State
	old       *State
	pkg       *types.Package
	file      string
	depth     int
	loopEntry func() *Env
	iter      string // local key of the keys that the loop over a map has visited
}

func (e *Env) child() *Env {
	n := *e
	n.vars = make(map[string]TV, len(e.vars)+2)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

type specErr struct{ msg string }

func (s specErr) Error() string { return s.msg }

func specFail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

var basicTypes = map[string]types.Type{
	"int": types.Typ[types.Int], "int64": types.Typ[types.Int64], "int32": types.Typ[types.Int32], "int16": types.Typ[types.Int16], "int8": types.Typ[types.Int8],
	"uint": types.Typ[types.Uint], "uint64": types.Typ[types.Uint64], "uint32": types.Typ[types.Uint32], "uint16": types.Typ[types.Uint16], "uint8": types.Typ[types.Uint8],
	"byte": types.Typ[types.Uint8], "bool": types.Typ[types.Bool], "string": types.Typ[types.String], "float64": types.Typ[types.Float64], "float32": types.Typ[types.Float32],
	"error": types.Universe.Lookup("error").Type(),
}

// resolveType returns a Go type, or a logic sort when the expression names one.
// resolveGoType resolves the name of a Go type; a type of the package hides a logic sort.
func (P *Prog) resolveGoType(x ast.Expr, pkg *types.Package, specs *Specs) (types.Type, string) {
	if id, ok := x.(*ast.Ident); ok && pkg != nil {
		if tn, ok := pkg.Scope().Lookup(id.Name).(*types.TypeName); ok {
			return tn.Type(), ""
		}
	}
	return P.resolveType(x, pkg, specs)
}

func (P *Prog) resolveType(x ast.Expr, pkg *types.Package, specs *Specs) (types.Type, string) {
	switch t := x.(type) {
	case *ast.Ident:
		if specs.Sorts[t.Name] || t.Name == "Int" || t.Name == "Bool" || t.Name == "Str" || t.Name == "Iface" || t.Name == "Slice" || t.Name == "Float" {
			return nil, t.Name
		}
		if t.Name == "bytes" {
			return nil, "(Array Int Int)"
		}
		if b, ok := basicTypes[t.Name]; ok {
			return b, ""
		}
		if pkg != nil {
			if o := pkg.Scope().Lookup(t.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type(), ""
				}
			}
		}
		specFail("unknown type %s", t.Name)
	case *ast.StarExpr:
		et, s := P.resolveGoType(t.X, pkg, specs)
		if s != "" {
			specFail("pointer to logic sort")
		}
		return types.NewPointer(et), ""
	case *ast.ArrayType:
		et, s := P.resolveType(t.Elt, pkg, specs)
		if s != "" {
			id, ok := t.Elt.(*ast.Ident)
			var tn *types.TypeName
			if ok && pkg != nil {
				tn, _ = pkg.Scope().Lookup(id.Name).(*types.TypeName)
			}
			if tn == nil {
				specFail("slice of logic sort")
			}
			et = tn.Type()
		}
		return types.NewSlice(et), ""
	case *ast.StructType:
		if len(t.Fields.List) == 0 {
			return types.NewStruct(nil, nil), ""
		}
	case *ast.MapType:
		kt, _ := P.resolveType(t.Key, pkg, specs)
		et, _ := P.resolveType(t.Value, pkg, specs)
		return types.NewMap(kt, et), ""
	case *ast.SelectorExpr:
		id, ok := t.X.(*ast.Ident)
		if ok {
			if p := P.findPkg(id.Name, pkg); p != nil {
				if tn, ok := p.Scope().Lookup(t.Sel.Name).(*types.TypeName); ok {
					return tn.Type(), ""
				}
			}
			specFail("unknown type %s.%s", id.Name, t.Sel.Name)
		}
	case *ast.CallExpr: // sort("(Array Int Bool)")
		if id, ok := t.Fun.(*ast.Ident); ok && id.Name == "sort" {
			lit := t.Args[0].(*ast.BasicLit)
			return nil, strings.Trim(lit.Value, "\"`")
		}
	case *ast.ParenExpr:
		return P.resolveType(t.X, pkg, specs)
	}
	specFail("bad type expression %T", x)
	return nil, ""
}

// findPkg finds a package by name: among the imports of pkg first, then anywhere in the repository.
func (P *Prog) findPkg(name string, pkg *types.Package) *types.Package {
	if pkg != nil {
		if pkg.Name() == name {
			return pkg
		}
		for _, i := range pkg.Imports() {
			if i.Name() == name {
				return i
			}
		}
	}
	best := ""
	for path, p := range P.pkgs {
		if p.Pkg.Name() == name && (best == "" || isRepo(path) && !isRepo(best) || isRepo(path) == isRepo(best) && path < best) {
			best = path
		}
	}
	if best != "" {
		return P.pkgs[best].Pkg
	}
	return nil
}

func (e *Env) bool(x ast.Expr) string {
	v := e.eval(x)
	if v.Sort != "Bool" {
		specFail("boolean expected, got %s of sort %s", v.S, v.Sort)
	}
	return v.S
}

func isNilIdent(x ast.Expr) bool {
	id, ok := x.(*ast.Ident)
	return ok && id.Name == "nil"
}

func (e *Env) isNil(v TV) string {
	switch v.Sort {
	case "Slice":
		return fmt.Sprintf("(= (s-arr %s) 0)", v.S)
	case "Iface":
		return fmt.Sprintf("(= (i-tag %s) 0)", v.S)
	}
	return fmt.Sprintf("(= %s 0)", v.S)
}

func (e *Env) intType(a, b TV) (types.Type, int, bool) {
	for _, v := range []TV{a, b} {
		if v.typ != nil {
			if bt, ok := v.typ.Underlying().(*types.Basic); ok && bt.Kind() != types.UntypedInt && bt.Kind() != types.UntypedRune {
				if w, s, ok := intWidth(bt); ok {
					return v.typ, w, s
				}
			}
		}
	}
	return types.Typ[types.Int], 64, true
}

// fit converts an untyped constant to the width of the other operand (bit-vector mode).
func (e *Env) fit(v TV, w int) TV {
	if !e.u.enc.bv || v.typ == nil {
		return v
	}
	if b, ok := v.typ.(*types.Basic); ok && b.Kind() == types.UntypedInt {
		x, _ := new(big.Int).SetString(v.S, 10)
		return TV{Term{e.u.enc.numBig(w, x), e.u.enc.intSort(w)}, v.typ}
	}
	return v
}

func (e *Env) untyped(v *big.Int) TV {
	if e.u.enc.bv {
		return TV{Term{v.String(), "untyped"}, types.Typ[types.UntypedInt]}
	}
	return TV{Term{e.u.enc.numBig(64, v), "Int"}, types.Typ[types.UntypedInt]}
}

func isUntyped(v TV) bool {
	b, ok := v.typ.(*types.Basic)
	return ok && b.Kind() == types.UntypedInt
}

func (e *Env) eval(x ast.Expr) TV {
	u := e.u
	switch t := x.(type) {
	case *ast.ParenExpr:
		return e.eval(t.X)
	case *ast.BasicLit:
		switch t.Kind {
		case token.INT:
			v, ok := new(big.Int).SetString(t.Value, 0)
			if !ok {
				specFail("bad integer %s", t.Value)
			}
			return e.untyped(v)
		case token.CHAR:
			v := constant.MakeFromLiteral(t.Value, t.Kind, 0)
			i, _ := constant.Int64Val(v)
			return e.untyped(big.NewInt(i))
		case token.STRING:
			v := constant.StringVal(constant.MakeFromLiteral(t.Value, t.Kind, 0))
			return TV{u.enc.str(v), types.Typ[types.String]}
		}
	case *ast.Ident:
		return e.ident(t.Name)
	case *ast.UnaryExpr:
		switch t.Op {
		case token.NOT:
			return TV{T("Bool", "(not %s)", e.bool(t.X)), types.Typ[types.Bool]}
		case token.SUB:
			v := e.eval(t.X)
			if isUntyped(v) {
				if b, ok := t.X.(*ast.BasicLit); ok {
					n, _ := new(big.Int).SetString(b.Value, 0)
					return e.untyped(n.Neg(n))
				}
			}
			if u.enc.bv {
				return TV{T(v.Sort, "(bvneg %s)", v.S), v.typ}
			}
			return TV{T(v.Sort, "(- %s)", v.S), v.typ}
		case token.XOR:
			v := e.eval(t.X)
			return TV{T(v.Sort, "(bvnot %s)", v.S), v.typ}
		}
	case *ast.StarExpr:
		v := e.eval(t.X)
		p, ok := v.typ.Underlying().(*types.Pointer)
		if !ok {
			specFail("dereference of %s", v.typ)
		}
		return TV{u.loadPtr(e.st, v.Term, p.Elem()), p.Elem()}
	case *ast.BinaryExpr:
		return e.binary(t)
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				if u.specs.macro(id.Name, e.file) == nil {
					if p := u.P.findPkg(id.Name, e.pkg); p != nil {
						if o := p.Scope().Lookup(t.Sel.Name); o != nil {
							return e.object(o)
						}
					}
				}
			}
		}
		return e.field(e.eval(t.X), t.Sel.Name)
	case *ast.IndexExpr:
		v := e.eval(t.X)
		i := e.fit(e.eval(t.Index), 64)
		if v.Sort == "Str" {
			return TV{T(u.enc.intSort(8), "(strat %s %s)", v.S, i.S), types.Typ[types.Uint8]}
		}
		if v.typ != nil {
			switch ut := v.typ.Underlying().(type) {
			case *types.Slice:
				return TV{u.elt(e.st, v.Term, i.Term, ut.Elem()), ut.Elem()}
			case *types.Map:
				return TV{T(u.enc.sortOf(ut.Elem()), "(select (select %s %s) %s)", u.read(e.st, u.mapKey("MV", ut)).S, v.S, i.S), ut.Elem()}
			case *types.Array:
				return TV{T(u.enc.sortOf(ut.Elem()), "(select %s %s)", v.S, i.S), ut.Elem()}
			}
		}
		if strings.HasPrefix(v.Sort, "(Array ") {
			return TV{T(arrayElem(v.Sort), "(select %s %s)", v.S, i.S), nil}
		}
		specFail("index of %s (sort %s)", v.S, v.Sort)
	case *ast.CallExpr:
		return e.call(t)
	}
	specFail("unsupported specification expression %T", x)
	return TV{}
}

// arrayElem returns E of "(Array I E)".
func arrayElem(sort string) string {
	a := sexprArgs(sort)
	return a[2]
}

func (e *Env) ident(n string) TV {
	u := e.u
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return TV{tTrue, types.Typ[types.Bool]}
	case "false":
		return TV{tFalse, types.Typ[types.Bool]}
	case "nil":
		return TV{Term{"0", "Int"}, types.Typ[types.UntypedNil]}
	case "allocated":
		return TV{u.read(e.st, "al"), nil}
	}
	if s, ok := u.specs.Ghosts[n]; ok {
		return TV{u.read(e.st, "G!"+n), e.sortType(s)}
	}
	if m := u.specs.macro(n, e.file); m != nil && len(m.Params) == 0 {
		return e.macro(m, nil)
	}
	if f, ok := u.specs.Logic[n]; ok && len(f.Args) == 0 {
		u.useLogic(n)
		return TV{Term{n, f.Res}, e.sortType(f.Res)}
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(n); o != nil {
			return e.object(o)
		}
	}
	specFail("unknown name %s", n)
	return TV{}
}

// sortType gives a Go type to logic results where that is natural.
func (e *Env) sortType(s string) types.Type {
	switch s {
	case "Bool":
		return types.Typ[types.Bool]
	case "Str":
		return types.Typ[types.String]
	case "Int":
		if !e.u.enc.bv {
			return types.Typ[types.Int]
		}
	case "(_ BitVec 64)":
		return types.Typ[types.Uint64]
	case "(_ BitVec 32)":
		return types.Typ[types.Uint32]
	case "(_ BitVec 8)":
		return types.Typ[types.Uint8]
	}
	return nil
}

func (e *Env) object(o types.Object) TV {
	switch o := o.(type) {
	case *types.Const:
		b := o.Type().Underlying().(*types.Basic)
		if b.Kind() == types.UntypedInt {
			x, _ := new(big.Int).SetString(constant.ToInt(o.Val()).ExactString(), 10)
			return e.untyped(x)
		}
		return TV{e.u.enc.constant(o.Val(), o.Type()), o.Type()}
	case *types.Var:
		return TV{e.u.global(e.st, o), o.Type()}
	}
	specFail("cannot use object %s", o.Name())
	return TV{}
}

func (e *Env) field(v TV, name string) TV {
	u := e.u
	if v.typ == nil {
		// logic selector: x.sel
		if f, ok := u.specs.Logic[name]; ok && len(f.Args) == 1 && f.Args[0] == v.Sort {
			u.useLogic(name)
			return TV{T(f.Res, "(%s %s)", name, v.S), e.sortType(f.Res)}
		}
		specFail("field %s of logic value %s", name, v.S)
	}
	obj, path, _ := types.LookupFieldOrMethod(v.typ, true, e.pkg, name)
	if obj == nil {
		// unexported fields of other packages
		t := v.typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					path = []int{i}
					obj = st.Field(i)
				}
			}
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		specFail("no field %s in %s", name, v.typ)
	}
	cur := v
	for _, i := range path {
		if p, ok := cur.typ.Underlying().(*types.Pointer); ok {
			st := p.Elem().Underlying().(*types.Struct)
			cur = TV{u.loadField(e.st, cur.Term, p.Elem(), i), st.Field(i).Type()}
			continue
		}
		st := cur.typ.Underlying().(*types.Struct)
		s := u.enc.sortOf(cur.typ)
		cur = TV{T(u.enc.sortOf(st.Field(i).Type()), "(%s %s)", u.enc.accessor(s, i), cur.S), st.Field(i).Type()}
	}
	return cur
}

var cmpInt = map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}

func (e *Env) binary(t *ast.BinaryExpr) TV {
	u := e.u
	boolT := types.Typ[types.Bool]
	switch t.Op {
	case token.LAND:
		return TV{T("Bool", "(and %s %s)", e.bool(t.X), e.bool(t.Y)), boolT}
	case token.LOR:
		return TV{T("Bool", "(or %s %s)", e.bool(t.X), e.bool(t.Y)), boolT}
	}
	if t.Op == token.EQL || t.Op == token.NEQ {
		var s string
		switch {
		case isNilIdent(t.Y):
			s = e.isNil(e.eval(t.X))
		case isNilIdent(t.X):
			s = e.isNil(e.eval(t.Y))
		default:
			a, b := e.eval(t.X), e.eval(t.Y)
			_, w, _ := e.intType(a, b)
			a, b = e.fit(a, w), e.fit(b, w)
			if a.Sort != b.Sort {
				specFail("comparison of sorts %s and %s (%s, %s)", a.Sort, b.Sort, a.S, b.S)
			}
			s = fmt.Sprintf("(= %s %s)", a.S, b.S)
		}
		if t.Op == token.NEQ {
			s = "(not " + s + ")"
		}
		return TV{Term{s, "Bool"}, boolT}
	}
	a, b := e.eval(t.X), e.eval(t.Y)
	if isUntyped(a) && isUntyped(b) && u.enc.bv {
		x, _ := new(big.Int).SetString(a.S, 10)
		y, _ := new(big.Int).SetString(b.S, 10)
		z := new(big.Int)
		switch t.Op {
		case token.ADD:
			return e.untyped(z.Add(x, y))
		case token.SUB:
			return e.untyped(z.Sub(x, y))
		case token.MUL:
			return e.untyped(z.Mul(x, y))
		case token.SHL:
			return e.untyped(z.Lsh(x, uint(y.Int64())))
		}
	}
	typ, w, signed := e.intType(a, b)
	a, b = e.fit(a, w), e.fit(b, w)
	if a.Sort != b.Sort {
		if u.enc.bv && (t.Op == token.SHL || t.Op == token.SHR) {
			b = TV{u.bvResize(b.Term, w, false), typ}
		} else {
			specFail("operands of sorts %s and %s", a.Sort, b.Sort)
		}
	}
	if c, ok := cmpInt[t.Op]; ok {
		if a.Sort == "Float" || a.Sort == "Str" {
			return TV{u.cmp(t.Op, a.Term, b.Term), boolT}
		}
		if u.enc.bv {
			return TV{Term{bvCmp(t.Op, signed, a.S, b.S), "Bool"}, boolT}
		}
		return TV{T("Bool", "(%s %s %s)", c, a.S, b.S), boolT}
	}
	if a.Sort == "Str" && t.Op == token.ADD {
		return TV{T("Str", "(strcat %s %s)", a.S, b.S), a.typ}
	}
	if u.enc.bv {
		op := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl"}[t.Op]
		switch t.Op {
		case token.SHR:
			op = "bvlshr"
			if signed {
				op = "bvashr"
			}
		case token.QUO:
			op = "bvudiv"
			if signed {
				op = "bvsdiv"
			}
		case token.REM:
			op = "bvurem"
			if signed {
				op = "bvsrem"
			}
		}
		if op == "" {
			specFail("operator %s", t.Op)
		}
		return TV{T(a.Sort, "(%s %s %s)", op, a.S, b.S), typ}
	}
	op := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.QUO: "div", token.REM: "mod"}[t.Op]
	if op == "" {
		specFail("operator %s in integer mode", t.Op)
	}
	return TV{T(a.Sort, "(%s %s %s)", op, a.S, b.S), typ}
}

func (e *Env) macro(m *Macro, args []TV) TV {
	if e.depth > 60 {
		specFail("macro recursion in %s", m.Name)
	}
	n := &Env{u: e.u, st: e.st, old: e.old, pkg: e.pkg, file: m.File, depth: e.depth + 1, vars: map[string]TV{}, loopEntry: e.loopEntry}
	if m.Pkg != "" {
		if p := e.u.P.pkgs[repoPath+"/"+m.Pkg]; p != nil {
			n.pkg = p.Pkg
		}
	}
	if len(args) != len(m.Params) {
		specFail("macro %s: %d arguments", m.Name, len(args))
	}
	for i, p := range m.Params {
		n.vars[p] = args[i]
	}
	return n.eval(m.Body.Expr)
}

func (e *Env) call(t *ast.CallExpr) TV {
	u := e.u
	boolT := types.Typ[types.Bool]
	name := ""
	switch f := t.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.ArrayType, *ast.StarExpr, *ast.ParenExpr:
	case *ast.SelectorExpr:
		// pkg.Type(x) conversion
	}
	switch name {
	case "imp":
		return TV{T("Bool", "(=> %s %s)", e.bool(t.Args[0]), e.bool(t.Args[1])), boolT}
	case "iff":
		return TV{T("Bool", "(= %s %s)", e.bool(t.Args[0]), e.bool(t.Args[1])), boolT}
	case "ite":
		a, b := e.eval(t.Args[1]), e.eval(t.Args[2])
		_, w, _ := e.intType(a, b)
		a, b = e.fit(a, w), e.fit(b, w)
		r := a
		if isUntyped(a) || a.typ == types.Typ[types.UntypedNil] {
			r = b
		}
		if a.Sort != b.Sort {
			specFail("ite of sorts %s and %s", a.Sort, b.Sort)
		}
		return TV{T(r.Sort, "(ite %s %s %s)", e.bool(t.Args[0]), a.S, b.S), r.typ}
	case "old":
		n := *e
		if e.old != nil {
			n.st = e.old
		}
		return (&n).eval(t.Args[0])
	case "entry":
		if e.loopEntry == nil {
			specFail("entry() outside of an invariant")
		}
		n := e.loopEntry()
		for k, v := range e.vars {
			if _, ok := n.vars[k]; !ok {
				n.vars[k] = v
			}
		}
		return n.eval(t.Args[0])
	case "forall", "exists":
		n := e.child()
		var bs []string
		var guards []string
		i := 0
		for i+1 < len(t.Args) {
			id, ok := t.Args[i].(*ast.Ident)
			if !ok {
				break
			}
			typ, srt := u.P.resolveType(t.Args[i+1], e.pkg, u.specs)
			if typ != nil {
				srt = u.enc.sortOf(typ)
			} else if g := e.sortType(srt); g != nil {
				typ = g
			}
			u.qn++
			bn := fmt.Sprintf("%s?%d", id.Name, u.qn)
			n.vars[id.Name] = TV{Term{bn, srt}, typ}
			bs = append(bs, fmt.Sprintf("(%s %s)", bn, srt))
			i += 2
		}
		pats := ""
		for ; i < len(t.Args)-1; i++ {
			c := t.Args[i].(*ast.CallExpr)
			switch c.Fun.(*ast.Ident).Name {
			case "trig":
				pats += " :pattern ("
				for k, a := range c.Args {
					if k > 0 {
						pats += " "
					}
					pats += n.eval(a).S
				}
				pats += ")"
			}
		}
		body := n.bool(t.Args[len(t.Args)-1])
		for _, g := range guards {
			body = fmt.Sprintf("(=> %s %s)", g, body)
		}
		if pats != "" {
			body = "(! " + body + pats + ")"
		}
		return TV{T("Bool", "(%s (%s) %s)", name, strings.Join(bs, " "), body), boolT}
	case "let": // let(x, e, body)
		n := e.child()
		n.vars[t.Args[0].(*ast.Ident).Name] = e.eval(t.Args[1])
		return n.eval(t.Args[2])
	case "len", "cap":
		v := e.eval(t.Args[0])
		switch v.Sort {
		case "Slice":
			if name == "len" {
				return TV{Term{u.part(v.Term, 2), u.enc.I()}, types.Typ[types.Int]}
			}
			return TV{T(u.enc.I(), "(s-%s %s)", name, v.S), types.Typ[types.Int]}
		case "Str":
			return TV{T(u.enc.I(), "(strlen %s)", v.S), types.Typ[types.Int]}
		}
		specFail("len of %s", v.Sort)
	case "arr", "off":
		v := e.eval(t.Args[0])
		var ty types.Type
		s := "Int"
		if name == "off" {
			ty = types.Typ[types.Int]
			s = u.enc.I()
		}
		if name == "off" {
			return TV{Term{u.part(v.Term, 1), s}, ty}
		}
		return TV{Term{u.part(v.Term, 0), s}, ty}
	case "tag":
		return TV{T("Int", "(i-tag %s)", e.eval(t.Args[0]).S), nil}
	case "payload":
		return TV{T("Int", "(i-val %s)", e.eval(t.Args[0]).S), nil}
	case "fresh": // allocated since the old state
		v := e.eval(t.Args[0])
		o := e.old
		if o == nil {
			o = e.st
		}
		s := v.S
		if v.Sort == "Slice" {
			return TV{T("Bool", "(or (>= (s-arr %s) %s) (= (s-cap %s) %s))", s, u.read(o, "al").S, s, u.enc.num(64, 0)), boolT}
		}
		if v.Sort == "Iface" {
			s = "(i-val " + s + ")"
		}
		return TV{T("Bool", "(>= %s %s)", s, u.read(o, "al").S), boolT}
	case "isallocated":
		v := e.eval(t.Args[0])
		s := v.S
		if v.Sort == "Slice" {
			s = "(s-arr " + s + ")"
		}
		return TV{T("Bool", "(< %s %s)", s, u.read(e.st, "al").S), boolT}
	case "typeis":
		v := e.eval(t.Args[0])
		ty, _ := u.P.resolveGoType(t.Args[1], e.pkg, u.specs)
		return TV{T("Bool", "(= (i-tag %s) %d)", v.S, u.enc.tag(ty)), boolT}
	case "implements":
		v := e.eval(t.Args[0])
		ty, _ := u.P.resolveGoType(t.Args[1], e.pkg, u.specs)
		return TV{u.implements(v.Term, ty), boolT}
	case "as":
		v := e.eval(t.Args[0])
		ty, _ := u.P.resolveGoType(t.Args[1], e.pkg, u.specs)
		return TV{u.enc.unbox(T("Int", "(i-val %s)", v.S), ty), ty}
	case "iface":
		v := e.eval(t.Args[0])
		ty := v.typ
		if len(t.Args) > 1 {
			ty, _ = u.P.resolveGoType(t.Args[1], e.pkg, u.specs)
		}
		return TV{T("Iface", "(mk-iface %d %s)", u.enc.tag(ty), u.enc.box(v.Term, ty).S), nil}
	case "asptr": // asptr(intTerm, *T)
		v := e.eval(t.Args[0])
		ty, _ := u.P.resolveType(t.Args[1], e.pkg, u.specs)
		return TV{Term{v.S, u.enc.sortOf(ty)}, ty}
	case "conv": // conv(x, T): machine conversion
		v := e.eval(t.Args[0])
		ty, _ := u.P.resolveType(t.Args[1], e.pkg, u.specs)
		v = e.fit(v, 64)
		if u.enc.bv {
			w, _, _ := intWidth(ty.Underlying().(*types.Basic))
			_, _, sg := e.intType(v, v)
			return TV{u.bvResize(v.Term, w, sg), ty}
		}
		return TV{v.Term, ty}
	case "has": // has(m, k)
		v := e.eval(t.Args[0])
		k := e.eval(t.Args[1])
		mt := v.typ.Underlying().(*types.Map)
		k = e.fit(k, 64)
		return TV{T("Bool", "(select (select %s %s) %s)", u.read(e.st, u.mapKey("MD", mt)).S, v.S, k.S), boolT}
	case "papply": // papply(f, args...): pure function value application
		f := e.eval(t.Args[0])
		sig := f.typ.Underlying().(*types.Signature)
		var as []string
		for _, a := range t.Args[1:] {
			as = append(as, e.eval(a).S)
		}
		return u.papply(f.Term, sig, as)
	case "dom":
		v := e.eval(t.Args[0])
		mt := v.typ.Underlying().(*types.Map)
		return TV{T("(Array "+u.enc.sortOf(mt.Key())+" Bool)", "(select %s %s)", u.read(e.st, u.mapKey("MD", mt)).S, v.S), nil}
	case "visited": // in an invariant of a loop over a map: the key has been visited
		v, ok := e.st.m[e.iter]
		if e.iter == "" || !ok {
			specFail("visited outside a loop over a map")
		}
		return TV{T("Bool", "(select %s %s)", v.S, e.eval(t.Args[0]).S), boolT}
	case "atmk": // marker: elements of the slice are also found by their positions in the underlying array
		v := e.eval(t.Args[0])
		el := v.typ.Underlying().(*types.Slice).Elem()
		so := u.enc.sortOf(el)
		h := u.read(e.st, u.elemKey(el))
		at := u.atFn(so)
		n := "atmk$" + mangleSort(so)
		I := u.enc.I()
		u.enc.decl(n, fmt.Sprintf("(declare-fun %s ((Array %s %s) %s) Bool)", n, I, so, I))
		u.enc.decl("ax"+n, fmt.Sprintf("(assert (forall ((A (Array %s %s)) (o %s)) (! (%s A o) :pattern ((%s A o)))))", I, so, I, n, n))
		u.enc.decl("ay"+n, fmt.Sprintf("(assert (forall ((A (Array %s %s)) (o %s) (p %s)) (! (= (%s A o %s) (select A p)) :pattern ((%s A o) (select A p)))))", I, so, I, I, at, u.minus("p", "o"), n))
		return TV{T("Bool", "(%s (select %s (s-arr %s)) (s-off %s))", n, h.S, v.S, v.S), types.Typ[types.Bool]}
	case "elems": // contents of the underlying array
		v := e.eval(t.Args[0])
		st := v.typ.Underlying().(*types.Slice)
		h := u.read(e.st, u.elemKey(st.Elem()))
		return TV{T(arrayElem(h.Sort), "(select %s %s)", h.S, u.part(v.Term, 0)), nil}
	case "flteq", "fltlt", "fltle":
		return TV{T("Bool", "(%s %s %s)", name, e.eval(t.Args[0]).S, e.eval(t.Args[1]).S), boolT}
	case "fltnan":
		return TV{T("Bool", "(fltnan %s)", e.eval(t.Args[0]).S), boolT}
	case "wrapu64":
		u.enc.decl("wrap$false64", "(declare-fun wrap$false64 (Int) Int)")
		return TV{T("Int", "(wrap$false64 %s)", e.eval(t.Args[0]).S), types.Typ[types.Uint64]}
	case "tstr": // string constant as a term of its bytes
	}
	if m := u.specs.macro(name, e.file); m != nil {
		var args []TV
		for _, a := range t.Args {
			args = append(args, e.eval(a))
		}
		return e.macro(m, args)
	}
	if f, ok := u.specs.Logic[name]; ok {
		u.useLogic(name)
		if len(f.Args) != len(t.Args) {
			specFail("%s: %d arguments, want %d", name, len(t.Args), len(f.Args))
		}
		var as []string
		for i, a := range t.Args {
			v := e.eval(a)
			if isUntyped(v) && strings.HasPrefix(f.Args[i], "(_ BitVec ") {
				var w int
				fmt.Sscanf(f.Args[i], "(_ BitVec %d)", &w)
				v = e.fit(v, w)
			}
			if isNilIdent(a) && f.Args[i] == "Iface" {
				v = TV{Term{"(mk-iface 0 0)", "Iface"}, nil}
			}
			if v.Sort != f.Args[i] {
				specFail("%s: argument %d has sort %s, want %s (%s)", name, i, v.Sort, f.Args[i], v.S)
			}
			as = append(as, v.S)
		}
		if len(as) == 0 {
			return TV{Term{name, f.Res}, e.sortType(f.Res)}
		}
		return TV{T(f.Res, "(%s %s)", name, strings.Join(as, " ")), e.sortType(f.Res)}
	}
	// conversion T(x)
	if len(t.Args) == 1 {
		var ty types.Type
		func() {
			defer func() { recover() }()
			ty, _ = u.P.resolveType(t.Fun, e.pkg, u.specs)
		}()
		if ty != nil {
			v := e.eval(t.Args[0])
			if w, _, ok := isInt(ty); ok {
				if isUntyped(v) {
					return TV{e.fit(v, w).Term, ty}
				}
				if u.enc.bv {
					_, _, sg := e.intType(v, v)
					return TV{u.bvResize(v.Term, w, sg), ty}
				}
			}
			return TV{Term{v.S, u.enc.sortOf(ty)}, ty}
		}
	}
	specFail("unknown function %s in specification", name)
	return TV{}
}

func isInt(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	return intWidth(b)
}

func bvCmp(op token.Token, signed bool, a, b string) string {
	s := "u"
	if signed {
		s = "s"
	}
	o := map[token.Token]string{token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}[op]
	return fmt.Sprintf("(bv%s%s %s %s)", s, o, a, b)
}
