package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

// Term is an SMT term with its sort.
type Term struct {
	S    string
	Sort string
}

func T(sort, f string, a ...interface{}) Term { return Term{fmt.Sprintf(f, a...), sort} }

var (
	tTrue  = Term{"true", "Bool"}
	tFalse = Term{"false", "Bool"}
)

// Enc encodes Go types as SMT sorts for one verification unit.
type Enc struct {
	bv      bool // machine integers as bit vectors
	decls   []string
	have    map[string]bool
	tags    map[string]int
	tagType map[string]types.Type
	strs    map[string]string
	nstr    int
	structs map[string]*types.Struct
	floats  map[string]string
}

func newEnc(bv bool) *Enc {
	e := &Enc{bv: bv, have: map[string]bool{}, tags: map[string]int{}, tagType: map[string]types.Type{}, strs: map[string]string{}, structs: map[string]*types.Struct{}, floats: map[string]string{}}
	I := e.I()
	e.decl("slice", fmt.Sprintf("(declare-datatypes ((Slice 0)) (((mk-slice (s-arr Int) (s-off %s) (s-len %s) (s-cap %s)))))", I, I, I))
	e.decl("iface", "(declare-datatypes ((Iface 0)) (((mk-iface (i-tag Int) (i-val Int)))))")
	e.decl("str", "(declare-sort Str 0)")
	e.decl("strlen", fmt.Sprintf("(declare-fun strlen (Str) %s)", I))
	e.decl("strat", fmt.Sprintf("(declare-fun strat (Str %s) %s)", I, e.intSort(8)))
	e.decl("strcat", "(declare-fun strcat (Str Str) Str)")
	e.decl("float", "(declare-sort Float 0)")
	// doubles: the order, with doubles identified up to the sign of zero and the payload of NaN
	e.decl("fltlt", "(declare-fun fltlt (Float Float) Bool)")
	e.decl("fltnan", "(declare-fun fltnan (Float) Bool)")
	e.decl("flteq", "(define-fun flteq ((a Float) (b Float)) Bool (and (= a b) (not (fltnan a))))")
	e.decl("fltle", "(define-fun fltle ((a Float) (b Float)) Bool (or (fltlt a b) (flteq a b)))")
	e.decl("axflt1", "(assert (forall ((a Float) (b Float)) (! (and (=> (fltlt a b) (not (fltlt b a))) (=> (fltlt a b) (not (= a b))) (=> (fltlt a b) (and (not (fltnan a)) (not (fltnan b)))) (or (fltnan a) (fltnan b) (= a b) (fltlt a b) (fltlt b a))) :pattern ((fltlt a b)))))")
	e.decl("axflt2", "(assert (forall ((a Float) (b Float)) (! (=> (and (fltnan a) (fltnan b)) (= a b)) :pattern ((fltnan a) (fltnan b)))))")
	e.decl("emod", "(declare-fun emod (Int Int) Int)")
	e.decl("axemod", "(assert (forall ((a Int) (n Int)) (! (=> (> n 0) (and (<= 0 (emod a n)) (< (emod a n) n) (= (emod (- a) n) (ite (= (emod a n) 0) 0 (- n (emod a n)))) (=> (and (<= 0 a) (< a n)) (= (emod a n) a)))) :pattern ((emod a n)))))")
	e.decl("strlt", "(declare-fun strlt (Str Str) Bool)")
	e.decl("axstrlt", "(assert (forall ((a Str) (b Str)) (! (and (=> (strlt a b) (not (strlt b a))) (=> (= a b) (not (strlt a b))) (or (= a b) (strlt a b) (strlt b a))) :pattern ((strlt a b)))))")
	return e
}

func (e *Enc) decl(key, s string) {
	if !e.have[key] {
		e.have[key] = true
		e.decls = append(e.decls, s)
	}
}

// I is the sort of a Go int.
func (e *Enc) I() string { return e.intSort(64) }

func (e *Enc) intSort(w int) string {
	if e.bv {
		return fmt.Sprintf("(_ BitVec %d)", w)
	}
	return "Int"
}

func (e *Enc) num(w int, v int64) string { return e.numBig(w, big.NewInt(v)) }

func (e *Enc) numBig(w int, v *big.Int) string {
	if e.bv {
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		x := new(big.Int).Mod(v, m)
		return fmt.Sprintf("(_ bv%s %d)", x.String(), w)
	}
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func intWidth(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

var aliasUint8, aliasRune = regexp.MustCompile(`\buint8\b`), regexp.MustCompile(`\brune\b`)

func typeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
	// aliases have one name
	if strings.Contains(s, "uint8") {
		s = aliasUint8.ReplaceAllString(s, "byte")
	}
	if strings.Contains(s, "rune") {
		s = aliasRune.ReplaceAllString(s, "int32")
	}
	return s
}

func mangle(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("p$")
		case c == '[':
			b.WriteString("l$")
		case c == ']':
			b.WriteString("$")
		case c == '/':
			b.WriteString(".")
		default:
			fmt.Fprintf(&b, "$%x$", c)
		}
	}
	return b.String()
}

func (e *Enc) sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return "Bool"
		}
		if w, _, ok := intWidth(u); ok {
			return e.intSort(w)
		}
		if u.Info()&types.IsString != 0 {
			return "Str"
		}
		if u.Info()&types.IsFloat != 0 {
			return "Float"
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		return e.structSort(t, u)
	case *types.Array:
		return "(Array " + e.I() + " " + e.sortOf(u.Elem()) + ")"
	}
	panic(unsupported("sort of type " + t.String()))
}

type unsupportedErr string

func unsupported(s string) error       { return unsupportedErr(s) }
func (u unsupportedErr) Error() string { return "unsupported: " + string(u) }

func (e *Enc) structSort(t types.Type, u *types.Struct) string {
	name := "St." + mangle(typeName(t))
	if e.have["st:"+name] {
		return name
	}
	e.have["st:"+name] = true
	if u.NumFields() == 0 {
		e.decls = append(e.decls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk$%s))))", name, name))
		return name
	}
	var fs []string
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, fmt.Sprintf("(%s %s)", e.accessor(name, i), e.sortOf(u.Field(i).Type())))
	}
	e.decls = append(e.decls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk$%s %s))))", name, name, strings.Join(fs, " ")))
	e.structs[name] = u
	return name
}

func (e *Enc) accessor(sort string, i int) string { return fmt.Sprintf("%s.%d", sort, i) }

func (e *Enc) zero(t types.Type) Term {
	s := e.sortOf(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return Term{e.num(w, 0), s}
		}
		if u.Info()&types.IsBoolean != 0 {
			return tFalse
		}
		if u.Info()&types.IsString != 0 {
			return e.str("")
		}
		if u.Info()&types.IsFloat != 0 {
			return e.float("0")
		}
		return Term{"0", "Int"}
	case *types.Slice:
		z := e.num(64, 0)
		return Term{fmt.Sprintf("(mk-slice 0 %s %s %s)", z, z, z), s}
	case *types.Interface:
		return Term{"(mk-iface 0 0)", s}
	case *types.Struct:
		if u.NumFields() == 0 {
			return Term{"mk$" + s, s}
		}
		var b strings.Builder
		b.WriteString("(mk$" + s)
		for i := 0; i < u.NumFields(); i++ {
			b.WriteString(" " + e.zero(u.Field(i).Type()).S)
		}
		b.WriteString(")")
		return Term{b.String(), s}
	case *types.Array:
		return Term{fmt.Sprintf("((as const %s) %s)", s, e.zero(u.Elem()).S), s}
	}
	return Term{"0", "Int"}
}

func (e *Enc) float(v string) Term {
	n := "flt$" + mangle(v)
	e.decl(n, "(declare-const "+n+" Float)")
	return Term{n, "Float"}
}

func (e *Enc) str(v string) Term {
	if n, ok := e.strs[v]; ok {
		return Term{n, "Str"}
	}
	n := fmt.Sprintf("str$%d", e.nstr)
	e.nstr++
	e.strs[v] = n
	e.decls = append(e.decls, "(declare-const "+n+" Str)")
	e.decls = append(e.decls, fmt.Sprintf("(assert (= (strlen %s) %s))", n, e.num(64, int64(len(v)))))
	if len(v) <= 16 {
		for i := 0; i < len(v); i++ {
			e.decls = append(e.decls, fmt.Sprintf("(assert (= (strat %s %s) %s))", n, e.num(64, int64(i)), e.num(8, int64(v[i]))))
		}
	}
	if v == "" {
		e.decls = append(e.decls, fmt.Sprintf("(assert (forall ((s Str)) (! (=> (= (strlen s) %s) (= s %s)) :pattern ((strlen s)))))", e.num(64, 0), n))
	}
	for o, on := range e.strs {
		if o != v && len(o) == len(v) {
			e.decls = append(e.decls, fmt.Sprintf("(assert (not (= %s %s)))", n, on))
		}
	}
	return Term{n, "Str"}
}

func (e *Enc) constant(v constant.Value, t types.Type) Term {
	if v == nil {
		return e.zero(t)
	}
	s := e.sortOf(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			if constant.BoolVal(v) {
				return tTrue
			}
			return tFalse
		}
		if w, _, ok := intWidth(u); ok {
			x, _ := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
			return Term{e.numBig(w, x), s}
		}
		if u.Info()&types.IsString != 0 {
			return e.str(constant.StringVal(v))
		}
		if u.Info()&types.IsFloat != 0 {
			return e.float(v.ExactString())
		}
	}
	panic(unsupported("constant of type " + t.String()))
}

// tag numbers the dynamic types of interface values.
func (e *Enc) tag(t types.Type) int {
	n := typeName(t)
	if i, ok := e.tags[n]; ok {
		return i
	}
	// stable numbering: by name hash would also do; order of first use is fine inside one query
	i := len(e.tags) + 1
	e.tags[n] = i
	e.tagType[n] = t
	return i
}

// box converts a value of dynamic type t to an interface payload.
func (e *Enc) box(v Term, t types.Type) Term {
	if isRefType(t) {
		return v
	}
	n := "box$" + mangle(typeName(t))
	s := e.sortOf(t)
	if !e.have[n] {
		e.decl(n, fmt.Sprintf("(declare-fun %s (%s) Int)", n, s))
		e.decl("un"+n, fmt.Sprintf("(declare-fun un%s (Int) %s)", n, s))
		e.decl("ax"+n, fmt.Sprintf("(assert (forall ((x %s)) (! (= (un%s (%s x)) x) :pattern ((%s x)))))", s, n, n, n))
	}
	return T("Int", "(%s %s)", n, v.S)
}

func (e *Enc) unbox(v Term, t types.Type) Term {
	if isRefType(t) {
		return v
	}
	e.box(e.zero(t), t)
	return T(e.sortOf(t), "(unbox$%s %s)", mangle(typeName(t)), v.S)
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// rangeFact says that x is in the range of integer type t (mathematical mode only).
func (e *Enc) rangeFact(x Term, t types.Type) string {
	if e.bv {
		return ""
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	w, s, ok := intWidth(b)
	if !ok {
		return ""
	}
	lo, hi := rangeOf(w, s)
	return fmt.Sprintf("(and (<= %s %s) (<= %s %s))", e.numBig(w, lo), x.S, x.S, e.numBig(w, hi))
}

func rangeOf(w int, signed bool) (*big.Int, *big.Int) {
	one := big.NewInt(1)
	if signed {
		hi := new(big.Int).Lsh(one, uint(w-1))
		return new(big.Int).Neg(hi), new(big.Int).Sub(hi, one)
	}
	hi := new(big.Int).Lsh(one, uint(w))
	return big.NewInt(0), hi.Sub(hi, one)
}

// valueKey is the key of the contract of the function values of a type.
func valueKey(t types.Type) string {
	if s, ok := t.(*types.Signature); ok {
		unname := func(tu *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < tu.Len(); i++ {
				vs = append(vs, types.NewVar(0, nil, "", tu.At(i).Type()))
			}
			return types.NewTuple(vs...)
		}
		t = types.NewSignatureType(nil, nil, nil, unname(s.Params()), unname(s.Results()), s.Variadic())
	}
	return "value." + strings.ReplaceAll(typeName(t), " ", "")
}
