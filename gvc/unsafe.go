package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Unsafe is a pointer that went through unsafe.Pointer: the address of a value of one type seen as another.
type Unsafe struct {
	src        Val
	from, to   types.Type
	slice, idx Term // the element of a slice that src addresses
	fields     []int
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// unsafeLoad reads through a pointer of another type. These are modelled: fixed-size numbers at an element of
// a byte slice (little-endian), the fields of a slice header, a string at a string header.
func (r *runner) unsafeLoad(x *ssa.UnOp, p *Unsafe) Val {
	u, fr, st := r.u, r.fr, r.st
	if u.enc.bv {
		panic(unsupported("unsafe load in bit-vector mode"))
	}
	if w, _, ok := isInt(p.from); ok && w == 8 && p.slice.S != "" && len(p.fields) == 0 {
		tw, signed, isI := isInt(p.to)
		b, _ := p.to.Underlying().(*types.Basic)
		isF := b != nil && b.Info()&types.IsFloat != 0
		if isF {
			tw = 64
			if b.Kind() == types.Float32 {
				tw = 32
			}
		}
		if !isI && !isF {
			panic(unsupported("unsafe load of " + p.to.String()))
		}
		n := tw / 8
		u.assert(fmt.Sprintf("(<= (+ %s %d) (s-len %s))", p.idx.S, n, p.slice.S), "unsafe", fr.where()+fmt.Sprintf("%d bytes inside the slice", n), u.pos(x.Pos()))
		h := u.read(st, u.elemKey(p.from))
		u.leDecl(n)
		v := u.define(name(x), T("Int", "(le%d (select %s (s-arr %s)) (+ (s-off %s) %s))", n, h.S, p.slice.S, p.slice.S, p.idx.S))
		u.assume(u.enc.rangeFact(v, types.Typ[map[int]types.BasicKind{1: types.Uint8, 2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[n]]))
		if isF {
			f := fmt.Sprintf("fltbits%d", tw)
			if _, ok := u.specs.Logic[f]; ok {
				u.useLogic(f)
			} else {
				u.enc.decl(f, "(declare-fun "+f+" (Int) Float)")
			}
			return T("Float", "(%s %s)", f, v.S)
		}
		if signed {
			return u.define(name(x), u.wrapExact(v, p.to))
		}
		return v
	}
	if s, ok := p.from.Underlying().(*types.Slice); ok && typeName(p.to) == "reflect.SliceHeader" && len(p.fields) == 1 {
		if w, _, ok := isInt(s.Elem()); !ok || w != 8 {
			panic(unsupported("slice header of " + p.from.String()))
		}
		sl := u.load(st, u.srcAddr(p))
		switch p.fields[0] {
		case 0:
			u.dataDecl()
			d := u.define(name(x), T("Int", "(dataof (s-arr %s) (s-off %s) (s-cap %s))", sl.S, sl.S, sl.S))
			u.assume(fmt.Sprintf("(and (= (darr %s) (s-arr %s)) (= (doff %s) (s-off %s)) (= (dcap %s) (s-cap %s)))", d.S, sl.S, d.S, sl.S, d.S, sl.S))
			u.assume(u.enc.rangeFact(d, x.Type()))
			return d
		case 1:
			return u.define(name(x), T("Int", "(s-len %s)", sl.S))
		}
		return u.define(name(x), T("Int", "(s-cap %s)", sl.S))
	}
	if b, ok := p.to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && typeName(p.from) == "reflect.StringHeader" && len(p.fields) == 0 {
		h := u.load(st, u.srcAddr(p))
		so := u.enc.sortOf(p.from)
		u.dataDecl()
		d := u.define("data", T("Int", "(%s %s)", u.enc.accessor(so, 0), h.S))
		l := u.define("len", T("Int", "(%s %s)", u.enc.accessor(so, 1), h.S))
		u.assert(fmt.Sprintf("(and (<= 0 %s) (<= %s (dcap %s)))", l.S, l.S, d.S), "unsafe", fr.where()+"string inside its array", u.pos(x.Pos()))
		c := u.fresh(name(x), "Str")
		u.assume(fmt.Sprintf("(= (strlen %s) %s)", c.S, l.S))
		row := u.define("A", T("(Array Int Int)", "(select %s (darr %s))", u.read(st, u.elemKey(types.Typ[types.Uint8])).S, d.S))
		at := u.atFn("Int")
		u.assume(fmt.Sprintf("(forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? %s)) (= (strat %s i?) (%s %s (doff %s) i?))) :pattern ((strat %s i?))))", l.S, c.S, at, row.S, d.S, c.S))
		u.assumeType(st, c, x.Type())
		return c
	}
	panic(unsupported("unsafe load of " + p.to.String() + " at " + p.from.String()))
}

func (u *Unit) srcAddr(p *Unsafe) *Addr {
	switch a := p.src.(type) {
	case *Addr:
		return a
	case Term:
		return u.ptrAddr(a, p.from)
	}
	panic(unsupported("unsafe address"))
}

func (u *Unit) dataDecl() {
	u.enc.decl("dataof", "(declare-fun dataof (Int Int Int) Int)")
	for _, f := range []string{"darr", "doff", "dcap"} {
		u.enc.decl(f, "(declare-fun "+f+" (Int) Int)")
	}
}

// leDecl declares the little-endian number in n bytes of a row.
func (u *Unit) leDecl(n int) {
	s := "0"
	for i := n - 1; i >= 0; i-- {
		if s == "0" {
			s = fmt.Sprintf("(select r (+ p %d))", i)
		} else {
			s = fmt.Sprintf("(+ (select r (+ p %d)) (* 256 %s))", i, s)
		}
	}
	f := fmt.Sprintf("le%d", n)
	u.enc.decl(f, fmt.Sprintf("(define-fun %s ((r (Array Int Int)) (p Int)) Int %s)", f, s))
}
