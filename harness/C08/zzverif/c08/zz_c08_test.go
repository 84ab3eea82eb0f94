package c08

import (
	"testing"

	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/zzverif/fgen"
	"github.com/katydid/katydid/zzverif/vh"
)

var labels = fgen.Labels()

type ev struct {
	f  fgen.F
	rs []fgen.Res
}

func eval(t *testing.T, f fgen.F, truth bool) ev {
	e := ev{f: f}
	ss := fgen.Setters(f.Fn)
	for _, l := range labels {
		var got fgen.Res
		if m := vh.Try(func() { got = fgen.EvalOn(f.Fn, ss, l) }); m != "" {
			vh.Fail(t, "panic", "%s on %v: %s", f.Str, l.V, m)
			return e
		}
		want := f.Ref(l)
		if truth {
			got, want = fgen.Res{V: got.True()}, fgen.Res{V: want.True()}
		}
		if !fgen.Same(got, want) {
			vh.Fail(t, "fold", "%s on %T(%v) evaluates to %v, want %v", f.Str, l.V, l.V, got, want)
		}
		e.rs = append(e.rs, got)
	}
	return e
}

func differ(a, b ev) int {
	for i := range a.rs {
		if i < len(b.rs) && !fgen.Same(a.rs[i], b.rs[i]) {
			return i
		}
	}
	return -1
}

func sign(i int) int {
	if i < 0 {
		return -1
	}
	if i > 0 {
		return 1
	}
	return 0
}

func pool(t *testing.T, kind string, fs []fgen.F) int {
	n := 0
	var es []ev
	for _, f := range fs {
		e := eval(t, f, kind == "Truth")
		es = append(es, e)
		h := f.Fn.(funcs.Func)
		if !h.HasVariable() {
			for i := range e.rs {
				if !fgen.Same(e.rs[0], e.rs[i]) {
					vh.Fail(t, "variable", "%s is reported to have no variable but evaluates to %v on %v and %v on %v", f.Str, e.rs[0], labels[0].V, e.rs[i], labels[i].V)
					break
				}
			}
		}
	}
	for i := range es {
		for j := 0; j <= i; j++ {
			if vh.TooMany() {
				return n
			}
			n++
			a, b := es[i], es[j]
			ca, cb := a.f.Fn.(funcs.Comparable), b.f.Fn.(funcs.Comparable)
			var x, y int
			if m := vh.Try(func() { x, y = ca.Compare(cb), cb.Compare(ca) }); m != "" {
				vh.Fail(t, "panic", "comparing %s with %s: %s", a.f.Str, b.f.Str, m)
				continue
			}
			if sign(x) != -sign(y) {
				vh.Fail(t, "antisymmetric", "comparing %s with %s gives %d and the other way %d", a.f.Str, b.f.Str, x, y)
			}
			if i == j && x != 0 {
				vh.Fail(t, "reflexive", "%s compared with itself gives %d", a.f.Str, x)
			}
			if funcs.Equal(ca, cb) != funcs.Equal(cb, ca) {
				vh.Fail(t, "symmetric", "Equal of %s and %s depends on the order", a.f.Str, b.f.Str)
			}
			if x == 0 || funcs.Equal(ca, cb) {
				if d := differ(a, b); d >= 0 {
					vh.Fail(t, "equal", "%s and %s compare as equal but on %T(%v) evaluate to %v and %v", a.f.Str, b.f.Str, labels[d].V, labels[d].V, a.rs[d], b.rs[d])
				}
				if ca.Hash() != cb.Hash() {
					vh.Fail(t, "hash", "%s and %s compare as equal but have hashes %d and %d", a.f.Str, b.f.Str, ca.Hash(), cb.Hash())
				}
			}
		}
	}
	return n
}

var kinds = []string{"Bool", "Int", "Uint", "Double", "String", "Bytes", "Bools", "Ints", "Uints", "Doubles", "Strings", "ListOfBytes"}

// every operator on every choice of small arguments: functions that differ in one place only
func TestVerifNeighbours(t *testing.T) {
	n := 0
	for oi, o := range fgen.Ops {
		g := fgen.G{R: vh.Rand(int64(100 + oi))}
		var fs []fgen.F
		cand := make([][]fgen.F, len(o.Args))
		for i, k := range o.Args {
			for len(cand[i]) < 6 {
				switch {
				case i == o.ConstArg && o.Name == "regex":
					cand[i] = append(cand[i], fgen.Const("String", []string{"a", "^a", "b$", "a*", "", "[ab]c?$"}[len(cand[i])]))
				case i == o.ConstArg && len(cand[i]) < 4 && len(fgen.Colliding(k)) > len(cand[i]):
					cand[i] = append(cand[i], fgen.Colliding(k)[len(cand[i])])
				case i == o.ConstArg:
					cand[i] = append(cand[i], g.ConstOf(k))
				case len(cand[i]) == 0 && fgen.Scalar(k):
					cand[i] = append(cand[i], fgen.Var(k))
				case len(cand[i]) < 5 && len(fgen.Colliding(k)) > len(cand[i])-1 && len(cand[i]) > 0:
					cand[i] = append(cand[i], fgen.Colliding(k)[len(cand[i])-1])
				default:
					cand[i] = append(cand[i], g.Gen(k, len(cand[i])/2))
				}
			}
		}
		idx := make([]int, len(o.Args))
		for len(fs) < vh.N(216, 216) {
			var args []fgen.F
			for i := range idx {
				args = append(args, cand[i][idx[i]])
			}
			if f, ok := o.Apply(args...); ok {
				fs = append(fs, f)
			}
			p := len(idx) - 1
			for p >= 0 {
				idx[p]++
				if idx[p] < 6 {
					break
				}
				idx[p] = 0
				p--
			}
			if p < 0 {
				break
			}
		}
		n += pool(t, o.Out, fs)
	}
	vh.Stat("neighbour pairs", n)
	vh.Done()
}

func TestVerifConstants(t *testing.T) {
	n := 0
	var all []fgen.F
	for _, k := range kinds {
		var fs []fgen.F
		if fgen.Scalar(k) {
			fs = append(fs, fgen.Var(k))
			for _, v := range fgen.Vals[k] {
				fs = append(fs, fgen.Const(k, v))
			}
		} else {
			vs := fgen.Vals[fgen.Elem[k]]
			if len(vs) > 5 {
				vs = vs[:5]
			}
			fs = append(fs, fgen.Const(k, []interface{}{}))
			for _, a := range vs {
				fs = append(fs, fgen.Const(k, []interface{}{a}))
				for _, b := range vs {
					fs = append(fs, fgen.Const(k, []interface{}{a, b}))
					fs = append(fs, fgen.List(k, []fgen.F{fgen.Const(fgen.Elem[k], a), fgen.Const(fgen.Elem[k], b)}))
					fs = append(fs, fgen.List(k, []fgen.F{fgen.Var(fgen.Elem[k]), fgen.Const(fgen.Elem[k], b)}))
				}
			}
		}
		n += pool(t, k, fs)
		all = append(all, fs...)
	}
	// functions of different kinds: only order is compared
	for i := range all {
		for j := range all {
			n++
			a, b := all[i].Fn.(funcs.Comparable), all[j].Fn.(funcs.Comparable)
			if sign(a.Compare(b)) != -sign(b.Compare(a)) {
				vh.Fail(t, "antisymmetric", "comparing %s with %s gives %d and the other way %d", all[i].Str, all[j].Str, a.Compare(b), b.Compare(a))
			}
			if all[i].Kind != all[j].Kind && funcs.Equal(a, b) {
				vh.Fail(t, "equal", "%s and %s of different kinds are equal", all[i].Str, all[j].Str)
			}
		}
	}
	vh.Stat("constant pairs", n)
	vh.Done()
}

func TestVerifRandom(t *testing.T) {
	n := 0
	for ki, k := range append(kinds, "Truth") {
		g := fgen.G{R: vh.Rand(int64(ki))}
		for round := 0; round < vh.N(4, 60) && !vh.TooMany(); round++ {
			var fs []fgen.F
			for i := 0; i < 50; i++ {
				if k == "Truth" {
					fs = append(fs, g.Truth(2))
				} else {
					fs = append(fs, g.Gen(k, 1+round%3))
				}
			}
			n += pool(t, k, fs)
		}
	}
	vh.Stat("random pairs", n)
	vh.Done()
}
