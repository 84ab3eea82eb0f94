package c07

import (
	"testing"

	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/zzverif/fgen"
	"github.com/katydid/katydid/zzverif/vh"
)

var labels = fgen.Labels()

func check(t *testing.T, f fgen.F) {
	ss := fgen.Setters(f.Fn)
	b := f.Fn.(funcs.Bool)
	isF, isT := funcs.IsFalse(b), funcs.IsTrue(b)
	for _, l := range labels {
		var got fgen.Res
		if m := vh.Try(func() { got = fgen.EvalOn(f.Fn, ss, l) }); m != "" {
			vh.Fail(t, "panic", "%s on %v: %s", f.Str, l.V, m)
			return
		}
		want := f.Ref(l)
		if got.True() != want.True() {
			vh.Fail(t, "truth", "%s on %T(%v): built %v is %v, want %v", f.Str, l.V, l.V, funcs.Sprint(b), got, want)
			return
		}
		if (isF && want.True()) || (isT && !want.True()) {
			vh.Fail(t, "constant", "%s reported constantly false=%v true=%v, on %T(%v) it is %v", f.Str, isF, isT, l.V, l.V, want)
			return
		}
	}
}

// every combination of two comparisons of a variable with a constant
func TestVerifPairs(t *testing.T) {
	n := 0
	var atoms []fgen.F
	for _, k := range []string{"Int", "Uint", "Double", "String", "Bytes", "Bool"} {
		vs := fgen.Vals[k]
		if len(vs) > 3 {
			vs = vs[:3]
		}
		for _, o := range fgen.Ops {
			if len(o.Args) != 2 || o.Args[0] != k || o.Args[1] != k || o.Out != "Bool" || o.Name == "regex" {
				continue
			}
			for _, v := range vs {
				if f, ok := o.Apply(fgen.Var(k), fgen.Const(k, v)); ok {
					atoms = append(atoms, f)
				}
				if f, ok := o.Apply(fgen.Const(k, v), fgen.Var(k)); ok {
					atoms = append(atoms, f)
				}
			}
		}
	}
	atoms = append(atoms, fgen.Const("Bool", true), fgen.Const("Bool", false), fgen.Var("Bool"))
	for _, a := range atoms {
		na, _ := fgen.Logic[2].Apply(a)
		check(t, na)
		for _, b := range atoms {
			if b.Kind != a.Kind {
				continue
			}
			n++
			if vh.TooMany() {
				return
			}
			x, _ := fgen.Logic[0].Apply(a, b)
			y, _ := fgen.Logic[1].Apply(a, b)
			check(t, x)
			check(t, y)
			if n%7 == 0 {
				z, _ := fgen.Logic[2].Apply(x)
				check(t, z)
				z, _ = fgen.Logic[2].Apply(y)
				check(t, z)
				z, _ = fgen.Logic[1].Apply(na, y)
				check(t, z)
				z, _ = fgen.Logic[0].Apply(x, na)
				check(t, z)
				nb, _ := fgen.Logic[2].Apply(b)
				z, _ = fgen.Logic[0].Apply(na, nb)
				check(t, z)
				z, _ = fgen.Logic[1].Apply(na, nb)
				check(t, z)
				z, _ = fgen.Logic[0].Apply(x, y)
				check(t, z)
				z, _ = fgen.Logic[1].Apply(x, y)
				check(t, z)
			}
		}
	}
	vh.Stat("pairs", n)
	vh.Done()
}

func TestVerifRandom(t *testing.T) {
	g := fgen.G{R: vh.Rand(7)}
	n := vh.N(6000, 200000)
	for i := 0; i < n && !vh.TooMany(); i++ {
		f := g.Truth(1 + g.R.Intn(4))
		check(t, f)
		if i < 3 {
			vh.Sample("%s => %s", f.Str, funcs.Sprint(f.Fn.(funcs.Stringer)))
		}
	}
	vh.Stat("random functions", n)
	vh.Done()
}
