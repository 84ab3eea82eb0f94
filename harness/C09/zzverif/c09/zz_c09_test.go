package c09

import (
	"math"
	"testing"

	"github.com/katydid/katydid/zzverif/fgen"
	"github.com/katydid/katydid/zzverif/vh"
)

var labels = fgen.Labels()

func check(t *testing.T, f fgen.F, ls []fgen.Label) int {
	ss := fgen.Setters(f.Fn)
	for _, l := range ls {
		var got fgen.Res
		if m := vh.Try(func() { got = fgen.EvalOn(f.Fn, ss, l) }); m != "" {
			vh.Fail(t, "panic", "%s on %v: %s", f.Str, l.V, m)
			return 1
		}
		if want := f.Ref(l); !fgen.Same(got, want) {
			vh.Fail(t, "result", "%s on %T(%v) evaluates to %v, want %v", f.Str, l.V, l.V, got, want)
			return 1
		}
	}
	return 1
}

// every index from -12 to 12 and the extremes, on constant lists, lists of functions and variable indexes
func TestVerifIndexes(t *testing.T) {
	n := 0
	idx := []int64{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, 1 << 40, -(1 << 40)}
	for i := int64(-12); i <= 12; i++ {
		idx = append(idx, i)
	}
	var ils []fgen.Label
	for _, i := range idx {
		ils = append(ils, fgen.Label{V: i})
	}
	ils = append(ils, fgen.Label{V: "x"})
	for _, o := range fgen.Ops {
		if o.Name != "elem" && o.Name != "range" && o.Name != "length" {
			continue
		}
		k := o.Args[0]
		var lists []fgen.F
		if fgen.Scalar(k) {
			lists = append(lists, fgen.Var(k))
			for _, v := range fgen.Vals[k] {
				lists = append(lists, fgen.Const(k, v))
			}
		} else {
			for m := 0; m <= 4; m++ {
				var vs []interface{}
				var fs []fgen.F
				for i := 0; i < m; i++ {
					v := fgen.Vals[fgen.Elem[k]][i%len(fgen.Vals[fgen.Elem[k]])]
					vs = append(vs, v)
					fs = append(fs, fgen.Const(fgen.Elem[k], v))
				}
				lists = append(lists, fgen.Const(k, vs), fgen.List(k, fs))
				if m > 0 {
					fs = append(fs[:m-1:m-1], fgen.Var(fgen.Elem[k]))
					lists = append(lists, fgen.List(k, fs))
				}
			}
		}
		for _, l := range lists {
			switch len(o.Args) {
			case 1:
				f, _ := o.Apply(l)
				n += check(t, f, labels)
			case 2:
				f, _ := o.Apply(l, fgen.Var("Int"))
				n += check(t, f, append(ils, labels...))
				for _, i := range idx {
					f, _ := o.Apply(l, fgen.Const("Int", i))
					n += check(t, f, labels)
				}
			case 3:
				for _, i := range idx {
					f, _ := o.Apply(l, fgen.Var("Int"), fgen.Const("Int", i))
					n += check(t, f, ils)
					f, _ = o.Apply(l, fgen.Const("Int", i), fgen.Var("Int"))
					n += check(t, f, ils)
				}
				for i := int64(-6); i <= 6; i++ {
					for j := int64(-6); j <= 6; j++ {
						f, _ := o.Apply(l, fgen.Const("Int", i), fgen.Const("Int", j))
						n += check(t, f, labels[:1])
					}
				}
			}
			if vh.TooMany() {
				return
			}
		}
	}
	vh.Stat("index cases", n)
	vh.Done()
}

func TestVerifNested(t *testing.T) {
	g := fgen.G{R: vh.Rand(9)}
	n := 0
	for i := 0; i < vh.N(4000, 200000) && !vh.TooMany(); i++ {
		o := fgen.Ops[g.R.Intn(len(fgen.Ops))]
		if o.Name != "elem" && o.Name != "range" && o.Name != "length" {
			continue
		}
		var args []fgen.F
		for _, k := range o.Args {
			args = append(args, g.Gen(k, 3))
		}
		if f, ok := o.Apply(args...); ok {
			n += check(t, f, labels)
			if n < 3 {
				vh.Sample("%s", f.Str)
			}
		}
	}
	vh.Stat("nested cases", n)
	vh.Done()
}
