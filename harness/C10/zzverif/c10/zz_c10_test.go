package c10

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
	relapseparser "github.com/katydid/katydid/relapse/parser"
	"github.com/katydid/katydid/zzverif/fgen"
	"github.com/katydid/katydid/zzverif/vh"
)

var labels = fgen.Labels()

func check(t *testing.T, f fgen.F) int {
	ss := fgen.Setters(f.Fn)
	for _, l := range labels {
		var got fgen.Res
		if m := vh.Try(func() { got = fgen.EvalOn(f.Fn, ss, l) }); m != "" {
			vh.Fail(t, "panic", "%s on %v: %s", f.Str, l.V, m)
			return 1
		}
		if want := f.Ref(l); !fgen.Same(got, want) {
			vh.Fail(t, "result", "%s on %T(%v) evaluates to %v, want %v", f.Str, l.V, l.V, got, want)
			return 1
		}
	}
	return 1
}

// every operator on every pair of values of the kinds it takes, and on variables and failing arguments
func TestVerifPairs(t *testing.T) {
	n := 0
	vals := func(k string) []fgen.F {
		var out []fgen.F
		if fgen.Scalar(k) {
			out = append(out, fgen.Var(k))
			for _, v := range fgen.Vals[k] {
				out = append(out, fgen.Const(k, v))
			}
			// a constant that fails
			lk := map[string]string{"Bool": "Bools", "Int": "Ints", "Uint": "Uints", "Double": "Doubles", "String": "Strings", "Bytes": "ListOfBytes"}[k]
			for _, o := range fgen.Ops {
				if o.Name == "elem" && o.Args[0] == lk {
					f, _ := o.Apply(fgen.Const(lk, []interface{}{}), fgen.Const("Int", int64(0)))
					out = append(out, f)
				}
			}
			return out
		}
		vs := fgen.Vals[fgen.Elem[k]]
		out = append(out, fgen.Const(k, []interface{}{}), fgen.Const(k, []interface{}{vs[0]}), fgen.Const(k, vs), fgen.Const(k, []interface{}{vs[1], vs[0], vs[1]}))
		return out
	}
	for _, o := range fgen.Ops {
		if o.Name == "elem" || o.Name == "range" || o.Name == "length" {
			continue
		}
		as := vals(o.Args[0])
		if o.Name == "regex" {
			as = nil
			for _, e := range []string{"a", "^a", "b$", "a*", "", "[ab]c?$", "^$"} {
				as = append(as, fgen.Const("String", e))
			}
		}
		for _, a := range as {
			if len(o.Args) == 1 {
				f, _ := o.Apply(a)
				n += check(t, f)
				continue
			}
			for _, b := range vals(o.Args[1]) {
				if f, ok := o.Apply(a, b); ok {
					n += check(t, f)
				}
			}
			if vh.TooMany() {
				return
			}
		}
	}
	vh.Stat("operator cases", n)
	vh.Done()
}

func TestVerifRandom(t *testing.T) {
	g := fgen.G{R: vh.Rand(10)}
	n := 0
	for i := 0; i < vh.N(5000, 200000) && !vh.TooMany(); i++ {
		f := g.Gen("Bool", 1+g.R.Intn(3))
		n += check(t, f)
		if i < 3 {
			vh.Sample("%s", f.Str)
		}
	}
	vh.Stat("random predicates", n)
	vh.Done()
}

func lit(v interface{}) string {
	switch x := v.(type) {
	case int64:
		return fmt.Sprintf("int(%d)", x)
	case uint64:
		return fmt.Sprintf("uint(%d)", x)
	case float64:
		return fmt.Sprintf("double(%s)", strings.TrimSuffix(fmt.Sprintf("%.6f", x), ""))
	case string:
		return fmt.Sprintf("%q", x)
	case []byte:
		var s []string
		for _, b := range x {
			s = append(s, fmt.Sprintf("0x%02x", b))
		}
		return "[]byte{" + strings.Join(s, ",") + "}"
	case bool:
		return fmt.Sprint(x)
	}
	panic("lit")
}

// the names that a grammar uses for the predicates
func TestVerifNames(t *testing.T) {
	n := 0
	for _, o := range fgen.Ops {
		if len(o.Args) != 2 || o.Args[0] != o.Args[1] || o.Out != "Bool" {
			continue
		}
		k := o.Args[0]
		for vi, v := range fgen.Vals[k] {
			if f, ok := v.(float64); ok && (f != f || f > 1e6 || f < -1e6 || (f != 0 && f < 1e-6 && f > -1e-6)) {
				continue
			}
			if s, ok := v.(string); ok && strings.ContainsAny(s, "\x00éÉ") {
				continue
			}
			if o.Name == "regex" && vi > 5 {
				continue
			}
			src := fmt.Sprintf("->%s($%s, %s)", o.Name, map[string]string{"Bytes": "[]byte"}[k]+strings.ToLower(map[bool]string{true: "", false: k}[k == "Bytes"]), lit(v))
			a, b := fgen.Var(k), fgen.Const(k, v)
			if o.Name == "regex" {
				src = fmt.Sprintf("->regex(%s, $string)", lit(v))
				a, b = b, a
			}
			f, ok := o.Apply(a, b)
			if !ok {
				continue
			}
			expr, err := relapseparser.NewParser().ParseExpr(src)
			if err != nil {
				vh.Fail(t, "parse", "%s: %v", src, err)
				continue
			}
			fn, err := compose.NewBool(expr)
			if err != nil {
				vh.Fail(t, "compose", "%s: %v", src, err)
				continue
			}
			c, err := compose.NewBoolFunc(fn)
			if err != nil {
				vh.Fail(t, "compose", "%s: %v", src, err)
				continue
			}
			for _, l := range labels {
				n++
				v, err := c.Eval(l)
				got := fgen.Res{V: v}
				if err != nil {
					got = fgen.Err
				}
				if want := f.Ref(l); !fgen.Same(got, want) {
					vh.Fail(t, "name", "%s on %T(%v) evaluates to %v, want %v", src, l.V, l.V, got, want)
					break
				}
			}
		}
	}
	t0 := time.Now().UnixNano()
	v, err := funcs.Now().Eval()
	if t1 := time.Now().UnixNano(); err != nil || v < t0 || v > t1 {
		vh.Fail(t, "now", "now() is %d between %d and %d", v, t0, t1)
	}
	vh.Stat("named predicate evaluations", n)
	vh.Done()
}
