package c11

import (
	"fmt"
	"testing"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/name"
	"github.com/katydid/katydid/zzverif/fgen"
	"github.com/katydid/katydid/zzverif/vh"
)

type nm struct {
	e   *ast.NameExpr
	ref func(l interface{}) bool
}

func lit(v interface{}) nm {
	n := nm{ref: func(l interface{}) bool {
		if a, ok := v.([]byte); ok {
			b, ok := l.([]byte)
			return ok && string(a) == string(b)
		}
		if _, ok := l.([]byte); ok {
			return false
		}
		return l == v
	}}
	switch x := v.(type) {
	case string:
		n.e = ast.NewStringName(x)
	case int64:
		n.e = ast.NewIntName(x)
	case uint64:
		n.e = ast.NewUintName(x)
	case float64:
		n.e = ast.NewDoubleName(x)
	case bool:
		n.e = ast.NewBoolName(x)
	case []byte:
		n.e = ast.NewBytesName(x)
	}
	return n
}

func not(a nm) nm {
	return nm{ast.NewAnyNameExcept(a.e), func(l interface{}) bool { return !a.ref(l) }}
}
func or(a, b nm) nm {
	return nm{ast.NewNameChoice(a.e, b.e), func(l interface{}) bool { return a.ref(l) || b.ref(l) }}
}
func anyName() nm { return nm{ast.NewAnyName(), func(interface{}) bool { return true }} }

var labels []fgen.Label

func check(t *testing.T, n nm) {
	for _, l := range labels {
		want := n.ref(l.V)
		var got bool
		var gerr error
		if m := vh.Try(func() {
			f, err := compose.NewBoolFunc(name.NameToFunc(n.e))
			if err != nil {
				gerr = err
				return
			}
			got, gerr = f.Eval(l)
		}); m != "" {
			vh.Fail(t, "panic", "%s on %T(%v): %s", n.e, l.V, l.V, m)
			return
		}
		if (gerr == nil && got) != want {
			vh.Fail(t, "match", "%s on %T(%v) gives %v %v, want %v", n.e, l.V, l.V, got, gerr, want)
			return
		}
		if m := vh.Try(func() { got = name.EvalName(n.e, l) }); m != "" && gerr == nil {
			vh.Fail(t, "panic", "EvalName %s on %T(%v): %s", n.e, l.V, l.V, m)
			return
		} else if m == "" && got != want {
			vh.Fail(t, "match", "EvalName %s on %T(%v) gives %v, want %v", n.e, l.V, l.V, got, want)
			return
		}
	}
}

func atoms() []nm {
	var out []nm
	for _, k := range []string{"Bool", "Int", "Uint", "Double", "String", "Bytes"} {
		for _, v := range fgen.Vals[k] {
			if f, ok := v.(float64); ok && f != f {
				continue
			}
			out = append(out, lit(v))
		}
	}
	return append(out, anyName())
}

func init() {
	for _, l := range fgen.Labels() {
		if l.V != nil {
			labels = append(labels, l)
		}
	}
}

func TestVerifNames(t *testing.T) {
	as := atoms()
	n := 0
	for _, a := range as {
		n += 3
		check(t, a)
		check(t, not(a))
		check(t, not(not(a)))
	}
	r := vh.Rand(11)
	for i, a := range as {
		for j, b := range as {
			if (i+j)%3 != 0 && !vh.Thorough() && i != j {
				continue
			}
			if vh.TooMany() {
				return
			}
			n += 4
			check(t, or(a, b))
			check(t, not(or(a, b)))
			check(t, or(not(a), b))
			check(t, or(not(a), not(b)))
		}
	}
	var gen func(d int) nm
	gen = func(d int) nm {
		if d == 0 || r.Intn(4) == 0 {
			return as[r.Intn(len(as))]
		}
		if r.Intn(2) == 0 {
			return not(gen(d - 1))
		}
		return or(gen(d-1), gen(d-1))
	}
	for i := 0; i < vh.N(1500, 40000) && !vh.TooMany(); i++ {
		n++
		e := gen(1 + r.Intn(5))
		if i < 3 {
			vh.Sample("%s", fmt.Sprint(e.e))
		}
		check(t, e)
	}
	vh.Stat("name expressions", n)
	vh.Done()
}
