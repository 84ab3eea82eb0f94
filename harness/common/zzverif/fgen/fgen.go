// Package fgen builds functions of relapse/funcs together with an independent account of what they mean.
package fgen

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"strings"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
)

// Res is the result of an evaluation: an error (nil) or a value: bool, int64, uint64, float64, string,
// []byte or []interface{} of these.
type Res struct{ V interface{} }

var Err = Res{}

func (r Res) String() string {
	if r.V == nil {
		return "error"
	}
	return fmt.Sprintf("%T(%v)", r.V, r.V)
}

// Same compares two results; all NaNs are the same and so are the zeros.
func Same(a, b Res) bool { return same(a.V, b.V) }

func same(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && (x == y || (x != x && y != y))
	}
	if x, ok := a.([]byte); ok {
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	if x, ok := a.([]interface{}); ok {
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// True reports whether the result is the boolean true.
func (r Res) True() bool { return r.V == true }

// Label is a parser.Value that holds one typed value, or none.
type Label struct{ V interface{} }

var errKind = errors.New("other kind")

func (l Label) Double() (float64, error) {
	if v, ok := l.V.(float64); ok {
		return v, nil
	}
	return 0, errKind
}
func (l Label) Int() (int64, error) {
	if v, ok := l.V.(int64); ok {
		return v, nil
	}
	return 0, errKind
}
func (l Label) Uint() (uint64, error) {
	if v, ok := l.V.(uint64); ok {
		return v, nil
	}
	return 0, errKind
}
func (l Label) Bool() (bool, error) {
	if v, ok := l.V.(bool); ok {
		return v, nil
	}
	return false, errKind
}
func (l Label) String() (string, error) {
	if v, ok := l.V.(string); ok {
		return v, nil
	}
	return "", errKind
}
func (l Label) Bytes() ([]byte, error) {
	if v, ok := l.V.([]byte); ok {
		return v, nil
	}
	return nil, errKind
}

var _ parser.Value = Label{}

// Vals are the values used for each scalar kind.
var Vals = map[string][]interface{}{
	"Bool":   {true, false},
	"Int":    {int64(0), int64(1), int64(-1), int64(2), int64(3), int64(-2), int64(7), int64(math.MaxInt64), int64(math.MinInt64), int64(1 << 40), int64(31), int64(-31)},
	"Uint":   {uint64(0), uint64(1), uint64(2), uint64(7), uint64(math.MaxUint64), uint64(1 << 63), uint64(1<<63 - 1), uint64(31)},
	"Double": {0.0, 1.0, -1.0, 0.5, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e17, 1e17 + 16},
	"String": {"", "a", "b", "ab", "A", "abc", "B", "ba", "\x00", "é", "a\x00", "É", "Aa", "BB", "k", "\u212a", "ſ", "s"},
	"Bytes":  {[]byte{}, []byte("a"), []byte("b"), []byte("ab"), []byte{0}, []byte{255}, []byte{97, 0}, []byte{128}, []byte("abc"), []byte("Aa"), []byte("BB")},
}

// Colliding are constants chosen to make hashes of functions built from them collide: hashes are
// polynomials in 31.
func Colliding(kind string) []F {
	var out []F
	c := func(vs ...interface{}) []F {
		for _, v := range vs {
			out = append(out, Const(kind, v))
		}
		return out
	}
	type l = []interface{}
	nx := func(f float64, d int64) float64 { return math.Float64frombits(uint64(int64(math.Float64bits(f)) + d)) }
	switch kind {
	case "Bool":
		for _, v := range []string{"Aa", "BB"} {
			f, _ := ByName("eq", "String").Apply(Var("String"), Const("String", v))
			out = append(out, f)
		}
		return out
	case "Int":
		return c(int64(0), int64(31), int64(1), int64(-31))
	case "Uint":
		return c(uint64(0), uint64(31), uint64(1), uint64(62))
	case "Double":
		return c(1.0, nx(1, 1), nx(1, 31), nx(1, -31))
	case "String":
		return c("Aa", "BB", "AaBB", "BBAa")
	case "Bytes":
		return c([]byte("Aa"), []byte("BB"), []byte{0, 31}, []byte{1, 0})
	case "Bools":
		return c(l{true}, l{false}, l{true, false}, l{false, true})
	case "Ints":
		return c(l{int64(0), int64(31)}, l{int64(1), int64(0)}, l{int64(0), int64(0), int64(31)}, l{int64(0), int64(1), int64(0)})
	case "Uints":
		return c(l{uint64(0), uint64(31)}, l{uint64(1), uint64(0)}, l{uint64(2)}, l{})
	case "Doubles":
		return c(l{1.0, nx(1, 31)}, l{nx(1, 1), 1.0}, l{1.0}, l{})
	case "Strings":
		return c(l{"Aa"}, l{"BB"}, l{"BB", "Aa"}, l{"Aa", "BB"})
	case "ListOfBytes":
		return c(l{[]byte("Aa")}, l{[]byte("BB")}, l{[]byte("BB"), []byte{}}, l{[]byte("Aa"), []byte{}})
	}
	return out
}

// ByName finds an operator by its name and the kind of its first argument.
func ByName(name, kind string) Op {
	for _, o := range Ops {
		if o.Name == name && o.Args[0] == kind {
			return o
		}
	}
	panic("no operator " + name)
}

// Labels are the labels every function is evaluated on.
func Labels() []Label {
	var out []Label
	for _, k := range []string{"Bool", "Int", "Uint", "Double", "String", "Bytes"} {
		for _, v := range Vals[k] {
			out = append(out, Label{v})
		}
	}
	return append(out, Label{nil})
}

// F is a function and its meaning.
type F struct {
	Kind string
	Fn   interface{}
	Ref  func(l Label) Res
	Str  string
	Var  bool // whether a variable occurs in it
}

var setter = reflect.TypeOf((*funcs.Setter)(nil)).Elem()

// Setters are the variables of a function.
func Setters(fn interface{}) []funcs.Setter {
	var out []funcs.Setter
	if _, ok := fn.(funcs.ListOf); ok {
		// compose only looks for lists below a function
		if e := reflect.ValueOf(fn).Elem(); e.NumField() > 0 && e.Field(0).Kind() == reflect.Slice {
			for i := 0; i < e.Field(0).Len(); i++ {
				out = append(out, Setters(e.Field(0).Index(i).Interface())...)
			}
			return out
		}
	}
	for _, s := range compose.FuncImplements(fn, setter) {
		out = append(out, s.(funcs.Setter))
	}
	return out
}

// Eval evaluates any function of the package.
func Eval(fn interface{}) Res {
	switch f := fn.(type) {
	case funcs.Bool:
		v, err := f.Eval()
		if err != nil {
			return Err
		}
		return Res{v}
	case funcs.Int:
		v, err := f.Eval()
		if err != nil {
			return Err
		}
		return Res{v}
	case funcs.Uint:
		v, err := f.Eval()
		if err != nil {
			return Err
		}
		return Res{v}
	case funcs.Double:
		v, err := f.Eval()
		if err != nil {
			return Err
		}
		return Res{v}
	case funcs.String:
		v, err := f.Eval()
		if err != nil {
			return Err
		}
		return Res{v}
	case funcs.Bytes:
		v, err := f.Eval()
		if err != nil {
			return Err
		}
		return Res{append([]byte{}, v...)}
	}
	out := reflect.ValueOf(fn).MethodByName("Eval").Call(nil)
	if !out[1].IsNil() {
		return Err
	}
	l := make([]interface{}, out[0].Len())
	for i := range l {
		l[i] = out[0].Index(i).Interface()
	}
	return Res{l}
}

// EvalOn sets the variables and evaluates.
func EvalOn(fn interface{}, ss []funcs.Setter, l Label) Res {
	for _, s := range ss {
		s.SetValue(l)
	}
	return Eval(fn)
}

var Elem = map[string]string{"Bools": "Bool", "Ints": "Int", "Uints": "Uint", "Doubles": "Double", "Strings": "String", "ListOfBytes": "Bytes"}

func Scalar(kind string) bool { return Elem[kind] == "" }

// Const makes a constant.
func Const(kind string, v interface{}) F {
	r := Res{v}
	f := F{Kind: kind, Ref: func(Label) Res { return r }, Str: fmt.Sprintf("%#v", v)}
	switch kind {
	case "Bool":
		f.Fn = funcs.BoolConst(v.(bool))
	case "Int":
		f.Fn = funcs.IntConst(v.(int64))
	case "Uint":
		f.Fn = funcs.UintConst(v.(uint64))
	case "Double":
		f.Fn = funcs.DoubleConst(v.(float64))
	case "String":
		f.Fn = funcs.StringConst(v.(string))
	case "Bytes":
		f.Fn = funcs.BytesConst(v.([]byte))
	case "Bools":
		x := []bool{}
		for _, e := range v.([]interface{}) {
			x = append(x, e.(bool))
		}
		f.Fn = funcs.BoolsConst(x)
	case "Ints":
		x := []int64{}
		for _, e := range v.([]interface{}) {
			x = append(x, e.(int64))
		}
		f.Fn = funcs.IntsConst(x)
	case "Uints":
		x := []uint64{}
		for _, e := range v.([]interface{}) {
			x = append(x, e.(uint64))
		}
		f.Fn = funcs.UintsConst(x)
	case "Doubles":
		x := []float64{}
		for _, e := range v.([]interface{}) {
			x = append(x, e.(float64))
		}
		f.Fn = funcs.DoublesConst(x)
	case "Strings":
		x := []string{}
		for _, e := range v.([]interface{}) {
			x = append(x, e.(string))
		}
		f.Fn = funcs.StringsConst(x)
	case "ListOfBytes":
		x := [][]byte{}
		for _, e := range v.([]interface{}) {
			x = append(x, e.([]byte))
		}
		f.Fn = funcs.ListOfBytesConst(x)
	}
	return f
}

// Var makes a variable.
func Var(kind string) F {
	f := F{Kind: kind, Str: "$" + kind, Var: true}
	switch kind {
	case "Bool":
		f.Fn = funcs.BoolVar()
		f.Ref = func(l Label) Res { v, ok := l.V.(bool); return opt(v, ok) }
	case "Int":
		f.Fn = funcs.IntVar()
		f.Ref = func(l Label) Res { v, ok := l.V.(int64); return opt(v, ok) }
	case "Uint":
		f.Fn = funcs.UintVar()
		f.Ref = func(l Label) Res { v, ok := l.V.(uint64); return opt(v, ok) }
	case "Double":
		f.Fn = funcs.DoubleVar()
		f.Ref = func(l Label) Res { v, ok := l.V.(float64); return opt(v, ok) }
	case "String":
		f.Fn = funcs.StringVar()
		f.Ref = func(l Label) Res { v, ok := l.V.(string); return opt(v, ok) }
	case "Bytes":
		f.Fn = funcs.BytesVar()
		f.Ref = func(l Label) Res { v, ok := l.V.([]byte); return opt(v, ok) }
	}
	return f
}

func opt(v interface{}, ok bool) Res {
	if !ok {
		return Err
	}
	return Res{v}
}

// List makes a list of functions.
func List(kind string, es []F) F {
	var in reflect.Value
	var mk interface{}
	switch kind {
	case "Bools":
		mk = funcs.NewListOfBool
	case "Ints":
		mk = funcs.NewListOfInt
	case "Uints":
		mk = funcs.NewListOfUint
	case "Doubles":
		mk = funcs.NewListOfDouble
	case "Strings":
		mk = funcs.NewListOfString
	case "ListOfBytes":
		mk = funcs.NewListOfBytes
	}
	in = reflect.MakeSlice(reflect.TypeOf(mk).In(0), 0, 0)
	var strs []string
	f := F{Kind: kind}
	for _, e := range es {
		in = reflect.Append(in, reflect.ValueOf(e.Fn))
		strs = append(strs, e.Str)
		f.Var = f.Var || e.Var
	}
	f.Fn = reflect.ValueOf(mk).Call([]reflect.Value{in})[0].Interface()
	f.Str = "[]" + kind + "{" + strings.Join(strs, ",") + "}"
	f.Ref = func(l Label) Res {
		out := []interface{}{}
		for _, e := range es {
			r := e.Ref(l)
			if r.V == nil {
				return Err
			}
			out = append(out, r.V)
		}
		return Res{out}
	}
	return f
}

// Op is a function of the package with its meaning on the results of its arguments.
type Op struct {
	Name string
	Args []string
	Out  string
	Fn   interface{}
	Ref  func(a []Res) Res
	// ConstArg is the index of an argument that must be constant, or -1.
	ConstArg int
}

// Apply builds the application. ok is false when the constructor reports an error.
func (o Op) Apply(args ...F) (f F, ok bool) {
	var in []reflect.Value
	var strs []string
	ft := reflect.TypeOf(o.Fn)
	for i, a := range args {
		v := reflect.ValueOf(a.Fn)
		if !v.Type().Implements(ft.In(i)) {
			return F{}, false
		}
		in = append(in, v)
		strs = append(strs, a.Str)
		f.Var = f.Var || a.Var
	}
	out := reflect.ValueOf(o.Fn).Call(in)
	if len(out) == 2 && !out[1].IsNil() {
		return F{}, false
	}
	f.Kind, f.Fn, f.Str = o.Out, out[0].Interface(), o.Name+"("+strings.Join(strs, ", ")+")"
	f.Ref = func(l Label) Res {
		rs := make([]Res, len(args))
		for i, a := range args {
			rs[i] = a.Ref(l)
		}
		return o.Ref(rs)
	}
	return f, true
}

func strict(g func(a []interface{}) interface{}) func([]Res) Res {
	return func(rs []Res) Res {
		vs := make([]interface{}, len(rs))
		for i, r := range rs {
			if r.V == nil {
				return Err
			}
			vs[i] = r.V
		}
		return Res{g(vs)}
	}
}

// a comparison is false when an argument is an error
func cmpRef(g func(a, b interface{}) bool) func([]Res) Res {
	return func(rs []Res) Res {
		if rs[0].V == nil || rs[1].V == nil {
			return Res{false}
		}
		return Res{g(rs[0].V, rs[1].V)}
	}
}

func less(a, b interface{}) bool {
	switch x := a.(type) {
	case int64:
		return x < b.(int64)
	case uint64:
		return x < b.(uint64)
	case float64:
		return x < b.(float64)
	case []byte:
		y := b.([]byte)
		for i := range x {
			if i >= len(y) || x[i] > y[i] {
				return false
			}
			if x[i] < y[i] {
				return true
			}
		}
		return len(x) < len(y)
	}
	panic("less")
}

func eq(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		return x == b.(float64)
	case []byte:
		return string(x) == string(b.([]byte))
	}
	return a == b
}

func norm(i int64, n int64) int64 {
	if i < 0 {
		i %= n
		if i < 0 {
			i += n
		}
	}
	return i
}

// Ops are all the operators except and, or, not, print and now.
var Ops []Op

// Logic are and, or, not on truth: an error counts as false.
var Logic []Op

func add(name string, args string, out string, fn interface{}, ref func([]Res) Res) {
	Ops = append(Ops, Op{name, strings.Fields(args), out, fn, ref, -1})
}

func init() {
	ge := cmpRef(func(a, b interface{}) bool { return less(b, a) || eq(a, b) })
	gt := cmpRef(func(a, b interface{}) bool { return less(b, a) })
	le := cmpRef(func(a, b interface{}) bool { return less(a, b) || eq(a, b) })
	lt := cmpRef(less)
	eqr := cmpRef(eq)
	ne := cmpRef(func(a, b interface{}) bool { return !eq(a, b) })
	add("ge", "Double Double", "Bool", funcs.DoubleGE, ge)
	add("ge", "Int Int", "Bool", funcs.IntGE, ge)
	add("ge", "Uint Uint", "Bool", funcs.UintGE, ge)
	add("ge", "Bytes Bytes", "Bool", funcs.BytesGE, ge)
	add("gt", "Double Double", "Bool", funcs.DoubleGt, gt)
	add("gt", "Int Int", "Bool", funcs.IntGt, gt)
	add("gt", "Uint Uint", "Bool", funcs.UintGt, gt)
	add("gt", "Bytes Bytes", "Bool", funcs.BytesGt, gt)
	add("le", "Double Double", "Bool", funcs.DoubleLE, le)
	add("le", "Int Int", "Bool", funcs.IntLE, le)
	add("le", "Uint Uint", "Bool", funcs.UintLE, le)
	add("le", "Bytes Bytes", "Bool", funcs.BytesLE, le)
	add("lt", "Double Double", "Bool", funcs.DoubleLt, lt)
	add("lt", "Int Int", "Bool", funcs.IntLt, lt)
	add("lt", "Uint Uint", "Bool", funcs.UintLt, lt)
	add("lt", "Bytes Bytes", "Bool", funcs.BytesLt, lt)
	add("eq", "Double Double", "Bool", funcs.DoubleEq, eqr)
	add("eq", "Int Int", "Bool", funcs.IntEq, eqr)
	add("eq", "Uint Uint", "Bool", funcs.UintEq, eqr)
	add("eq", "Bool Bool", "Bool", funcs.BoolEq, eqr)
	add("eq", "String String", "Bool", funcs.StringEq, eqr)
	add("eq", "Bytes Bytes", "Bool", funcs.BytesEq, eqr)
	add("ne", "Double Double", "Bool", funcs.DoubleNe, ne)
	add("ne", "Int Int", "Bool", funcs.IntNe, ne)
	add("ne", "Uint Uint", "Bool", funcs.UintNe, ne)
	add("ne", "Bool Bool", "Bool", funcs.BoolNe, ne)
	add("ne", "String String", "Bool", funcs.StringNe, ne)
	add("ne", "Bytes Bytes", "Bool", funcs.BytesNe, ne)
	ty := func(rs []Res) Res { return Res{rs[0].V != nil} }
	add("type", "Double", "Bool", funcs.TypeDouble, ty)
	add("type", "Int", "Bool", funcs.TypeInt, ty)
	add("type", "Uint", "Bool", funcs.TypeUint, ty)
	add("type", "Bool", "Bool", funcs.TypeBool, ty)
	add("type", "String", "Bool", funcs.TypeString, ty)
	add("type", "Bytes", "Bool", funcs.TypeBytes, ty)
	ln := strict(func(a []interface{}) interface{} {
		switch x := a[0].(type) {
		case string:
			return int64(len(x))
		case []byte:
			return int64(len(x))
		case []interface{}:
			return int64(len(x))
		}
		panic("len")
	})
	add("length", "Doubles", "Int", funcs.LenDoubles, ln)
	add("length", "Ints", "Int", funcs.LenInts, ln)
	add("length", "Uints", "Int", funcs.LenUints, ln)
	add("length", "Bools", "Int", funcs.LenBools, ln)
	add("length", "Strings", "Int", funcs.LenStrings, ln)
	add("length", "ListOfBytes", "Int", funcs.LenListOfBytes, ln)
	add("length", "String", "Int", funcs.LenString, ln)
	add("length", "Bytes", "Int", funcs.LenBytes, ln)
	el := func(rs []Res) Res {
		if rs[0].V == nil || rs[1].V == nil {
			return Err
		}
		l, i := rs[0].V.([]interface{}), rs[1].V.(int64)
		if len(l) == 0 {
			return Err
		}
		if i = norm(i, int64(len(l))); i >= int64(len(l)) {
			return Err
		}
		return Res{l[i]}
	}
	rg := func(rs []Res) Res {
		if rs[0].V == nil || rs[1].V == nil || rs[2].V == nil {
			return Err
		}
		l := rs[0].V.([]interface{})
		n := int64(len(l))
		if n == 0 {
			return Err
		}
		i, j := norm(rs[1].V.(int64), n), norm(rs[2].V.(int64), n)
		if i > j || j > n {
			return Err
		}
		return Res{append([]interface{}{}, l[i:j]...)}
	}
	for _, x := range []struct {
		l      string
		el, rg interface{}
	}{{"Doubles", funcs.ElemDoubles, funcs.RangeDoubles}, {"Ints", funcs.ElemInts, funcs.RangeInts}, {"Uints", funcs.ElemUints, funcs.RangeUints},
		{"Bools", funcs.ElemBools, funcs.RangeBools}, {"Strings", funcs.ElemStrings, funcs.RangeStrings}, {"ListOfBytes", funcs.ElemListOfBytes, funcs.RangeListOfBytes}} {
		add("elem", x.l+" Int", Elem[x.l], x.el, el)
		add("range", x.l+" Int Int", x.l, x.rg, rg)
	}
	add("toLower", "String", "String", funcs.ToLower, strict(func(a []interface{}) interface{} { return strings.ToLower(a[0].(string)) }))
	add("toUpper", "String", "String", funcs.ToUpper, strict(func(a []interface{}) interface{} { return strings.ToUpper(a[0].(string)) }))
	add("contains", "String String", "Bool", funcs.Contains, strict(func(a []interface{}) interface{} { return strings.Contains(a[0].(string), a[1].(string)) }))
	add("eqFold", "String String", "Bool", funcs.EqualFold, strict(func(a []interface{}) interface{} { return strings.EqualFold(a[0].(string), a[1].(string)) }))
	add("hasPrefix", "String String", "Bool", funcs.HasPrefix, strict(func(a []interface{}) interface{} { return strings.HasPrefix(a[0].(string), a[1].(string)) }))
	add("hasSuffix", "String String", "Bool", funcs.HasSuffix, strict(func(a []interface{}) interface{} { return strings.HasSuffix(a[0].(string), a[1].(string)) }))
	in := strict(func(a []interface{}) interface{} {
		for _, x := range a[1].([]interface{}) {
			if eq(a[0], x) {
				return true
			}
		}
		return false
	})
	n := len(Ops)
	add("contains", "Int Ints", "Bool", funcs.ContainsInt, in)
	add("contains", "Uint Uints", "Bool", funcs.ContainsUint, in)
	add("contains", "String Strings", "Bool", funcs.ContainsString, in)
	for i := n; i < len(Ops); i++ {
		Ops[i].ConstArg = 1
	}
	n = len(Ops)
	add("regex", "String String", "Bool", funcs.Regex, strict(func(a []interface{}) interface{} {
		return regexp.MustCompile(a[0].(string)).MatchString(a[1].(string))
	}))
	Ops[n].ConstArg = 0
	Logic = []Op{
		{"and", []string{"Bool", "Bool"}, "Bool", funcs.And, func(a []Res) Res { return Res{a[0].True() && a[1].True()} }, -1},
		{"or", []string{"Bool", "Bool"}, "Bool", funcs.Or, func(a []Res) Res { return Res{a[0].True() || a[1].True()} }, -1},
		{"not", []string{"Bool"}, "Bool", funcs.Not, func(a []Res) Res { return Res{!a[0].True()} }, -1},
	}
}

// G generates functions.
type G struct{ R *rand.Rand }

func (g G) value(kind string) interface{} {
	vs := Vals[kind]
	if g.R.Intn(3) > 0 && len(vs) > 4 {
		return vs[g.R.Intn(4)] // collisions are what matters
	}
	return vs[g.R.Intn(len(vs))]
}

// ConstOf is a random constant.
func (g G) ConstOf(kind string) F {
	if Scalar(kind) {
		return Const(kind, g.value(kind))
	}
	l := []interface{}{}
	for n := g.R.Intn(4); n > 0; n-- {
		l = append(l, g.value(Elem[kind]))
	}
	return Const(kind, l)
}

// Gen is a random function whose result is exact (no and, or, not).
func (g G) Gen(kind string, depth int) F {
	if depth <= 0 || g.R.Intn(6) == 0 {
		if Scalar(kind) {
			if g.R.Intn(2) == 0 {
				return Var(kind)
			}
			return g.ConstOf(kind)
		}
		if g.R.Intn(2) == 0 {
			return g.ConstOf(kind)
		}
		var es []F
		for n := g.R.Intn(4); n > 0; n-- {
			es = append(es, g.Gen(Elem[kind], 0))
		}
		return List(kind, es)
	}
	if !Scalar(kind) && g.R.Intn(2) == 0 {
		var es []F
		for n := g.R.Intn(4); n > 0; n-- {
			es = append(es, g.Gen(Elem[kind], depth-1))
		}
		return List(kind, es)
	}
	var ops []Op
	for _, o := range Ops {
		if o.Out == kind {
			ops = append(ops, o)
		}
	}
	if len(ops) == 0 {
		return g.Gen(kind, 0)
	}
	for {
		o := ops[g.R.Intn(len(ops))]
		var args []F
		for i, k := range o.Args {
			switch {
			case i == o.ConstArg && o.Name == "regex":
				args = append(args, Const("String", []string{"a", "^a", "b$", "a*", "", "[ab]c?$"}[g.R.Intn(6)]))
			case i == o.ConstArg:
				args = append(args, g.ConstOf(k))
			default:
				args = append(args, g.Gen(k, depth-1))
			}
		}
		if f, ok := o.Apply(args...); ok {
			return f
		}
	}
}

// Simple is a comparison of a variable with a constant, either way round.
func (g G) Simple() F {
	for {
		o := Ops[g.R.Intn(len(Ops))]
		if o.Out != "Bool" || len(o.Args) != 2 || o.Args[0] != o.Args[1] {
			continue
		}
		k := o.Args[0]
		a, b := Var(k), g.ConstOf(k)
		if g.R.Intn(4) == 0 {
			a, b = b, a
		}
		if f, ok := o.Apply(a, b); ok {
			return f
		}
	}
}

// Truth is a random boolean function of which only the truth is specified.
func (g G) Truth(depth int) F {
	if depth <= 0 || g.R.Intn(4) == 0 {
		switch g.R.Intn(4) {
		case 0:
			return g.Gen("Bool", 2)
		case 1:
			return g.Gen("Bool", 0)
		}
		return g.Simple()
	}
	o := Logic[g.R.Intn(3)]
	var args []F
	for range o.Args {
		args = append(args, g.Truth(depth-1))
	}
	f, _ := o.Apply(args...)
	return f
}
