// Package rgen builds relapse grammars and trees together with an independent account of which trees a
// grammar describes.
package rgen

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/compose"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/intern"
	rparser "github.com/katydid/katydid/relapse/parser"
)

// Label is a value that a parser presents: it may answer to more than one of the typed methods.
type Label struct {
	D *float64
	I *int64
	U *uint64
	B *bool
	S *string
	Y []byte
}

var errKind = errors.New("other kind")

func (l Label) Double() (float64, error) {
	if l.D != nil {
		return *l.D, nil
	}
	return 0, errKind
}
func (l Label) Int() (int64, error) {
	if l.I != nil {
		return *l.I, nil
	}
	return 0, errKind
}
func (l Label) Uint() (uint64, error) {
	if l.U != nil {
		return *l.U, nil
	}
	return 0, errKind
}
func (l Label) Bool() (bool, error) {
	if l.B != nil {
		return *l.B, nil
	}
	return false, errKind
}
func (l Label) String() (string, error) {
	if l.S != nil {
		return *l.S, nil
	}
	return "", errKind
}
func (l Label) Bytes() ([]byte, error) {
	if l.Y != nil {
		return l.Y, nil
	}
	return nil, errKind
}

func str(s string) Label      { return Label{S: &s} }
func integer(i int64) Label   { return Label{I: &i} }
func boolean(b bool) Label    { return Label{B: &b} }
func double(d float64) Label  { return Label{D: &d} }
func unsigned(u uint64) Label { return Label{U: &u} }

// number answers as a number of JSON does.
func number(u uint64) Label {
	i, d := int64(u), float64(u)
	return Label{D: &d, I: &i, U: &u}
}

func (l Label) text() string {
	var ss []string
	if l.S != nil {
		ss = append(ss, fmt.Sprintf("%q", *l.S))
	}
	if l.I != nil {
		ss = append(ss, fmt.Sprintf("int(%d)", *l.I))
	}
	if l.U != nil {
		ss = append(ss, fmt.Sprintf("uint(%d)", *l.U))
	}
	if l.D != nil {
		ss = append(ss, fmt.Sprintf("double(%v)", *l.D))
	}
	if l.B != nil {
		ss = append(ss, fmt.Sprint(*l.B))
	}
	if l.Y != nil {
		ss = append(ss, fmt.Sprintf("bytes(%q)", l.Y))
	}
	return strings.Join(ss, "&")
}

// Tree is a labelled tree; a leaf has no children and cannot be gone down into.
type Tree struct {
	Label
	Kids []*Tree
	Leaf bool
}

func Show(ts []*Tree) string {
	ss := make([]string, len(ts))
	for i, t := range ts {
		ss[i] = t.text()
		if !t.Leaf {
			ss[i] += ":[" + Show(t.Kids) + "]"
		}
	}
	return strings.Join(ss, ", ")
}

// Walker presents a forest as a parser. It panics when it is not used as parser.Interface allows.
type Walker struct {
	Label
	frames []frame
	// Fail makes the nth call of Next fail, when it is not 0.
	Fail int
	n    int
}
type frame struct {
	ts []*Tree
	i  int
}

var ErrInjected = errors.New("injected")

func Walk(ts []*Tree) *Walker { return &Walker{frames: []frame{{ts, -1}}} }

func (w *Walker) top() *frame { return &w.frames[len(w.frames)-1] }
func (w *Walker) cur() *Tree {
	f := w.top()
	if f.i < 0 || f.i >= len(f.ts) {
		panic("walker: no current tree")
	}
	return f.ts[f.i]
}
func (w *Walker) Next() error {
	w.n++
	if w.n == w.Fail {
		return ErrInjected
	}
	f := w.top()
	f.i++
	if f.i >= len(f.ts) {
		f.i = len(f.ts)
		w.Label = Label{}
		return io.EOF
	}
	w.Label = f.ts[f.i].Label
	return nil
}
func (w *Walker) IsLeaf() bool { return w.cur().Leaf }
func (w *Walker) Down() {
	t := w.cur()
	if t.Leaf {
		panic("walker: down into a leaf")
	}
	w.frames = append(w.frames, frame{t.Kids, -1})
	w.Label = Label{}
}
func (w *Walker) Up() {
	if len(w.frames) == 1 {
		panic("walker: up from the top")
	}
	w.frames = w.frames[:len(w.frames)-1]
	w.Label = w.cur().Label
}

// Depth is the number of levels gone down.
func (w *Walker) Depth() int { return len(w.frames) - 1 }

var _ parser.Interface = &Walker{}

// Op is an operator of the pattern language.
type Op int

const (
	Empty Op = iota
	Any
	Node
	Cat
	Or
	And
	Ilv
	Star
	Not
	Contains
	Opt
	Ref
)

// P is a pattern: the reference form that the matcher works on.
type P struct {
	Op   Op
	Kids []*P
	Pred func(parser.Value) bool
	Ref  string
	mk   func(kids []*ast.Pattern) *ast.Pattern
	like func(r *rand.Rand) Label
	leaf bool
	err  bool
}

// G is a grammar.
type G struct {
	Main  *P
	Defs  map[string]*P
	Names []string
}

// Ast is the pattern as a syntax tree, built anew.
func (p *P) Ast() *ast.Pattern {
	kids := make([]*ast.Pattern, len(p.Kids))
	for i, k := range p.Kids {
		kids[i] = k.Ast()
	}
	return p.mk(kids)
}

// MayErr reports whether evaluating a predicate of the grammar may fail.
func (g *G) MayErr() bool {
	for _, p := range g.Defs {
		if p.mayErr() {
			return true
		}
	}
	return g.Main.mayErr()
}

func (p *P) mayErr() bool {
	for _, k := range p.Kids {
		if k.mayErr() {
			return true
		}
	}
	return p.err
}

// Ast is the grammar as a syntax tree, built anew.
func (g *G) Ast() *ast.Grammar {
	m := map[string]*ast.Pattern{"main": g.Main.Ast()}
	for n, p := range g.Defs {
		m[n] = p.Ast()
	}
	return ast.NewGrammar(m)
}

func (g *G) String() string {
	ss := []string{g.Main.Ast().String()}
	for _, n := range g.Names {
		ss = append(ss, "#"+n+" = "+g.Defs[n].Ast().String())
	}
	return strings.Join(ss, " ")
}

// ---- matching

type key struct {
	p    *P
	f    *Tree
	mask uint32
}

// Matcher decides membership by the definition of the operators.
type Matcher struct {
	Lookup func(name string) *P
	memo   map[key]bool
	root   *Tree
	fuel   int
}

// Match reports whether the forest is described by p.
func Match(lookup func(string) *P, p *P, ts []*Tree) bool {
	m := &Matcher{Lookup: lookup, memo: map[key]bool{}, root: &Tree{Kids: ts}, fuel: 4000000}
	return m.match(p, m.root, 1<<uint(len(ts))-1)
}

// Match reports whether the forest is described by the grammar.
func (g *G) Match(ts []*Tree) bool { return Match(g.Lookup, g.Main, ts) }

func (g *G) Lookup(n string) *P {
	if n == "main" {
		return g.Main
	}
	return g.Defs[n]
}

func (m *Matcher) match(p *P, f *Tree, mask uint32) bool {
	k := key{p, f, mask}
	if v, ok := m.memo[k]; ok {
		return v
	}
	m.fuel--
	if m.fuel < 0 {
		panic("rgen: out of fuel")
	}
	v := m.eval(p, f, mask)
	m.memo[k] = v
	return v
}

func (m *Matcher) eval(p *P, f *Tree, mask uint32) bool {
	switch p.Op {
	case Empty:
		return mask == 0
	case Any:
		return true
	case Node:
		if mask == 0 || mask&(mask-1) != 0 {
			return false
		}
		i := 0
		for mask>>uint(i) != 1 {
			i++
		}
		t := f.Kids[i]
		return p.Pred(t.Label) && m.match(p.Kids[0], t, 1<<uint(len(t.Kids))-1)
	case Cat:
		return m.cat(p, 0, f, mask)
	case Or:
		for _, k := range p.Kids {
			if m.match(k, f, mask) {
				return true
			}
		}
		return false
	case And:
		for _, k := range p.Kids {
			if !m.match(k, f, mask) {
				return false
			}
		}
		return true
	case Ilv:
		return m.ilv(p, 0, f, mask)
	case Star:
		if mask == 0 {
			return true
		}
		for _, pre := range prefixes(mask) {
			if pre != 0 && m.match(p.Kids[0], f, pre) && m.match(p, f, mask&^pre) {
				return true
			}
		}
		return false
	case Not:
		return !m.match(p.Kids[0], f, mask)
	case Contains:
		for _, pre := range prefixes(mask) {
			for _, mid := range prefixes(mask &^ pre) {
				if m.match(p.Kids[0], f, mid) {
					return true
				}
			}
		}
		return false
	case Opt:
		return mask == 0 || m.match(p.Kids[0], f, mask)
	case Ref:
		return m.match(m.Lookup(p.Ref), f, mask)
	}
	panic("op")
}

func prefixes(mask uint32) []uint32 {
	out := []uint32{0}
	pre := uint32(0)
	for i := uint(0); mask>>i != 0; i++ {
		if mask&(1<<i) != 0 {
			pre |= 1 << i
			out = append(out, pre)
		}
	}
	return out
}

func (m *Matcher) cat(p *P, i int, f *Tree, mask uint32) bool {
	if i == len(p.Kids) {
		return mask == 0
	}
	if i == len(p.Kids)-1 {
		return m.match(p.Kids[i], f, mask)
	}
	for _, pre := range prefixes(mask) {
		if m.match(p.Kids[i], f, pre) && m.cat(p, i+1, f, mask&^pre) {
			return true
		}
	}
	return false
}

func (m *Matcher) ilv(p *P, i int, f *Tree, mask uint32) bool {
	if i == len(p.Kids) {
		return mask == 0
	}
	if i == len(p.Kids)-1 {
		return m.match(p.Kids[i], f, mask)
	}
	for sub := mask; ; sub = (sub - 1) & mask {
		if m.match(p.Kids[i], f, sub) && m.ilv(p, i+1, f, mask&^sub) {
			return true
		}
		if sub == 0 {
			return false
		}
	}
}

// ---- conversions of the patterns of the system

func evalFunc(f funcs.Bool, v parser.Value) bool {
	c, err := compose.NewBoolFunc(f)
	if err != nil {
		return false
	}
	b, err := c.Eval(v)
	return err == nil && b
}

// FromIntern gives the reference form of an interned pattern.
func FromIntern(p *intern.Pattern) *P {
	if p == nil {
		panic("nil interned pattern")
	}
	q := &P{}
	for _, k := range p.Patterns {
		q.Kids = append(q.Kids, FromIntern(k))
	}
	switch p.Type {
	case intern.Empty:
		q.Op = Empty
	case intern.ZAny:
		q.Op = Any
	case intern.Node:
		q.Op = Node
		f := p.Func
		q.Pred = func(v parser.Value) bool { return evalFunc(f, v) }
	case intern.Concat:
		q.Op = Cat
	case intern.Or:
		q.Op = Or
	case intern.And:
		q.Op = And
	case intern.Interleave:
		q.Op = Ilv
	case intern.ZeroOrMore:
		q.Op = Star
	case intern.Not:
		q.Op = Not
	case intern.Contains:
		q.Op = Contains
	case intern.Optional:
		q.Op = Opt
	case intern.Reference:
		q.Op = Ref
		q.Ref = p.Ref
	default:
		panic(fmt.Sprintf("interned pattern of type %d", p.Type))
	}
	return q
}

func nameMatch(n *ast.NameExpr, v parser.Value) bool {
	if l := n.GetName(); l != nil {
		switch {
		case l.DoubleValue != nil:
			d, err := v.Double()
			return err == nil && d == *l.DoubleValue
		case l.IntValue != nil:
			d, err := v.Int()
			return err == nil && d == *l.IntValue
		case l.UintValue != nil:
			d, err := v.Uint()
			return err == nil && d == *l.UintValue
		case l.BoolValue != nil:
			d, err := v.Bool()
			return err == nil && d == *l.BoolValue
		case l.StringValue != nil:
			d, err := v.String()
			return err == nil && d == *l.StringValue
		default:
			d, err := v.Bytes()
			return err == nil && string(d) == string(l.BytesValue)
		}
	}
	if n.GetAnyName() != nil {
		return true
	}
	if n.GetAnyNameExcept() != nil {
		return !nameMatch(n.GetAnyNameExcept().GetExcept(), v)
	}
	return nameMatch(n.GetNameChoice().GetLeft(), v) || nameMatch(n.GetNameChoice().GetRight(), v)
}

// FromAst gives the reference form of a syntax tree.
func FromAst(p *ast.Pattern) *P {
	one := func(op Op, k *ast.Pattern) *P { return &P{Op: op, Kids: []*P{FromAst(k)}} }
	two := func(op Op, l, r *ast.Pattern) *P { return &P{Op: op, Kids: []*P{FromAst(l), FromAst(r)}} }
	switch v := p.GetValue().(type) {
	case *ast.Empty:
		return &P{Op: Empty}
	case *ast.ZAny:
		return &P{Op: Any}
	case *ast.TreeNode:
		q := one(Node, v.GetPattern())
		q.Pred = func(l parser.Value) bool { return nameMatch(v.GetName(), l) }
		return q
	case *ast.LeafNode:
		b, err := compose.NewBool(v.GetExpr())
		if err != nil {
			panic(err)
		}
		return &P{Op: Node, Kids: []*P{{Op: Empty}}, Pred: func(l parser.Value) bool { return evalFunc(b, l) }}
	case *ast.Concat:
		return two(Cat, v.GetLeftPattern(), v.GetRightPattern())
	case *ast.Or:
		return two(Or, v.GetLeftPattern(), v.GetRightPattern())
	case *ast.And:
		return two(And, v.GetLeftPattern(), v.GetRightPattern())
	case *ast.Interleave:
		return two(Ilv, v.GetLeftPattern(), v.GetRightPattern())
	case *ast.ZeroOrMore:
		return one(Star, v.GetPattern())
	case *ast.Not:
		return one(Not, v.GetPattern())
	case *ast.Contains:
		return one(Contains, v.GetPattern())
	case *ast.Optional:
		return one(Opt, v.GetPattern())
	case *ast.Reference:
		return &P{Op: Ref, Ref: v.GetName()}
	}
	panic(fmt.Sprintf("pattern %T", p.GetValue()))
}

// ---- generation

// Pred is a predicate on labels with its meaning.
type Pred struct {
	Text string
	F    func(parser.Value) bool
	Like func(r *rand.Rand) Label
	// Err tells that evaluating the predicate may fail.
	Err bool
}

func isS(f func(string) bool) func(parser.Value) bool {
	return func(v parser.Value) bool { s, err := v.String(); return err == nil && f(s) }
}
func isI(f func(int64) bool) func(parser.Value) bool {
	return func(v parser.Value) bool { s, err := v.Int(); return err == nil && f(s) }
}
func isU(f func(uint64) bool) func(parser.Value) bool {
	return func(v parser.Value) bool { s, err := v.Uint(); return err == nil && f(s) }
}
func isD(f func(float64) bool) func(parser.Value) bool {
	return func(v parser.Value) bool { s, err := v.Double(); return err == nil && f(s) }
}
func isB(f func(bool) bool) func(parser.Value) bool {
	return func(v parser.Value) bool { s, err := v.Bool(); return err == nil && f(s) }
}

// collide are strings with the same hash.
var collide = []string{"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa"}

var strs = []string{"a", "b", "ab", "c", ""}

// preds are the atomic leaf predicates.
var preds = []Pred{
	{`eq($string, "a")`, isS(func(s string) bool { return s == "a" }), func(*rand.Rand) Label { return str("a") }, false},
	{`eq($string, "b")`, isS(func(s string) bool { return s == "b" }), func(*rand.Rand) Label { return str("b") }, false},
	{`ne($string, "a")`, isS(func(s string) bool { return s != "a" }), func(*rand.Rand) Label { return str("ab") }, false},
	{`contains($string, "b")`, isS(func(s string) bool { return strings.Contains(s, "b") }), func(*rand.Rand) Label { return str("ab") }, true},
	{`hasPrefix($string, "a")`, isS(func(s string) bool { return strings.HasPrefix(s, "a") }), func(*rand.Rand) Label { return str("ab") }, true},
	{`type($string)`, isS(func(s string) bool { return true }), func(*rand.Rand) Label { return str("c") }, true},
	{`eq($int, 1)`, isI(func(i int64) bool { return i == 1 }), func(*rand.Rand) Label { return integer(1) }, false},
	{`lt($int, 2)`, isI(func(i int64) bool { return i < 2 }), func(*rand.Rand) Label { return integer(-1) }, false},
	{`ge($int, 1)`, isI(func(i int64) bool { return i >= 1 }), func(*rand.Rand) Label { return number(2) }, false},
	{`eq($uint, uint(1))`, isU(func(i uint64) bool { return i == 1 }), func(*rand.Rand) Label { return number(1) }, false},
	{`gt($double, double(0.5))`, isD(func(i float64) bool { return i > 0.5 }), func(*rand.Rand) Label { return double(1.5) }, false},
	{`eq($bool, true)`, isB(func(b bool) bool { return b }), func(*rand.Rand) Label { return boolean(true) }, false},
	{`eq(1, $int)`, isI(func(i int64) bool { return i == 1 }), func(*rand.Rand) Label { return integer(1) }, false},
	{`lt(1, $int)`, isI(func(i int64) bool { return i > 1 }), func(*rand.Rand) Label { return integer(2) }, false},
}

func genPred(r *rand.Rand, d int) Pred {
	if d == 0 || r.Intn(3) > 0 {
		p := preds[r.Intn(len(preds))]
		if p.Err && r.Intn(3) > 0 {
			return preds[r.Intn(2)]
		}
		return p
	}
	a := genPred(r, d-1)
	if r.Intn(4) == 0 {
		return Pred{"not(" + a.Text + ")", func(v parser.Value) bool { return !a.F(v) }, func(r *rand.Rand) Label { return genLabel(r) }, a.Err}
	}
	b := genPred(r, d-1)
	if r.Intn(2) == 0 {
		return Pred{"or(" + a.Text + "," + b.Text + ")", func(v parser.Value) bool { return a.F(v) || b.F(v) }, a.Like, a.Err || b.Err}
	}
	return Pred{"and(" + a.Text + "," + b.Text + ")", func(v parser.Value) bool { return a.F(v) && b.F(v) }, b.Like, a.Err || b.Err}
}

func genLabel(r *rand.Rand) Label {
	switch r.Intn(12) {
	case 0:
		return integer(int64(r.Intn(3)) - 1)
	case 1:
		return number(uint64(r.Intn(3)))
	case 2:
		return boolean(r.Intn(2) == 0)
	case 3:
		return unsigned(uint64(r.Intn(3)))
	case 4:
		return double(float64(r.Intn(4)) / 2)
	case 5:
		return Label{Y: []byte("a")}
	}
	return str(strs[r.Intn(len(strs))])
}

type name struct {
	mk   func() *ast.NameExpr
	f    func(parser.Value) bool
	like func(r *rand.Rand) Label
}

func genName(r *rand.Rand, d int) name {
	if d > 0 {
		switch r.Intn(8) {
		case 0:
			n := genName(r, d-1)
			return name{func() *ast.NameExpr { return ast.NewAnyNameExcept(n.mk()) }, func(v parser.Value) bool { return !n.f(v) }, genLabel}
		case 1:
			a, b := genName(r, d-1), genName(r, d-1)
			return name{func() *ast.NameExpr { return ast.NewNameChoice(a.mk(), b.mk()) }, func(v parser.Value) bool { return a.f(v) || b.f(v) }, b.like}
		}
	}
	switch r.Intn(14) {
	case 0:
		return name{ast.NewAnyName, func(parser.Value) bool { return true }, genLabel}
	case 1:
		n := int64(r.Intn(2))
		return name{func() *ast.NameExpr { return ast.NewIntName(n) }, isI(func(i int64) bool { return i == n }), func(r *rand.Rand) Label { return integer(n) }}
	case 2:
		return name{func() *ast.NameExpr { return ast.NewBoolName(true) }, isB(func(i bool) bool { return i }), func(r *rand.Rand) Label { return boolean(true) }}
	case 3:
		return name{func() *ast.NameExpr { return ast.NewUintName(1) }, isU(func(i uint64) bool { return i == 1 }), func(r *rand.Rand) Label { return number(1) }}
	}
	n := strs[r.Intn(3)]
	return name{func() *ast.NameExpr { return ast.NewStringName(n) }, isS(func(s string) bool { return s == n }), func(r *rand.Rand) Label { return str(n) }}
}

func (p Pred) node() *P {
	text := p.Text
	return &P{Op: Node, Kids: nil, Pred: p.F, like: p.Like, leaf: true, err: p.Err, mk: func([]*ast.Pattern) *ast.Pattern {
		e, err := rparser.ParseExpr("->" + text)
		if err != nil {
			panic(fmt.Sprintf("%s: %v", text, err))
		}
		return ast.NewLeafNode(e)
	}}
}

// Gen generates patterns.
type Gen struct {
	R *rand.Rand
	// Refs are the names that may be referred to below a tree node, Open those that may be referred to anywhere.
	Refs, Open []string
	// Names makes all names string constants.
	Names bool
	// Collide uses constants whose hashes are the same.
	Collide bool
}

func (g Gen) Leaf() *P {
	pred := genPred(g.R, 2)
	if g.Collide && g.R.Intn(2) == 0 {
		c := collide[g.R.Intn(len(collide))]
		pred = Pred{fmt.Sprintf("eq($string, %q)", c), isS(func(s string) bool { return s == c }), func(*rand.Rand) Label { return str(c) }, false}
	}
	q := pred.node()
	q.Kids = []*P{{Op: Empty, mk: func([]*ast.Pattern) *ast.Pattern { return ast.NewEmpty() }}}
	mk := q.mk
	q.mk = func([]*ast.Pattern) *ast.Pattern { return mk(nil) }
	return q
}

func empty() *P {
	return &P{Op: Empty, mk: func([]*ast.Pattern) *ast.Pattern { return ast.NewEmpty() }}
}
func any() *P {
	return &P{Op: Any, mk: func([]*ast.Pattern) *ast.Pattern { return ast.NewZAny() }}
}
func mkop(op Op, kids ...*P) *P {
	p := &P{Op: op, Kids: kids}
	switch op {
	case Cat:
		p.mk = func(k []*ast.Pattern) *ast.Pattern { return ast.NewConcat(k...) }
	case Or:
		p.mk = func(k []*ast.Pattern) *ast.Pattern { return ast.NewOr(k...) }
	case And:
		p.mk = func(k []*ast.Pattern) *ast.Pattern { return ast.NewAnd(k...) }
	case Ilv:
		p.mk = func(k []*ast.Pattern) *ast.Pattern { return ast.NewInterleave(k...) }
	case Star:
		p.mk = func(k []*ast.Pattern) *ast.Pattern { return ast.NewZeroOrMore(k[0]) }
	case Not:
		p.mk = func(k []*ast.Pattern) *ast.Pattern { return ast.NewNot(k[0]) }
	case Contains:
		p.mk = func(k []*ast.Pattern) *ast.Pattern { return ast.NewContains(k[0]) }
	case Opt:
		p.mk = func(k []*ast.Pattern) *ast.Pattern { return ast.NewOptional(k[0]) }
	}
	return p
}
func ref(n string) *P {
	return &P{Op: Ref, Ref: n, mk: func([]*ast.Pattern) *ast.Pattern { return ast.NewReference(n) }}
}

// Pattern generates a pattern of at most the given depth.
func (g Gen) Pattern(d int) *P {
	r := g.R
	if len(g.Open) > 0 && r.Intn(8) == 0 {
		return ref(g.Open[r.Intn(len(g.Open))])
	}
	if d <= 0 {
		switch r.Intn(8) {
		case 0:
			return empty()
		case 1:
			return any()
		case 2:
			return mkop(Not, any())
		case 3, 4:
			return g.Leaf()
		}
		return g.Node(0)
	}
	kids := func(n int) []*P {
		ks := make([]*P, n)
		for i := range ks {
			if i > 0 && r.Intn(5) == 0 {
				// the same pattern again, to exercise the removal of duplicates
				ks[i] = ks[r.Intn(i)]
				continue
			}
			if i > 0 && ks[i-1].Op == Node && !ks[i-1].leaf && r.Intn(3) == 0 {
				// the same name with another child, to exercise merging
				k := *ks[i-1]
				k.Kids = []*P{g.Pattern(d - 2)}
				ks[i] = &k
				continue
			}
			ks[i] = g.Pattern(d - 1)
		}
		return ks
	}
	n := 2
	if r.Intn(3) == 0 {
		n = 3
	}
	switch r.Intn(16) {
	case 0, 1, 2:
		return mkop(Cat, kids(n)...)
	case 3, 4:
		return mkop(Or, kids(n)...)
	case 5, 6:
		return mkop(And, kids(n)...)
	case 7, 8:
		return mkop(Ilv, kids(n)...)
	case 9, 10:
		return mkop(Star, kids(1)...)
	case 11:
		return mkop(Not, kids(1)...)
	case 12:
		return mkop(Contains, kids(1)...)
	case 13:
		return mkop(Opt, kids(1)...)
	}
	return g.Node(d - 1)
}

// Node generates a tree node.
func (g Gen) Node(d int) *P {
	n := genName(g.R, 2)
	if g.Names || (g.Collide && g.R.Intn(2) == 0) {
		s := strs[g.R.Intn(3)]
		if g.Collide {
			s = collide[g.R.Intn(len(collide))]
		}
		n = name{func() *ast.NameExpr { return ast.NewStringName(s) }, isS(func(t string) bool { return s == t }), func(r *rand.Rand) Label { return str(s) }}
	}
	sub := g
	sub.Open = append(append([]string{}, g.Refs...), g.Open...)
	var kid *P
	if d == 0 {
		switch g.R.Intn(4) {
		case 0:
			kid = empty()
		case 1:
			kid = any()
		default:
			kid = g.Leaf()
		}
		if len(sub.Open) > 0 && g.R.Intn(3) == 0 {
			kid = ref(sub.Open[g.R.Intn(len(sub.Open))])
		}
	} else {
		kid = sub.Pattern(d)
	}
	return &P{Op: Node, Kids: []*P{kid}, Pred: n.f, like: n.like, mk: func(k []*ast.Pattern) *ast.Pattern { return ast.NewTreeNode(n.mk(), k[0]) }}
}

// Grammar generates a grammar without immediate recursion.
func Grammar(r *rand.Rand, depth int) *G {
	names := []string{}
	all := []string{"main"}
	for i := r.Intn(4); i > 0; i-- {
		n := fmt.Sprintf("d%d", i)
		names = append(names, n)
		all = append(all, n)
	}
	gr := &G{Defs: map[string]*P{}, Names: names}
	for i, n := range names {
		gr.Defs[n] = Gen{R: r, Refs: all, Open: names[i+1:]}.Pattern(r.Intn(depth))
	}
	gr.Main = Gen{R: r, Refs: all, Open: names}.Pattern(1 + r.Intn(depth))
	return gr
}

// Record generates a grammar whose names are string constants.
func Record(r *rand.Rand, depth int) *G {
	return &G{Defs: map[string]*P{}, Main: Gen{R: r, Names: true}.Pattern(1 + r.Intn(depth))}
}

// CollideGrammar generates a grammar that has different parts with equal hashes.
func CollideGrammar(r *rand.Rand, depth int) *G {
	names := []string{"Aa", "BB"}
	gr := &G{Defs: map[string]*P{}, Names: names}
	for i, n := range names {
		gr.Defs[n] = Gen{R: r, Refs: names, Open: names[i+1:], Collide: true}.Pattern(1 + r.Intn(depth))
	}
	gr.Main = Gen{R: r, Refs: names, Open: names, Collide: true}.Pattern(1 + r.Intn(depth))
	return gr
}

// Recursive generates a grammar whose references occur anywhere.
func Recursive(r *rand.Rand, depth int) *G {
	names := []string{}
	for i := r.Intn(4); i > 0; i-- {
		names = append(names, fmt.Sprintf("d%d", i))
	}
	open := names
	if r.Intn(3) == 0 {
		open = append([]string{"main"}, names...)
	}
	gr := &G{Defs: map[string]*P{}, Names: names}
	for _, n := range names {
		gr.Defs[n] = Gen{R: r, Refs: open, Open: open}.Pattern(r.Intn(depth))
	}
	gr.Main = Gen{R: r, Refs: open, Open: open}.Pattern(r.Intn(depth))
	return gr
}

// Immediate reports whether a definition can reach itself without crossing a tree node.
func (g *G) Immediate() bool {
	direct := map[string]map[string]bool{}
	for _, n := range append([]string{"main"}, g.Names...) {
		direct[n] = map[string]bool{}
		refsOf(g.Lookup(n), direct[n])
	}
	for n := range direct {
		seen := map[string]bool{}
		todo := []string{n}
		for len(todo) > 0 {
			m := todo[0]
			todo = todo[1:]
			for k := range direct[m] {
				if k == n {
					return true
				}
				if !seen[k] {
					seen[k] = true
					todo = append(todo, k)
				}
			}
		}
	}
	return false
}

func refsOf(p *P, out map[string]bool) {
	if p.Op == Node {
		return
	}
	if p.Op == Ref {
		out[p.Ref] = true
	}
	for _, k := range p.Kids {
		refsOf(k, out)
	}
}

// Size counts the tree and leaf nodes of the grammar.
func (g *G) Size() int {
	n := g.Main.size()
	for _, p := range g.Defs {
		n += p.size()
	}
	return n
}

func (p *P) size() int {
	n := 0
	if p.Op == Node {
		n = 1
	}
	for _, k := range p.Kids {
		n += k.size()
	}
	return n
}

// Nodes collects the predicates of tree and leaf nodes.
func (p *P) Nodes() []*P {
	var out []*P
	if p.Op == Node {
		out = append(out, p)
	}
	for _, k := range p.Kids {
		out = append(out, k.Nodes()...)
	}
	return out
}

// Mk makes a pattern of an operator and operands.
func Mk(op Op, kids ...*P) *P {
	switch op {
	case Empty:
		return empty()
	case Any:
		return any()
	}
	return mkop(op, kids...)
}

// Named makes a tree node with a string name.
func Named(s string, kid *P) *P {
	return &P{Op: Node, Kids: []*P{kid}, Pred: isS(func(t string) bool { return s == t }), like: func(*rand.Rand) Label { return str(s) },
		mk: func(k []*ast.Pattern) *ast.Pattern { return ast.NewTreeNode(ast.NewStringName(s), k[0]) }}
}

// Vary gives a pattern that differs from p in one place.
func (g Gen) Vary(p *P) *P {
	if len(p.Kids) == 0 || p.leaf || g.R.Intn(4) == 0 {
		if p.Op == Ref && len(g.Open) > 0 {
			return ref(g.Open[g.R.Intn(len(g.Open))])
		}
		if p.Op == Node && !p.leaf {
			n := *g.Node(0)
			n.Kids = p.Kids
			return &n
		}
		if len(p.Kids) == 1 && !p.leaf {
			return mkop([]Op{Star, Not, Contains, Opt}[g.R.Intn(4)], p.Kids...)
		}
		if len(p.Kids) > 1 {
			return mkop([]Op{Cat, Or, And, Ilv}[g.R.Intn(4)], p.Kids...)
		}
		if p.leaf {
			return g.Leaf()
		}
		return g.Pattern(0)
	}
	q := *p
	q.Kids = append([]*P{}, p.Kids...)
	i := g.R.Intn(len(q.Kids))
	q.Kids[i] = g.Vary(q.Kids[i])
	return &q
}

// MkRef makes a reference.
func MkRef(n string) *P { return ref(n) }

// Unique reports whether no two siblings have the same label.
func Unique(ts []*Tree) bool {
	seen := map[string]bool{}
	for _, t := range ts {
		if seen[t.text()] || !Unique(t.Kids) {
			return false
		}
		seen[t.text()] = true
	}
	return true
}

// Forest generates a forest, often one that the pattern describes.
func (gr *G) Forest(r *rand.Rand) []*Tree {
	if r.Intn(4) == 0 {
		return forest(r, 3)
	}
	f := &forester{r, gr.Lookup, 60}
	ts := f.gen(gr.Main, 6)
	if r.Intn(3) == 0 {
		ts = mutate(r, ts)
	}
	return cut(ts, 5)
}

// cut keeps forests narrow, since matching an interleave takes exponential time.
func cut(ts []*Tree, n int) []*Tree {
	if len(ts) > n {
		ts = ts[:n]
	}
	for _, t := range ts {
		t.Kids = cut(t.Kids, n)
	}
	return ts
}

// RandomForest generates any forest.
func RandomForest(r *rand.Rand) []*Tree { return forest(r, 3) }

func forest(r *rand.Rand, d int) []*Tree {
	ts := make([]*Tree, r.Intn(4))
	for i := range ts {
		ts[i] = tree(r, d)
	}
	return ts
}

func tree(r *rand.Rand, d int) *Tree {
	t := &Tree{Label: genLabel(r)}
	if d == 0 || r.Intn(3) == 0 {
		t.Leaf = r.Intn(4) > 0
		return t
	}
	t.Kids = forest(r, d-1)
	return t
}

func mutate(r *rand.Rand, ts []*Tree) []*Tree {
	if len(ts) == 0 || r.Intn(4) == 0 {
		i := r.Intn(len(ts) + 1)
		return append(append(append([]*Tree{}, ts[:i]...), tree(r, 1)), ts[i:]...)
	}
	out := append([]*Tree{}, ts...)
	i := r.Intn(len(ts))
	switch r.Intn(5) {
	case 0:
		return append(out[:i], out[i+1:]...)
	case 1:
		j := r.Intn(len(ts))
		out[i], out[j] = out[j], out[i]
	case 2:
		t := *out[i]
		t.Label = genLabel(r)
		out[i] = &t
	default:
		t := *out[i]
		if !t.Leaf {
			t.Kids = mutate(r, t.Kids)
			out[i] = &t
		}
	}
	return out
}

type forester struct {
	r      *rand.Rand
	lookup func(string) *P
	fuel   int
}

// gen gives a forest that probably matches p.
func (f *forester) gen(p *P, d int) []*Tree {
	r := f.r
	f.fuel--
	if d <= 0 || f.fuel < 0 {
		return nil
	}
	switch p.Op {
	case Any:
		return forest(r, 1)
	case Node:
		l := genLabel(r)
		if p.like != nil && r.Intn(8) > 0 {
			l = p.like(r)
		}
		t := &Tree{Label: l}
		if p.leaf {
			t.Leaf = r.Intn(6) > 0
		} else {
			t.Kids = f.gen(p.Kids[0], d-1)
			if len(t.Kids) == 0 {
				t.Leaf = r.Intn(3) == 0
			}
		}
		return []*Tree{t}
	case Cat:
		var ts []*Tree
		for _, k := range p.Kids {
			ts = append(ts, f.gen(k, d)...)
		}
		return ts
	case Or:
		return f.gen(p.Kids[r.Intn(len(p.Kids))], d)
	case And:
		return f.gen(p.Kids[r.Intn(len(p.Kids))], d)
	case Ilv:
		var ts []*Tree
		for _, k := range p.Kids {
			ts = shuffle(r, ts, f.gen(k, d))
		}
		return ts
	case Star:
		var ts []*Tree
		for n := r.Intn(3); n > 0; n-- {
			ts = append(ts, f.gen(p.Kids[0], d)...)
		}
		return ts
	case Not:
		return forest(r, 2)
	case Contains:
		ts := append([]*Tree{}, forest(r, 0)...)
		ts = append(ts, f.gen(p.Kids[0], d)...)
		return append(ts, forest(r, 0)...)
	case Opt:
		if r.Intn(3) == 0 {
			return nil
		}
		return f.gen(p.Kids[0], d)
	case Ref:
		return f.gen(f.lookup(p.Ref), d-1)
	}
	return nil
}

func shuffle(r *rand.Rand, a, b []*Tree) []*Tree {
	var out []*Tree
	for len(a) > 0 || len(b) > 0 {
		if len(b) == 0 || (len(a) > 0 && r.Intn(2) == 0) {
			out, a = append(out, a[0]), a[1:]
		} else {
			out, b = append(out, b[0]), b[1:]
		}
	}
	return out
}
