package c21

import (
	"math"
	"math/rand"
	"testing"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/parser"
	"github.com/katydid/katydid/zzverif/rgen"
	"github.com/katydid/katydid/zzverif/vh"
)

func grammar() *rgen.G {
	// definitions that differ, under names with equal hashes
	leaf := func(s string) *rgen.P { return rgen.Mk(rgen.Star, rgen.Named(s, rgen.Mk(rgen.Empty))) }
	return &rgen.G{
		Main:  rgen.Mk(rgen.Empty),
		Defs:  map[string]*rgen.P{"Aa": leaf("a"), "BB": leaf("b"), "AaAa": leaf("c"), "BBBB": leaf("ab")},
		Names: []string{"Aa", "BB", "AaAa", "BBBB"},
	}
}

// differ looks for a forest that tells two patterns apart.
func differ(r *rand.Rand, g *rgen.G, a, b *rgen.P) (string, bool) {
	for i := 0; i < 16; i++ {
		p := a
		if i%2 == 0 {
			p = b
		}
		ts := (&rgen.G{Main: p, Defs: g.Defs, Names: g.Names}).Forest(r)
		var x, y bool
		if vh.Try(func() { x, y = rgen.Match(g.Lookup, a, ts), rgen.Match(g.Lookup, b, ts) }) != "" {
			continue
		}
		if x != y {
			return rgen.Show(ts), true
		}
	}
	return "", false
}

func pairs(r *rand.Rand) (*rgen.P, *rgen.P) {
	gen := rgen.Gen{R: r, Open: []string{"Aa", "BB", "AaAa", "BBBB"}, Collide: r.Intn(2) == 0}
	a := gen.Pattern(r.Intn(3))
	switch r.Intn(3) {
	case 0:
		return a, gen.Pattern(r.Intn(3))
	case 1:
		return a, a
	}
	return a, gen.Vary(a)
}

func TestVerifEqual(t *testing.T) {
	r := vh.Rand(21)
	g := grammar()
	n, eq, coll := 0, 0, 0
	for i := 0; i < vh.N(60000, 600000) && !vh.TooMany(); i++ {
		a, b := pairs(r)
		x, y := a.Ast(), b.Ast()
		n++
		if i < 3 {
			vh.Sample("%s and %s", x, y)
		}
		m := vh.Try(func() {
			if !x.Equal(x) || !y.Equal(y) {
				vh.Fail(t, "reflexive", "%s or %s is not equal to itself", x, y)
			}
			if a == b && !x.Equal(y) {
				vh.Fail(t, "copy", "%s is not equal to its copy", x)
			}
			if x.Equal(y) != y.Equal(x) {
				vh.Fail(t, "symmetric", "%s and %s", x, y)
			}
			if x.Hash() == y.Hash() {
				coll++
			}
			if x.Equal(y) {
				eq++
				if x.Hash() != y.Hash() {
					vh.Fail(t, "hash", "%s and %s are equal and have the hashes %d and %d", x, y, x.Hash(), y.Hash())
				}
				if ts, ok := differ(r, g, a, b); ok {
					vh.Fail(t, "meaning", "%s and %s are equal and differ on [%s]", x, y, ts)
				}
			}
		})
		if m != "" {
			vh.Fail(t, "panic", "%s and %s: %s", x, y, m)
		}
	}
	vh.Stat("pairs", n)
	vh.Stat("equal", eq)
	vh.Stat("samehash", coll)
	vh.Done()
}

func TestVerifInternEqual(t *testing.T) {
	r := vh.Rand(2121)
	g := grammar()
	n, eq := 0, 0
	for i := 0; i < vh.N(30000, 300000) && !vh.TooMany(); i++ {
		c := intern.NewConstructor()
		d := intern.NewConstructor()
		if _, err := c.AddGrammar(g.Ast()); err != nil {
			t.Fatal(err)
		}
		if _, err := d.AddGrammar(g.Ast()); err != nil {
			t.Fatal(err)
		}
		for k := 0; k < 8; k++ {
			a, b := pairs(r)
			var x, y *intern.Pattern
			var err error
			if m := vh.Try(func() {
				if x, err = c.NewPattern(a.Ast()); err == nil {
					y, err = d.NewPattern(b.Ast())
				}
			}); m != "" || err != nil {
				vh.Fail(t, "construct", "%s or %s: %s %v", a.Ast(), b.Ast(), m, err)
				continue
			}
			n++
			m := vh.Try(func() {
				if !x.Equal(x) || !y.Equal(y) {
					vh.Fail(t, "reflexive", "interned %s or %s is not equal to itself", x, y)
				}
				if a == b && !x.Equal(y) {
					vh.Fail(t, "copy", "interned %s is not equal to its copy %s", x, y)
				}
				if x.Equal(y) != y.Equal(x) {
					vh.Fail(t, "symmetric", "interned %s and %s", x, y)
				}
				if x.Equal(y) {
					eq++
					if ts, ok := differ(r, g, rgen.FromIntern(x), rgen.FromIntern(y)); ok {
						vh.Fail(t, "meaning", "interned %s and %s are equal and differ on [%s]", x, y, ts)
					}
					if ts, ok := differ(r, g, a, b); ok {
						vh.Fail(t, "meaning", "interned %s and %s are equal and differ on [%s]", a.Ast(), b.Ast(), ts)
					}
				}
			})
			if m != "" {
				vh.Fail(t, "panic", "interned %s and %s: %s", a.Ast(), b.Ast(), m)
			}
		}
	}
	_ = ast.NewEmpty
	vh.Stat("internpairs", n)
	vh.Stat("internequal", eq)
	vh.Done()
}

// constants that are equal in several spellings, and the finding that the spelling of a literal is hashed
func TestVerifLiterals(t *testing.T) {
	same := func(key, a, b string) {
		g, err := parser.ParseGrammar(a)
		if err != nil {
			t.Fatal(err)
		}
		h, err := parser.ParseGrammar(b)
		if err != nil {
			t.Fatal(err)
		}
		x, y := g.TopPattern, h.TopPattern
		if x.Equal(y) && x.Hash() != y.Hash() {
			vh.Fail(t, key, "%s and %s are equal and have the hashes %d and %d", a, b, x.Hash(), y.Hash())
		}
	}
	same("hash-literal", "->eq($string, \"a\")", "->eq($string, `a`)")
	same("hash-zero-name", "double(0): *", "double(-0): *")
	zero := func(v float64) *ast.Pattern {
		return ast.NewTreeNode(&ast.NameExpr{Name: &ast.Name{DoubleValue: &v}}, ast.NewZAny())
	}
	bs := func(b []byte) *ast.Pattern {
		return ast.NewTreeNode(&ast.NameExpr{Name: &ast.Name{BytesValue: b}}, ast.NewZAny())
	}
	for _, c := range [][2]*ast.Pattern{{zero(0), zero(math.Copysign(0, -1))}, {bs(nil), bs([]byte{})}} {
		if c[0].Equal(c[1]) && c[0].Hash() != c[1].Hash() {
			vh.Fail(t, "hash-empty", "%#v and %#v are equal and have different hashes", c[0], c[1])
		}
	}
	vh.Done()
}
