package c02

import (
	"testing"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/zzverif/rgen"
	"github.com/katydid/katydid/zzverif/vh"
)

func same(t *testing.T, key string, g *rgen.G, what string, lookup func(string) *rgen.P, p *rgen.P, orig *rgen.P, fs [][]*rgen.Tree) {
	for _, ts := range fs {
		var want, got bool
		if vh.Try(func() { want = rgen.Match(g.Lookup, orig, ts) }) != "" {
			continue
		}
		if m := vh.Try(func() { got = rgen.Match(lookup, p, ts) }); m != "" {
			continue
		}
		if got != want {
			vh.Fail(t, key, "%s simplifies to %s, which gives %v on [%s], want %v", g, what, got, rgen.Show(ts), want)
			return
		}
	}
}

func lookupIn(g *ast.Grammar) func(string) *rgen.P {
	refs := ast.NewRefLookup(g)
	m := map[string]*rgen.P{}
	return func(n string) *rgen.P {
		if p, ok := m[n]; ok {
			return p
		}
		m[n] = rgen.FromAst(refs[n])
		return m[n]
	}
}

func check(t *testing.T, g *rgen.G, fs [][]*rgen.Tree) {
	a := g.Ast()
	var s *ast.Grammar
	if m := vh.Try(func() { s = interp.NewSimplifier(a).Grammar() }); m != "" {
		vh.Fail(t, "panic", "simplifying %s: %s", g, m)
		return
	}
	if m := vh.Try(func() {
		l := lookupIn(s)
		same(t, "grammar", g, s.String(), l, l("main"), g.Main, fs)
		for _, n := range g.Names {
			same(t, "grammar", g, s.String()+" at "+n, l, l(n), g.Defs[n], fs)
		}
		l = lookupIn(a)
		same(t, "input", g, "(the grammar that was given)", l, l("main"), g.Main, fs)
	}); m != "" {
		vh.Fail(t, "panic", "walking the simplification %s of %s: %s", s, g, m)
	}
	a = g.Ast()
	var p *ast.Pattern
	if m := vh.Try(func() {
		simp := interp.NewSimplifier(a)
		p = simp.Simplify(ast.NewRefLookup(a)["main"])
		// again, to exercise the cache
		simp.Simplify(g.Main.Ast())
		simp.Simplify(p)
	}); m != "" {
		vh.Fail(t, "panic", "simplifying the pattern of %s: %s", g, m)
		return
	}
	same(t, "pattern", g, p.String(), lookupIn(a), rgen.FromAst(p), g.Main, fs)
}

func TestVerifSimplify(t *testing.T) {
	r := vh.Rand(2)
	n := 0
	for i := 0; i < vh.N(4000, 60000) && !vh.TooMany(); i++ {
		g := rgen.Grammar(r, 4)
		if i%3 == 0 {
			g = rgen.CollideGrammar(r, 3)
		}
		vh.Current("%s", g)
		fs := [][]*rgen.Tree{nil}
		for j := 0; j < 6; j++ {
			fs = append(fs, g.Forest(r))
		}
		if i < 3 {
			vh.Sample("%s on [%s]", g, rgen.Show(fs[1]))
		}
		n += len(fs)
		check(t, g, fs)
	}
	vh.Stat("trees", n)
	vh.Done()
}
