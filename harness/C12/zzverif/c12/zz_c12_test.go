package c12

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/sets"
	"github.com/katydid/katydid/zzverif/rgen"
	"github.com/katydid/katydid/zzverif/vh"
)

// list gives patterns of which some occur again, some are trivial and some have equal hashes.
func list(r *rand.Rand) []*rgen.P {
	gen := rgen.Gen{R: r, Open: []string{"Aa", "BB"}, Collide: true}
	var ps []*rgen.P
	for n := r.Intn(9); n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			ps = append(ps, rgen.Mk(rgen.Any))
		case 1:
			ps = append(ps, rgen.Mk(rgen.Not, rgen.Mk(rgen.Any)))
		case 2:
			ps = append(ps, rgen.Mk(rgen.Not, rgen.MkRef([]string{"Aa", "BB"}[r.Intn(2)])))
		case 3, 4:
			if len(ps) > 0 {
				ps = append(ps, ps[r.Intn(len(ps))])
			}
		case 5:
			ps = append(ps, rgen.MkRef([]string{"Aa", "BB", "AaAa", "BBBB"}[r.Intn(4)]))
		default:
			ps = append(ps, gen.Pattern(r.Intn(3)))
		}
	}
	return ps
}

func bits(r *rand.Rand, n int) (sets.Bits, []bool) {
	b := sets.NewBits(n)
	v := make([]bool, n)
	for i := range v {
		v[i] = r.Intn(2) == 0
		b.Set(i, v[i])
	}
	return b, v
}

func unzipBits(t *testing.T, r *rand.Rand, what string, n int, idx []int, trivial func(i int) int) {
	b, v := bits(r, n)
	var got []bool
	if m := vh.Try(func() { got = sets.UnzipBits(b, idx) }); m != "" {
		vh.Fail(t, "panic", "UnzipBits of %v for %s: %s", idx, what, m)
		return
	}
	if len(got) != len(idx) {
		vh.Fail(t, "bits", "%s: UnzipBits gives %d booleans", what, len(got))
		return
	}
	for i := range got {
		var want bool
		switch trivial(i) {
		case 1:
			want = true
		case 2:
			want = false
		default:
			want = v[idx[i]]
		}
		if got[i] != want {
			vh.Fail(t, "bits", "%s: UnzipBits(%v, %v) is %v at %d, want %v", what, v, idx, got[i], i, want)
			return
		}
	}
}

func showAst(ps []*ast.Pattern) string {
	s := ""
	for _, p := range ps {
		s += p.String() + " ; "
	}
	return s
}

func TestVerifZip(t *testing.T) {
	r := vh.Rand(12)
	n := 0
	for i := 0; i < vh.N(6000, 100000) && !vh.TooMany(); i++ {
		l := list(r)
		ps := make([]*ast.Pattern, len(l))
		for j, p := range l {
			ps[j] = p.Ast()
		}
		orig := append([]*ast.Pattern{}, ps...)
		n++
		what := showAst(orig)
		vh.Current("%s", what)
		if i < 3 {
			vh.Sample("%s", what)
		}
		var zs, us []*ast.Pattern
		var idx []int
		if m := vh.Try(func() { zs, idx = sets.Zip(ps); us = sets.Unzip(zs, idx) }); m != "" {
			vh.Fail(t, "panic", "zipping %s: %s", what, m)
			continue
		}
		isAny := func(p *ast.Pattern) bool { return p.ZAny != nil }
		isNone := func(p *ast.Pattern) bool { return p.Not != nil && p.Not.GetPattern().ZAny != nil }
		if len(us) != len(orig) || len(idx) != len(orig) {
			vh.Fail(t, "length", "%s zips to %d indexes and unzips to %d patterns", what, len(idx), len(us))
			continue
		}
		for j := range orig {
			if ps[j] != orig[j] {
				vh.Fail(t, "input", "zipping %s changed its input at %d", what, j)
			}
			if us[j] == nil || us[j].String() != orig[j].String() {
				vh.Fail(t, "lossless", "%s unzips to %v at %d (indexes %v)", what, us[j], j, idx)
				break
			}
		}
		for j := range zs {
			if isAny(zs[j]) || isNone(zs[j]) {
				vh.Fail(t, "trivial", "%s zips to %s", what, showAst(zs))
			}
			for k := 0; k < j; k++ {
				if zs[k].String() == zs[j].String() {
					vh.Fail(t, "duplicate", "%s zips to %s", what, showAst(zs))
				}
			}
		}
		unzipBits(t, r, what, len(zs), idx, func(i int) int {
			if isAny(orig[i]) {
				return 1
			}
			if isNone(orig[i]) {
				return 2
			}
			return 0
		})
	}
	vh.Stat("lists", n)
	vh.Done()
}

func showIntern(ps []*intern.Pattern) string {
	s := ""
	for _, p := range ps {
		s += p.String() + " ; "
	}
	return s
}

func TestVerifInternZip(t *testing.T) {
	r := vh.Rand(1212)
	n := 0
	for i := 0; i < vh.N(6000, 100000) && !vh.TooMany(); i++ {
		c := intern.NewConstructor()
		m := map[string]*ast.Pattern{"main": ast.NewEmpty()}
		for k, s := range []string{"Aa", "BB", "AaAa", "BBBB"} {
			m[s] = ast.NewConcat(ast.NewTreeNode(ast.NewStringName(fmt.Sprint("x", k)), ast.NewEmpty()), ast.NewZAny())
		}
		if _, err := c.AddGrammar(ast.NewGrammar(m)); err != nil {
			t.Fatal(err)
		}
		l := list(r)
		ps := make([]*intern.Pattern, len(l))
		for j, p := range l {
			var err error
			if ps[j], err = c.NewPattern(p.Ast()); err != nil {
				t.Fatal(err)
			}
		}
		orig := append([]*intern.Pattern{}, ps...)
		n++
		what := showIntern(orig)
		vh.Current("%s", what)
		if i < 3 {
			vh.Sample("interned %s", what)
		}
		var z *intern.ZippedPatterns
		var us []*intern.Pattern
		if m := vh.Try(func() { z = intern.Zip(ps); us = z.Unzip() }); m != "" {
			vh.Fail(t, "panic", "zipping interned %s: %s", what, m)
			continue
		}
		isAny := func(p *intern.Pattern) bool { return p.Type == intern.ZAny }
		isNone := func(p *intern.Pattern) bool { return p.Type == intern.Not && p.Patterns[0].Type == intern.ZAny }
		if len(us) != len(orig) || len(z.Indexes) != len(orig) {
			vh.Fail(t, "length", "interned %s zips to %d indexes and unzips to %d patterns", what, len(z.Indexes), len(us))
			continue
		}
		for j := range orig {
			if ps[j] != orig[j] {
				vh.Fail(t, "input", "zipping interned %s changed its input at %d", what, j)
			}
			if us[j] == nil || us[j].String() != orig[j].String() {
				vh.Fail(t, "lossless", "interned %s unzips to %v at %d (indexes %v)", what, us[j], j, z.Indexes)
				break
			}
		}
		zs := z.Patterns
		for j := range zs {
			if isAny(zs[j]) || isNone(zs[j]) {
				vh.Fail(t, "trivial", "interned %s zips to %s", what, showIntern(zs))
			}
			for k := 0; k < j; k++ {
				if zs[k].String() == zs[j].String() {
					vh.Fail(t, "duplicate", "interned %s zips to %s", what, showIntern(zs))
				}
			}
		}
		unzipBits(t, r, what, len(zs), z.Indexes, func(i int) int {
			if isAny(orig[i]) {
				return 1
			}
			if isNone(orig[i]) {
				return 2
			}
			return 0
		})
	}
	vh.Stat("internlists", n)
	vh.Done()
}
