package c22

import (
	"testing"
	"time"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/zzverif/rgen"
	"github.com/katydid/katydid/zzverif/vh"
)

func TestVerifRecursion(t *testing.T) {
	r := vh.Rand(22)
	n, rec := 0, 0
	for i := 0; i < vh.N(20000, 300000) && !vh.TooMany(); i++ {
		g := rgen.Recursive(r, 4)
		if i%4 == 0 {
			g = rgen.Grammar(r, 4)
		}
		vh.Current("%s", g)
		want := g.Immediate()
		a := g.Ast()
		var got bool
		var m string
		vh.Limit(t, 60*time.Second, "hang", g.String(), func() {
			m = vh.Try(func() { got = interp.HasRecursion(a) })
		})
		n++
		if want {
			rec++
		}
		if i < 3 {
			vh.Sample("%s: %v", g, want)
		}
		if m != "" {
			vh.Fail(t, "panic", "%s: %s", g, m)
			continue
		}
		if got != want {
			vh.Fail(t, "verdict", "%s: recursion reported %v, want %v", g, got, want)
			continue
		}
		if !got {
			refs := ast.NewRefLookup(a)
			for name, p := range refs {
				var null bool
				if m := vh.Try(func() { null = interp.Nullable(refs, p) }); m != "" {
					vh.Fail(t, "nullable", "%s at %s: %s", g, name, m)
					continue
				}
				if want := rgen.Match(g.Lookup, g.Lookup(name), nil); null != want {
					vh.Fail(t, "nullable", "%s at %s: nullable %v, want %v", g, name, null, want)
				}
			}
		}
	}
	vh.Stat("grammars", n)
	vh.Stat("recursive", rec)
	vh.Done()
}
