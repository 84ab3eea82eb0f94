package c01

import (
	"testing"

	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/zzverif/rgen"
	"github.com/katydid/katydid/zzverif/vh"
)

func check(t *testing.T, g *rgen.G, ts []*rgen.Tree) (want bool, ok bool) {
	input := func() string { return g.String() + " on [" + rgen.Show(ts) + "]" }
	if m := vh.Try(func() { want = g.Match(ts) }); m != "" {
		return false, false
	}
	var got bool
	var err error
	w := rgen.Walk(ts)
	if m := vh.Try(func() { got, err = interp.Interpret(g.Ast(), w) }); m != "" {
		vh.Fail(t, "panic", "%s: %s", input(), m)
		return want, true
	}
	if err != nil {
		if g.MayErr() {
			return false, false
		}
		vh.Fail(t, "error", "%s: error %v, want %v", input(), err, want)
		return want, true
	}
	if got != want {
		vh.Fail(t, "verdict", "%s: %v, want %v", input(), got, want)
	}
	if d := w.Depth(); d != 0 {
		vh.Fail(t, "depth", "%s: parser left %d levels down", input(), d)
	}
	return want, true
}

func TestVerifInterp(t *testing.T) {
	r := vh.Rand(1)
	n, pos, skip := 0, 0, 0
	for i := 0; i < vh.N(4000, 60000) && !vh.TooMany(); i++ {
		g := rgen.Grammar(r, 4)
		vh.Current("%s", g)
		for j := 0; j < 5; j++ {
			ts := g.Forest(r)
			want, ok := check(t, g, ts)
			if !ok {
				skip++
				continue
			}
			n++
			if want {
				pos++
			}
			if i < 3 && j == 0 {
				vh.Sample("%s on [%s]: %v", g, rgen.Show(ts), want)
			}
		}
	}
	vh.Stat("trees", n)
	vh.Stat("accepted", pos)
	vh.Stat("skipped", skip)
	vh.Done()
}
