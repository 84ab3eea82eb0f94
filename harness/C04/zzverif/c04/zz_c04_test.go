package c04

import (
	"testing"

	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/zzverif/rgen"
	"github.com/katydid/katydid/zzverif/vh"
)

func check(t *testing.T, g *rgen.G, ts []*rgen.Tree, record bool) (want bool, ok bool) {
	if vh.Try(func() { want = g.Match(ts) }) != "" {
		return false, false
	}
	var got bool
	var err error
	w := rgen.Walk(ts)
	if m := vh.Try(func() { got, err = intern.Interpret(g.Ast(), record, w) }); m != "" {
		vh.Fail(t, "panic", "%s on [%s]: %s", g, rgen.Show(ts), m)
		return want, true
	}
	if err != nil {
		if g.MayErr() {
			return false, false
		}
		vh.Fail(t, "error", "%s on [%s]: error %v, want %v", g, rgen.Show(ts), err, want)
		return want, true
	}
	if got != want {
		vh.Fail(t, "verdict", "record %v: %s on [%s]: %v, want %v", record, g, rgen.Show(ts), got, want)
	}
	if d := w.Depth(); d != 0 {
		vh.Fail(t, "depth", "%s on [%s]: parser left %d levels down", g, rgen.Show(ts), d)
	}
	return want, true
}

func TestVerifIntern(t *testing.T) {
	r := vh.Rand(4)
	n, pos, skip := 0, 0, 0
	for i := 0; i < vh.N(7000, 100000) && !vh.TooMany(); i++ {
		g := rgen.Grammar(r, 4)
		record := i%4 == 0
		if record {
			g = rgen.Record(r, 4)
		} else if i%4 == 1 {
			g = rgen.CollideGrammar(r, 3)
		}
		vh.Current("%s", g)
		for j := 0; j < 5; j++ {
			ts := g.Forest(r)
			if record && !rgen.Unique(ts) {
				continue
			}
			want, ok := check(t, g, ts, record)
			if !ok {
				skip++
				continue
			}
			n++
			if want {
				pos++
			}
			if i < 3 && j == 0 {
				vh.Sample("%s on [%s]: %v", g, rgen.Show(ts), want)
			}
		}
	}
	vh.Stat("trees", n)
	vh.Stat("accepted", pos)
	vh.Stat("skipped", skip)
	vh.Done()
}
