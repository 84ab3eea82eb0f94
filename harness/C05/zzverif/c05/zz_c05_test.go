package c05

import (
	"testing"

	"github.com/katydid/katydid/relapse/mem"
	"github.com/katydid/katydid/zzverif/rgen"
	"github.com/katydid/katydid/zzverif/vh"
)

func TestVerifMem(t *testing.T) {
	r := vh.Rand(5)
	n, pos, skip := 0, 0, 0
	for i := 0; i < vh.N(5000, 60000) && !vh.TooMany(); i++ {
		g := rgen.Grammar(r, 4)
		record := i%4 == 0
		if record {
			g = rgen.Record(r, 4)
		} else if i%4 == 1 {
			g = rgen.CollideGrammar(r, 3)
		}
		vh.Current("%s", g)
		var m *mem.Mem
		var err error
		if p := vh.Try(func() {
			if record {
				m, err = mem.NewRecord(g.Ast())
			} else {
				m, err = mem.New(g.Ast())
			}
		}); p != "" || err != nil {
			vh.Fail(t, "new", "%s: %s %v", g, p, err)
			continue
		}
		hist := ""
		var fs [][]*rgen.Tree
		for j := 0; j < 12; j++ {
			ts := g.Forest(r)
			if len(fs) > 0 && r.Intn(3) == 0 {
				ts = fs[r.Intn(len(fs))]
			}
			fs = append(fs, ts)
			if record && !rgen.Unique(ts) {
				continue
			}
			var want, got bool
			if vh.Try(func() { want = g.Match(ts) }) != "" {
				skip++
				continue
			}
			w := rgen.Walk(ts)
			if r.Intn(6) == 0 {
				w.Fail = 1 + r.Intn(4)
			}
			p := vh.Try(func() { got, err = m.Validate(w) })
			hist += "[" + rgen.Show(ts) + "] "
			if p != "" {
				vh.Fail(t, "panic", "%s after and on %s: %s", g, hist, p)
				break
			}
			if err != nil {
				if err != rgen.ErrInjected && !g.MayErr() {
					vh.Fail(t, "error", "%s after and on %s: error %v", g, hist, err)
				}
				skip++
				continue
			}
			n++
			if want {
				pos++
			}
			if i < 3 && j == 0 {
				vh.Sample("%s on [%s]: %v", g, rgen.Show(ts), want)
			}
			if got != want {
				vh.Fail(t, "verdict", "record %v: %s after and on %s: %v, want %v", record, g, hist, got, want)
				break
			}
			if w.Depth() != 0 {
				vh.Fail(t, "depth", "%s after and on %s: parser left %d levels down", g, hist, w.Depth())
				break
			}
		}
	}
	vh.Stat("trees", n)
	vh.Stat("accepted", pos)
	vh.Stat("skipped", skip)
	vh.Done()
}
