package c20

import (
	"bytes"
	"testing"

	pproto "github.com/katydid/katydid/parser/proto"
	"github.com/katydid/katydid/zzverif/pbx"
	"github.com/katydid/katydid/zzverif/vh"
)

// again tells whether a field of some message is presented more than once.
func again(ns []*pbx.Node) bool {
	seen := map[string]bool{}
	for _, n := range ns {
		if !n.Elem && n.Leaf == "" {
			if seen[n.Name] {
				return true
			}
			seen[n.Name] = true
		}
		if again(n.Kids) {
			return true
		}
	}
	return false
}

func TestVerifLatent(t *testing.T) {
	r := vh.Rand(20)
	fs := pbx.Fields()
	p, err := pproto.NewProtoParser("zz", "All", pbx.Set(fs))
	if err != nil {
		t.Fatal(err)
	}
	n, yes := 0, 0
	for i := 0; i < vh.N(20000, 300000) && !vh.TooMany(); i++ {
		b := &bytes.Buffer{}
		tree := pbx.Message(b, r, fs, 3, pbx.Opt{Unknown: r.Intn(2) == 0, Split: r.Intn(2) == 0})
		want := again(tree)
		n++
		if want {
			yes++
		}
		if i < 3 {
			vh.Sample("%s: %v", pbx.Show(tree), want)
		}
		vh.Current("%x", b.Bytes())
		if err := p.Init(b.Bytes()); err != nil {
			vh.Fail(t, "init", "%x: %v", b.Bytes(), err)
			continue
		}
		var got error
		if m := vh.Try(func() { got = pproto.NoLatentAppendingOrMerging(p) }); m != "" {
			vh.Fail(t, "panic", "%x, which is %s: %s", b.Bytes(), pbx.Show(tree), m)
			continue
		}
		if (got != nil) != want {
			vh.Fail(t, "verdict", "%x, which is %s, gives %v", b.Bytes(), pbx.Show(tree), got)
		}
	}
	vh.Stat("messages", n)
	vh.Stat("latent", yes)
	vh.Done()
}
