package c18

import (
	"bytes"
	"testing"

	"github.com/katydid/katydid/parser/proto"
	"github.com/katydid/katydid/zzverif/pbx"
	"github.com/katydid/katydid/zzverif/vh"
)

func TestVerifDecode(t *testing.T) {
	r := vh.Rand(18)
	fs := pbx.Fields()
	p, err := proto.NewProtoParser("zz", "All", pbx.Set(fs))
	if err != nil {
		t.Fatal(err)
	}
	one := func(in []byte, want []*pbx.Node, all bool) {
		vh.Current("%x", in)
		msg := ""
		if pn := vh.Try(func() {
			p.Init(in)
			if err := pbx.Check(p, want, r, all); err != nil {
				msg = err.Error()
			} else if err := p.Reset(); err != nil {
				msg = err.Error()
			} else if err := pbx.Check(p, want, r, true); err != nil {
				msg = "after Reset: " + err.Error()
			}
		}); pn != "" {
			msg = pn
		}
		if msg != "" {
			vh.Fail(t, "value", "%x (%s): %s", in, pbx.Show(want), msg)
		}
	}
	n := vh.N(30000, 600000)
	for i := 0; i < n && !vh.TooMany(); i++ {
		b := &bytes.Buffer{}
		want := pbx.Message(b, r, fs, 3, pbx.Opt{Unknown: i%2 == 0, Split: i%3 == 0, Unminded: i%5 == 0})
		if i < 3 {
			vh.Sample("%x %s", b.Bytes(), pbx.Show(want))
		}
		one(b.Bytes(), want, i%4 == 0)
	}
	vh.Stat("messages", n)
	vh.Done()
}
