package c19

import (
	"bytes"
	"math/rand"
	"testing"

	enc "github.com/katydid/katydid/encode/proto"
	pproto "github.com/katydid/katydid/parser/proto"
	"github.com/katydid/katydid/zzverif/pbx"
	"github.com/katydid/katydid/zzverif/vh"
)

// norm drops repeated fields without elements and joins neighbouring runs of one field: that is how
// elements that are written one by one are read back.
func norm(ns []*pbx.Node, rep map[string]bool) []*pbx.Node {
	out := []*pbx.Node{}
	for _, n := range ns {
		m := *n
		m.Kids = norm(n.Kids, rep)
		if !m.Elem && m.Leaf == "" && rep[m.Name] {
			if len(m.Kids) == 0 {
				continue
			}
			if len(out) > 0 && out[len(out)-1].Name == m.Name && out[len(out)-1].Leaf == "" {
				l := out[len(out)-1]
				for _, k := range m.Kids {
					k.Idx = len(l.Kids)
					l.Kids = append(l.Kids, k)
				}
				continue
			}
		}
		out = append(out, &m)
	}
	return out
}

func TestVerifEncode(t *testing.T) {
	r := vh.Rand(19)
	all := pbx.Fields()
	n := 0
	for round := 0; round < vh.N(6, 40) && !vh.TooMany(); round++ {
		fs := all
		if round%3 == 2 { // only a few of the fields are declared
			fs = nil
			for _, f := range all {
				if f.Msg != "" || r.Intn(3) == 0 {
					fs = append(fs, f)
				}
			}
		}
		rep := map[string]bool{}
		for _, f := range fs {
			rep[f.Name] = f.Repeated
		}
		set := pbx.Set(fs)
		p, err := pproto.NewProtoParser("zz", "All", set)
		if err != nil {
			t.Fatal(err)
		}
		var e enc.Encoder
		if m := vh.Try(func() { e, err = enc.NewEncoder(set, "zz", "All") }); m != "" || err != nil {
			vh.Fail(t, "new", "%s %v", m, err)
			return
		}
		for i := 0; i < vh.N(2500, 15000) && !vh.TooMany(); i++ {
			b := &bytes.Buffer{}
			tree := pbx.Message(b, r, fs, r.Intn(4), pbx.Opt{Split: true})
			n++
			if i < 1 {
				vh.Sample("%s", pbx.Show(tree))
			}
			vh.Current("%x", b.Bytes())
			if err := p.Init(b.Bytes()); err != nil {
				vh.Fail(t, "init", "%x: %v", b.Bytes(), err)
				continue
			}
			buf, canary := buffer(r, b.Len())
			var out []byte
			if m := vh.Try(func() { out, err = e.Encode(buf, p) }); m != "" {
				vh.Fail(t, "panic", "%x, which is %s, into a buffer of %d bytes: %s", b.Bytes(), pbx.Show(tree), len(buf), m)
				continue
			}
			if err != nil {
				vh.Fail(t, "error", "%x, which is %s, into a buffer of %d bytes: %v", b.Bytes(), pbx.Show(tree), len(buf), err)
				continue
			}
			for _, c := range canary {
				if c != 0xa5 {
					vh.Fail(t, "outside", "%x, which is %s, into a buffer of %d bytes: wrote behind the buffer", b.Bytes(), pbx.Show(tree), len(buf))
					break
				}
			}
			out = append([]byte{}, out...)
			want := norm(tree, rep)
			if err := p.Init(out); err != nil {
				vh.Fail(t, "decode", "%x encodes to %x: %v", b.Bytes(), out, err)
				continue
			}
			if m := vh.Try(func() { err = pbx.Check(p, want, r, true) }); m != "" || err != nil {
				vh.Fail(t, "roundtrip", "%x, which is %s, into a buffer of %d bytes, encodes to %x: %s %v", b.Bytes(), pbx.Show(want), len(buf), out, m, err)
			}
		}
	}
	vh.Stat("messages", n)
	vh.Done()
}

// buffer gives a buffer and the bytes that lie behind it.
func buffer(r *rand.Rand, l int) ([]byte, []byte) {
	n := 0
	switch r.Intn(5) {
	case 0:
		return nil, nil
	case 1:
		n = r.Intn(8)
	case 2:
		n = r.Intn(l + 1)
	case 3:
		n = l + r.Intn(24)
	case 4:
		n = 3*l + 64
	}
	b := make([]byte, n+64)
	for i := range b {
		b[i] = 0xa5
	}
	return b[:n], b[n:]
}
