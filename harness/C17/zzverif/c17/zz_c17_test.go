package c17

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/gogo/protobuf/proto"
	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	protoparser "github.com/katydid/katydid/parser/proto"
	"github.com/katydid/katydid/parser/proto/prototests"
	"github.com/katydid/katydid/zzverif/nav"
	"github.com/katydid/katydid/zzverif/pbx"
	"github.com/katydid/katydid/zzverif/vh"
)

var tails = []string{"", "\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"}

func run(p protoparser.ProtoParser, in []byte, tail string, ops []byte) (res string, done string, panicked string) {
	full := append(append(append([]byte{}, "\x08\x08"...), in...), tail...)
	buf := full[2 : 2+len(in)]
	if tail == "" {
		buf = append(make([]byte, 0, len(in)), in...)
		buf = buf[:len(in):len(in)]
	}
	did := []byte{}
	panicked = vh.Try(func() {
		did = append(did, 'i')
		err := p.Init(buf)
		res = fmt.Sprint(err != nil) + nav.Walk(p, ops, p.Reset, func(op byte) { did = append(did, op) })
	})
	return res, string(did), panicked
}

func TestVerifNavigation(t *testing.T) {
	r := vh.Rand(17)
	fs := pbx.Fields()
	fs2 := append(append([]*pbx.Field{}, fs...), &pbx.Field{Name: "G", Num: 80, Typ: 10, Msg: "All"}, &pbx.Field{Name: "RG", Num: 81, Typ: 10, Repeated: true, Msg: "All"})
	type root struct {
		name string
		set  *descriptor.FileDescriptorSet
		pkg  string
		msg  string
	}
	roots := []root{{"zz.All", pbx.Set(fs2), "zz", "All"}, {"Packed", (&prototests.Packed{}).Description(), "prototests", "Packed"},
		{"BigMsg", (&prototests.BigMsg{}).Description(), "prototests", "BigMsg"}, {"Container", (&prototests.Container{}).Description(), "prototests", "Container"}}
	seeds := make([][][]byte, len(roots))
	add := func(k int, m proto.Message) {
		if d, err := proto.Marshal(m); err == nil {
			seeds[k] = append(seeds[k], d)
		}
	}
	for i := 0; i < 40; i++ {
		add(1, prototests.NewPopulatedPacked(r, true))
		add(2, prototests.NewPopulatedBigMsg(r, true))
		b := &bytes.Buffer{}
		pbx.Message(b, r, fs, 3, pbx.Opt{Unknown: true, Split: true, Unminded: true})
		seeds[0] = append(seeds[0], b.Bytes())
	}
	add(3, prototests.AContainer)
	ps := make([]protoparser.ProtoParser, len(roots))
	for i, x := range roots {
		p, err := protoparser.NewProtoParser(x.pkg, x.msg, x.set)
		if err != nil {
			t.Fatal(err)
		}
		ps[i] = p
	}
	n := 0
	one := func(k int, in []byte, ops []byte) {
		n++
		vh.Current("%s: Init(%x) then %s", roots[k].name, in, ops)
		ref, did, p := run(ps[k], in, "", ops)
		if p != "" {
			vh.Fail(t, "panic", "%s: Init(%x) then %s: %s", roots[k].name, in, did, p)
			return
		}
		for _, tail := range tails[1:] {
			got, did, p := run(ps[k], in, tail, ops)
			if p != "" {
				vh.Fail(t, "panic", "%s: Init(%x) then %s: %s", roots[k].name, in, did, p)
				return
			}
			if got != ref {
				vh.Fail(t, "outside", "%s: Init(%x) then %s depends on the bytes behind the buffer: %q and %q with %x behind it", roots[k].name, in, did, ref, got, tail)
				return
			}
		}
	}
	for k := range roots {
		for i, s := range seeds[k] {
			if i >= 12 {
				break
			}
			for j := 0; j <= len(s) && j < 120; j++ {
				one(k, s[:j], nav.Ops(r, 30))
			}
		}
	}
	var v [10]byte
	for i := 0; i < vh.N(60000, 1500000) && !vh.TooMany(); i++ {
		k := 0
		if i%3 == 0 {
			k = r.Intn(len(roots))
		}
		var in []byte
		switch r.Intn(8) {
		case 0:
			in = make([]byte, r.Intn(14))
			for j := range in {
				in[j] = byte(r.Intn(256)) & byte(r.Intn(256))
			}
		case 1: // keys and lengths
			for e := r.Intn(6); e > 0; e-- {
				f := fs2[r.Intn(len(fs2))]
				in = append(in, v[:binary.PutUvarint(v[:], uint64(f.Num)<<3|uint64(r.Intn(6)))]...)
				in = append(in, v[:binary.PutUvarint(v[:], pbx.Int(r)>>uint(r.Intn(64)))]...)
				if r.Intn(2) == 0 {
					in = append(in, "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80"[:r.Intn(14)]...)
				}
			}
		case 2, 3: // fields with raw contents, one inside the other
			if k != 0 {
				break
			}
			raw := func() []byte {
				c := make([]byte, r.Intn(20))
				r.Read(c)
				if r.Intn(2) == 0 {
					for j := range c {
						c[j] &= 0x83
					}
				}
				return c
			}
			for e := 1 + r.Intn(3); e > 0; e-- {
				f := fs[r.Intn(len(fs))]
				c := raw()
				if f.Msg == "All" {
					c = append(c[:r.Intn(1+len(c))/2], in...)
					in = nil
				}
				in = append(in, v[:binary.PutUvarint(v[:], uint64(f.Num)<<3|2)]...)
				in = append(in, v[:binary.PutUvarint(v[:], uint64(len(c)))]...)
				in = append(in, c...)
			}
		default:
			in = append([]byte{}, seeds[k][r.Intn(len(seeds[k]))]...)
			for m := 1 + r.Intn(3); m > 0 && len(in) > 0; m-- {
				q := r.Intn(len(in))
				switch r.Intn(5) {
				case 0:
					in[q] = byte(r.Intn(256))
				case 1:
					in = append(in[:q], in[q+1:]...)
				case 2:
					in = append(in[:q:q], append(append([]byte{}, v[:binary.PutUvarint(v[:], pbx.Int(r))]...), in[q:]...)...)
				case 3:
					in = in[:q]
				case 4:
					in[q] |= 0x80
				}
			}
		}
		ops := nav.Ops(r, 1+r.Intn(60))
		if i < 3 {
			vh.Sample("%s: Init(%x) then %s", roots[k].name, in, ops)
		}
		one(k, in, ops)
	}
	vh.Stat("inputs", n)
	vh.Done()
}
