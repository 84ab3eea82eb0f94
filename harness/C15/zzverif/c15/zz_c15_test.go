package c15

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/katydid/katydid/parser/json"
	"github.com/katydid/katydid/zzverif/nav"
	"github.com/katydid/katydid/zzverif/vh"
)

var seeds = []string{
	`{"a":1,"b":[1,2,{"c":"d\"e\\"}],"x":{"y":true,"z":null},"n":-1.5e+10}`,
	`[ 1 , "\u00e9\ud83d\ude00\u12", [], {} , [[[]]], false ]`,
	`"abc\n\t\/"`, `"\ud800\u0041"`, `"\ud800\`, `"\uD83D`, ` -0.0E-1 `, `true`, `nul`, `tru`, `fals`, `{`, `[`, `"`, `"\`, `"\u`, `"\u1`, `-`, `1.`, `1e`, `1e+`,
	`{"a"`, `{"a":`, `{"a":1`, `{"a":1,`, `{,}`, `[,]`, `[1,]`, `{"a":1,}`, `{"a" 1}`, `[1 2]`, `{"a":{"b":[{"c":1}]},"d":[{"e":"}"},"]"]}`,
	`{"\ud83d\ude00\ud83d":"` + "\xff\xfe\xc0\x80é\u2028" + `"}`, "{\"a\":\"\x01\"}", `[{"a":[{"b":[`, `  `, ``, `}`, `]`, `{}`, `[]`, `{"":""}`,
}

// tail is what lies behind the end of the input in its array.
var tails = []string{"", "\"]}0123456789abcdef\"]}:,", "uuuu,\"a\":1}]}}]true false null e+1.5", "\\\\\\\\\\\\\\\\\\\\\"\"\""}

func run(in []byte, tail string, ops []byte) (res string, done string, panicked string) {
	full := append(append(append([]byte{}, "{[\"1"...), in...), tail...)
	buf := full[4 : 4+len(in)]
	if tail == "" {
		buf = append(make([]byte, 0, len(in)), in...)
		buf = buf[:len(in):len(in)]
	}
	did := []byte{}
	panicked = vh.Try(func() {
		p := json.NewJsonParser()
		did = append(did, 'i')
		err := p.Init(buf)
		res = fmt.Sprint(err != nil) + nav.Walk(p, ops, p.Reset, func(op byte) { did = append(did, op) })
	})
	return res, string(did), panicked
}

func TestVerifNavigation(t *testing.T) {
	r := vh.Rand(15)
	alphabet := []byte(`{}[]",:\u0123456789abcdefDd8truefalsn-+.eE /` + "\n\x00\xff\xc3\xa9")
	n := 0
	one := func(in []byte, ops []byte) {
		n++
		vh.Current("Init(%q) then %s", in, ops)
		ref, did, p := run(in, "", ops)
		if p != "" {
			vh.Fail(t, "panic", "Init(%q) then %s: %s", in, did, p)
			return
		}
		for _, tail := range tails[1:] {
			got, did, p := run(in, tail, ops)
			if p != "" {
				vh.Fail(t, "panic", "Init(%q) then %s: %s", in, did, p)
				return
			}
			if got != ref {
				vh.Fail(t, "outside", "Init(%q) then %s depends on the bytes behind the buffer: %q and %q with %q behind it", in, did, ref, got, tail)
				return
			}
		}
	}
	// every prefix of every seed, depth first
	for _, s := range seeds {
		for k := 0; k <= len(s); k++ {
			for j := 0; j < 6; j++ {
				one([]byte(s[:k]), nav.Ops(r, 24))
			}
		}
	}
	for i := 0; i < vh.N(60000, 1500000) && !vh.TooMany(); i++ {
		var in []byte
		switch r.Intn(5) {
		case 1:
			s := "\""
			for e := r.Intn(30); e > 0; e-- {
				s += "\xff"
			}
			for e := r.Intn(5); e > 0; e-- {
				s += []string{"\\n", "\\ud83d\\ude00", "\\u0041", "\\ud83d", "\xff", "é"}[r.Intn(6)]
			}
			in = []byte(s + "\"")
		case 0:
			in = make([]byte, r.Intn(14))
			for j := range in {
				in[j] = alphabet[r.Intn(len(alphabet))]
			}
		default:
			in = []byte(seeds[r.Intn(len(seeds))])
			for k := r.Intn(4); k > 0; k-- {
				if len(in) == 0 {
					break
				}
				p := r.Intn(len(in))
				switch r.Intn(5) {
				case 4: // a run of one byte and escapes inside what may be a string
					mid := bytes.Repeat([]byte{"\xff\xc3\x80a9[ "[r.Intn(7)]}, r.Intn(24))
					for e := r.Intn(4); e > 0; e-- {
						mid = append(mid, []string{"\\n", "\\ud83d\\ude00", "\\u0041", "\\ud83d", "\xff", "é"}[r.Intn(6)]...)
					}
					in = append(in[:p:p], append(mid, in[p:]...)...)
				case 0:
					in[p] = alphabet[r.Intn(len(alphabet))]
				case 1:
					in = append(in[:p], in[p+1:]...)
				case 2:
					in = append(in[:p], append([]byte{alphabet[r.Intn(len(alphabet))]}, in[p:]...)...)
				case 3:
					in = in[:p]
				}
			}
		}
		ops := nav.Ops(r, 1+r.Intn(60))
		if i < 3 {
			vh.Sample("Init(%q) then %s", in, ops)
		}
		one(in, ops)
	}
	vh.Stat("inputs", n)
	vh.Done()
}
