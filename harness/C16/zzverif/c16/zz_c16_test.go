package c16

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"strings"
	"testing"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/parser/json"
	"github.com/katydid/katydid/zzverif/vh"
)

// node is a value of a document: an object, an array or a scalar.
type node struct {
	kind byte // o a s n t f 0
	text string
	str  string
	keys []string
	kids []*node
}

func ws(r *rand.Rand, tight bool) string {
	if tight {
		return ""
	}
	return []string{"", "", "", " ", "\n", "\t\r\n ", "  "}[r.Intn(7)]
}

var pieces = []string{"a", "b", "{", "}", "[", "]", ",", ":", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\ud83d\\u0041", "\\uD83D\\uD83D\\uDE00", "\\u2028", "\\u0000", "é", "\u2028", "\U0001F600", "true", "0", " ", "/", "'", "\\u007f", "\x7f"}

func str(r *rand.Rand) string {
	n := r.Intn(5)
	if r.Intn(8) == 0 {
		n = r.Intn(30)
	}
	s := "\""
	for i := 0; i < n; i++ {
		s += pieces[r.Intn(len(pieces))]
	}
	return s + "\""
}

func unq(s string) string {
	var v string
	if err := stdjson.Unmarshal([]byte(s), &v); err != nil {
		panic("harness: " + err.Error() + " " + s)
	}
	return v
}

func num(r *rand.Rand) string {
	d := func() string {
		n := 1 + r.Intn(3)
		if r.Intn(6) == 0 {
			n = 15 + r.Intn(8)
		}
		s := ""
		for i := 0; i < n; i++ {
			s += string(rune('0' + r.Intn(10)))
		}
		return s
	}
	s := ""
	if r.Intn(3) == 0 {
		s = "-"
	}
	if r.Intn(4) == 0 {
		s += "0"
	} else {
		s += string(rune('1'+r.Intn(9))) + strings.TrimPrefix(d(), "")
	}
	if r.Intn(4) == 0 {
		s += "." + d()
	}
	if r.Intn(5) == 0 {
		s += []string{"e", "E", "e+", "E-"}[r.Intn(4)] + string(rune('0'+r.Intn(10)))
	}
	if r.Intn(10) == 0 {
		s = []string{"9223372036854775807", "-9223372036854775808", "18446744073709551615", "9223372036854775808", "1e400"[:3]}[r.Intn(5)]
	}
	return s
}

// gen gives a random value and its text.
func gen(r *rand.Rand, d int, b *bytes.Buffer, tight bool) *node {
	k := r.Intn(8)
	if d <= 0 && k >= 5 {
		k = r.Intn(5)
	}
	n := &node{}
	start := 0
	switch k {
	case 0, 1:
		n.kind = 's'
		start = b.Len()
		b.WriteString(str(r))
	case 2:
		n.kind = 'n'
		start = b.Len()
		b.WriteString(num(r))
	case 3:
		n.kind = "tf"[r.Intn(2)]
		start = b.Len()
		if n.kind == 't' {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case 4:
		n.kind = '0'
		start = b.Len()
		b.WriteString("null")
	case 5, 6:
		n.kind = 'o'
		start = b.Len()
		b.WriteString("{" + ws(r, tight))
		for i, m := 0, r.Intn(5); i < m; i++ {
			if i > 0 {
				b.WriteString("," + ws(r, tight))
			}
			key := str(r)
			b.WriteString(key + ws(r, tight) + ":" + ws(r, tight))
			n.keys = append(n.keys, unq(key))
			n.kids = append(n.kids, gen(r, d-1, b, tight))
			b.WriteString(ws(r, tight))
		}
		b.WriteString("}")
	default:
		n.kind = 'a'
		start = b.Len()
		b.WriteString("[" + ws(r, tight))
		for i, m := 0, r.Intn(5); i < m; i++ {
			if i > 0 {
				b.WriteString("," + ws(r, tight))
			}
			n.kids = append(n.kids, gen(r, d-1, b, tight))
			b.WriteString(ws(r, tight))
		}
		b.WriteString("]")
	}
	n.text = b.String()[start:]
	if n.kind == 's' {
		n.str = unq(n.text)
	}
	return n
}

// check compares what the parser says of the leaf with the value.
func (n *node) check(p parser.Interface) string {
	if v, ok := p.(interface{ Value() []byte }); ok && string(v.Value()) != n.text {
		return fmt.Sprintf("the leaf is %q, want %q", v.Value(), n.text)
	}
	wantD, wantI, wantU := false, false, false
	var d float64
	var i int64
	var u uint64
	if n.kind == 'n' {
		var err error
		if d, err = strconv.ParseFloat(n.text, 64); err == nil {
			wantD = true
		}
		if i, err = strconv.ParseInt(n.text, 10, 64); err == nil {
			wantI = true
		}
		if u, err = strconv.ParseUint(n.text, 10, 64); err == nil {
			wantU = true
		}
	}
	if v, err := p.Double(); (err == nil) != wantD || wantD && v != d {
		return fmt.Sprintf("Double of %s is %v %v", n.text, v, err)
	}
	// a number written with a fraction or an exponent may be given as an integer when it is one
	if v, err := p.Int(); wantI && (err != nil || v != i) || !wantI && err == nil && (n.kind != 'n' || float64(v) != d) {
		return fmt.Sprintf("Int of %s is %v %v", n.text, v, err)
	}
	if v, err := p.Uint(); wantU && (err != nil || v != u) || !wantU && err == nil {
		return fmt.Sprintf("Uint of %s is %v %v", n.text, v, err)
	}
	if v, err := p.Bool(); (err == nil) != (n.kind == 't' || n.kind == 'f') || err == nil && v != (n.kind == 't') {
		return fmt.Sprintf("Bool of %s is %v %v", n.text, v, err)
	}
	if v, err := p.String(); (err == nil) != (n.kind == 's') || err == nil && v != n.str {
		return fmt.Sprintf("String of %s is %q %v, want %q", n.text, v, err, n.str)
	}
	if v, err := p.Bytes(); err == nil {
		return fmt.Sprintf("Bytes of %s is %v", n.text, v)
	}
	return ""
}

// walk goes through the fields of n, all of the way or in part. The result is "" or what is wrong.
func (n *node) walk(p parser.Interface, r *rand.Rand, part bool, stop *int) string {
	if n.kind != 'o' && n.kind != 'a' {
		if part && r.Intn(4) == 0 {
			return ""
		}
		if err := p.Next(); err != nil {
			return fmt.Sprintf("Next gives %v on the leaf %s", err, n.text)
		}
		if !p.IsLeaf() {
			return fmt.Sprintf("%s is not a leaf", n.text)
		}
		if m := n.check(p); m != "" {
			return m
		}
		if err := p.Next(); err != io.EOF {
			return fmt.Sprintf("Next gives %v after the leaf %s", err, n.text)
		}
		return ""
	}
	for i, k := range n.kids {
		if part && r.Intn(10) == 0 {
			return ""
		}
		if stop != nil {
			if *stop--; *stop <= 0 {
				return "stop"
			}
		}
		if err := p.Next(); err != nil {
			return fmt.Sprintf("Next gives %v before field %d of %s", err, i, n.text)
		}
		if p.IsLeaf() {
			return fmt.Sprintf("field %d of %s is a leaf", i, n.text)
		}
		label := func() string {
			if n.kind == 'o' {
				if v, err := p.String(); err != nil || v != n.keys[i] {
					return fmt.Sprintf("the name of field %d of %s is %q %v, want %q", i, n.text, v, err, n.keys[i])
				}
				if _, err := p.Int(); err == nil {
					return fmt.Sprintf("the name of field %d of %s is an integer", i, n.text)
				}
			} else {
				if v, err := p.Int(); err != nil || v != int64(i) {
					return fmt.Sprintf("the label of element %d of %s is %d %v", i, n.text, v, err)
				}
				if _, err := p.String(); err == nil {
					return fmt.Sprintf("the label of element %d of %s is a string", i, n.text)
				}
			}
			return ""
		}
		if m := label(); m != "" {
			return m
		}
		for again := 0; again < 2; again++ {
			if part && r.Intn(3) == 0 {
				continue
			}
			p.Down()
			if m := k.walk(p, r, part, stop); m != "" {
				return m
			}
			p.Up()
			if m := label(); m != "" {
				return m + " after going down and up"
			}
			if !part {
				break
			}
		}
	}
	if err := p.Next(); err != io.EOF {
		return fmt.Sprintf("Next gives %v after the last field of %s", err, n.text)
	}
	return ""
}

func TestVerifWalk(t *testing.T) {
	r := vh.Rand(16)
	count := 0
	p := json.NewJsonParser()
	for i := 0; i < vh.N(40000, 800000) && !vh.TooMany(); i++ {
		b := &bytes.Buffer{}
		tight := r.Intn(3) == 0
		b.WriteString(ws(r, tight))
		n := gen(r, r.Intn(5), b, tight)
		b.WriteString(ws(r, tight))
		doc := b.String()
		if !stdjson.Valid([]byte(doc)) {
			t.Fatalf("harness: %q is not valid", doc)
		}
		count++
		if i < 3 {
			vh.Sample("%s", doc)
		}
		vh.Current("%q", doc)
		m := ""
		seed := r.Int63()
		if c := vh.Try(func() {
			if err := p.Init([]byte(doc)); err != nil {
				m = fmt.Sprintf("Init gives %v", err)
				return
			}
			rr := rand.New(rand.NewSource(seed))
			// leave a walk anywhere, then start over
			for k := rr.Intn(3); k > 0; k-- {
				stop := 1 + rr.Intn(6)
				if m = n.walk(p, rr, true, &stop); m != "" && m != "stop" {
					m = "partial walk: " + m
					return
				}
				if err := p.Reset(); err != nil {
					m = fmt.Sprintf("Reset gives %v", err)
					return
				}
			}
			if m = n.walk(p, rr, false, nil); m != "" {
				return
			}
			if err := p.Reset(); err != nil {
				m = fmt.Sprintf("Reset gives %v", err)
				return
			}
			if m = n.walk(p, rr, true, nil); m != "" {
				m = "partial walk: " + m
			}
		}); c != "" {
			m = c
		}
		if m != "" {
			vh.Fail(t, "walk", "%q: %s", doc, m)
		}
	}
	vh.Stat("documents", count)
	vh.Done()
}
