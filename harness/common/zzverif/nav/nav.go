// Package nav walks a parser in random allowed orders.
package nav

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"

	"github.com/katydid/katydid/parser"
)

// Values reads every value of the current position.
func Values(p parser.Interface) string {
	b := &bytes.Buffer{}
	f, err := p.Double()
	fmt.Fprintf(b, "%x %v;", f, err != nil)
	i, err := p.Int()
	fmt.Fprintf(b, "%d %v;", i, err != nil)
	u, err := p.Uint()
	fmt.Fprintf(b, "%d %v;", u, err != nil)
	t, err := p.Bool()
	fmt.Fprintf(b, "%v %v;", t, err != nil)
	s, err := p.String()
	fmt.Fprintf(b, "%q %v;", s, err != nil)
	y, err := p.Bytes()
	fmt.Fprintf(b, "%x %v;", y, err != nil)
	return b.String()
}

// Ops is a random sequence of wishes: each is carried out when the interface allows it.
func Ops(r *rand.Rand, n int) []byte {
	ops := make([]byte, n)
	style := r.Intn(3)
	for i := range ops {
		switch k := r.Intn(10); {
		case style == 0: // depth first
			ops[i] = "ndnvndnvnnu"[r.Intn(11)]
		case k < 4:
			ops[i] = 'n'
		case k < 6:
			ops[i] = 'd'
		case k < 7:
			ops[i] = 'u'
		case k < 9:
			ops[i] = 'v'
		default:
			ops[i] = "nnnnnr"[r.Intn(6)]
		}
	}
	return ops
}

// Walk carries out the wishes and gives what was seen. say is told each operation before it is done.
func Walk(p parser.Interface, ops []byte, reset func() error, say func(op byte)) string {
	b := &bytes.Buffer{}
	depth, cur := 0, false
	for _, op := range ops {
		switch op {
		case 'n':
			say(op)
			err := p.Next()
			cur = err == nil
			switch {
			case err == nil:
				say('l')
				fmt.Fprintf(b, "n%v", p.IsLeaf())
			case err == io.EOF:
				b.WriteString("E")
			default:
				b.WriteString("X")
			}
		case 'd':
			// a leaf has nothing below it
			if cur && !p.IsLeaf() {
				say(op)
				p.Down()
				depth++
				cur = false
				b.WriteString("d")
			}
		case 'u':
			if depth > 0 {
				say(op)
				p.Up()
				depth--
				cur = true
				b.WriteString("u")
			}
		case 'v':
			if cur {
				say(op)
				b.WriteString(Values(p))
			}
		case 'r':
			if reset != nil {
				say(op)
				err := reset()
				depth, cur = 0, false
				fmt.Fprintf(b, "r%v", err != nil)
			}
		}
	}
	return b.String()
}
