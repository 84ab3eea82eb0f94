// Package pbx makes message descriptors and messages of which the bytes and the meaning are known.
package pbx

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/rand"

	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	"github.com/katydid/katydid/parser"
)

// Scalars lists the scalar types.
var Scalars = []descriptor.FieldDescriptorProto_Type{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 17, 18}

func str(s string) *string { return &s }

// Field describes one field of the test messages.
type Field struct {
	Name     string
	Num      int32
	Typ      descriptor.FieldDescriptorProto_Type
	Repeated bool
	Packed   bool
	Msg      string
}

func (f *Field) desc() *descriptor.FieldDescriptorProto {
	n, t, l := f.Num, f.Typ, descriptor.FieldDescriptorProto_LABEL_OPTIONAL
	if f.Repeated {
		l = descriptor.FieldDescriptorProto_LABEL_REPEATED
	}
	d := &descriptor.FieldDescriptorProto{Name: str(f.Name), Number: &n, Type: &t, Label: &l}
	if f.Msg != "" {
		d.TypeName = str("." + "zz." + f.Msg)
	}
	if t == descriptor.FieldDescriptorProto_TYPE_ENUM {
		d.TypeName = str(".zz.En")
	}
	if f.Packed {
		y := true
		d.Options = &descriptor.FieldOptions{Packed: &y}
	}
	return d
}

// Fields is what the recursive message zz.All holds.
func Fields() []*Field {
	fs := []*Field{}
	for i, t := range Scalars {
		fs = append(fs, &Field{Name: fmt.Sprintf("S%d", t), Num: int32(1 + i), Typ: t})
		fs = append(fs, &Field{Name: fmt.Sprintf("R%d", t), Num: int32(101 + i), Typ: t, Repeated: true})
		if t != 9 && t != 12 {
			fs = append(fs, &Field{Name: fmt.Sprintf("P%d", t), Num: int32(3001 + i), Typ: t, Repeated: true, Packed: true})
		}
	}
	fs = append(fs, &Field{Name: "M", Num: 70, Typ: 11, Msg: "All"})
	fs = append(fs, &Field{Name: "RM", Num: 71, Typ: 11, Repeated: true, Msg: "All"})
	fs = append(fs, &Field{Name: "RM2", Num: 536870911, Typ: 11, Repeated: true, Msg: "All"})
	fs = append(fs, &Field{Name: "Nil", Num: 73, Typ: 11, Msg: "Nil"})
	return fs
}

// Set is the descriptor of zz.All.
func Set(fs []*Field) *descriptor.FileDescriptorSet {
	all := &descriptor.DescriptorProto{Name: str("All")}
	for _, f := range fs {
		all.Field = append(all.Field, f.desc())
	}
	z := int32(0)
	en := &descriptor.EnumDescriptorProto{Name: str("En"), Value: []*descriptor.EnumValueDescriptorProto{{Name: str("ENZ"), Number: &z}}}
	file := &descriptor.FileDescriptorProto{Name: str("zz.proto"), Package: str("zz"),
		MessageType: []*descriptor.DescriptorProto{all, {Name: str("Nil")}}, EnumType: []*descriptor.EnumDescriptorProto{en}}
	return &descriptor.FileDescriptorSet{File: []*descriptor.FileDescriptorProto{file}}
}

// Node is a field, an element or a message with what it must be presented as.
type Node struct {
	Name string
	Idx  int // -1 for a field
	Leaf string
	Kids []*Node
	Elem bool
}

func (n *Node) String() string {
	s := n.Name
	if n.Elem {
		s = fmt.Sprint(n.Idx)
	}
	if n.Leaf != "" {
		return s + "=" + n.Leaf
	}
	return s + ":" + Show(n.Kids)
}

// Show prints a tree.
func Show(ns []*Node) string {
	s := "{"
	for _, n := range ns {
		s += n.String() + " "
	}
	return s + "}"
}

func uv(b *bytes.Buffer, r *rand.Rand, v uint64) {
	var a [10]byte
	n := binary.PutUvarint(a[:], v)
	if r != nil && r.Intn(12) == 0 && n < 9 { // longer than it needs to be
		a[n-1] |= 0x80
		a[n] = 0
		n++
	}
	b.Write(a[:n])
}

// Int is a random number with many edges.
func Int(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(300))
	case 1:
		return uint64(int64(-1 - r.Intn(300)))
	case 2:
		return uint64(1) << uint(r.Intn(64))
	case 3:
		return uint64(1)<<uint(r.Intn(64)) - 1
	case 4:
		return []uint64{0, 1 << 31, 1<<31 - 1, 1 << 63, 1<<63 - 1, math.MaxUint64, 1 << 32, 1<<32 - 1, uint64(0xffffffff80000000)}[r.Intn(9)]
	}
	return r.Uint64()
}

var strs = []string{"", "a", "abc", "\x00", "é\u2028", "\xff\xfe", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"}

// Scalar writes a random value of type t and says what it is: one letter for the accessor, then the value.
func Scalar(b *bytes.Buffer, r *rand.Rand, t descriptor.FieldDescriptorProto_Type) string {
	x := Int(r)
	fix := func(n int, x uint64) {
		for i := 0; i < n; i++ {
			b.WriteByte(byte(x >> uint(8*i)))
		}
	}
	switch t {
	case 1:
		fix(8, x)
		return fmt.Sprintf("d%x", x)
	case 2:
		// a signalling nan turns quiet when it is widened
		f := math.Float32frombits(uint32(x))
		fix(4, x)
		return fmt.Sprintf("d%x", math.Float64bits(float64(f)))
	case 3:
		uv(b, r, x)
		return fmt.Sprintf("i%d", int64(x))
	case 4:
		uv(b, r, x)
		return fmt.Sprintf("u%d", x)
	case 5, 14:
		v := int32(x)
		uv(b, r, uint64(int64(v)))
		return fmt.Sprintf("i%d", v)
	case 6:
		fix(8, x)
		return fmt.Sprintf("u%d", x)
	case 7:
		fix(4, x)
		return fmt.Sprintf("u%d", uint32(x))
	case 8:
		v := uint64(r.Intn(2))
		if r.Intn(8) == 0 {
			v = x
		}
		uv(b, r, v)
		return fmt.Sprintf("b%v", v != 0)
	case 9, 12:
		s := strs[r.Intn(len(strs))]
		uv(b, r, uint64(len(s)))
		b.WriteString(s)
		if t == 9 {
			return fmt.Sprintf("s%q", s)
		}
		return fmt.Sprintf("y%q", s)
	case 13:
		uv(b, r, uint64(uint32(x)))
		return fmt.Sprintf("u%d", uint32(x))
	case 15:
		fix(4, x)
		return fmt.Sprintf("i%d", int32(x))
	case 16:
		fix(8, x)
		return fmt.Sprintf("i%d", int64(x))
	case 17:
		v := int32(x)
		uv(b, r, uint64(uint32(v<<1)^uint32(v>>31)))
		return fmt.Sprintf("i%d", v)
	case 18:
		v := int64(x)
		uv(b, r, uint64(v<<1)^uint64(v>>63))
		return fmt.Sprintf("i%d", v)
	}
	panic("type")
}

func wire(t descriptor.FieldDescriptorProto_Type) uint64 {
	switch t {
	case 1, 6, 16:
		return 1
	case 2, 7, 15:
		return 5
	case 9, 11, 12:
		return 2
	}
	return 0
}

// Opt says what a random message may hold.
type Opt struct {
	Unknown  bool
	Split    bool // a field may come back after another field
	Unminded bool // scalars declared packed may be written unpacked and the other way around
}

// Message writes a random message and gives its tree.
func Message(b *bytes.Buffer, r *rand.Rand, fs []*Field, depth int, o Opt) []*Node {
	kids := []*Node{}
	last := ""
	seen := map[string]bool{}
	pool := fs
	if r.Intn(3) == 0 { // few fields, so that they meet
		pool = nil
		for i := 0; i < 3; i++ {
			pool = append(pool, fs[r.Intn(len(fs))])
		}
	}
	for n := r.Intn(7); n > 0; n-- {
		if o.Unknown && r.Intn(6) == 0 {
			last = ""
			num := uint64(90 + r.Intn(8))
			if r.Intn(4) == 0 {
				num = 1 << 28
			}
			switch r.Intn(4) {
			case 0:
				uv(b, r, num<<3)
				uv(b, r, Int(r))
			case 1:
				uv(b, r, num<<3|1)
				b.WriteString("12345678")
			case 2:
				uv(b, r, num<<3|2)
				s := strs[r.Intn(len(strs))]
				uv(b, r, uint64(len(s)))
				b.WriteString(s)
			case 3:
				uv(b, r, num<<3|5)
				b.WriteString("1234")
			}
			continue
		}
		f := pool[r.Intn(len(pool))]
		if f.Msg != "" && depth <= 0 {
			continue
		}
		if seen[f.Name] && !o.Split {
			continue
		}
		seen[f.Name] = true
		one := func() *Node {
			if f.Msg == "" {
				return &Node{Leaf: Scalar(b, r, f.Typ)}
			}
			m := &bytes.Buffer{}
			n := &Node{}
			if f.Msg != "Nil" {
				n.Kids = Message(m, r, fs, depth-1, o)
			}
			uv(b, r, uint64(m.Len()))
			b.Write(m.Bytes())
			return n
		}
		key := uint64(f.Num)<<3 | wire(f.Typ)
		if !f.Repeated {
			uv(b, nil, key)
			x := one()
			if x.Leaf != "" {
				x = &Node{Name: f.Name, Idx: -1, Kids: []*Node{x}}
			} else {
				x.Name, x.Idx = f.Name, -1
			}
			kids = append(kids, x)
			last = ""
			continue
		}
		packed := f.Packed
		if o.Unminded && r.Intn(4) == 0 && f.Msg == "" && f.Typ != 9 && f.Typ != 12 {
			packed = !packed
		}
		add := func(nd *Node, x *Node) {
			if x.Leaf != "" {
				x = &Node{Kids: []*Node{x}}
			}
			x.Idx, x.Elem = len(nd.Kids), true
			nd.Kids = append(nd.Kids, x)
		}
		if packed {
			nd := &Node{Name: f.Name, Idx: -1}
			s := b
			b = &bytes.Buffer{}
			for m := r.Intn(4); m > 0; m-- {
				add(nd, one())
			}
			uv(s, nil, key&^7|2)
			uv(s, r, uint64(b.Len()))
			s.Write(b.Bytes())
			b = s
			kids = append(kids, nd)
			last = ""
			continue
		}
		var nd *Node
		if last == f.Name {
			nd = kids[len(kids)-1]
		} else {
			nd = &Node{Name: f.Name, Idx: -1}
			kids = append(kids, nd)
		}
		for m := 1 + r.Intn(3); m > 0; m-- {
			uv(b, nil, key)
			add(nd, one())
		}
		last = f.Name
	}
	return kids
}

// Value tells which accessor of a leaf gives a value, and the value.
func Value(p parser.Interface) string {
	s := ""
	if v, err := p.Double(); err == nil {
		s += fmt.Sprintf("d%x", math.Float64bits(v))
	}
	if v, err := p.Int(); err == nil {
		s += fmt.Sprintf("i%d", v)
	}
	if v, err := p.Uint(); err == nil {
		s += fmt.Sprintf("u%d", v)
	}
	if v, err := p.Bool(); err == nil {
		s += fmt.Sprintf("b%v", v)
	}
	if v, err := p.String(); err == nil {
		s += fmt.Sprintf("s%q", v)
	}
	if v, err := p.Bytes(); err == nil {
		s += fmt.Sprintf("y%q", v)
	}
	return s
}

// Check walks p and compares it to the tree; at random it leaves out going down and reading on.
func Check(p parser.Interface, want []*Node, r *rand.Rand, all bool) error {
	for i, n := range want {
		if !all && r.Intn(12) == 0 {
			return nil
		}
		if err := p.Next(); err != nil {
			return fmt.Errorf("Next before %v gives %v", n, err)
		}
		if p.IsLeaf() != (n.Leaf != "") {
			return fmt.Errorf("IsLeaf at %v gives %v", n, p.IsLeaf())
		}
		if n.Leaf != "" {
			if got := Value(p); got != n.Leaf {
				return fmt.Errorf("the value at %v reads as %s", n, got)
			}
			continue
		}
		if n.Elem {
			if v, err := p.Int(); err != nil || v != int64(i) {
				return fmt.Errorf("the label of element %d is %v, %v", i, v, err)
			}
		} else if v, err := p.String(); err != nil || v != n.Name {
			return fmt.Errorf("the label of field %v is %q, %v", n, v, err)
		}
		if !all && r.Intn(4) == 0 {
			continue
		}
		p.Down()
		if err := Check(p, n.Kids, r, all); err != nil {
			return err
		}
		p.Up()
	}
	if err := p.Next(); err != io.EOF {
		return fmt.Errorf("Next after %s gives %v", Show(want), err)
	}
	return nil
}
