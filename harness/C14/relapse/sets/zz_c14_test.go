package sets_test

import (
	"fmt"
	"testing"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/sets"
	"github.com/katydid/katydid/zzverif/vh"
)

// table drives one index table: values are compared by their printed form, which the maker keeps distinct.
func table(t *testing.T, what string, salt int64, mk func(k int) (string, func() int, func() int, func(i int) string)) int {
	r := vh.Rand(salt)
	given := map[string]int{}
	var at []string
	n := 0
	for k := 0; k < vh.N(150, 1500); k++ {
		n++
		v, index, add, get := mk(r.Intn(40))
		var i, j int
		if m := vh.Try(func() { i = index(); j = add() }); m != "" {
			vh.Fail(t, "panic", "%s: adding %s after %v: %s", what, v, at, m)
			return n
		}
		if old, ok := given[v]; ok {
			if i != old || j != old {
				vh.Fail(t, "index", "%s: %s was given index %d, now Index gives %d and Add gives %d; contents %v", what, v, old, i, j, at)
				return n
			}
		} else {
			if i != -1 || j != len(at) {
				vh.Fail(t, "index", "%s: new value %s: Index gives %d, Add gives %d, want -1 and %d; contents %v", what, v, i, j, len(at), at)
				return n
			}
			given[v] = j
			at = append(at, v)
		}
		for x := range at {
			if get(x) != at[x] {
				vh.Fail(t, "stable", "%s: index %d denoted %s and now %s", what, x, at[x], get(x))
				return n
			}
		}
	}
	return n
}

func TestVerifTables(t *testing.T) {
	n := 0
	for salt := int64(0); salt < int64(vh.N(4, 40)); salt++ {
		ints := sets.NewInts()
		n += table(t, "Ints", salt, func(k int) (string, func() int, func() int, func(int) string) {
			v := []int{}
			for x := k; x > 0; x /= 3 {
				v = append(v, x%3)
			}
			return fmt.Sprint(v), func() int { return ints.Index(v) }, func() int { return ints.Add(v) }, func(i int) string { return fmt.Sprint(ints[i]) }
		})
		pairs := sets.NewPairs()
		n += table(t, "Pairs", 100+salt, func(k int) (string, func() int, func() int, func(int) string) {
			v := sets.Pair{First: k / 6, Second: k % 6}
			return fmt.Sprint(v), func() int { return pairs.Index(v) }, func() int { return pairs.Add(v) }, func(i int) string { return fmt.Sprint(pairs[i]) }
		})
		bits := sets.NewBitsSet()
		str := func(b sets.Bits, size int) string {
			s := fmt.Sprint(size, ":")
			for i := 0; i < size; i++ {
				if b.Get(i) {
					s += fmt.Sprint(i, " ")
				}
			}
			return s
		}
		sizes := []int{}
		n += table(t, "BitsSet", 200+salt, func(k int) (string, func() int, func() int, func(int) string) {
			size := []int{3, 63, 64, 65, 130}[k%5]
			v := sets.NewBits(size)
			for i := 0; i < 8; i++ {
				if (k/5)>>uint(i)&1 == 1 {
					v.Set(i*(size-1)/7, true)
				}
			}
			return str(v, size), func() int { return bits.Index(v) }, func() int {
				j := bits.Add(v)
				if j == len(sizes) {
					sizes = append(sizes, size)
				}
				return j
			}, func(i int) string { return str(bits[i], sizes[i]) }
		})
		pats := sets.NewPatterns()
		n += table(t, "Patterns", 300+salt, func(k int) (string, func() int, func() int, func(int) string) {
			v := []*ast.Pattern{}
			for x := k; x > 0; x /= 4 {
				switch x % 4 {
				case 0:
					v = append(v, ast.NewZAny())
				case 1:
					v = append(v, ast.NewEmpty())
				case 2:
					v = append(v, ast.NewConcat(ast.NewZAny(), ast.NewReference("a")))
				case 3:
					v = append(v, ast.NewOr(ast.NewZAny(), ast.NewReference("b")))
				}
			}
			show := func(ps []*ast.Pattern) string {
				s := "["
				for _, p := range ps {
					s += p.String() + ";"
				}
				return s + "]"
			}
			return show(v), func() int { return pats.Index(v) }, func() int { return pats.Add(v) }, func(i int) string { return show(pats[i]) }
		})
	}
	vh.Stat("evaluations", n)
	vh.Stat("nontrivial", n)
	vh.Done()
}
