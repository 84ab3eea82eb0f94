package sets_test

import (
	"testing"

	"github.com/katydid/katydid/relapse/sets"
	"github.com/katydid/katydid/zzverif/vh"
)

// TestVerifBits drives bit sets against slices of booleans.
func TestVerifBits(t *testing.T) {
	n := 0
	sizes := []int{0, 1, 2, 3, 31, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 191, 192, 193, 256, 300}
	for si, size := range sizes {
		r := vh.Rand(int64(si))
		for rep := 0; rep < vh.N(6, 60); rep++ {
			var ops []int
			bs := sets.NewBits(size)
			model := make([]bool, size)
			if rep >= 3 {
				for i := range model {
					if r.Intn(4) > 0 {
						bs.Set(i, true)
						model[i] = true
					}
				}
			}
			check := func(what string) bool {
				for i := range model {
					if bs.Get(i) != model[i] {
						vh.Fail(t, "get", "size %d, %s, operations %v: position %d reads %v", size, what, ops, i, bs.Get(i))
						return false
					}
				}
				return true
			}
			if m := vh.Try(func() {
				if !check("new") {
					return
				}
				for k := 0; k < 40 && size > 0; k++ {
					n++
					i := r.Intn(size)
					switch r.Intn(6) {
					case 0:
						i = size - 1
					case 1:
						i = 0
					case 2:
						if size > 64 {
							i = 63 + r.Intn(2)
						}
					}
					b := r.Intn(2) == 0
					before := bs
					_ = before
					bs.Set(i, b)
					model[i] = b
					op := i + 1
					if !b {
						op = -op
					}
					ops = append(ops, op)
					if !check("after set") {
						return
					}
					// equality: same contents, and one position different
					cp := sets.NewBits(size)
					for j := range model {
						cp.Set(j, model[j])
					}
					if !cp.Equal(bs) || !bs.Equal(cp) {
						vh.Fail(t, "equal", "size %d, operations %v: equal sets compare as different", size, ops)
					}
					j := r.Intn(size)
					if r.Intn(3) == 0 {
						j = size - 1
					}
					cp.Set(j, !model[j])
					if cp.Equal(bs) || bs.Equal(cp) {
						vh.Fail(t, "equal", "size %d, operations %v: sets that differ at %d compare as equal", size, ops, j)
					}
					ot := sets.NewBits(size + 1)
					for j := range model {
						ot.Set(j, model[j])
					}
					if ot.Equal(bs) || bs.Equal(ot) {
						vh.Fail(t, "equal-size", "size %d and %d compare as equal", size, size+1)
					}
					// increment
					full := true
					for _, b := range model {
						full = full && b
					}
					if !full {
						inc := bs.Inc()
						want := append([]bool(nil), model...)
						for i := range want {
							want[i] = !want[i]
							if want[i] {
								break
							}
						}
						for i := range want {
							if inc.Get(i) != want[i] {
								vh.Fail(t, "inc", "size %d, operations %v: position %d after increment is %v", size, ops, i, inc.Get(i))
								return
							}
						}
						if !check("after increment of a copy") {
							return
						}
					}
				}
			}); m != "" {
				vh.Fail(t, "panic", "size %d, operations %v: %s", size, ops, m)
			}
		}
		// carry over all lengths of runs of ones
		for run := 0; run < size; run++ {
			n++
			bs := sets.NewBits(size)
			for i := 0; i < run; i++ {
				bs.Set(i, true)
			}
			for i := run + 1; i < size; i += 3 {
				bs.Set(i, true)
			}
			if m := vh.Try(func() {
				inc := bs.Inc()
				for i := 0; i < size; i++ {
					want := i == run || i > run && bs.Get(i)
					if inc.Get(i) != want {
						vh.Fail(t, "inc", "size %d with the lowest %d positions set: position %d after increment is %v", size, run, i, inc.Get(i))
						return
					}
				}
				for i := 0; i < run; i++ {
					if !bs.Get(i) {
						vh.Fail(t, "inc-alias", "size %d, run %d: the original changed at %d", size, run, i)
						return
					}
				}
			}); m != "" {
				vh.Fail(t, "panic", "increment, size %d, run %d: %s", size, run, m)
			}
		}
	}
	vh.Stat("evaluations", n)
	vh.Stat("nontrivial", n)
	vh.Done()
}
