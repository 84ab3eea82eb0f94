// Contracts of Bits.Inc and Bits.Equal, with integers and explicit 64 bit ranges.
package relapse/sets

def full() = 18446744073709551615
def nwords(b) = ite(b.size < 64, 0, b.size/64)

// the little-endian number: a word is incremented exactly when all words below it are full
func Bits.Inc(bs) (r)
  prop C13 C06
  requires len(bs.vals) == nwords(bs) && 0 <= bs.size
  requires bs.size < 64 ==> bs.val0 != full()
  requires bs.size >= 64 && bs.val0 == full() ==> exists(i, int, 0 <= i && i < nwords(bs) && bs.vals[i] != full())
  inv [i int, e bool]: !e ==> forall(k, int, 0 <= k && k < i && k < nwords(bs) ==> bs.vals[k] == full())
  inv [i int, e bool, nv any []uint64]: !e ==> forall(k, int, 0 <= k && k < i && k < nwords(bs) ==> nv[k] == 0)
  inv [i int, nv any []uint64]: forall(k, int, i <= k && k < nwords(bs) ==> nv[k] == 0)
  inv [i int, e bool, nv any []uint64]: e ==> exists(p, int, 0 <= p && p < i && p < nwords(bs) && bs.vals[p] != full() && nv[p] == bs.vals[p]+1 && forall(k, int, 0 <= k && k < p ==> bs.vals[k] == full() && nv[k] == 0) && forall(k, int, p < k && k < i && k < nwords(bs) ==> nv[k] == bs.vals[k]))
  ensures r.size == bs.size && len(r.vals) == nwords(bs)
  ensures bs.val0 != full() ==> r.val0 == bs.val0+1
  ensures bs.val0 != full() ==> forall(k, int, 0 <= k && k < nwords(bs) ==> r.vals[k] == bs.vals[k])
  ensures bs.size >= 64 && bs.val0 == full() ==> r.val0 == 0
  ensures bs.size >= 64 && bs.val0 == full() ==> exists(p, int, 0 <= p && p < nwords(bs) && bs.vals[p] != full() && r.vals[p] == bs.vals[p]+1 && forall(k, int, 0 <= k && k < p ==> bs.vals[k] == full() && r.vals[k] == 0) && forall(k, int, p < k && k < nwords(bs) ==> r.vals[k] == bs.vals[k]))

// the same size and the same words; lemmas bits_diff_first and bits_diff_rest: the same positions
def biteq(a, b) = a.size == b.size && a.val0 == b.val0 && forall(k, int, 0 <= k && k < len(a.vals) ==> a.vals[k] == b.vals[k])

func Bits.Equal(this, that) (r)
  prop C13 C06 C14
  requires len(this.vals) == nwords(this) && len(that.vals) == nwords(that)
  inv [i int]: forall(k, int, 0 <= k && k < i && k < len(this.vals) ==> this.vals[k] == that.vals[k])
  ensures r <==> biteq(this, that)
