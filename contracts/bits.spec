// Contracts of relapse/sets/bits.go. Machine integers are bit vectors.
package relapse/sets
mode bv

smt {
(define-fun lowest ((d (_ BitVec 64))) (_ BitVec 64) (ite (= ((_ extract 0 0) d) #b1) (_ bv0 64) (ite (= ((_ extract 1 1) d) #b1) (_ bv1 64) (ite (= ((_ extract 2 2) d) #b1) (_ bv2 64) (ite (= ((_ extract 3 3) d) #b1) (_ bv3 64) (ite (= ((_ extract 4 4) d) #b1) (_ bv4 64) (ite (= ((_ extract 5 5) d) #b1) (_ bv5 64) (ite (= ((_ extract 6 6) d) #b1) (_ bv6 64) (ite (= ((_ extract 7 7) d) #b1) (_ bv7 64) (ite (= ((_ extract 8 8) d) #b1) (_ bv8 64) (ite (= ((_ extract 9 9) d) #b1) (_ bv9 64) (ite (= ((_ extract 10 10) d) #b1) (_ bv10 64) (ite (= ((_ extract 11 11) d) #b1) (_ bv11 64) (ite (= ((_ extract 12 12) d) #b1) (_ bv12 64) (ite (= ((_ extract 13 13) d) #b1) (_ bv13 64) (ite (= ((_ extract 14 14) d) #b1) (_ bv14 64) (ite (= ((_ extract 15 15) d) #b1) (_ bv15 64) (ite (= ((_ extract 16 16) d) #b1) (_ bv16 64) (ite (= ((_ extract 17 17) d) #b1) (_ bv17 64) (ite (= ((_ extract 18 18) d) #b1) (_ bv18 64) (ite (= ((_ extract 19 19) d) #b1) (_ bv19 64) (ite (= ((_ extract 20 20) d) #b1) (_ bv20 64) (ite (= ((_ extract 21 21) d) #b1) (_ bv21 64) (ite (= ((_ extract 22 22) d) #b1) (_ bv22 64) (ite (= ((_ extract 23 23) d) #b1) (_ bv23 64) (ite (= ((_ extract 24 24) d) #b1) (_ bv24 64) (ite (= ((_ extract 25 25) d) #b1) (_ bv25 64) (ite (= ((_ extract 26 26) d) #b1) (_ bv26 64) (ite (= ((_ extract 27 27) d) #b1) (_ bv27 64) (ite (= ((_ extract 28 28) d) #b1) (_ bv28 64) (ite (= ((_ extract 29 29) d) #b1) (_ bv29 64) (ite (= ((_ extract 30 30) d) #b1) (_ bv30 64) (ite (= ((_ extract 31 31) d) #b1) (_ bv31 64) (ite (= ((_ extract 32 32) d) #b1) (_ bv32 64) (ite (= ((_ extract 33 33) d) #b1) (_ bv33 64) (ite (= ((_ extract 34 34) d) #b1) (_ bv34 64) (ite (= ((_ extract 35 35) d) #b1) (_ bv35 64) (ite (= ((_ extract 36 36) d) #b1) (_ bv36 64) (ite (= ((_ extract 37 37) d) #b1) (_ bv37 64) (ite (= ((_ extract 38 38) d) #b1) (_ bv38 64) (ite (= ((_ extract 39 39) d) #b1) (_ bv39 64) (ite (= ((_ extract 40 40) d) #b1) (_ bv40 64) (ite (= ((_ extract 41 41) d) #b1) (_ bv41 64) (ite (= ((_ extract 42 42) d) #b1) (_ bv42 64) (ite (= ((_ extract 43 43) d) #b1) (_ bv43 64) (ite (= ((_ extract 44 44) d) #b1) (_ bv44 64) (ite (= ((_ extract 45 45) d) #b1) (_ bv45 64) (ite (= ((_ extract 46 46) d) #b1) (_ bv46 64) (ite (= ((_ extract 47 47) d) #b1) (_ bv47 64) (ite (= ((_ extract 48 48) d) #b1) (_ bv48 64) (ite (= ((_ extract 49 49) d) #b1) (_ bv49 64) (ite (= ((_ extract 50 50) d) #b1) (_ bv50 64) (ite (= ((_ extract 51 51) d) #b1) (_ bv51 64) (ite (= ((_ extract 52 52) d) #b1) (_ bv52 64) (ite (= ((_ extract 53 53) d) #b1) (_ bv53 64) (ite (= ((_ extract 54 54) d) #b1) (_ bv54 64) (ite (= ((_ extract 55 55) d) #b1) (_ bv55 64) (ite (= ((_ extract 56 56) d) #b1) (_ bv56 64) (ite (= ((_ extract 57 57) d) #b1) (_ bv57 64) (ite (= ((_ extract 58 58) d) #b1) (_ bv58 64) (ite (= ((_ extract 59 59) d) #b1) (_ bv59 64) (ite (= ((_ extract 60 60) d) #b1) (_ bv60 64) (ite (= ((_ extract 61 61) d) #b1) (_ bv61 64) (ite (= ((_ extract 62 62) d) #b1) (_ bv62 64) (ite (= ((_ extract 63 63) d) #b1) (_ bv63 64) (_ bv0 64))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))
}

// bit i of a word
def wbit(w, i) = (w >> i) & 1 == 1
// position i of a bit set: val0 holds positions 0..63, vals the rest
def bit(b, i) = ite(i < 64, wbit(b.val0, i), wbit(b.vals[i/64-1], i%64))
def words(b) = ite(b.size < 64, 0, b.size/64)
// representation: the right number of words, nothing set at or after size
def unset(b, i) = 0 <= i && b.size <= i && i < 64*(words(b)+1) ==> !bit(b, i)
def rep(b) = len(b.vals) == words(b) && forall(i, int, unset(b, i))

func NewBits(size) (r)
  prop C13 C06
  ensures rep(r) && r.size == size
  ensures forall(i, int, imp(0 <= i && i < size, !bit(r, i)))
  ensures fresh(r.vals)

func Bits.Get(bs, i) (r)
  prop C13 C06
  requires 0 <= i && i < bs.size && len(bs.vals) == words(bs)
  ensures r == bit(bs, i)

func *Bits.Set(bs, i, b)
  prop C13 C06
  requires bs != nil
  requires 0 <= i && i < bs.size
  requires len(bs.vals) == words(bs)
  requires forall(j, int, imp(0 <= j && bs.size <= j && j < 64*(words(bs)+1), !bit(bs, j)))
  modifies bs.val0, elems(bs.vals)
  ensures bs.size == old(bs.size) && bs.vals == old(bs.vals)
  ensures bit(bs, i) == b
  ensures forall(j, int, imp(0 <= j && j < 64*(words(bs)+1) && j != i, bit(bs, j) == old(bit(bs, j))))
  ensures forall(j, int, imp(0 <= j && bs.size <= j && j < 64*(words(bs)+1), !bit(bs, j)))

// words that differ, differ at a bit
lemma word_diff(x uint64, y uint64)
  prop C13
  requires x != y
  ensures 0 <= int(lowest(x^y)) && int(lowest(x^y)) < 64 && wbit(x, int(lowest(x^y))) != wbit(y, int(lowest(x^y)))

// bit sets of one size that differ in a word, differ at a position: so Equal (word by word) is equality of positions
lemma bits_diff_first(a Bits, b Bits)
  prop C13
  uses word_diff
  requires rep(a) && rep(b) && a.size == b.size && 0 <= a.size
  requires a.val0 != b.val0
  ensures 0 <= int(lowest(a.val0^b.val0)) && int(lowest(a.val0^b.val0)) < a.size
  ensures bit(a, int(lowest(a.val0^b.val0))) != bit(b, int(lowest(a.val0^b.val0)))

lemma bit_at(a Bits, j int, l int)
  prop C13
  requires len(a.vals) == words(a) && 0 <= a.size && a.size < 1<<50
  requires 0 <= j && j < len(a.vals) && 0 <= l && l < 64
  ensures (64*(j+1)+l)/64-1 == j && (64*(j+1)+l)%64 == l && 64*(j+1)+l >= 64
  ensures bit(a, 64*(j+1)+l) == wbit(a.vals[j], l)

// with bit_at: unset at position 64*(j+1)+l
lemma bits_diff_rest(a Bits, b Bits, j int, l int)
  prop C13
  uses word_diff
  requires a.size == b.size && 0 <= a.size
  requires 0 <= j && j < len(a.vals) && a.vals[j] != b.vals[j]
  requires l == int(lowest(a.vals[j]^b.vals[j]))
  requires a.size <= 64*(j+1)+l ==> !wbit(a.vals[j], l) && !wbit(b.vals[j], l)
  ensures 0 <= l && l < 64 && 64*(j+1)+l < a.size
  ensures wbit(a.vals[j], l) != wbit(b.vals[j], l)
