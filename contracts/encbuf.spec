// Contracts of the buffer functions of encode/proto: writes stay within the buffer, keep what was written before, and
// append the encoding of the value.
package encode/proto
use proto
smt {
; v shifted right by 7*k
(declare-fun vsh (Int Int) Int)
(define-fun atr ((row (Array Int Int)) (f Int) (j Int)) Int (at$Int row f j))
(declare-fun bmk (Int) Bool)
(assert (forall ((v Int)) (! (bmk v) :pattern ((bmk v)))))
(declare-fun vdm ((Array Int Int) Int Int Int Int Int Int) Bool)
(assert (forall ((row (Array Int Int)) (f Int) (p Int) (k Int) (o Int) (e Int) (v Int)) (! (vdm row f p k o e v) :pattern ((vdm row f p k o e v)))))
(assert (forall ((v Int) (k Int)) (! (=> (and (<= 0 v) (<= 0 k)) (<= 0 (vsh v k))) :pattern ((vsh v k)))))
(assert (forall ((v Int)) (! (= (vsh v 0) v) :pattern ((vsh v 0)))))
(assert (forall ((v Int) (k Int) (j Int)) (! (=> (and (<= 0 k) (= j (+ k 1))) (= (vsh v j) (div (vsh v k) 128))) :pattern ((vsh v k) (vsh v j)))))
}
// what was written before is kept
def kept(r, buf, offset) = forall(k, int, trig(r[k]), 0 <= k && k < offset ==> r[k] == old(buf[k]))
def keptb(buf, offset) = forall(k, int, trig(buf[k]), 0 <= k && k < offset ==> buf[k] == old(buf[k]))
def room(r, o) = 0 <= o && o <= len(r) && len(r) < 1152921504606846976
def own(r, buf) = fresh(r) && cap(r) > 0 || arr(r) == arr(buf) && off(r) == off(buf) && len(r) == len(buf) && cap(r) == cap(buf)

func checkSize(buf, offset, size) (r)
  prop C19
  requires room(buf, offset) && 0 <= size && size < 1152921504606846976
  ensures len(r) >= offset + size && len(r) >= len(buf)
  ensures own(r, buf)
  ensures kept(r, buf, len(buf))
// the groups of 7 bits of v, lowest first, are the varint v
lemma vdec(row bytes, f int, p int, k int, o int, e int, v uint64)
  prop C19
  requires 0 <= k && p+k < o && f+o <= e && rt(vsh(v, k)) && rt(vsh(v, k+1)) && rt(atr(row, f, p+k)) && rt(atr(row, f, o-1))
  requires forall(j, int, trig(atr(row, f, j)), p <= j && j < o-1 ==> atr(row, f, j) == 128 + vsh(v, j-p) % 128)
  requires atr(row, f, o-1) == vsh(v, o-1-p) && atr(row, f, o-1) < 128
  hint uvt(f+p+k) && vdm(row, f, p, k+1, o, e, v)
  induct o-p-k
  trig vdm(row, f, p, k, o, e, v)
  ensures uvend(row, f+p+k, e) == f+o && uvsum(row, f+p+k, e) == vsh(v, k)

func safeVarint(buf, offset, v) (r, o)
  prop C19
  requires room(buf, offset)
  modifies elems(buf)
  shifts 7
  uses vdec
  hint vdm(elems(r), off(r), offset, 0, o, off(r)+o, v) && rt(r[o-1])
  inv [p int, w uint64]: offset <= p && p <= offset + 9 && vsh(v, 0) == v && w == vsh(v, p-offset)
  inv [p int, w uint64]: (p == offset+1 ==> w < 144115188075855872) && (p == offset+2 ==> w < 1125899906842624) && (p == offset+3 ==> w < 8796093022208) && (p == offset+4 ==> w < 68719476736) && (p == offset+5 ==> w < 536870912) && (p == offset+6 ==> w < 4194304) && (p == offset+7 ==> w < 32768) && (p == offset+8 ==> w < 256) && (p == offset+9 ==> w < 2)
  inv [p int, b any []byte]: forall(k, int, trig(b[k]), offset <= k && k < p ==> b[k] == 128 + vsh(v, k-offset) % 128)
  inv [b any []byte]: kept(b, buf, offset) && keptb(buf, offset)
  ensures offset < o && o <= offset + 10 && o <= len(r) && own(r, buf)
  ensures kept(r, buf, offset) && keptb(buf, offset)
  ensures forall(k, int, trig(r[k]), offset <= k && k < o-1 ==> r[k] == 128 + vsh(v, k-offset) % 128) && r[o-1] == vsh(v, o-1-offset) && r[o-1] < 128 && vsh(v, 0) == v
  ensures uvend(elems(r), off(r)+offset, off(r)+o) == off(r)+o && uvsum(elems(r), off(r)+offset, off(r)+o) == v

// bytes of a word
lemma shr8_1(x uint64)
  prop C19
  trig bmk(x)
  ensures x/256/256 == x/65536
lemma shr8_2(x uint64)
  prop C19
  trig bmk(x)
  ensures x/65536/256 == x/16777216
lemma shr8_3(x uint64)
  prop C19
  trig bmk(x)
  ensures x/16777216/256 == x/4294967296
lemma shr8_4(x uint64)
  prop C19
  trig bmk(x)
  ensures x/4294967296/256 == x/1099511627776
lemma shr8_5(x uint64)
  prop C19
  trig bmk(x)
  ensures x/1099511627776/256 == x/281474976710656
lemma shr8_6(x uint64)
  prop C19
  trig bmk(x)
  ensures x/281474976710656/256 == x/72057594037927936

func safeFixed64(buf, offset, x) (r, o)
  prop C19
  requires room(buf, offset)
  modifies elems(buf)
  ensures o == offset+8 && o <= len(r) && own(r, buf)
  ensures kept(r, buf, offset) && keptb(buf, offset)
  ensures plit8(elems(r), off(r)+offset) == x
  uses shr8_1 shr8_2 shr8_3 shr8_4 shr8_5 shr8_6
  hint bmk(x)
func safeFixed32(buf, offset, x) (r, o)
  prop C19
  requires room(buf, offset)
  modifies elems(buf)
  ensures o == offset+4 && o <= len(r) && own(r, buf)
  ensures kept(r, buf, offset) && keptb(buf, offset)
  ensures plit4(elems(r), off(r)+offset) == x
func safeCopy(dst, offset, src) (r, o)
  prop C19
  requires room(dst, offset) && len(src) < 1152921504606846976
  modifies elems(dst)
  ensures o == offset+len(src) && o <= len(r) && own(r, dst)
  ensures kept(r, dst, offset) && keptb(dst, offset)
  ensures forall(k, int, trig(r[k]), offset <= k && k < offset+len(src) ==> r[k] == old(src[k-offset]))
