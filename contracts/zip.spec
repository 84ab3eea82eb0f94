// Contracts of relapse/sets/zip.go: lists of patterns without duplicates and trivial patterns.
package relapse/sets
use lang asteq
def allz(ps) = forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> vpat(ps[i]))

smt {
(declare-fun nd (Int) Bool)
(assert (forall ((x Int)) (! (nd x) :pattern ((nd x)))))
; Zip takes patterns of the same hash and class for the same: their key. What Equal identifies has the same meaning and
; operator (the postconditions of Equal, C21), so these are functions of the key.
(declare-fun mkkey (Cls Int) Cls) (declare-fun kc (Cls) Cls) (declare-fun kh (Cls) Int) (declare-fun zkey (Int) Cls)
(declare-fun klang (Cls) Lang) (declare-fun ktriv (Cls) Int)
(assert (forall ((a Cls) (h Int)) (! (and (= (kc (mkkey a h)) a) (= (kh (mkkey a h)) h)) :pattern ((mkkey a h)))))
(assert (forall ((p Int)) (! (= (zkey p) (mkkey (cPattern p) (patHash p))) :pattern ((zkey p)))))
(assert (forall ((p Int)) (! (=> (vpat p) (= (alang p) (klang (zkey p)))) :pattern ((zkey p)))))
; whether one of the patterns at lo..hi of a row has the key c (lean/Fold.lean, with the operator or)
(declare-fun cov ((Array Int Int) Int Int Cls) Bool)
(assert (forall ((r (Array Int Int)) (lo Int) (hi Int) (c Cls)) (! (=> (<= hi lo) (not (cov r lo hi c))) :pattern ((cov r lo hi c)))))
(assert (forall ((r (Array Int Int)) (lo Int) (hi Int) (c Cls) (hj Int)) (! (=> (and (<= lo hi) (= hj (+ hi 1))) (= (cov r lo hj c) (or (cov r lo hi c) (= c (zkey (select r hi)))))) :pattern ((cov r lo hj c) (cov r lo hi c)))))
(assert (forall ((r (Array Int Int)) (lo Int) (hi Int) (c Cls) (lj Int)) (! (=> (and (< lo hi) (= lj (+ lo 1))) (= (cov r lo hi c) (or (cov r lj hi c) (= c (zkey (select r lo)))))) :pattern ((cov r lo hi c) (cov r lj hi c)))))
(assert (forall ((r (Array Int Int)) (lo Int) (hi Int) (c Cls)) (! (=> (< lo hi) (= (cov r lo hi c) (or (cov r (+ lo 1) hi c) (= c (zkey (select r lo)))))) :pattern ((cov r lo hi c) (rt lo)))))
(assert (forall ((r (Array Int Int)) (k Int) (v Int) (lo Int) (hi Int) (c Cls)) (! (=> (or (< k lo) (<= hi k)) (= (cov (store r k v) lo hi c) (cov r lo hi c))) :pattern ((cov (store r k v) lo hi c)))))
(assert (forall ((r (Array Int Int)) (k Int) (v Int) (lo Int) (hi Int) (c Cls)) (! (=> (and (<= lo k) (= hi (+ k 1))) (= (cov (store r k v) lo hi c) (or (cov r lo k c) (= c (zkey v))))) :pattern ((cov (store r k v) lo hi c)))))
(assert (forall ((r (Array Int Int)) (lo Int) (hi Int) (c Cls) (o Int) (k Int)) (! (=> (and (not (cov r lo hi c)) (<= lo (+ o k)) (< (+ o k) hi)) (not (= c (zkey (at$Int r o k))))) :pattern ((cov r lo hi c) (at$Int r o k)))))
; where
(declare-fun covat ((Array Int Int) Int Int Cls) Int)
(assert (forall ((r (Array Int Int)) (lo Int) (hi Int) (c Cls)) (! (=> (cov r lo hi c) (and (<= 0 (covat r lo hi c)) (< (+ lo (covat r lo hi c)) hi) (= c (zkey (at$Int r lo (covat r lo hi c)))))) :pattern ((cov r lo hi c)))))
}
// accepting everything or nothing, as Zip sees it
axiom forall(p, *ast.Pattern, trig(zkey(p)), vpat(p) ==> tp(p) && (pk(p) == 8 ==> tp(p.Not.Pattern)) && ktriv(zkey(p)) == ite(pk(p) == 9, 1, ite(pk(p) == 8 && pk(p.Not.Pattern) == 9, 2, 0)))
def triv(p) = ktriv(zkey(p)) != 0

func !sort.Sort@*relapse/sets.sortable(data)
  trusted standard library: permutes with Swap
  writes E|*relapse/ast.Pattern
  writes E|uint64
  requires data != nil && len(data.hashes) == len(data.list)
  modifies elems(data.list), elems(data.hashes)
  ensures forall(j, int, trig(data.list[j]), trig(data.hashes[j]), 0 <= j && j < len(data.list) ==> exists(k, int, trig(old(data.list[k])), 0 <= k && k < len(data.list) && data.list[j] == old(data.list[k]) && data.hashes[j] == old(data.hashes[k])))
  ensures forall(c, Cls, trig(cov(elems(data.list), off(data.list), off(data.list) + len(data.list), c)), cov(elems(data.list), off(data.list), off(data.list) + len(data.list), c) <==> old(cov(elems(data.list), off(data.list), off(data.list) + len(data.list), c)))
func *sortable.Len(ps) (r)
  prop C12
  requires ps != nil
  ensures r == len(ps.list)
func *sortable.Swap(ps, i, j)
  prop C12
  requires ps != nil && 0 <= i && i < len(ps.list) && 0 <= j && j < len(ps.list) && len(ps.hashes) == len(ps.list)
  modifies elems(ps.list), elems(ps.hashes)
  ensures ps.list[i] == old(ps.list[j]) && ps.list[j] == old(ps.list[i]) && ps.hashes[i] == old(ps.hashes[j]) && ps.hashes[j] == old(ps.hashes[i])
  ensures forall(k, int, trig(ps.list[k]), trig(ps.hashes[k]), 0 <= k && k < len(ps.list) && k != i && k != j ==> ps.list[k] == old(ps.list[k]) && ps.hashes[k] == old(ps.hashes[k]))
func *sortable.Less(ps, i, j) (r)
  prop C12
  requires ps != nil && 0 <= i && i < len(ps.list) && 0 <= j && j < len(ps.list) && len(ps.hashes) == len(ps.list)
  ensures r <==> ps.hashes[i] < ps.hashes[j]

def wf(ps, hs) = forall(k, int, trig(ps[k]), trig(hs[k]), 0 <= k && k < len(ps) ==> vpat(ps[k]) && hs[k] == patHash(ps[k]))
def okat(k, ps, indexes, patterns) = -2 <= indexes[k] && indexes[k] < len(ps) && ite(indexes[k] == -1, alang(patterns[k]) == lany(), ite(indexes[k] == -2, alang(patterns[k]) == lnone(), alang(ps[indexes[k]]) == alang(patterns[k])))
func Zip(patterns) (zs, idx)
  prop C12
  option appendx names cases
  requires allz(patterns)
  ensures fresh(zs) && fresh(idx) && len(idx) == len(patterns) && allz(zs)
  ensures forall(i, int, trig(idx[i]), 0 <= i && i < len(idx) ==> -2 <= idx[i] && idx[i] < len(zs) && ite(idx[i] == -1, alang(patterns[i]) == lany(), ite(idx[i] == -2, alang(patterns[i]) == lnone(), alang(zs[idx[i]]) == alang(patterns[i]))))
  ensures forall(i, int, trig(zs[i]), 0 <= i && i < len(zs) ==> !triv(zs[i]))
  ensures forall(i, int, j, int, trig(zs[i], zs[j]), nd(i) && nd(j) && 0 <= j && j < i && i < len(zs) ==> zkey(zs[i]) != zkey(zs[j]))
  inv [i int, ps last []*ast.Pattern, hashes last []uint64]: forall(k, int, trig(ps[k]), trig(hashes[k]), trig(patterns[k]), 0 <= k && k < i && k < len(patterns) ==> ps[k] == patterns[k] && hashes[k] == patHash(patterns[k]))
  inv [i int, ps last []*ast.Pattern]: forall(m, int, trig(patterns[m]), 0 <= m && m < i && m < len(patterns) ==> cov(elems(ps), off(ps), off(ps) + i, zkey(patterns[m])))
  inv [ps last []*ast.Pattern, hashes last []uint64]: wf(ps, hashes)
  inv [i int, u int]: 0 <= u && u <= i
  inv [u int, ps last []*ast.Pattern]: forall(k, int, trig(ps[k]), 0 <= k && k < u ==> !triv(ps[k]))
  inv [ps last []*ast.Pattern]: forall(k, int, trig(ps[k]), 0 <= k && k < len(ps) ==> !triv(ps[k]))
  inv [i int, orighashes any []uint64]: forall(k, int, trig(orighashes[k]), 0 <= k && k < i && k < len(patterns) ==> orighashes[k] == patHash(patterns[k]))
  inv [orighashes any []uint64]: forall(k, int, trig(orighashes[k]), 0 <= k && k < len(patterns) ==> orighashes[k] == patHash(patterns[k]))
  inv [i int, u int, ps last []*ast.Pattern]: forall(m, int, trig(patterns[m]), 0 <= m && m < len(patterns) && !triv(patterns[m]) ==> cov(elems(ps), off(ps), off(ps) + u, zkey(patterns[m])) || cov(elems(ps), off(ps) + i, off(ps) + len(ps), zkey(patterns[m])))
  inv [i int, u int]: 0 <= u && u < i
  inv [i int, u int, ps last []*ast.Pattern]: forall(m, int, trig(patterns[m]), 0 <= m && m < len(patterns) && !triv(patterns[m]) && rt(off(ps)) ==> cov(elems(ps), off(ps), off(ps) + u + 1, zkey(patterns[m])) || cov(elems(ps), off(ps) + i, off(ps) + len(ps), zkey(patterns[m])))
  inv [u int, ps last []*ast.Pattern]: forall(i, int, j, int, trig(nd(i), nd(j)), nd(i) && nd(j) && 0 <= j && j < i && i <= u ==> zkey(ps[i]) != zkey(ps[j]))
  inv [j int, i any int, ps last []*ast.Pattern, dup bool]: dup <==> cov(elems(ps), off(ps), off(ps) + j, zkey(ps[i]))
  inv [j int, u any int]: 0 <= j && j <= u + 1
  inv [revhashes any map[uint64][]int]: forall(h, uint64, g, uint64, trig(nd(h), nd(g)), nd(h) && nd(g) && has(revhashes, h) && has(revhashes, g) && h != g ==> arr(revhashes[h]) != arr(revhashes[g]))
  inv [i int, hashes last []uint64]: nd(hashes[i])
  inv [revhashes any map[uint64][]int, hashes last []uint64]: forall(h, uint64, t, int, trig(revhashes[h][t]), nd(h) && has(revhashes, h) && 0 <= t && t < len(revhashes[h]) ==> 0 <= revhashes[h][t] && revhashes[h][t] < len(hashes) && hashes[revhashes[h][t]] == h)
  inv [revhashes any map[uint64][]int]: forall(h, uint64, trig(has(revhashes, h)), has(revhashes, h) ==> 0 < len(revhashes[h]) && len(revhashes[h]) <= cap(revhashes[h]) && fresh(revhashes[h]) && isallocated(revhashes[h]))
  inv [i int, revhashes any map[uint64][]int, hashes last []uint64]: forall(k, int, trig(hashes[k]), 0 <= k && k < i && k < len(hashes) ==> has(revhashes, hashes[k]) && (rt(len(revhashes[hashes[k]]) - 1) ==> exists(t, int, trig(revhashes[hashes[k]][t]), trig(rt(t)), rt(t) && 0 <= t && t < len(revhashes[hashes[k]]) && revhashes[hashes[k]][t] == k)))
  inv [revhashes any map[uint64][]int, hashes last []uint64]: forall(k, int, trig(hashes[k]), 0 <= k && k < len(hashes) ==> has(revhashes, hashes[k]) && (rt(len(revhashes[hashes[k]]) - 1) ==> exists(t, int, trig(revhashes[hashes[k]][t]), trig(rt(t)), rt(t) && 0 <= t && t < len(revhashes[hashes[k]]) && revhashes[hashes[k]][t] == k)))
  inv [ps last []*ast.Pattern]: forall(m, int, trig(patterns[m]), 0 <= m && m < len(patterns) && !triv(patterns[m]) ==> cov(elems(ps), off(ps), off(ps) + len(ps), zkey(patterns[m])))
  inv [rangeindex int, ps last []*ast.Pattern, indexes any []int]: forall(k, int, trig(indexes[k]), 0 <= k && k <= rangeindex && k < len(patterns) ==> (k < rangeindex ==> okat(k, ps, indexes, patterns)) && (k == rangeindex ==> okat(k, ps, indexes, patterns)))
  inv [rangeindex outer int, ps last []*ast.Pattern, indexes any []int]: forall(k, int, trig(indexes[k]), 0 <= k && k <= rangeindex && k < len(patterns) ==> (k < rangeindex ==> okat(k, ps, indexes, patterns)) && (k == rangeindex ==> okat(k, ps, indexes, patterns)))
  inv [revhashes any map[uint64][]int, indexes any []int]: forall(h, uint64, trig(has(revhashes, h)), has(revhashes, h) ==> arr(revhashes[h]) != arr(indexes))
  inv [t int, rangeindex outer int, hashindexes any []int, ps last []*ast.Pattern, indexes any []int]: forall(s, int, trig(hashindexes[s]), 0 <= s && s < t && s < len(hashindexes) && zkey(ps[hashindexes[s]]) == zkey(patterns[rangeindex+1]) ==> 0 <= indexes[rangeindex+1] && indexes[rangeindex+1] < len(ps) && alang(ps[indexes[rangeindex+1]]) == alang(patterns[rangeindex+1]))
// the two dummy patterns: established by the package initialisation, and nothing in the package writes them
def ignoreset() = isallocated(zipIgnoreSet) && len(zipIgnoreSet) == 2 && cap(zipIgnoreSet) >= 2 && vpat(zipIgnoreSet[0]) && vpat(zipIgnoreSet[1]) && alang(zipIgnoreSet[0]) == lany() && alang(zipIgnoreSet[1]) == lnone()
func init()
  prop C12
  ensures ignoreset()

func Unzip(patterns, indexes) (r)
  prop C12
  // established by init (above); nothing else writes the variable or its elements
  assumes ignoreset()
  requires allz(patterns) && forall(i, int, trig(indexes[i]), 0 <= i && i < len(indexes) ==> -2 <= indexes[i] && indexes[i] < len(patterns))
  ensures fresh(r) && len(r) == len(indexes) && allz(r)
  ensures forall(i, int, trig(r[i]), 0 <= i && i < len(r) ==> ite(indexes[i] >= 0, r[i] == patterns[indexes[i]], alang(r[i]) == ite(indexes[i] == -1, lany(), lnone())))
  inv [rangeindex int, res last []*ast.Pattern, indexes any []int]: forall(j, int, trig(res[j]), 0 <= j && j <= rangeindex ==> vpat(res[j]))
  inv [rangeindex int, res last []*ast.Pattern, indexes any []int]: forall(j, int, trig(res[j]), 0 <= j && j <= rangeindex ==> ite(indexes[j] >= 0, res[j] == patterns[indexes[j]], alang(res[j]) == ite(indexes[j] == -1, lany(), lnone())))
