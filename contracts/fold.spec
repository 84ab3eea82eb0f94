// Folds of an operator over the patterns at positions lo..hi of an array, whatever their order. The laws are
// theorems of lean/Fold.lean (fold_base, fold_snoc, fold_last, fold_congr, fold_split, fold_head, fold_concat, fold_store_out, fold_store_last, fold_absorb, fold_perm);
// fold_perm is about rows whose elements are permutations of each other.
package relapse/ast
use lang
smt {
; perm: the elements at lo..hi of the second row are a permutation of those of the first
(declare-fun perm ((Array Int Int) (Array Int Int) Int Int) Bool)
(declare-fun pidx ((Array Int Int) (Array Int Int) Int Int Int) Int)
(declare-fun pinv ((Array Int Int) (Array Int Int) Int Int Int) Int)
(assert (forall ((r1 (Array Int Int)) (r2 (Array Int Int)) (lo Int) (hi Int) (p Int)) (! (=> (and (perm r1 r2 lo hi) (<= lo p) (< p hi)) (and (<= lo (pidx r1 r2 lo hi p)) (< (pidx r1 r2 lo hi p) hi) (= (select r2 p) (select r1 (pidx r1 r2 lo hi p))))) :pattern ((perm r1 r2 lo hi) (select r2 p)))))
(assert (forall ((r1 (Array Int Int)) (r2 (Array Int Int)) (lo Int) (hi Int) (p Int)) (! (=> (and (perm r1 r2 lo hi) (<= lo p) (< p hi)) (and (<= lo (pinv r1 r2 lo hi p)) (< (pinv r1 r2 lo hi p) hi) (= (select r1 p) (select r2 (pinv r1 r2 lo hi p))))) :pattern ((perm r1 r2 lo hi) (select r1 p)))))
(declare-fun rw ((Array Int Int) (Array Int Int) Int Int Int) Int)
; concats(A, o, B, p, l, C, q, n): the elements at o.. of A are the l at p.. of B, then the n at q.. of C
(declare-fun concats ((Array Int Int) Int (Array Int Int) Int Int (Array Int Int) Int Int) Bool)
(declare-fun lors ((Array Int Int) Int Int) Lang)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= hi lo) (= (lors row lo hi) lnone)) :pattern ((lors row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (= hi (+ lo 1)) (= (lors row lo hi) (alang (select row lo)))) :pattern ((lors row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= lo hi) (= (lors row lo (+ hi 1)) (lor (lors row lo hi) (alang (select row hi))))) :pattern ((lors row lo hi) (select row hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (mid Int) (hi Int)) (! (=> (and (<= lo mid) (<= mid hi)) (= (lors row lo hi) (lor (lors row lo mid) (lors row mid hi)))) :pattern ((lors row lo hi) (lors row mid hi)))))
(assert (forall ((r1 (Array Int Int)) (lo1 Int) (hi1 Int) (r2 (Array Int Int)) (lo2 Int) (hi2 Int)) (! (=> (= (- hi1 lo1) (- hi2 lo2)) (or (= (lors r1 lo1 hi1) (lors r2 lo2 hi2)) (and (<= 0 (rw r1 r2 lo1 lo2 (- hi1 lo1))) (< (rw r1 r2 lo1 lo2 (- hi1 lo1)) (- hi1 lo1)) (not (= (alang (select r1 (+ lo1 (rw r1 r2 lo1 lo2 (- hi1 lo1))))) (alang (select r2 (+ lo2 (rw r1 r2 lo1 lo2 (- hi1 lo1)))))))))) :pattern ((lors r1 lo1 hi1) (lors r2 lo2 hi2)))))
(assert (forall ((r1 (Array Int Int)) (r2 (Array Int Int)) (lo Int) (hi Int)) (! (=> (perm r1 r2 lo hi) (= (lors r1 lo hi) (lors r2 lo hi))) :pattern ((perm r1 r2 lo hi) (lors r1 lo hi)) :pattern ((perm r1 r2 lo hi) (lors r2 lo hi)))))
(assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (l Int) (c (Array Int Int)) (q Int) (n Int)) (! (=> (and (concats a o b p l c q n) (<= 0 l) (<= 0 n)) (= (lors a o (+ o (+ l n))) (lor (lors b p (+ p l)) (lors c q (+ q n))))) :pattern ((concats a o b p l c q n)))))
(assert (forall ((row (Array Int Int)) (p Int) (v Int) (lo Int) (hi Int)) (! (and (=> (or (< p lo) (<= hi p)) (= (lors (store row p v) lo hi) (lors row lo hi))) (=> (and (<= lo p) (= hi (+ p 1))) (= (lors (store row p v) lo hi) (lor (lors row lo p) (alang v))))) :pattern ((lors (store row p v) lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (< lo hi) (= (lors row lo hi) (lor (alang (select row lo)) (lors row (+ lo 1) hi)))) :pattern ((lors row lo hi) (rt lo)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int) (p Int)) (! (=> (and (<= lo p) (< p hi)) (= (lor (lors row lo hi) (alang (select row p))) (lors row lo hi))) :pattern ((lor (lors row lo hi) (alang (select row p)))))))
(declare-fun lands ((Array Int Int) Int Int) Lang)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= hi lo) (= (lands row lo hi) lany)) :pattern ((lands row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (= hi (+ lo 1)) (= (lands row lo hi) (alang (select row lo)))) :pattern ((lands row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= lo hi) (= (lands row lo (+ hi 1)) (land (lands row lo hi) (alang (select row hi))))) :pattern ((lands row lo hi) (select row hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (mid Int) (hi Int)) (! (=> (and (<= lo mid) (<= mid hi)) (= (lands row lo hi) (land (lands row lo mid) (lands row mid hi)))) :pattern ((lands row lo hi) (lands row mid hi)))))
(assert (forall ((r1 (Array Int Int)) (lo1 Int) (hi1 Int) (r2 (Array Int Int)) (lo2 Int) (hi2 Int)) (! (=> (= (- hi1 lo1) (- hi2 lo2)) (or (= (lands r1 lo1 hi1) (lands r2 lo2 hi2)) (and (<= 0 (rw r1 r2 lo1 lo2 (- hi1 lo1))) (< (rw r1 r2 lo1 lo2 (- hi1 lo1)) (- hi1 lo1)) (not (= (alang (select r1 (+ lo1 (rw r1 r2 lo1 lo2 (- hi1 lo1))))) (alang (select r2 (+ lo2 (rw r1 r2 lo1 lo2 (- hi1 lo1)))))))))) :pattern ((lands r1 lo1 hi1) (lands r2 lo2 hi2)))))
(assert (forall ((r1 (Array Int Int)) (r2 (Array Int Int)) (lo Int) (hi Int)) (! (=> (perm r1 r2 lo hi) (= (lands r1 lo hi) (lands r2 lo hi))) :pattern ((perm r1 r2 lo hi) (lands r1 lo hi)) :pattern ((perm r1 r2 lo hi) (lands r2 lo hi)))))
(assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (l Int) (c (Array Int Int)) (q Int) (n Int)) (! (=> (and (concats a o b p l c q n) (<= 0 l) (<= 0 n)) (= (lands a o (+ o (+ l n))) (land (lands b p (+ p l)) (lands c q (+ q n))))) :pattern ((concats a o b p l c q n)))))
(assert (forall ((row (Array Int Int)) (p Int) (v Int) (lo Int) (hi Int)) (! (and (=> (or (< p lo) (<= hi p)) (= (lands (store row p v) lo hi) (lands row lo hi))) (=> (and (<= lo p) (= hi (+ p 1))) (= (lands (store row p v) lo hi) (land (lands row lo p) (alang v))))) :pattern ((lands (store row p v) lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (< lo hi) (= (lands row lo hi) (land (alang (select row lo)) (lands row (+ lo 1) hi)))) :pattern ((lands row lo hi) (rt lo)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int) (p Int)) (! (=> (and (<= lo p) (< p hi)) (= (land (lands row lo hi) (alang (select row p))) (lands row lo hi))) :pattern ((land (lands row lo hi) (alang (select row p)))))))
(declare-fun ilvs ((Array Int Int) Int Int) Lang)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= hi lo) (= (ilvs row lo hi) lempty)) :pattern ((ilvs row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (= hi (+ lo 1)) (= (ilvs row lo hi) (alang (select row lo)))) :pattern ((ilvs row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= lo hi) (= (ilvs row lo (+ hi 1)) (lilv (ilvs row lo hi) (alang (select row hi))))) :pattern ((ilvs row lo hi) (select row hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (mid Int) (hi Int)) (! (=> (and (<= lo mid) (<= mid hi)) (= (ilvs row lo hi) (lilv (ilvs row lo mid) (ilvs row mid hi)))) :pattern ((ilvs row lo hi) (ilvs row mid hi)))))
(assert (forall ((r1 (Array Int Int)) (lo1 Int) (hi1 Int) (r2 (Array Int Int)) (lo2 Int) (hi2 Int)) (! (=> (= (- hi1 lo1) (- hi2 lo2)) (or (= (ilvs r1 lo1 hi1) (ilvs r2 lo2 hi2)) (and (<= 0 (rw r1 r2 lo1 lo2 (- hi1 lo1))) (< (rw r1 r2 lo1 lo2 (- hi1 lo1)) (- hi1 lo1)) (not (= (alang (select r1 (+ lo1 (rw r1 r2 lo1 lo2 (- hi1 lo1))))) (alang (select r2 (+ lo2 (rw r1 r2 lo1 lo2 (- hi1 lo1)))))))))) :pattern ((ilvs r1 lo1 hi1) (ilvs r2 lo2 hi2)))))
(assert (forall ((r1 (Array Int Int)) (r2 (Array Int Int)) (lo Int) (hi Int)) (! (=> (perm r1 r2 lo hi) (= (ilvs r1 lo hi) (ilvs r2 lo hi))) :pattern ((perm r1 r2 lo hi) (ilvs r1 lo hi)) :pattern ((perm r1 r2 lo hi) (ilvs r2 lo hi)))))
(assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (l Int) (c (Array Int Int)) (q Int) (n Int)) (! (=> (and (concats a o b p l c q n) (<= 0 l) (<= 0 n)) (= (ilvs a o (+ o (+ l n))) (lilv (ilvs b p (+ p l)) (ilvs c q (+ q n))))) :pattern ((concats a o b p l c q n)))))
(assert (forall ((row (Array Int Int)) (p Int) (v Int) (lo Int) (hi Int)) (! (and (=> (or (< p lo) (<= hi p)) (= (ilvs (store row p v) lo hi) (ilvs row lo hi))) (=> (and (<= lo p) (= hi (+ p 1))) (= (ilvs (store row p v) lo hi) (lilv (ilvs row lo p) (alang v))))) :pattern ((ilvs (store row p v) lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (< lo hi) (= (ilvs row lo hi) (lilv (alang (select row lo)) (ilvs row (+ lo 1) hi)))) :pattern ((ilvs row lo hi) (rt lo)))))
}
