// Contracts of relapse/intern: the derivative engine on interned patterns. The constructors are given by the contract of
// Construct: a pattern of the language of the operator, whose recorded nullability is that of its language (C03).
package relapse/intern
use interp fold
immutable relapse/intern.Pattern relapse/intern.IfExpr
touch relapse/intern.Pattern ipt
smt {
; well-formed interned patterns; alang is what they denote
(declare-fun vip (Int) Bool)
(declare-fun ipt (Int) Bool)
; the pattern that a name refers to
(declare-fun irefp (Str) Int)
(assert (forall ((p Int)) (! (ipt p) :pattern ((ipt p)))))
; how many questions a pattern asks, and their answers for a tree
(declare-fun inc (Int) Int)
(assert (forall ((p Int)) (! (>= (inc p) 0) :pattern ((inc p)))))
(declare-fun ians (Int Int Tree) Bool)
; the same for the patterns at lo..hi of a row, and for those of a sequence, up to the first that is not nullable
(declare-fun incs ((Array Int Int) Int Int) Int)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (>= (incs row lo hi) 0) :pattern ((incs row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= hi lo) (= (incs row lo hi) 0)) :pattern ((incs row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (< lo hi) (= (incs row lo hi) (+ (inc (select row lo)) (incs row (+ lo 1) hi)))) :pattern ((incs row lo hi) (rt lo)))))
(declare-fun incc ((Array Int Int) Int Int) Int)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (>= (incc row lo hi) 0) :pattern ((incc row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= hi lo) (= (incc row lo hi) 0)) :pattern ((incc row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (< lo hi) (= (incc row lo hi) (+ (inc (select row lo)) (ite (null (alang (select row lo))) (incc row (+ lo 1) hi) 0)))) :pattern ((incc row lo hi) (rt lo)))))
(declare-fun ianl ((Array Int Int) Int Int Int Tree) Bool)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int) (k Int) (t Tree)) (! (=> (< lo hi) (= (ianl row lo hi k t) (ite (< k (inc (select row lo))) (ians (select row lo) k t) (ianl row (+ lo 1) hi (- k (inc (select row lo))) t)))) :pattern ((ianl row lo hi k t) (rt lo)))))
(declare-fun ianc ((Array Int Int) Int Int Int Tree) Bool)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int) (k Int) (t Tree)) (! (=> (< lo hi) (= (ianc row lo hi k t) (ite (< k (inc (select row lo))) (ians (select row lo) k t) (ianc row (+ lo 1) hi (- k (inc (select row lo))) t)))) :pattern ((ianc row lo hi k t) (rt lo)))))
; all of them are nullable
(declare-fun alln ((Array Int Int) Int Int) Bool)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= hi lo) (alln row lo hi)) :pattern ((alln row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (< lo hi) (= (alln row lo hi) (and (null (alang (select row lo))) (alln row (+ lo 1) hi)))) :pattern ((alln row lo hi) (rt lo)))))
; markers that instantiate the lemmas
(declare-fun im1 ((Array Int Int) Int Int) Bool)
(assert (forall ((row (Array Int Int)) (lo Int) (m Int)) (! (im1 row lo m) :pattern ((im1 row lo m)))))
(declare-fun im2 ((Array Int Int) Int Int Int) Bool)
(assert (forall ((row (Array Int Int)) (lo Int) (m Int) (hi Int)) (! (im2 row lo m hi) :pattern ((im2 row lo m hi)))))
(declare-fun im3l ((Array Int Int) Int Int Int Int Tree) Bool)
(assert (forall ((row (Array Int Int)) (lo Int) (m Int) (hi Int) (k Int) (t Tree)) (! (im3l row lo m hi k t) :pattern ((im3l row lo m hi k t)))))
(assert (forall ((row (Array Int Int)) (lo Int) (m Int) (hi Int) (k Int) (t Tree)) (! (im3l row lo m hi k t) :pattern ((im2 row lo m hi) (ianl row lo hi k t)))))
(declare-fun im3c ((Array Int Int) Int Int Int Int Tree) Bool)
(assert (forall ((row (Array Int Int)) (lo Int) (m Int) (hi Int) (k Int) (t Tree)) (! (im3c row lo m hi k t) :pattern ((im3c row lo m hi k t)))))
(assert (forall ((row (Array Int Int)) (lo Int) (m Int) (hi Int) (k Int) (t Tree)) (! (im3c row lo m hi k t) :pattern ((im2 row lo m hi) (ianc row lo hi k t)))))
; concatenations: folds of lcat (Fold.lean with cat_assoc, cat_empty_left, cat_empty_right: fold_base, fold_last, fold_head, fold_concat)
(declare-fun lcats ((Array Int Int) Int Int) Lang)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= hi lo) (= (lcats row lo hi) lempty)) :pattern ((lcats row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (= hi (+ lo 1)) (= (lcats row lo hi) (alang (select row lo)))) :pattern ((lcats row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (= hi (+ lo 2)) (= (lcats row lo hi) (lcat (alang (select row lo)) (alang (select row (+ lo 1)))))) :pattern ((lcats row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (< lo hi) (= (lcats row lo hi) (lcat (alang (select row lo)) (lcats row (+ lo 1) hi)))) :pattern ((lcats row lo hi) (rt lo)))))
(assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (l Int) (c (Array Int Int)) (q Int) (n Int)) (! (=> (and (concats a o b p l c q n) (<= 0 l) (<= 0 n)) (= (lcats a o (+ o (+ l n))) (lcat (lcats b p (+ p l)) (lcats c q (+ q n))))) :pattern ((concats a o b p l c q n)))))
}
lemma incs_snoc(row bytes, lo int, m int)
  prop C04
  requires lo <= m
  hint rt(lo) && rt(m) && im1(row, lo+1, m)
  induct m-lo
  trig im1(row, lo, m)
  ensures incs(row, lo, m+1) == incs(row, lo, m) + inc(row[m])
lemma alln_snoc(row bytes, lo int, m int)
  prop C04
  requires lo <= m
  hint rt(lo) && rt(m) && im1(row, lo+1, m)
  induct m-lo
  trig im1(row, lo, m)
  ensures alln(row, lo, m+1) <==> alln(row, lo, m) && null(alang(row[m]))
lemma ianl_skip(row bytes, lo int, m int, hi int, k int, t Tree)
  prop C04
  requires lo <= m && m <= hi && incs(row, lo, m) <= k
  hint rt(lo) && im3l(row, lo+1, m, hi, k-inc(row[lo]), t)
  induct m-lo
  trig im3l(row, lo, m, hi, k, t)
  ensures ianl(row, lo, hi, k, t) <==> ianl(row, m, hi, k-incs(row, lo, m), t)
lemma incs_total(row bytes, lo int, m int, hi int)
  prop C04
  requires lo <= m && m <= hi
  hint rt(lo) && im2(row, lo+1, m, hi)
  induct m-lo
  trig im2(row, lo, m, hi)
  ensures incs(row, lo, hi) == incs(row, lo, m) + incs(row, m, hi)
lemma ianc_skip(row bytes, lo int, m int, hi int, k int, t Tree)
  prop C04
  requires lo <= m && m <= hi && incs(row, lo, m) <= k
  hint rt(lo) && im3c(row, lo+1, m, hi, k-inc(row[lo]), t)
  induct m-lo
  trig im3c(row, lo, m, hi, k, t)
  ensures ianc(row, lo, hi, k, t) <==> ianc(row, m, hi, k-incs(row, lo, m), t)
lemma incc_total(row bytes, lo int, m int, hi int)
  prop C04
  requires lo <= m && m <= hi && alln(row, lo, m)
  hint rt(lo) && im2(row, lo+1, m, hi)
  induct m-lo
  trig im2(row, lo, m, hi)
  ensures incc(row, lo, hi) == incs(row, lo, m) + incc(row, m, hi)

def T() = pcur(pst)
def lo(ps) = off(ps)
def hi(ps) = off(ps) + len(ps)
def allv(ps) = forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> vip(ps[i]))
def unary(t) = t == 2 || t == 7 || t == 9 || t == 11 || t == 12
def pre(ps, i) = incs(elems(ps), lo(ps), lo(ps)+i)
def prec(ps, i) = incc(elems(ps), lo(ps), lo(ps)+i)
def ifok(x) = x != nil && vip(x.Thn) && vip(x.Els) && x.Cond != nil && valid(x.Cond)
def allif(r) = forall(k, int, trig(r[k]), 0 <= k && k < len(r) ==> ifok(r[k]))
// the answer that the tree gives to a question
def yes(x) = mem(kids(T()), ite(holds(funP(x.Cond), T()), alang(x.Thn), alang(x.Els)))
axiom forall(p, *Pattern, trig(ipt(p)), vip(p) ==> p != nil && (p.Type == 1 || p.Type == 2 || 4 <= p.Type && p.Type <= 13) && (unary(p.Type) ==> len(p.Patterns) == 1) && (p.Type == 2 ==> p.Func != nil && valid(p.Func)) && (p.nullable <==> null(alang(p))) && (p.Type == 1 ==> alang(p) == lempty()) && (p.Type == 10 ==> alang(p) == lany()) && (p.Type == 8 ==> alang(p) == lref(p.Ref)))
// the operands of a pattern that was built are not changed (C03), and the pattern means what its operator makes of them
def built() = forall(p, *Pattern, trig(ipt(p)), vip(p) ==> (p.Type == 2 ==> alang(p) == lnode(funP(p.Func), alang(p.Patterns[0]))) && (p.Type == 4 ==> alang(p) == lcats(elems(p.Patterns), lo(p.Patterns), hi(p.Patterns))) && (p.Type == 5 ==> alang(p) == lors(elems(p.Patterns), lo(p.Patterns), hi(p.Patterns))) && (p.Type == 6 ==> alang(p) == lands(elems(p.Patterns), lo(p.Patterns), hi(p.Patterns))) && (p.Type == 13 ==> alang(p) == ilvs(elems(p.Patterns), lo(p.Patterns), hi(p.Patterns))) && (p.Type == 7 ==> alang(p) == lstar(alang(p.Patterns[0]))) && (p.Type == 9 ==> alang(p) == lnot(alang(p.Patterns[0]))) && (p.Type == 11 ==> alang(p) == lcontains(alang(p.Patterns[0]))) && (p.Type == 12 ==> alang(p) == lopt(alang(p.Patterns[0]))))
def builtv() = forall(p, *Pattern, i, int, trig(p.Patterns[i]), vip(p) && 0 <= i && i < len(p.Patterns) ==> vip(p.Patterns[i]))
// the definition of inc and ians
def asks() = forall(p, *Pattern, trig(ipt(p)), vip(p) ==> inc(p) == ite(p.Type == 2, 1, ite(p.Type == 5 || p.Type == 6 || p.Type == 13, pre(p.Patterns, len(p.Patterns)), ite(p.Type == 4, prec(p.Patterns, len(p.Patterns)), ite(p.Type == 8, inc(irefp(p.Ref)), ite(unary(p.Type), inc(p.Patterns[0]), 0))))))
def gives() = forall(p, *Pattern, k, int, t, Tree, trig(ians(p, k, t)), vip(p) ==> (ians(p, k, t) <==> ite(p.Type == 2, holds(funP(p.Func), t) && mem(kids(t), alang(p.Patterns[0])), ite(p.Type == 5 || p.Type == 6 || p.Type == 13, ianl(elems(p.Patterns), lo(p.Patterns), hi(p.Patterns), k, t), ite(p.Type == 4, ianc(elems(p.Patterns), lo(p.Patterns), hi(p.Patterns), k, t), ite(p.Type == 8, ians(irefp(p.Ref), k, t), ite(unary(p.Type), ians(p.Patterns[0], k, t), true)))))))
def world() = built() && builtv() && asks() && gives()

iface Construct.NewEmpty(this) (r)
  ensures vip(r) && alang(r) == lempty()
iface Construct.NewZAny(this) (r)
  ensures vip(r) && alang(r) == lany()
iface Construct.NewNotZAny(this) (r)
  ensures vip(r) && alang(r) == lnone()
iface Construct.NewOr(this, ps) (r, err)
  requires allv(ps) && len(ps) > 0
  modifies elems(ps)
  writes E|*relapse/intern.Pattern al
  ensures err == nil ==> vip(r) && alang(r) == old(lors(elems(ps), lo(ps), hi(ps)))
iface Construct.NewAnd(this, ps) (r, err)
  requires allv(ps) && len(ps) > 0
  modifies elems(ps)
  writes E|*relapse/intern.Pattern al
  ensures err == nil ==> vip(r) && alang(r) == old(lands(elems(ps), lo(ps), hi(ps)))
iface Construct.NewConcat(this, ps) (r, err)
  requires allv(ps) && len(ps) > 0
  modifies elems(ps)
  writes E|*relapse/intern.Pattern al
  ensures err == nil ==> vip(r) && alang(r) == old(lcats(elems(ps), lo(ps), hi(ps)))
iface Construct.NewInterleave(this, ps) (r, err)
  requires allv(ps) && len(ps) > 0
  modifies elems(ps)
  writes E|*relapse/intern.Pattern al
  ensures err == nil ==> vip(r) && alang(r) == old(ilvs(elems(ps), lo(ps), hi(ps)))
iface Construct.NewNot(this, p) (r, err)
  requires vip(p)
  writes E|*relapse/intern.Pattern al
  ensures err == nil ==> vip(r) && alang(r) == lnot(alang(p))
iface Construct.Deref(this, name) (r)
  ensures vip(r) && r == irefp(name) && alang(r) == lref(name)

func derivCall(c, p) (r)
  prop C04
  uses incs_snoc alln_snoc ianc_skip incc_total
  assumes world()
  requires c != nil && vip(p)
  ensures fresh(r) && len(r) == inc(p) && allif(r)
  ensures forall(k, int, trig(r[k]), trig(ians(p, k, T())), 0 <= k && k < len(r) ==> (yes(r[k]) <==> ians(p, k, T())))
  inv [i int, r any []*IfExpr]: 0 <= i && i <= len(p.Patterns) && fresh(r) && len(r) == pre(p.Patterns, i) && alln(elems(p.Patterns), lo(p.Patterns), lo(p.Patterns)+i) && im1(elems(p.Patterns), lo(p.Patterns), lo(p.Patterns)+i) && im2(elems(p.Patterns), lo(p.Patterns), lo(p.Patterns)+i, hi(p.Patterns)) && rt(lo(p.Patterns)+i)
  inv [r any []*IfExpr]: allif(r)
  inv [i int, r any []*IfExpr]: forall(k, int, trig(r[k]), trig(ians(p, k, T())), 0 <= k && k < len(r) ==> (yes(r[k]) <==> ians(p, k, T())))
func derivCallAll(c, ps) (r)
  prop C04
  uses incs_snoc ianl_skip
  assumes world()
  requires c != nil && allv(ps)
  ensures fresh(r) && len(r) == pre(ps, len(ps)) && allif(r)
  ensures forall(k, int, trig(r[k]), trig(ianl(elems(ps), lo(ps), hi(ps), k, T())), 0 <= k && k < len(r) ==> (yes(r[k]) <==> ianl(elems(ps), lo(ps), hi(ps), k, T())))
  inv [i int, r any []*IfExpr]: 0 <= i && i <= len(ps) && fresh(r) && len(r) == pre(ps, i) && im1(elems(ps), lo(ps), lo(ps)+i) && im2(elems(ps), lo(ps), lo(ps)+i, hi(ps)) && rt(lo(ps)+i)
  inv [r any []*IfExpr]: allif(r)
  inv [r any []*IfExpr]: forall(k, int, trig(r[k]), trig(ianl(elems(ps), lo(ps), hi(ps), k, T())), 0 <= k && k < len(r) ==> (yes(r[k]) <==> ianl(elems(ps), lo(ps), hi(ps), k, T())))
func DeriveCalls(c, ps) (r)
  prop C04 C05
  uses incs_snoc ianl_skip
  assumes world()
  requires c != nil && allv(ps)
  ensures fresh(r) && len(r) == pre(ps, len(ps)) && allif(r)
  ensures forall(k, int, trig(r[k]), trig(ianl(elems(ps), lo(ps), hi(ps), k, T())), 0 <= k && k < len(r) ==> (yes(r[k]) <==> ianl(elems(ps), lo(ps), hi(ps), k, T())))
  inv [i int, r any []*IfExpr]: 0 <= i && i <= len(ps) && fresh(r) && len(r) == pre(ps, i) && im1(elems(ps), lo(ps), lo(ps)+i) && im2(elems(ps), lo(ps), lo(ps)+i, hi(ps)) && rt(lo(ps)+i)
  inv [r any []*IfExpr]: allif(r)
  inv [r any []*IfExpr]: forall(k, int, trig(r[k]), trig(ianl(elems(ps), lo(ps), hi(ps), k, T())), 0 <= k && k < len(r) ==> (yes(r[k]) <==> ianl(elems(ps), lo(ps), hi(ps), k, T())))

// the answers to the questions of p start at the beginning of ns
def answers(ns, p) = forall(j, int, trig(elems(ns)[j]), off(ns) <= j && j < off(ns) + inc(p) ==> (elems(ns)[j] <==> ians(p, j-off(ns), T())))
def isrest(rest, ns, n) = arr(rest) == arr(ns) && off(rest) == off(ns) + n && len(rest) == len(ns) - n
func derivReturn(c, p, nulls) (r, rest, err)
  prop C04
  // assumed: within the bounds of the harness of C04 only
  trusted
  requires c != nil && vip(p) && len(nulls) >= inc(p) && answers(nulls, p)
  ensures err == nil ==> vip(r) && isrest(rest, nulls, inc(p))
  ensures err == nil ==> alang(r) == dl(alang(p), T())
func DeriveReturns(c, originals, evaluated) (r, err)
  prop C04 C05
  uses incs_snoc ianl_skip incs_total
  requires c != nil && allv(originals) && len(evaluated) == pre(originals, len(originals))
  requires forall(j, int, trig(elems(evaluated)[j]), off(evaluated) <= j && j < off(evaluated) + len(evaluated) ==> (elems(evaluated)[j] <==> ianl(elems(originals), lo(originals), hi(originals), j-off(evaluated), T())))
  ensures err == nil ==> fresh(r) && len(r) == len(originals) && allv(r)
  ensures err == nil ==> forall(i, int, trig(r[i]), 0 <= i && i < len(r) ==> alang(r[i]) == dl(alang(originals[i]), T()))
  inv [i int, rest any []bool]: 0 <= i && i <= len(originals) && isrest(rest, evaluated, pre(originals, i)) && im1(elems(originals), lo(originals), lo(originals)+i) && im2(elems(originals), lo(originals), lo(originals)+i, hi(originals)) && rt(lo(originals)+i)
  inv [i int, ps any []*Pattern]: forall(j, int, trig(ps[j]), 0 <= j && j < i && j < len(ps) ==> vip(ps[j]) && alang(ps[j]) == dl(alang(originals[j]), T()))
func nullables(ps) (r)
  prop C03 C04
  requires allv(ps)
  ensures fresh(r) && len(r) == len(ps) && forall(i, int, trig(r[i]), 0 <= i && i < len(r) ==> (r[i] <==> null(alang(ps[i]))))
  inv [i int, r any []bool]: forall(j, int, trig(r[j]), 0 <= j && j < i && j < len(r) ==> (r[j] <==> null(alang(ps[j]))))
func anyNullable(ps) (r)
  prop C03
  requires allv(ps)
  ensures r <==> !forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> !null(alang(ps[i])))
  inv [i int]: forall(j, int, trig(ps[j]), 0 <= j && j < i && j < len(ps) ==> !null(alang(ps[j])))
func allNullable(ps) (r)
  prop C03
  requires allv(ps)
  ensures r <==> forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> null(alang(ps[i])))
  inv [i int]: forall(j, int, trig(ps[j]), 0 <= j && j < i && j < len(ps) ==> null(alang(ps[j])))
func escapable(ps) (r)
  prop C04 C05
  assumes world()
  requires allv(ps)
  ensures !r ==> forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> alang(ps[i]) == lany() || alang(ps[i]) == lnone())
  inv [i int]: forall(j, int, trig(ps[j]), 0 <= j && j < i && j < len(ps) ==> alang(ps[j]) == lany() || alang(ps[j]) == lnone())
func *IfExpr.eval(this, label) (r, err)
  prop C04
  requires ifok(this) && label != nil
  ensures err == nil ==> vip(r) && alang(r) == ite(holds(funP(this.Cond), T()), alang(this.Thn), alang(this.Els))
