// Contracts of relapse/funcs. Written by tools/genfuncs.py.
// sem(e, f) is what function f evaluates to under the valuation e of its variables; el and el2 are the
// elements of a list or of bytes. The taxioms define sem on every built-in type from its operands.
package relapse/funcs
use stdlib
ghost env Ev
pre {
(declare-sort Ev 0)
}
smt {
(declare-datatypes ((Sem 0)) (((SErr) (SB (bval Bool)) (SI (ival Int)) (SD (dval Float)) (SS (sval Str)) (SL (llen Int)))))
(declare-fun label (Ev) Iface)
(declare-fun sem (Ev Iface) Sem)
(declare-fun el (Ev Iface Int) Sem)
(declare-fun el2 (Ev Iface Int Int) Sem)
(define-fun slen ((s Sem)) Int (ite ((_ is SL) s) (llen s) 0))
(define-fun isL ((s Sem)) Bool ((_ is SL) s))
(define-fun isI ((s Sem)) Bool ((_ is SI) s))
(define-fun isS ((s Sem)) Bool ((_ is SS) s))
(declare-fun semeq (Iface Iface) Bool)
(declare-fun pokY (Iface) Bool) (declare-fun pYlen (Iface) Int) (declare-fun pY (Iface Int) Int)
(assert (forall ((f Iface) (g Iface)) (! (=> (semeq f g) (forall ((e Ev)) (! (= (sem e f) (sem e g)) :pattern ((sem e f)) :pattern ((sem e g))))) :pattern ((semeq f g)))))
(assert (forall ((f Iface) (g Iface)) (! (=> (semeq f g) (forall ((e Ev) (k Int)) (! (=> (and (<= 0 k) (< k (slen (sem e f)))) (= (el e f k) (el e g k))) :pattern ((el e f k)) :pattern ((el e g k))))) :pattern ((semeq f g)))))
(assert (forall ((f Iface) (g Iface)) (! (=> (semeq f g) (forall ((e Ev) (k Int) (j Int)) (! (=> (and (<= 0 k) (< k (slen (sem e f))) (<= 0 j) (< j (slen (el e f k)))) (= (el2 e f k j) (el2 e g k j))) :pattern ((el2 e f k j)) :pattern ((el2 e g k j))))) :pattern ((semeq f g)))))
(declare-fun sqe (Iface Iface) Ev)
(declare-fun sqk (Iface Iface) Int)
(declare-fun sqj (Iface Iface) Int)
; a difference is witnessed
(assert (forall ((f Iface) (g Iface)) (! (or (semeq f g) (let ((e (sqe f g)) (k (sqk f g)) (j (sqj f g))) (or (not (= (sem e f) (sem e g))) (and (<= 0 k) (< k (slen (sem e f))) (not (= (el e f k) (el e g k)))) (and (<= 0 k) (< k (slen (sem e f))) (<= 0 j) (< j (slen (el e f k))) (not (= (el2 e f k j) (el2 e g k j))))))) :pattern ((semeq f g)))))
(declare-fun hv (Iface) Bool)
(declare-fun hash (Iface) Int)
(declare-fun valid (Iface) Bool)
; the result type of a function, and what follows for sem from the definition of sem
(declare-fun kind (Iface) Int)
(define-fun isel ((k Int) (x Sem)) Bool (ite (= k 7) ((_ is SD) x) (ite (or (= k 6) (= k 8) (= k 9)) ((_ is SI) x) (ite (= k 10) ((_ is SB) x) (ite (= k 11) ((_ is SS) x) ((_ is SL) x))))))
(assert (forall ((e Ev) (f Iface)) (! (or (= (sem e f) SErr) (ite (= (kind f) 1) ((_ is SD) (sem e f)) (ite (or (= (kind f) 2) (= (kind f) 3)) ((_ is SI) (sem e f)) (ite (= (kind f) 4) ((_ is SB) (sem e f)) (ite (= (kind f) 5) ((_ is SS) (sem e f)) (=> (and (<= 6 (kind f)) (<= (kind f) 12)) (and ((_ is SL) (sem e f)) (<= 0 (llen (sem e f)))))))))) :pattern ((sem e f)))))
(assert (forall ((e Ev) (f Iface) (k Int)) (! (=> (and (<= 0 k) (< k (slen (sem e f))) (<= 6 (kind f)) (<= (kind f) 12)) (and (isel (kind f) (el e f k)) (=> (= (kind f) 12) (<= 0 (llen (el e f k)))))) :pattern ((el e f k)))))
(declare-fun strOf (Iface) Str)
(declare-fun cmpf (Iface Iface) Int)
(declare-fun semc (Iface) Sem)
(declare-fun elc (Iface Int) Sem)
(declare-fun elc2 (Iface Int Int) Sem)
(declare-fun cel (Int Int) Sem)
(declare-fun cel2 (Int Int Int) Sem)
(declare-fun lelem (Int Int) Iface)
(declare-fun setI (Int Int) Bool)
(declare-fun setS (Int Str) Bool)
(define-fun norm ((i Int) (n Int)) Int (ite (< i 0) (emod i n) i))
(define-fun strcmp ((a Str) (b Str)) Int (ite (strlt a b) (- 1) (ite (= a b) 0 1)))
(define-fun intcmp ((a Int) (b Int)) Int (ite (< a b) (- 1) (ite (= a b) 0 1)))
(define-fun boolcmp ((a Bool) (b Bool)) Int (ite (= a b) 0 (ite a 1 (- 1))))
(define-fun dcmp ((a Float) (b Float)) Int (ite (fltlt a b) (- 1) (ite (fltlt b a) 1 (ite (= a b) 0 (ite (fltnan a) (- 1) 1)))))
(define-fun scmp ((a Sem) (b Sem)) Int (ite ((_ is SB) a) (boolcmp (bval a) (bval b)) (ite ((_ is SI) a) (intcmp (ival a) (ival b)) (ite ((_ is SD) a) (dcmp (dval a) (dval b)) (strcmp (sval a) (sval b))))))
(define-fun cmpall ((f Iface) (g Iface)) Int (ite (not (= (hash f) (hash g))) (ite (< (hash f) (hash g)) (- 1) 1) (strcmp (strOf f) (strOf g))))
; first difference of two byte strings or lists
(declare-fun lexd (Ev Iface Iface) Int)
(define-fun lexlen ((e Ev) (f Iface) (g Iface)) Int (ite (< (llen (sem e f)) (llen (sem e g))) (llen (sem e f)) (llen (sem e g))))
(assert (forall ((e Ev) (f Iface) (g Iface)) (! (=> (and (<= 0 (llen (sem e f))) (<= 0 (llen (sem e g)))) (and (<= 0 (lexd e f g)) (<= (lexd e f g) (lexlen e f g)) (=> (< (lexd e f g) (lexlen e f g)) (not (= (el e f (lexd e f g)) (el e g (lexd e f g))))))) :pattern ((lexd e f g)))))
(assert (forall ((e Ev) (f Iface) (g Iface) (k Int)) (! (=> (and (<= 0 k) (< k (lexd e f g))) (= (el e f k) (el e g k))) :pattern ((lexd e f g) (el e f k)) :pattern ((lexd e f g) (el e g k)) :pattern ((lexd e f g) (elc f k)) :pattern ((lexd e f g) (elc g k)) :pattern ((lexd e f g) (pY (label e) k)))))
(define-fun lexcmp ((e Ev) (f Iface) (g Iface)) Int (ite (= (lexd e f g) (llen (sem e f))) (ite (= (lexd e f g) (llen (sem e g))) 0 (- 1)) (ite (= (lexd e f g) (llen (sem e g))) 1 (ite (< (ival (el e f (lexd e f g))) (ival (el e g (lexd e f g)))) (- 1) 1))))
(declare-const e0 Ev)
; first difference of two lists of functions or of two constant lists
(declare-fun ldiff (Int Int Int) Int)
(assert (forall ((p Int) (q Int) (n Int)) (! (=> (<= 0 n) (and (<= 0 (ldiff p q n)) (<= (ldiff p q n) n) (=> (< (ldiff p q n) n) (not (= 0 (cmpf (lelem p (ldiff p q n)) (lelem q (ldiff p q n)))))))) :pattern ((ldiff p q n)))))
(assert (forall ((p Int) (q Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k (ldiff p q n))) (= 0 (cmpf (lelem p k) (lelem q k)))) :pattern ((ldiff p q n) (lelem p k)) :pattern ((ldiff p q n) (lelem q k)))))
(declare-fun cdiff (Int Int Int) Int)
(assert (forall ((p Int) (q Int) (n Int)) (! (=> (<= 0 n) (and (<= 0 (cdiff p q n)) (<= (cdiff p q n) n) (=> (< (cdiff p q n) n) (not (= (cel p (cdiff p q n)) (cel q (cdiff p q n))))))) :pattern ((cdiff p q n)))))
(assert (forall ((p Int) (q Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k (cdiff p q n))) (= (cel p k) (cel q k))) :pattern ((cdiff p q n) (cel p k)) :pattern ((cdiff p q n) (cel q k)))))
(declare-fun lexdY (Int Int Int) Int)
(define-fun lenY ((p Int) (q Int) (k Int)) Int (ite (< (llen (cel p k)) (llen (cel q k))) (llen (cel p k)) (llen (cel q k))))
(assert (forall ((p Int) (q Int) (k Int)) (! (=> (and (<= 0 (llen (cel p k))) (<= 0 (llen (cel q k)))) (and (<= 0 (lexdY p q k)) (<= (lexdY p q k) (lenY p q k)) (=> (< (lexdY p q k) (lenY p q k)) (not (= (cel2 p k (lexdY p q k)) (cel2 q k (lexdY p q k))))))) :pattern ((lexdY p q k)))))
(assert (forall ((p Int) (q Int) (k Int) (j Int)) (! (=> (and (<= 0 j) (< j (lexdY p q k))) (= (cel2 p k j) (cel2 q k j))) :pattern ((lexdY p q k) (cel2 p k j)) :pattern ((lexdY p q k) (cel2 q k j)))))
(define-fun lcY ((p Int) (q Int) (k Int)) Int (ite (= (lexdY p q k) (llen (cel p k))) (ite (= (lexdY p q k) (llen (cel q k))) 0 (- 1)) (ite (= (lexdY p q k) (llen (cel q k))) 1 (ite (< (ival (cel2 p k (lexdY p q k))) (ival (cel2 q k (lexdY p q k)))) (- 1) 1))))
(declare-fun ldY (Int Int Int) Int)
(assert (forall ((p Int) (q Int) (n Int)) (! (=> (<= 0 n) (and (<= 0 (ldY p q n)) (<= (ldY p q n) n) (=> (< (ldY p q n) n) (not (= 0 (lcY p q (ldY p q n))))))) :pattern ((ldY p q n)))))
(assert (forall ((p Int) (q Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k (ldY p q n))) (= 0 (lcY p q k))) :pattern ((ldY p q n) (cel p k)) :pattern ((ldY p q n) (cel q k)))))
(declare-fun lexdC (Int Int Int) Int)
(assert (forall ((p Int) (q Int) (n Int)) (! (=> (<= 0 n) (and (<= 0 (lexdC p q n)) (<= (lexdC p q n) n) (=> (< (lexdC p q n) n) (not (= (cel p (lexdC p q n)) (cel q (lexdC p q n))))))) :pattern ((lexdC p q n)))))
(assert (forall ((p Int) (q Int) (n Int) (j Int)) (! (=> (and (<= 0 j) (< j (lexdC p q n))) (= (cel p j) (cel q j))) :pattern ((lexdC p q n) (cel p j)) :pattern ((lexdC p q n) (cel q j)))))
(define-fun lexC ((p Int) (q Int) (m Int) (n Int)) Int (let ((d (lexdC p q (ite (< m n) m n)))) (ite (= d m) (ite (= d n) 0 (- 1)) (ite (= d n) 1 (ite (< (ival (cel p d)) (ival (cel q d))) (- 1) 1)))))
(declare-fun hashS (Str) Int)
(declare-fun fltbits (Float) Int)
(declare-fun nowv (Ev) Int)
; what the value behind a label gives
(declare-fun pokD (Iface) Bool) (declare-fun pD (Iface) Float)
(declare-fun pokI (Iface) Bool) (declare-fun pI (Iface) Int)
(declare-fun pokU (Iface) Bool) (declare-fun pU (Iface) Int)
(declare-fun pokB (Iface) Bool) (declare-fun pB (Iface) Bool)
(declare-fun pokS (Iface) Bool) (declare-fun pS (Iface) Str)
; string functions of the standard library
(declare-fun tolower (Str) Str) (declare-fun toupper (Str) Str)
(declare-fun scontains (Str Str) Bool) (declare-fun sequalfold (Str Str) Bool) (declare-fun shasprefix (Str Str) Bool) (declare-fun shassuffix (Str Str) Bool)
(declare-fun rxm (Str Str) Bool) (declare-fun rxOf (Int) Str)
}

// truth: an evaluation error counts as false
def T(e, f) = sem(e, f) == SB(true)
def err(e, f) = sem(e, f) == SErr

// ---- interface contracts ----
iface Hashable.Hash(this) (r)
  ensures r == hash(this)

iface Stringer.String(this) (r)
  writes al
  ensures r == strOf(this)

iface Func.HasVariable(this) (r)
  ensures r == hv(this)

iface Comparable.Compare(this, that) (r)
  writes al
  requires that != nil && valid(this) && valid(that)
  ensures r == cmpf(this, that)
  ensures r == 0 ==> hash(this) == hash(that) && semeq(this, that)

iface Double.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures sem(env, this) == ite(err == nil, SD(r), SErr)

iface Int.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures sem(env, this) == ite(err == nil, SI(r), SErr)

iface Uint.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures sem(env, this) == ite(err == nil, SI(r), SErr)

iface Bool.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures sem(env, this) == ite(err == nil, SB(r), SErr)

iface String.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures sem(env, this) == ite(err == nil, SS(r), SErr)

iface Bytes.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures err != nil ==> sem(env, this) == SErr
  ensures err == nil ==> sem(env, this) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, this, k)), 0 <= k && k < len(r) ==> el(env, this, k) == SI(r[k]))

iface Doubles.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures err != nil ==> sem(env, this) == SErr
  ensures err == nil ==> sem(env, this) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, this, k)), 0 <= k && k < len(r) ==> el(env, this, k) == SD(r[k]))

iface Ints.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures err != nil ==> sem(env, this) == SErr
  ensures err == nil ==> sem(env, this) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, this, k)), 0 <= k && k < len(r) ==> el(env, this, k) == SI(r[k]))

iface Uints.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures err != nil ==> sem(env, this) == SErr
  ensures err == nil ==> sem(env, this) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, this, k)), 0 <= k && k < len(r) ==> el(env, this, k) == SI(r[k]))

iface Bools.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures err != nil ==> sem(env, this) == SErr
  ensures err == nil ==> sem(env, this) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, this, k)), 0 <= k && k < len(r) ==> el(env, this, k) == SB(r[k]))

iface Strings.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures err != nil ==> sem(env, this) == SErr
  ensures err == nil ==> sem(env, this) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, this, k)), 0 <= k && k < len(r) ==> el(env, this, k) == SS(r[k]))

iface ListOfBytes.Eval(this) (r, err)
  writes al
  requires valid(this)
  ensures err != nil ==> sem(env, this) == SErr
  ensures err == nil ==> sem(env, this) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, this, k)), 0 <= k && k < len(r) ==> el(env, this, k) == SL(len(r[k])))
  ensures err == nil ==> forall(k, int, j, int, trig(r[k][j]), trig(el2(env, this, k, j)), 0 <= k && k < len(r) && 0 <= j && j < len(r[k]) ==> el2(env, this, k, j) == SI(r[k][j]))

taxiom ConstDouble forall(f, Iface, trig(implements(f, ConstDouble)), trig(kind(f)), implements(f, ConstDouble) ==> kind(f) == 1)
taxiom ConstInt forall(f, Iface, trig(implements(f, ConstInt)), trig(kind(f)), implements(f, ConstInt) ==> kind(f) == 2)
taxiom ConstUint forall(f, Iface, trig(implements(f, ConstUint)), trig(kind(f)), implements(f, ConstUint) ==> kind(f) == 3)
taxiom ConstBool forall(f, Iface, trig(implements(f, ConstBool)), trig(kind(f)), implements(f, ConstBool) ==> kind(f) == 4)
taxiom ConstString forall(f, Iface, trig(implements(f, ConstString)), trig(kind(f)), implements(f, ConstString) ==> kind(f) == 5)
taxiom ConstBytes forall(f, Iface, trig(implements(f, ConstBytes)), trig(kind(f)), implements(f, ConstBytes) ==> kind(f) == 6)
taxiom ConstDoubles forall(f, Iface, trig(implements(f, ConstDoubles)), trig(kind(f)), implements(f, ConstDoubles) ==> kind(f) == 7)
taxiom ConstInts forall(f, Iface, trig(implements(f, ConstInts)), trig(kind(f)), implements(f, ConstInts) ==> kind(f) == 8)
taxiom ConstUints forall(f, Iface, trig(implements(f, ConstUints)), trig(kind(f)), implements(f, ConstUints) ==> kind(f) == 9)
taxiom ConstBools forall(f, Iface, trig(implements(f, ConstBools)), trig(kind(f)), implements(f, ConstBools) ==> kind(f) == 10)
taxiom ConstStrings forall(f, Iface, trig(implements(f, ConstStrings)), trig(kind(f)), implements(f, ConstStrings) ==> kind(f) == 11)
taxiom ConstListOfBytes forall(f, Iface, trig(implements(f, ConstListOfBytes)), trig(kind(f)), implements(f, ConstListOfBytes) ==> kind(f) == 12)
taxiom Double forall(f, Iface, trig(implements(f, Double)), trig(kind(f)), implements(f, Double) ==> kind(f) == 1)
taxiom Int forall(f, Iface, trig(implements(f, Int)), trig(kind(f)), implements(f, Int) ==> kind(f) == 2)
taxiom Uint forall(f, Iface, trig(implements(f, Uint)), trig(kind(f)), implements(f, Uint) ==> kind(f) == 3)
taxiom Bool forall(f, Iface, trig(implements(f, Bool)), trig(kind(f)), implements(f, Bool) ==> kind(f) == 4)
taxiom String forall(f, Iface, trig(implements(f, String)), trig(kind(f)), implements(f, String) ==> kind(f) == 5)
taxiom Bytes forall(f, Iface, trig(implements(f, Bytes)), trig(kind(f)), implements(f, Bytes) ==> kind(f) == 6)
taxiom Doubles forall(f, Iface, trig(implements(f, Doubles)), trig(kind(f)), implements(f, Doubles) ==> kind(f) == 7)
taxiom Ints forall(f, Iface, trig(implements(f, Ints)), trig(kind(f)), implements(f, Ints) ==> kind(f) == 8)
taxiom Uints forall(f, Iface, trig(implements(f, Uints)), trig(kind(f)), implements(f, Uints) ==> kind(f) == 9)
taxiom Bools forall(f, Iface, trig(implements(f, Bools)), trig(kind(f)), implements(f, Bools) ==> kind(f) == 10)
taxiom Strings forall(f, Iface, trig(implements(f, Strings)), trig(kind(f)), implements(f, Strings) ==> kind(f) == 11)
taxiom ListOfBytes forall(f, Iface, trig(implements(f, ListOfBytes)), trig(kind(f)), implements(f, ListOfBytes) ==> kind(f) == 12)

// a function without variables evaluates to the same result for every value: lemmas const_* by induction on the structure
// ---- constDouble ----
immutable constDouble
taxiom constDouble forall(e, Ev, p, *constDouble, trig(sem(e, iface(p))), sem(e, iface(p)) == SD(p.v))
taxiom constDouble forall(p, *constDouble, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && true)
taxiom constDouble forall(p, *constDouble, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constDouble forall(p, *constDouble, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constDouble forall(p, *constDouble, trig(kind(iface(p))), kind(iface(p)) == 1)
taxiom constDouble forall(p, *constDouble, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constDouble), dcmp(p.v, as(g, *constDouble).v), cmpall(iface(p), g)))
func *constDouble.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SD(r), SErr)
func *constDouble.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constDouble.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constDouble.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constDouble.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constDouble(p *constDouble, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_constDouble(p *constDouble, q *constDouble)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func DoubleConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constDouble) && fresh(r)
  ensures as(r, *constDouble).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SD(v))
func TrimDouble(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

// ---- constInt ----
immutable constInt
taxiom constInt forall(e, Ev, p, *constInt, trig(sem(e, iface(p))), sem(e, iface(p)) == SI(p.v))
taxiom constInt forall(p, *constInt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.hash == hI(p.v))
taxiom constInt forall(p, *constInt, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constInt forall(p, *constInt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constInt forall(p, *constInt, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom constInt forall(p, *constInt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constInt), intcmp(p.v, as(g, *constInt).v), cmpall(iface(p), g)))
func *constInt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *constInt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constInt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constInt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constInt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constInt(p *constInt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_constInt(p *constInt, q *constInt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func IntConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constInt) && fresh(r)
  ensures as(r, *constInt).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SI(v))
func TrimInt(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

// ---- constUint ----
immutable constUint
taxiom constUint forall(e, Ev, p, *constUint, trig(sem(e, iface(p))), sem(e, iface(p)) == SI(p.v))
taxiom constUint forall(p, *constUint, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.hash == hU(p.v))
taxiom constUint forall(p, *constUint, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constUint forall(p, *constUint, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constUint forall(p, *constUint, trig(kind(iface(p))), kind(iface(p)) == 3)
taxiom constUint forall(p, *constUint, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constUint), intcmp(p.v, as(g, *constUint).v), cmpall(iface(p), g)))
func *constUint.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *constUint.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constUint.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constUint.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constUint.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constUint(p *constUint, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_constUint(p *constUint, q *constUint)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func UintConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constUint) && fresh(r)
  ensures as(r, *constUint).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SI(v))
func TrimUint(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

// ---- constBool ----
immutable constBool
taxiom constBool forall(e, Ev, p, *constBool, trig(sem(e, iface(p))), sem(e, iface(p)) == SB(p.v))
taxiom constBool forall(p, *constBool, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && true)
taxiom constBool forall(p, *constBool, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constBool forall(p, *constBool, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constBool forall(p, *constBool, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom constBool forall(p, *constBool, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constBool), boolcmp(p.v, as(g, *constBool).v), cmpall(iface(p), g)))
func *constBool.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *constBool.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constBool.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constBool.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constBool.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constBool(p *constBool, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_constBool(p *constBool, q *constBool)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BoolConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constBool) && fresh(r)
  ensures as(r, *constBool).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SB(v))
func TrimBool(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

// ---- constString ----
immutable constString
taxiom constString forall(e, Ev, p, *constString, trig(sem(e, iface(p))), sem(e, iface(p)) == SS(p.v))
taxiom constString forall(p, *constString, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.hash == hS(p.v))
taxiom constString forall(p, *constString, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constString forall(p, *constString, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constString forall(p, *constString, trig(kind(iface(p))), kind(iface(p)) == 5)
taxiom constString forall(p, *constString, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constString), strcmp(p.v, as(g, *constString).v), cmpall(iface(p), g)))
func *constString.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SS(r), SErr)
func *constString.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constString.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constString.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constString.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constString(p *constString, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_constString(p *constString, q *constString)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func StringConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constString) && fresh(r)
  ensures as(r, *constString).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SS(v))
func TrimString(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

ghostdef constBytes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SI(this.v[k]))
// ---- constBytes ----
immutable constBytes
taxiom constBytes forall(e, Ev, p, *constBytes, trig(sem(e, iface(p))), sem(e, iface(p)) == SL(len(p.v)))
taxiom constBytes forall(e, Ev, p, *constBytes, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.v) ==> el(e, iface(p), k) == cel(p, k))
taxiom constBytes forall(p, *constBytes, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(cel(p, k)), 0 <= k && k < len(p.v) ==> isI(cel(p, k))))
taxiom constBytes forall(p, *constBytes, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constBytes forall(p, *constBytes, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constBytes forall(p, *constBytes, trig(kind(iface(p))), kind(iface(p)) == 6)
taxiom constBytes forall(p, *constBytes, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constBytes), lexC(p, payload(g), len(p.v), len(as(g, *constBytes).v)), cmpall(iface(p), g)))
func *constBytes.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SI(this.v[k]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *constBytes.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constBytes.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constBytes.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constBytes.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SI(this.v[k]))
  assumes typeis(that, *constBytes) ==> forall(k, int, trig(cel(payload(that), k)), trig(as(that, *constBytes).v[k]), 0 <= k && k < len(as(that, *constBytes).v) ==> cel(payload(that), k) == SI(as(that, *constBytes).v[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constBytes(p *constBytes, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_constBytes(p *constBytes, q *constBytes)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BytesConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constBytes) && fresh(r)
  ensures as(r, *constBytes).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SL(len(v)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < len(v) ==> el(e, r, k) == SI(v[k]))
func TrimBytes(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

ghostdef constDoubles forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SD(this.v[k]))
// ---- constDoubles ----
immutable constDoubles
taxiom constDoubles forall(e, Ev, p, *constDoubles, trig(sem(e, iface(p))), sem(e, iface(p)) == SL(len(p.v)))
taxiom constDoubles forall(e, Ev, p, *constDoubles, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.v) ==> el(e, iface(p), k) == cel(p, k))
taxiom constDoubles forall(p, *constDoubles, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(cel(p, k)), 0 <= k && k < len(p.v) ==> isD(cel(p, k))))
taxiom constDoubles forall(p, *constDoubles, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constDoubles forall(p, *constDoubles, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constDoubles forall(p, *constDoubles, trig(kind(iface(p))), kind(iface(p)) == 7)
taxiom constDoubles forall(p, *constDoubles, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constDoubles), ite(len(p.v) != len(as(g, *constDoubles).v), ite(len(p.v) < len(as(g, *constDoubles).v), 0-1, 1), ite(cdiff(p, payload(g), len(p.v)) == len(p.v), 0, scmp(cel(p, cdiff(p, payload(g), len(p.v))), cel(payload(g), cdiff(p, payload(g), len(p.v)))))), cmpall(iface(p), g)))
func *constDoubles.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SD(this.v[k]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SD(r[k]))
func *constDoubles.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constDoubles.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constDoubles.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constDoubles.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SD(this.v[k]))
  assumes typeis(that, *constDoubles) ==> forall(k, int, trig(cel(payload(that), k)), trig(as(that, *constDoubles).v[k]), 0 <= k && k < len(as(that, *constDoubles).v) ==> cel(payload(that), k) == SD(as(that, *constDoubles).v[k]))
  inv [i int, o any []float64]: forall(k, int, 0 <= k && k < i && k < len(o) && k < len(this.v) ==> sameDouble(this.v[k], o[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constDoubles(p *constDoubles, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_constDoubles(p *constDoubles, q *constDoubles)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func DoublesConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constDoubles) && fresh(r)
  ensures as(r, *constDoubles).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SL(len(v)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < len(v) ==> el(e, r, k) == SD(v[k]))
func TrimDoubles(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

ghostdef constInts forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SI(this.v[k]))
// ---- constInts ----
immutable constInts
taxiom constInts forall(e, Ev, p, *constInts, trig(sem(e, iface(p))), sem(e, iface(p)) == SL(len(p.v)))
taxiom constInts forall(e, Ev, p, *constInts, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.v) ==> el(e, iface(p), k) == cel(p, k))
taxiom constInts forall(p, *constInts, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(cel(p, k)), 0 <= k && k < len(p.v) ==> isI(cel(p, k))))
taxiom constInts forall(p, *constInts, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constInts forall(p, *constInts, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constInts forall(p, *constInts, trig(kind(iface(p))), kind(iface(p)) == 8)
taxiom constInts forall(p, *constInts, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constInts), ite(len(p.v) != len(as(g, *constInts).v), ite(len(p.v) < len(as(g, *constInts).v), 0-1, 1), ite(cdiff(p, payload(g), len(p.v)) == len(p.v), 0, scmp(cel(p, cdiff(p, payload(g), len(p.v))), cel(payload(g), cdiff(p, payload(g), len(p.v)))))), cmpall(iface(p), g)))
func *constInts.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SI(this.v[k]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *constInts.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constInts.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constInts.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constInts.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SI(this.v[k]))
  assumes typeis(that, *constInts) ==> forall(k, int, trig(cel(payload(that), k)), trig(as(that, *constInts).v[k]), 0 <= k && k < len(as(that, *constInts).v) ==> cel(payload(that), k) == SI(as(that, *constInts).v[k]))
  inv [i int, o any []int64]: forall(k, int, 0 <= k && k < i && k < len(o) && k < len(this.v) ==> sameInt(this.v[k], o[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constInts(p *constInts, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_constInts(p *constInts, q *constInts)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func IntsConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constInts) && fresh(r)
  ensures as(r, *constInts).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SL(len(v)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < len(v) ==> el(e, r, k) == SI(v[k]))
func TrimInts(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

ghostdef constUints forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SI(this.v[k]))
// ---- constUints ----
immutable constUints
taxiom constUints forall(e, Ev, p, *constUints, trig(sem(e, iface(p))), sem(e, iface(p)) == SL(len(p.v)))
taxiom constUints forall(e, Ev, p, *constUints, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.v) ==> el(e, iface(p), k) == cel(p, k))
taxiom constUints forall(p, *constUints, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(cel(p, k)), 0 <= k && k < len(p.v) ==> isI(cel(p, k))))
taxiom constUints forall(p, *constUints, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constUints forall(p, *constUints, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constUints forall(p, *constUints, trig(kind(iface(p))), kind(iface(p)) == 9)
taxiom constUints forall(p, *constUints, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constUints), ite(len(p.v) != len(as(g, *constUints).v), ite(len(p.v) < len(as(g, *constUints).v), 0-1, 1), ite(cdiff(p, payload(g), len(p.v)) == len(p.v), 0, scmp(cel(p, cdiff(p, payload(g), len(p.v))), cel(payload(g), cdiff(p, payload(g), len(p.v)))))), cmpall(iface(p), g)))
func *constUints.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SI(this.v[k]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *constUints.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constUints.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constUints.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constUints.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SI(this.v[k]))
  assumes typeis(that, *constUints) ==> forall(k, int, trig(cel(payload(that), k)), trig(as(that, *constUints).v[k]), 0 <= k && k < len(as(that, *constUints).v) ==> cel(payload(that), k) == SI(as(that, *constUints).v[k]))
  inv [i int, o any []uint64]: forall(k, int, 0 <= k && k < i && k < len(o) && k < len(this.v) ==> sameUint(this.v[k], o[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constUints(p *constUints, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_constUints(p *constUints, q *constUints)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func UintsConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constUints) && fresh(r)
  ensures as(r, *constUints).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SL(len(v)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < len(v) ==> el(e, r, k) == SI(v[k]))
func TrimUints(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

ghostdef constBools forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SB(this.v[k]))
// ---- constBools ----
immutable constBools
taxiom constBools forall(e, Ev, p, *constBools, trig(sem(e, iface(p))), sem(e, iface(p)) == SL(len(p.v)))
taxiom constBools forall(e, Ev, p, *constBools, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.v) ==> el(e, iface(p), k) == cel(p, k))
taxiom constBools forall(p, *constBools, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(cel(p, k)), 0 <= k && k < len(p.v) ==> isB(cel(p, k))))
taxiom constBools forall(p, *constBools, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constBools forall(p, *constBools, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constBools forall(p, *constBools, trig(kind(iface(p))), kind(iface(p)) == 10)
taxiom constBools forall(p, *constBools, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constBools), ite(len(p.v) != len(as(g, *constBools).v), ite(len(p.v) < len(as(g, *constBools).v), 0-1, 1), ite(cdiff(p, payload(g), len(p.v)) == len(p.v), 0, scmp(cel(p, cdiff(p, payload(g), len(p.v))), cel(payload(g), cdiff(p, payload(g), len(p.v)))))), cmpall(iface(p), g)))
func *constBools.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SB(this.v[k]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SB(r[k]))
func *constBools.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constBools.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constBools.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constBools.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SB(this.v[k]))
  assumes typeis(that, *constBools) ==> forall(k, int, trig(cel(payload(that), k)), trig(as(that, *constBools).v[k]), 0 <= k && k < len(as(that, *constBools).v) ==> cel(payload(that), k) == SB(as(that, *constBools).v[k]))
  inv [i int, o any []bool]: forall(k, int, 0 <= k && k < i && k < len(o) && k < len(this.v) ==> sameBool(this.v[k], o[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constBools(p *constBools, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_constBools(p *constBools, q *constBools)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BoolsConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constBools) && fresh(r)
  ensures as(r, *constBools).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SL(len(v)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < len(v) ==> el(e, r, k) == SB(v[k]))
func TrimBools(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

ghostdef constStrings forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SS(this.v[k]))
// ---- constStrings ----
immutable constStrings
taxiom constStrings forall(e, Ev, p, *constStrings, trig(sem(e, iface(p))), sem(e, iface(p)) == SL(len(p.v)))
taxiom constStrings forall(e, Ev, p, *constStrings, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.v) ==> el(e, iface(p), k) == cel(p, k))
taxiom constStrings forall(p, *constStrings, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(cel(p, k)), 0 <= k && k < len(p.v) ==> isS(cel(p, k))))
taxiom constStrings forall(p, *constStrings, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constStrings forall(p, *constStrings, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constStrings forall(p, *constStrings, trig(kind(iface(p))), kind(iface(p)) == 11)
taxiom constStrings forall(p, *constStrings, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constStrings), ite(len(p.v) != len(as(g, *constStrings).v), ite(len(p.v) < len(as(g, *constStrings).v), 0-1, 1), ite(cdiff(p, payload(g), len(p.v)) == len(p.v), 0, scmp(cel(p, cdiff(p, payload(g), len(p.v))), cel(payload(g), cdiff(p, payload(g), len(p.v)))))), cmpall(iface(p), g)))
func *constStrings.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SS(this.v[k]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SS(r[k]))
func *constStrings.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constStrings.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constStrings.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constStrings.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SS(this.v[k]))
  assumes typeis(that, *constStrings) ==> forall(k, int, trig(cel(payload(that), k)), trig(as(that, *constStrings).v[k]), 0 <= k && k < len(as(that, *constStrings).v) ==> cel(payload(that), k) == SS(as(that, *constStrings).v[k]))
  inv [i int, o any []string]: forall(k, int, 0 <= k && k < i && k < len(o) && k < len(this.v) ==> sameString(this.v[k], o[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constStrings(p *constStrings, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_constStrings(p *constStrings, q *constStrings)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func StringsConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constStrings) && fresh(r)
  ensures as(r, *constStrings).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SL(len(v)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < len(v) ==> el(e, r, k) == SS(v[k]))
func TrimStrings(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

ghostdef constListOfBytes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SL(len(this.v[k])))
ghostdef constListOfBytes forall(k, int, j, int, trig(cel2(this, k, j)), trig(this.v[k][j]), 0 <= k && k < len(this.v) && 0 <= j && j < llen(cel(this, k)) ==> cel2(this, k, j) == SI(this.v[k][j]))
// ---- constListOfBytes ----
immutable constListOfBytes
taxiom constListOfBytes forall(e, Ev, p, *constListOfBytes, trig(sem(e, iface(p))), sem(e, iface(p)) == SL(len(p.v)))
taxiom constListOfBytes forall(e, Ev, p, *constListOfBytes, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.v) ==> el(e, iface(p), k) == cel(p, k))
taxiom constListOfBytes forall(e, Ev, p, *constListOfBytes, k, int, j, int, trig(el2(e, iface(p), k, j)), 0 <= k && k < len(p.v) ==> el2(e, iface(p), k, j) == cel2(p, k, j))
taxiom constListOfBytes forall(p, *constListOfBytes, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(cel(p, k)), 0 <= k && k < len(p.v) ==> isL(cel(p, k)) && 0 <= llen(cel(p, k))) && forall(k, int, j, int, trig(cel2(p, k, j)), 0 <= k && k < len(p.v) && 0 <= j && j < llen(cel(p, k)) ==> isI(cel2(p, k, j))))
taxiom constListOfBytes forall(p, *constListOfBytes, trig(hv(iface(p))), hv(iface(p)) <==> false)
taxiom constListOfBytes forall(p, *constListOfBytes, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom constListOfBytes forall(p, *constListOfBytes, trig(kind(iface(p))), kind(iface(p)) == 12)
taxiom constListOfBytes forall(p, *constListOfBytes, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *constListOfBytes), ite(len(p.v) != len(as(g, *constListOfBytes).v), ite(len(p.v) < len(as(g, *constListOfBytes).v), 0-1, 1), ite(ldY(p, payload(g), len(p.v)) == len(p.v), 0, lcY(p, payload(g), ldY(p, payload(g), len(p.v))))), cmpall(iface(p), g)))
func *constListOfBytes.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SL(len(this.v[k])))
  assumes forall(k, int, j, int, trig(cel2(this, k, j)), trig(this.v[k][j]), 0 <= k && k < len(this.v) && 0 <= j && j < llen(cel(this, k)) ==> cel2(this, k, j) == SI(this.v[k][j]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SL(len(r[k])))
  ensures err == nil ==> forall(k, int, j, int, trig(r[k][j]), trig(el2(env, iface(this), k, j)), 0 <= k && k < len(r) && 0 <= j && j < len(r[k]) ==> el2(env, iface(this), k, j) == SI(r[k][j]))
func *constListOfBytes.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *constListOfBytes.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *constListOfBytes.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *constListOfBytes.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SL(len(this.v[k])))
  assumes forall(k, int, j, int, trig(cel2(this, k, j)), trig(this.v[k][j]), 0 <= k && k < len(this.v) && 0 <= j && j < llen(cel(this, k)) ==> cel2(this, k, j) == SI(this.v[k][j]))
  assumes typeis(that, *constListOfBytes) ==> forall(k, int, trig(cel(payload(that), k)), trig(as(that, *constListOfBytes).v[k]), 0 <= k && k < len(as(that, *constListOfBytes).v) ==> cel(payload(that), k) == SL(len(as(that, *constListOfBytes).v[k])))
  assumes typeis(that, *constListOfBytes) ==> forall(k, int, j, int, trig(cel2(payload(that), k, j)), trig(as(that, *constListOfBytes).v[k][j]), 0 <= k && k < len(as(that, *constListOfBytes).v) && 0 <= j && j < llen(cel(payload(that), k)) ==> cel2(payload(that), k, j) == SI(as(that, *constListOfBytes).v[k][j]))
  inv [i int]: typeis(that, *constListOfBytes) ==> forall(k, int, trig(cel(this, k)), 0 <= k && k < i && k < len(this.v) ==> lcY(this, payload(that), k) == 0)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_constListOfBytes(p *constListOfBytes, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
  ensures 0 <= k && k < slen(sem(e1, iface(p))) && 0 <= j && j < slen(el(e1, iface(p), k)) ==> el2(e1, iface(p), k, j) == el2(e2, iface(p), k, j)
lemma antisym_constListOfBytes(p *constListOfBytes, q *constListOfBytes)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func ListOfBytesConst(v) (r)
  prop C08 C10
  ensures r != nil && valid(r) && typeis(r, *constListOfBytes) && fresh(r)
  ensures as(r, *constListOfBytes).v == v
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SL(len(v)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < len(v) ==> el(e, r, k) == SL(len(v[k])))
  ensures forall(e, Ev, k, int, j, int, trig(el2(e, r, k, j)), 0 <= k && k < len(v) && 0 <= j && j < len(v[k]) ==> el2(e, r, k, j) == SI(v[k][j]))
func TrimListOfBytes(f) (r)
  prop C08 C07
  requires f != nil && valid(f)
  uses novar novar1 novar2
  ensures r != nil && valid(r) && semeq(f, r)
  ensures hv(f) ==> r == f

def sameInt(a, b) = a == b
def sameUint(a, b) = a == b
def sameBool(a, b) = a == b
def sameString(a, b) = a == b
def sameDouble(a, b) = a == b
smt {
(define-fun isD ((s Sem)) Bool ((_ is SD) s))
(define-fun isB ((s Sem)) Bool ((_ is SB) s))
}
def hI(v) = wrapu64(2300386+conv64(v))
def hU(v) = wrapu64(31*(527+2636666)+v)
def hS(v) = wrapu64(31*(527+2486848561)+hashS(v))
def conv64(v) = ite(v < 0, v+18446744073709551616, v)

func !math.Float64bits(d) (r)
  trusted standard library
  ensures r == fltbits(d)
func deriveHashString(s) (r)
  trusted a function of the string
  ensures r == hashS(s)

// the induction over the structure of a function whose step are the lemmas const_*
lemma novar(e Ev, f Iface)
  trusted induction on the (finite, immutable) structure; steps const_*; assumed of user-defined functions
  trig sem(e, f)
  requires valid(f) && !hv(f)
  ensures sem(e, f) == semc(f)
lemma novar1(e Ev, f Iface, k int)
  trusted as novar
  trig el(e, f, k)
  requires valid(f) && !hv(f) && 0 <= k && k < slen(sem(e, f))
  ensures el(e, f, k) == elc(f, k)
lemma novar2(e Ev, f Iface, k int, j int)
  trusted as novar
  trig el2(e, f, k, j)
  requires valid(f) && !hv(f) && 0 <= k && k < slen(sem(e, f)) && 0 <= j && j < slen(el(e, f, k))
  ensures el2(e, f, k, j) == elc2(f, k, j)

lemma antisym_types(f Iface, g Iface)
  prop C08 C12
  ensures cmpall(f, g) == 0-cmpall(g, f)

func Equal(l, r) (b)
  prop C08 C07
  requires l != nil && r != nil && valid(l) && valid(r)
  ensures b <==> hash(l) == hash(r) && cmpf(l, r) == 0
  ensures b ==> semeq(l, r)

func Hash(name, hs) (r)
  prop C08
  inv [h any uint64]: len(hs) == 0 ==> h == wrapu64(527+hashS(name))
  ensures len(hs) == 0 ==> r == wrapu64(527+hashS(name))
  requires forall(k, int, trig(hs[k]), 0 <= k && k < len(hs) ==> hs[k] != nil)
func hashWithId(id, hs) (r)
  prop C08
  requires forall(k, int, trig(hs[k]), 0 <= k && k < len(hs) ==> hs[k] != nil)

// ---- doubleGE ----
immutable doubleGE
taxiom doubleGE forall(e, Ev, p, *doubleGE, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(fltle(dval(sem(e, p.V2)), dval(sem(e, p.V1))))))
taxiom doubleGE forall(p, *doubleGE, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 1 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 1 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom doubleGE forall(p, *doubleGE, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom doubleGE forall(p, *doubleGE, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom doubleGE forall(p, *doubleGE, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom doubleGE forall(p, *doubleGE, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *doubleGE), ite(cmpf(p.V1, as(g, *doubleGE).V1) != 0, cmpf(p.V1, as(g, *doubleGE).V1), cmpf(p.V2, as(g, *doubleGE).V2)), cmpall(iface(p), g)))
func *doubleGE.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *doubleGE.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *doubleGE.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *doubleGE.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *doubleGE.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_doubleGE(p *doubleGE, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_doubleGE(p *doubleGE, q *doubleGE)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func DoubleGE(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(fltle(dval(sem(e, b)), dval(sem(e, a))))))

// ---- intGE ----
immutable intGE
taxiom intGE forall(e, Ev, p, *intGE, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) >= ival(sem(e, p.V2)))))
taxiom intGE forall(p, *intGE, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 2 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 2 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom intGE forall(p, *intGE, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom intGE forall(p, *intGE, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom intGE forall(p, *intGE, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom intGE forall(p, *intGE, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *intGE), ite(cmpf(p.V1, as(g, *intGE).V1) != 0, cmpf(p.V1, as(g, *intGE).V1), cmpf(p.V2, as(g, *intGE).V2)), cmpall(iface(p), g)))
func *intGE.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *intGE.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *intGE.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *intGE.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *intGE.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_intGE(p *intGE, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_intGE(p *intGE, q *intGE)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func IntGE(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) >= ival(sem(e, b)))))

// ---- uintGE ----
immutable uintGE
taxiom uintGE forall(e, Ev, p, *uintGE, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) >= ival(sem(e, p.V2)))))
taxiom uintGE forall(p, *uintGE, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 3 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 3 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom uintGE forall(p, *uintGE, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom uintGE forall(p, *uintGE, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom uintGE forall(p, *uintGE, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom uintGE forall(p, *uintGE, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *uintGE), ite(cmpf(p.V1, as(g, *uintGE).V1) != 0, cmpf(p.V1, as(g, *uintGE).V1), cmpf(p.V2, as(g, *uintGE).V2)), cmpall(iface(p), g)))
func *uintGE.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *uintGE.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *uintGE.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *uintGE.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *uintGE.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_uintGE(p *uintGE, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_uintGE(p *uintGE, q *uintGE)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func UintGE(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) >= ival(sem(e, b)))))

// ---- bytesGE ----
immutable bytesGE
taxiom bytesGE forall(e, Ev, p, *bytesGE, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(lexcmp(e, p.V1, p.V2) >= 0)))
taxiom bytesGE forall(p, *bytesGE, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 6 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 6 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom bytesGE forall(p, *bytesGE, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom bytesGE forall(p, *bytesGE, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom bytesGE forall(p, *bytesGE, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom bytesGE forall(p, *bytesGE, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *bytesGE), ite(cmpf(p.V1, as(g, *bytesGE).V1) != 0, cmpf(p.V1, as(g, *bytesGE).V1), cmpf(p.V2, as(g, *bytesGE).V2)), cmpall(iface(p), g)))
func *bytesGE.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *bytesGE.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *bytesGE.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *bytesGE.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *bytesGE.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_bytesGE(p *bytesGE, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_bytesGE(p *bytesGE, q *bytesGE)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BytesGE(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(lexcmp(e, a, b) >= 0)))

// ---- doubleGt ----
immutable doubleGt
taxiom doubleGt forall(e, Ev, p, *doubleGt, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(fltlt(dval(sem(e, p.V2)), dval(sem(e, p.V1))))))
taxiom doubleGt forall(p, *doubleGt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 1 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 1 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom doubleGt forall(p, *doubleGt, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom doubleGt forall(p, *doubleGt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom doubleGt forall(p, *doubleGt, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom doubleGt forall(p, *doubleGt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *doubleGt), ite(cmpf(p.V1, as(g, *doubleGt).V1) != 0, cmpf(p.V1, as(g, *doubleGt).V1), cmpf(p.V2, as(g, *doubleGt).V2)), cmpall(iface(p), g)))
func *doubleGt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *doubleGt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *doubleGt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *doubleGt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *doubleGt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_doubleGt(p *doubleGt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_doubleGt(p *doubleGt, q *doubleGt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func DoubleGt(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(fltlt(dval(sem(e, b)), dval(sem(e, a))))))

// ---- intGt ----
immutable intGt
taxiom intGt forall(e, Ev, p, *intGt, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) > ival(sem(e, p.V2)))))
taxiom intGt forall(p, *intGt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 2 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 2 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom intGt forall(p, *intGt, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom intGt forall(p, *intGt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom intGt forall(p, *intGt, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom intGt forall(p, *intGt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *intGt), ite(cmpf(p.V1, as(g, *intGt).V1) != 0, cmpf(p.V1, as(g, *intGt).V1), cmpf(p.V2, as(g, *intGt).V2)), cmpall(iface(p), g)))
func *intGt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *intGt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *intGt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *intGt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *intGt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_intGt(p *intGt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_intGt(p *intGt, q *intGt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func IntGt(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) > ival(sem(e, b)))))

// ---- uintGt ----
immutable uintGt
taxiom uintGt forall(e, Ev, p, *uintGt, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) > ival(sem(e, p.V2)))))
taxiom uintGt forall(p, *uintGt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 3 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 3 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom uintGt forall(p, *uintGt, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom uintGt forall(p, *uintGt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom uintGt forall(p, *uintGt, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom uintGt forall(p, *uintGt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *uintGt), ite(cmpf(p.V1, as(g, *uintGt).V1) != 0, cmpf(p.V1, as(g, *uintGt).V1), cmpf(p.V2, as(g, *uintGt).V2)), cmpall(iface(p), g)))
func *uintGt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *uintGt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *uintGt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *uintGt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *uintGt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_uintGt(p *uintGt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_uintGt(p *uintGt, q *uintGt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func UintGt(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) > ival(sem(e, b)))))

// ---- bytesGt ----
immutable bytesGt
taxiom bytesGt forall(e, Ev, p, *bytesGt, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(lexcmp(e, p.V1, p.V2) > 0)))
taxiom bytesGt forall(p, *bytesGt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 6 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 6 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom bytesGt forall(p, *bytesGt, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom bytesGt forall(p, *bytesGt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom bytesGt forall(p, *bytesGt, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom bytesGt forall(p, *bytesGt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *bytesGt), ite(cmpf(p.V1, as(g, *bytesGt).V1) != 0, cmpf(p.V1, as(g, *bytesGt).V1), cmpf(p.V2, as(g, *bytesGt).V2)), cmpall(iface(p), g)))
func *bytesGt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *bytesGt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *bytesGt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *bytesGt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *bytesGt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_bytesGt(p *bytesGt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_bytesGt(p *bytesGt, q *bytesGt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BytesGt(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(lexcmp(e, a, b) > 0)))

// ---- doubleLE ----
immutable doubleLE
taxiom doubleLE forall(e, Ev, p, *doubleLE, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(fltle(dval(sem(e, p.V1)), dval(sem(e, p.V2))))))
taxiom doubleLE forall(p, *doubleLE, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 1 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 1 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom doubleLE forall(p, *doubleLE, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom doubleLE forall(p, *doubleLE, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom doubleLE forall(p, *doubleLE, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom doubleLE forall(p, *doubleLE, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *doubleLE), ite(cmpf(p.V1, as(g, *doubleLE).V1) != 0, cmpf(p.V1, as(g, *doubleLE).V1), cmpf(p.V2, as(g, *doubleLE).V2)), cmpall(iface(p), g)))
func *doubleLE.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *doubleLE.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *doubleLE.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *doubleLE.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *doubleLE.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_doubleLE(p *doubleLE, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_doubleLE(p *doubleLE, q *doubleLE)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func DoubleLE(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(fltle(dval(sem(e, a)), dval(sem(e, b))))))

// ---- intLE ----
immutable intLE
taxiom intLE forall(e, Ev, p, *intLE, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) <= ival(sem(e, p.V2)))))
taxiom intLE forall(p, *intLE, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 2 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 2 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom intLE forall(p, *intLE, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom intLE forall(p, *intLE, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom intLE forall(p, *intLE, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom intLE forall(p, *intLE, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *intLE), ite(cmpf(p.V1, as(g, *intLE).V1) != 0, cmpf(p.V1, as(g, *intLE).V1), cmpf(p.V2, as(g, *intLE).V2)), cmpall(iface(p), g)))
func *intLE.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *intLE.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *intLE.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *intLE.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *intLE.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_intLE(p *intLE, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_intLE(p *intLE, q *intLE)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func IntLE(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) <= ival(sem(e, b)))))

// ---- uintLE ----
immutable uintLE
taxiom uintLE forall(e, Ev, p, *uintLE, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) <= ival(sem(e, p.V2)))))
taxiom uintLE forall(p, *uintLE, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 3 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 3 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom uintLE forall(p, *uintLE, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom uintLE forall(p, *uintLE, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom uintLE forall(p, *uintLE, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom uintLE forall(p, *uintLE, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *uintLE), ite(cmpf(p.V1, as(g, *uintLE).V1) != 0, cmpf(p.V1, as(g, *uintLE).V1), cmpf(p.V2, as(g, *uintLE).V2)), cmpall(iface(p), g)))
func *uintLE.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *uintLE.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *uintLE.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *uintLE.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *uintLE.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_uintLE(p *uintLE, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_uintLE(p *uintLE, q *uintLE)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func UintLE(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) <= ival(sem(e, b)))))

// ---- bytesLE ----
immutable bytesLE
taxiom bytesLE forall(e, Ev, p, *bytesLE, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(lexcmp(e, p.V1, p.V2) <= 0)))
taxiom bytesLE forall(p, *bytesLE, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 6 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 6 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom bytesLE forall(p, *bytesLE, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom bytesLE forall(p, *bytesLE, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom bytesLE forall(p, *bytesLE, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom bytesLE forall(p, *bytesLE, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *bytesLE), ite(cmpf(p.V1, as(g, *bytesLE).V1) != 0, cmpf(p.V1, as(g, *bytesLE).V1), cmpf(p.V2, as(g, *bytesLE).V2)), cmpall(iface(p), g)))
func *bytesLE.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *bytesLE.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *bytesLE.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *bytesLE.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *bytesLE.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_bytesLE(p *bytesLE, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_bytesLE(p *bytesLE, q *bytesLE)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BytesLE(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(lexcmp(e, a, b) <= 0)))

// ---- doubleLt ----
immutable doubleLt
taxiom doubleLt forall(e, Ev, p, *doubleLt, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(fltlt(dval(sem(e, p.V1)), dval(sem(e, p.V2))))))
taxiom doubleLt forall(p, *doubleLt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 1 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 1 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom doubleLt forall(p, *doubleLt, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom doubleLt forall(p, *doubleLt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom doubleLt forall(p, *doubleLt, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom doubleLt forall(p, *doubleLt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *doubleLt), ite(cmpf(p.V1, as(g, *doubleLt).V1) != 0, cmpf(p.V1, as(g, *doubleLt).V1), cmpf(p.V2, as(g, *doubleLt).V2)), cmpall(iface(p), g)))
func *doubleLt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *doubleLt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *doubleLt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *doubleLt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *doubleLt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_doubleLt(p *doubleLt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_doubleLt(p *doubleLt, q *doubleLt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func DoubleLt(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(fltlt(dval(sem(e, a)), dval(sem(e, b))))))

// ---- intLt ----
immutable intLt
taxiom intLt forall(e, Ev, p, *intLt, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) < ival(sem(e, p.V2)))))
taxiom intLt forall(p, *intLt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 2 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 2 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom intLt forall(p, *intLt, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom intLt forall(p, *intLt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom intLt forall(p, *intLt, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom intLt forall(p, *intLt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *intLt), ite(cmpf(p.V1, as(g, *intLt).V1) != 0, cmpf(p.V1, as(g, *intLt).V1), cmpf(p.V2, as(g, *intLt).V2)), cmpall(iface(p), g)))
func *intLt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *intLt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *intLt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *intLt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *intLt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_intLt(p *intLt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_intLt(p *intLt, q *intLt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func IntLt(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) < ival(sem(e, b)))))

// ---- uintLt ----
immutable uintLt
taxiom uintLt forall(e, Ev, p, *uintLt, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) < ival(sem(e, p.V2)))))
taxiom uintLt forall(p, *uintLt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 3 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 3 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom uintLt forall(p, *uintLt, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom uintLt forall(p, *uintLt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom uintLt forall(p, *uintLt, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom uintLt forall(p, *uintLt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *uintLt), ite(cmpf(p.V1, as(g, *uintLt).V1) != 0, cmpf(p.V1, as(g, *uintLt).V1), cmpf(p.V2, as(g, *uintLt).V2)), cmpall(iface(p), g)))
func *uintLt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *uintLt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *uintLt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *uintLt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *uintLt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_uintLt(p *uintLt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_uintLt(p *uintLt, q *uintLt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func UintLt(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) < ival(sem(e, b)))))

// ---- bytesLt ----
immutable bytesLt
taxiom bytesLt forall(e, Ev, p, *bytesLt, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(lexcmp(e, p.V1, p.V2) < 0)))
taxiom bytesLt forall(p, *bytesLt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 6 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 6 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom bytesLt forall(p, *bytesLt, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom bytesLt forall(p, *bytesLt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom bytesLt forall(p, *bytesLt, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom bytesLt forall(p, *bytesLt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *bytesLt), ite(cmpf(p.V1, as(g, *bytesLt).V1) != 0, cmpf(p.V1, as(g, *bytesLt).V1), cmpf(p.V2, as(g, *bytesLt).V2)), cmpall(iface(p), g)))
func *bytesLt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *bytesLt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *bytesLt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *bytesLt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *bytesLt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_bytesLt(p *bytesLt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_bytesLt(p *bytesLt, q *bytesLt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BytesLt(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(lexcmp(e, a, b) < 0)))

// ---- doubleEq ----
immutable doubleEq
taxiom doubleEq forall(e, Ev, p, *doubleEq, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(flteq(dval(sem(e, p.V1)), dval(sem(e, p.V2))))))
taxiom doubleEq forall(p, *doubleEq, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 1 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 1 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom doubleEq forall(p, *doubleEq, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom doubleEq forall(p, *doubleEq, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom doubleEq forall(p, *doubleEq, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom doubleEq forall(p, *doubleEq, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *doubleEq), ite(cmpf(p.V1, as(g, *doubleEq).V1) != 0, cmpf(p.V1, as(g, *doubleEq).V1), cmpf(p.V2, as(g, *doubleEq).V2)), cmpall(iface(p), g)))
func *doubleEq.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *doubleEq.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *doubleEq.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *doubleEq.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *doubleEq.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_doubleEq(p *doubleEq, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_doubleEq(p *doubleEq, q *doubleEq)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func DoubleEq(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(flteq(dval(sem(e, a)), dval(sem(e, b))))))

// ---- intEq ----
immutable intEq
taxiom intEq forall(e, Ev, p, *intEq, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) == ival(sem(e, p.V2)))))
taxiom intEq forall(p, *intEq, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 2 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 2 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom intEq forall(p, *intEq, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom intEq forall(p, *intEq, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom intEq forall(p, *intEq, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom intEq forall(p, *intEq, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *intEq), ite(cmpf(p.V1, as(g, *intEq).V1) != 0, cmpf(p.V1, as(g, *intEq).V1), cmpf(p.V2, as(g, *intEq).V2)), cmpall(iface(p), g)))
func *intEq.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *intEq.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *intEq.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *intEq.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *intEq.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_intEq(p *intEq, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_intEq(p *intEq, q *intEq)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func IntEq(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) == ival(sem(e, b)))))

// ---- uintEq ----
immutable uintEq
taxiom uintEq forall(e, Ev, p, *uintEq, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) == ival(sem(e, p.V2)))))
taxiom uintEq forall(p, *uintEq, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 3 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 3 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom uintEq forall(p, *uintEq, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom uintEq forall(p, *uintEq, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom uintEq forall(p, *uintEq, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom uintEq forall(p, *uintEq, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *uintEq), ite(cmpf(p.V1, as(g, *uintEq).V1) != 0, cmpf(p.V1, as(g, *uintEq).V1), cmpf(p.V2, as(g, *uintEq).V2)), cmpall(iface(p), g)))
func *uintEq.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *uintEq.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *uintEq.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *uintEq.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *uintEq.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_uintEq(p *uintEq, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_uintEq(p *uintEq, q *uintEq)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func UintEq(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) == ival(sem(e, b)))))

// ---- boolEq ----
immutable boolEq
taxiom boolEq forall(e, Ev, p, *boolEq, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(bval(sem(e, p.V1)) == bval(sem(e, p.V2)))))
taxiom boolEq forall(p, *boolEq, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 4 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 4 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom boolEq forall(p, *boolEq, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom boolEq forall(p, *boolEq, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom boolEq forall(p, *boolEq, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom boolEq forall(p, *boolEq, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *boolEq), ite(cmpf(p.V1, as(g, *boolEq).V1) != 0, cmpf(p.V1, as(g, *boolEq).V1), cmpf(p.V2, as(g, *boolEq).V2)), cmpall(iface(p), g)))
func *boolEq.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *boolEq.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *boolEq.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *boolEq.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *boolEq.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_boolEq(p *boolEq, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_boolEq(p *boolEq, q *boolEq)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BoolEq(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(bval(sem(e, a)) == bval(sem(e, b)))))

// ---- stringEq ----
immutable stringEq
taxiom stringEq forall(e, Ev, p, *stringEq, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(sval(sem(e, p.V1)) == sval(sem(e, p.V2)))))
taxiom stringEq forall(p, *stringEq, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 5 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 5 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom stringEq forall(p, *stringEq, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom stringEq forall(p, *stringEq, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom stringEq forall(p, *stringEq, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom stringEq forall(p, *stringEq, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *stringEq), ite(cmpf(p.V1, as(g, *stringEq).V1) != 0, cmpf(p.V1, as(g, *stringEq).V1), cmpf(p.V2, as(g, *stringEq).V2)), cmpall(iface(p), g)))
func *stringEq.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *stringEq.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *stringEq.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *stringEq.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *stringEq.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_stringEq(p *stringEq, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_stringEq(p *stringEq, q *stringEq)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func StringEq(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(sval(sem(e, a)) == sval(sem(e, b)))))

// ---- bytesEq ----
immutable bytesEq
taxiom bytesEq forall(e, Ev, p, *bytesEq, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(lexcmp(e, p.V1, p.V2) == 0)))
taxiom bytesEq forall(p, *bytesEq, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 6 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 6 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom bytesEq forall(p, *bytesEq, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom bytesEq forall(p, *bytesEq, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom bytesEq forall(p, *bytesEq, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom bytesEq forall(p, *bytesEq, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *bytesEq), ite(cmpf(p.V1, as(g, *bytesEq).V1) != 0, cmpf(p.V1, as(g, *bytesEq).V1), cmpf(p.V2, as(g, *bytesEq).V2)), cmpall(iface(p), g)))
func *bytesEq.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *bytesEq.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *bytesEq.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *bytesEq.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *bytesEq.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_bytesEq(p *bytesEq, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_bytesEq(p *bytesEq, q *bytesEq)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BytesEq(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(lexcmp(e, a, b) == 0)))

// ---- doubleNe ----
immutable doubleNe
taxiom doubleNe forall(e, Ev, p, *doubleNe, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(!flteq(dval(sem(e, p.V1)), dval(sem(e, p.V2))))))
taxiom doubleNe forall(p, *doubleNe, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 1 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 1 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom doubleNe forall(p, *doubleNe, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom doubleNe forall(p, *doubleNe, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom doubleNe forall(p, *doubleNe, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom doubleNe forall(p, *doubleNe, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *doubleNe), ite(cmpf(p.V1, as(g, *doubleNe).V1) != 0, cmpf(p.V1, as(g, *doubleNe).V1), cmpf(p.V2, as(g, *doubleNe).V2)), cmpall(iface(p), g)))
func *doubleNe.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *doubleNe.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *doubleNe.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *doubleNe.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *doubleNe.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_doubleNe(p *doubleNe, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_doubleNe(p *doubleNe, q *doubleNe)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func DoubleNe(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(!flteq(dval(sem(e, a)), dval(sem(e, b))))))

// ---- intNe ----
immutable intNe
taxiom intNe forall(e, Ev, p, *intNe, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) != ival(sem(e, p.V2)))))
taxiom intNe forall(p, *intNe, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 2 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 2 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom intNe forall(p, *intNe, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom intNe forall(p, *intNe, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom intNe forall(p, *intNe, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom intNe forall(p, *intNe, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *intNe), ite(cmpf(p.V1, as(g, *intNe).V1) != 0, cmpf(p.V1, as(g, *intNe).V1), cmpf(p.V2, as(g, *intNe).V2)), cmpall(iface(p), g)))
func *intNe.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *intNe.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *intNe.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *intNe.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *intNe.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_intNe(p *intNe, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_intNe(p *intNe, q *intNe)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func IntNe(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) != ival(sem(e, b)))))

// ---- uintNe ----
immutable uintNe
taxiom uintNe forall(e, Ev, p, *uintNe, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(ival(sem(e, p.V1)) != ival(sem(e, p.V2)))))
taxiom uintNe forall(p, *uintNe, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 3 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 3 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom uintNe forall(p, *uintNe, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom uintNe forall(p, *uintNe, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom uintNe forall(p, *uintNe, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom uintNe forall(p, *uintNe, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *uintNe), ite(cmpf(p.V1, as(g, *uintNe).V1) != 0, cmpf(p.V1, as(g, *uintNe).V1), cmpf(p.V2, as(g, *uintNe).V2)), cmpall(iface(p), g)))
func *uintNe.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *uintNe.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *uintNe.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *uintNe.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *uintNe.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_uintNe(p *uintNe, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_uintNe(p *uintNe, q *uintNe)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func UintNe(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(ival(sem(e, a)) != ival(sem(e, b)))))

// ---- boolNe ----
immutable boolNe
taxiom boolNe forall(e, Ev, p, *boolNe, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(bval(sem(e, p.V1)) != bval(sem(e, p.V2)))))
taxiom boolNe forall(p, *boolNe, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 4 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 4 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom boolNe forall(p, *boolNe, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom boolNe forall(p, *boolNe, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom boolNe forall(p, *boolNe, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom boolNe forall(p, *boolNe, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *boolNe), ite(cmpf(p.V1, as(g, *boolNe).V1) != 0, cmpf(p.V1, as(g, *boolNe).V1), cmpf(p.V2, as(g, *boolNe).V2)), cmpall(iface(p), g)))
func *boolNe.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *boolNe.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *boolNe.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *boolNe.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *boolNe.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_boolNe(p *boolNe, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_boolNe(p *boolNe, q *boolNe)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BoolNe(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(bval(sem(e, a)) != bval(sem(e, b)))))

// ---- stringNe ----
immutable stringNe
taxiom stringNe forall(e, Ev, p, *stringNe, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(sval(sem(e, p.V1)) != sval(sem(e, p.V2)))))
taxiom stringNe forall(p, *stringNe, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 5 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 5 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom stringNe forall(p, *stringNe, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom stringNe forall(p, *stringNe, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom stringNe forall(p, *stringNe, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom stringNe forall(p, *stringNe, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *stringNe), ite(cmpf(p.V1, as(g, *stringNe).V1) != 0, cmpf(p.V1, as(g, *stringNe).V1), cmpf(p.V2, as(g, *stringNe).V2)), cmpall(iface(p), g)))
func *stringNe.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *stringNe.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *stringNe.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *stringNe.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *stringNe.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_stringNe(p *stringNe, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_stringNe(p *stringNe, q *stringNe)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func StringNe(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(sval(sem(e, a)) != sval(sem(e, b)))))

// ---- bytesNe ----
immutable bytesNe
taxiom bytesNe forall(e, Ev, p, *bytesNe, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SErr || sem(e, p.V2) == SErr, SB(false), SB(lexcmp(e, p.V1, p.V2) != 0)))
taxiom bytesNe forall(p, *bytesNe, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 6 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 6 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom bytesNe forall(p, *bytesNe, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom bytesNe forall(p, *bytesNe, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom bytesNe forall(p, *bytesNe, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom bytesNe forall(p, *bytesNe, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *bytesNe), ite(cmpf(p.V1, as(g, *bytesNe).V1) != 0, cmpf(p.V1, as(g, *bytesNe).V1), cmpf(p.V2, as(g, *bytesNe).V2)), cmpall(iface(p), g)))
func *bytesNe.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *bytesNe.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *bytesNe.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *bytesNe.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *bytesNe.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_bytesNe(p *bytesNe, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_bytesNe(p *bytesNe, q *bytesNe)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BytesNe(a, b) (r)
  prop C10 C08
  requires a != nil && valid(a)
  requires b != nil && valid(b)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(sem(e, a) == SErr || sem(e, b) == SErr, SB(false), SB(lexcmp(e, a, b) != 0)))

// ---- typDouble ----
immutable typDouble
taxiom typDouble forall(e, Ev, p, *typDouble, trig(sem(e, iface(p))), sem(e, iface(p)) == SB(sem(e, p.E) != SErr))
taxiom typDouble forall(p, *typDouble, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 1 && (p.hasVariable || !hv(p.E)))
taxiom typDouble forall(p, *typDouble, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom typDouble forall(p, *typDouble, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom typDouble forall(p, *typDouble, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom typDouble forall(p, *typDouble, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *typDouble), cmpf(p.E, as(g, *typDouble).E), cmpall(iface(p), g)))
func *typDouble.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *typDouble.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *typDouble.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *typDouble.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *typDouble.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_typDouble(p *typDouble, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_typDouble(p *typDouble, q *typDouble)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func TypeDouble(v) (r)
  prop C10 C08
  requires v != nil && valid(v)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SB(sem(e, v) != SErr))

// ---- typInt ----
immutable typInt
taxiom typInt forall(e, Ev, p, *typInt, trig(sem(e, iface(p))), sem(e, iface(p)) == SB(sem(e, p.E) != SErr))
taxiom typInt forall(p, *typInt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 2 && (p.hasVariable || !hv(p.E)))
taxiom typInt forall(p, *typInt, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom typInt forall(p, *typInt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom typInt forall(p, *typInt, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom typInt forall(p, *typInt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *typInt), cmpf(p.E, as(g, *typInt).E), cmpall(iface(p), g)))
func *typInt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *typInt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *typInt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *typInt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *typInt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_typInt(p *typInt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_typInt(p *typInt, q *typInt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func TypeInt(v) (r)
  prop C10 C08
  requires v != nil && valid(v)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SB(sem(e, v) != SErr))

// ---- typUint ----
immutable typUint
taxiom typUint forall(e, Ev, p, *typUint, trig(sem(e, iface(p))), sem(e, iface(p)) == SB(sem(e, p.E) != SErr))
taxiom typUint forall(p, *typUint, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 3 && (p.hasVariable || !hv(p.E)))
taxiom typUint forall(p, *typUint, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom typUint forall(p, *typUint, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom typUint forall(p, *typUint, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom typUint forall(p, *typUint, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *typUint), cmpf(p.E, as(g, *typUint).E), cmpall(iface(p), g)))
func *typUint.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *typUint.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *typUint.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *typUint.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *typUint.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_typUint(p *typUint, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_typUint(p *typUint, q *typUint)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func TypeUint(v) (r)
  prop C10 C08
  requires v != nil && valid(v)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SB(sem(e, v) != SErr))

// ---- typBool ----
immutable typBool
taxiom typBool forall(e, Ev, p, *typBool, trig(sem(e, iface(p))), sem(e, iface(p)) == SB(sem(e, p.E) != SErr))
taxiom typBool forall(p, *typBool, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 4 && (p.hasVariable || !hv(p.E)))
taxiom typBool forall(p, *typBool, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom typBool forall(p, *typBool, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom typBool forall(p, *typBool, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom typBool forall(p, *typBool, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *typBool), cmpf(p.E, as(g, *typBool).E), cmpall(iface(p), g)))
func *typBool.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *typBool.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *typBool.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *typBool.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *typBool.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_typBool(p *typBool, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_typBool(p *typBool, q *typBool)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func TypeBool(v) (r)
  prop C10 C08
  requires v != nil && valid(v)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SB(sem(e, v) != SErr))

// ---- typString ----
immutable typString
taxiom typString forall(e, Ev, p, *typString, trig(sem(e, iface(p))), sem(e, iface(p)) == SB(sem(e, p.E) != SErr))
taxiom typString forall(p, *typString, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 5 && (p.hasVariable || !hv(p.E)))
taxiom typString forall(p, *typString, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom typString forall(p, *typString, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom typString forall(p, *typString, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom typString forall(p, *typString, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *typString), cmpf(p.E, as(g, *typString).E), cmpall(iface(p), g)))
func *typString.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *typString.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *typString.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *typString.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *typString.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_typString(p *typString, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_typString(p *typString, q *typString)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func TypeString(v) (r)
  prop C10 C08
  requires v != nil && valid(v)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SB(sem(e, v) != SErr))

// ---- typBytes ----
immutable typBytes
taxiom typBytes forall(e, Ev, p, *typBytes, trig(sem(e, iface(p))), sem(e, iface(p)) == SB(sem(e, p.E) != SErr))
taxiom typBytes forall(p, *typBytes, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 6 && (p.hasVariable || !hv(p.E)))
taxiom typBytes forall(p, *typBytes, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom typBytes forall(p, *typBytes, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom typBytes forall(p, *typBytes, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom typBytes forall(p, *typBytes, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *typBytes), cmpf(p.E, as(g, *typBytes).E), cmpall(iface(p), g)))
func *typBytes.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *typBytes.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *typBytes.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *typBytes.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *typBytes.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_typBytes(p *typBytes, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_typBytes(p *typBytes, q *typBytes)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func TypeBytes(v) (r)
  prop C10 C08
  requires v != nil && valid(v)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SB(sem(e, v) != SErr))

// ---- lenDoubles ----
immutable lenDoubles
taxiom lenDoubles forall(e, Ev, p, *lenDoubles, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isL(sem(e, p.E)), SI(llen(sem(e, p.E))), SErr))
taxiom lenDoubles forall(p, *lenDoubles, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 7 && (p.hasVariable || !hv(p.E)))
taxiom lenDoubles forall(p, *lenDoubles, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom lenDoubles forall(p, *lenDoubles, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom lenDoubles forall(p, *lenDoubles, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom lenDoubles forall(p, *lenDoubles, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *lenDoubles), cmpf(p.E, as(g, *lenDoubles).E), cmpall(iface(p), g)))
func *lenDoubles.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *lenDoubles.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *lenDoubles.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *lenDoubles.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *lenDoubles.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_lenDoubles(p *lenDoubles, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_lenDoubles(p *lenDoubles, q *lenDoubles)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func LenDoubles(e1) (r)
  prop C09 C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isL(sem(e, e1)), SI(llen(sem(e, e1))), SErr))

// ---- lenInts ----
immutable lenInts
taxiom lenInts forall(e, Ev, p, *lenInts, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isL(sem(e, p.E)), SI(llen(sem(e, p.E))), SErr))
taxiom lenInts forall(p, *lenInts, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 8 && (p.hasVariable || !hv(p.E)))
taxiom lenInts forall(p, *lenInts, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom lenInts forall(p, *lenInts, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom lenInts forall(p, *lenInts, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom lenInts forall(p, *lenInts, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *lenInts), cmpf(p.E, as(g, *lenInts).E), cmpall(iface(p), g)))
func *lenInts.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *lenInts.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *lenInts.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *lenInts.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *lenInts.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_lenInts(p *lenInts, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_lenInts(p *lenInts, q *lenInts)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func LenInts(e1) (r)
  prop C09 C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isL(sem(e, e1)), SI(llen(sem(e, e1))), SErr))

// ---- lenUints ----
immutable lenUints
taxiom lenUints forall(e, Ev, p, *lenUints, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isL(sem(e, p.E)), SI(llen(sem(e, p.E))), SErr))
taxiom lenUints forall(p, *lenUints, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 9 && (p.hasVariable || !hv(p.E)))
taxiom lenUints forall(p, *lenUints, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom lenUints forall(p, *lenUints, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom lenUints forall(p, *lenUints, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom lenUints forall(p, *lenUints, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *lenUints), cmpf(p.E, as(g, *lenUints).E), cmpall(iface(p), g)))
func *lenUints.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *lenUints.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *lenUints.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *lenUints.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *lenUints.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_lenUints(p *lenUints, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_lenUints(p *lenUints, q *lenUints)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func LenUints(e1) (r)
  prop C09 C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isL(sem(e, e1)), SI(llen(sem(e, e1))), SErr))

// ---- lenBools ----
immutable lenBools
taxiom lenBools forall(e, Ev, p, *lenBools, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isL(sem(e, p.E)), SI(llen(sem(e, p.E))), SErr))
taxiom lenBools forall(p, *lenBools, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 10 && (p.hasVariable || !hv(p.E)))
taxiom lenBools forall(p, *lenBools, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom lenBools forall(p, *lenBools, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom lenBools forall(p, *lenBools, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom lenBools forall(p, *lenBools, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *lenBools), cmpf(p.E, as(g, *lenBools).E), cmpall(iface(p), g)))
func *lenBools.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *lenBools.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *lenBools.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *lenBools.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *lenBools.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_lenBools(p *lenBools, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_lenBools(p *lenBools, q *lenBools)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func LenBools(e1) (r)
  prop C09 C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isL(sem(e, e1)), SI(llen(sem(e, e1))), SErr))

// ---- lenStrings ----
immutable lenStrings
taxiom lenStrings forall(e, Ev, p, *lenStrings, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isL(sem(e, p.E)), SI(llen(sem(e, p.E))), SErr))
taxiom lenStrings forall(p, *lenStrings, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 11 && (p.hasVariable || !hv(p.E)))
taxiom lenStrings forall(p, *lenStrings, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom lenStrings forall(p, *lenStrings, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom lenStrings forall(p, *lenStrings, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom lenStrings forall(p, *lenStrings, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *lenStrings), cmpf(p.E, as(g, *lenStrings).E), cmpall(iface(p), g)))
func *lenStrings.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *lenStrings.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *lenStrings.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *lenStrings.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *lenStrings.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_lenStrings(p *lenStrings, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_lenStrings(p *lenStrings, q *lenStrings)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func LenStrings(e1) (r)
  prop C09 C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isL(sem(e, e1)), SI(llen(sem(e, e1))), SErr))

// ---- lenListOfBytes ----
immutable lenListOfBytes
taxiom lenListOfBytes forall(e, Ev, p, *lenListOfBytes, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isL(sem(e, p.E)), SI(llen(sem(e, p.E))), SErr))
taxiom lenListOfBytes forall(p, *lenListOfBytes, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 12 && (p.hasVariable || !hv(p.E)))
taxiom lenListOfBytes forall(p, *lenListOfBytes, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom lenListOfBytes forall(p, *lenListOfBytes, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom lenListOfBytes forall(p, *lenListOfBytes, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom lenListOfBytes forall(p, *lenListOfBytes, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *lenListOfBytes), cmpf(p.E, as(g, *lenListOfBytes).E), cmpall(iface(p), g)))
func *lenListOfBytes.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *lenListOfBytes.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *lenListOfBytes.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *lenListOfBytes.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *lenListOfBytes.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_lenListOfBytes(p *lenListOfBytes, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_lenListOfBytes(p *lenListOfBytes, q *lenListOfBytes)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func LenListOfBytes(e1) (r)
  prop C09 C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isL(sem(e, e1)), SI(llen(sem(e, e1))), SErr))

// ---- lenString ----
immutable lenString
taxiom lenString forall(e, Ev, p, *lenString, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isS(sem(e, p.E)), SI(len(sval(sem(e, p.E)))), SErr))
taxiom lenString forall(p, *lenString, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 5 && (p.hasVariable || !hv(p.E)))
taxiom lenString forall(p, *lenString, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom lenString forall(p, *lenString, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom lenString forall(p, *lenString, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom lenString forall(p, *lenString, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *lenString), cmpf(p.E, as(g, *lenString).E), cmpall(iface(p), g)))
func *lenString.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *lenString.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *lenString.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *lenString.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *lenString.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_lenString(p *lenString, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_lenString(p *lenString, q *lenString)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func LenString(e1) (r)
  prop C09 C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isS(sem(e, e1)), SI(len(sval(sem(e, e1)))), SErr))

// ---- lenBytes ----
immutable lenBytes
taxiom lenBytes forall(e, Ev, p, *lenBytes, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isL(sem(e, p.E)), SI(llen(sem(e, p.E))), SErr))
taxiom lenBytes forall(p, *lenBytes, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 6 && (p.hasVariable || !hv(p.E)))
taxiom lenBytes forall(p, *lenBytes, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom lenBytes forall(p, *lenBytes, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom lenBytes forall(p, *lenBytes, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom lenBytes forall(p, *lenBytes, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *lenBytes), cmpf(p.E, as(g, *lenBytes).E), cmpall(iface(p), g)))
func *lenBytes.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *lenBytes.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *lenBytes.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *lenBytes.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *lenBytes.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_lenBytes(p *lenBytes, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.E) ==> forall(e, Ev, trig(sem(e, p.E)), sem(e, p.E) == semc(p.E)) && forall(e, Ev, m, int, trig(el(e, p.E, m)), el(e, p.E, m) == elc(p.E, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.E, m, i)), el2(e, p.E, m, i) == elc2(p.E, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_lenBytes(p *lenBytes, q *lenBytes)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func LenBytes(e1) (r)
  prop C09 C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isL(sem(e, e1)), SI(llen(sem(e, e1))), SErr))

// ---- printDouble ----
immutable printDouble
taxiom printDouble forall(e, Ev, p, *printDouble, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printDouble forall(p, *printDouble, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 1)
taxiom printDouble forall(p, *printDouble, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printDouble forall(p, *printDouble, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printDouble forall(p, *printDouble, trig(kind(iface(p))), kind(iface(p)) == 1)
taxiom printDouble forall(p, *printDouble, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printDouble), cmpf(p.E, as(g, *printDouble).E), cmpall(iface(p), g)))
func *printDouble.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SD(r), SErr)
func *printDouble.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printDouble.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printDouble.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printDouble.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printDouble(p *printDouble, q *printDouble)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintDouble(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- printInt ----
immutable printInt
taxiom printInt forall(e, Ev, p, *printInt, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printInt forall(p, *printInt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 2)
taxiom printInt forall(p, *printInt, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printInt forall(p, *printInt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printInt forall(p, *printInt, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom printInt forall(p, *printInt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printInt), cmpf(p.E, as(g, *printInt).E), cmpall(iface(p), g)))
func *printInt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *printInt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printInt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printInt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printInt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printInt(p *printInt, q *printInt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintInt(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- printUint ----
immutable printUint
taxiom printUint forall(e, Ev, p, *printUint, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printUint forall(p, *printUint, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 3)
taxiom printUint forall(p, *printUint, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printUint forall(p, *printUint, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printUint forall(p, *printUint, trig(kind(iface(p))), kind(iface(p)) == 3)
taxiom printUint forall(p, *printUint, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printUint), cmpf(p.E, as(g, *printUint).E), cmpall(iface(p), g)))
func *printUint.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *printUint.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printUint.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printUint.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printUint.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printUint(p *printUint, q *printUint)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintUint(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- printBool ----
immutable printBool
taxiom printBool forall(e, Ev, p, *printBool, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printBool forall(p, *printBool, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 4)
taxiom printBool forall(p, *printBool, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printBool forall(p, *printBool, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printBool forall(p, *printBool, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom printBool forall(p, *printBool, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printBool), cmpf(p.E, as(g, *printBool).E), cmpall(iface(p), g)))
func *printBool.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *printBool.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printBool.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printBool.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printBool.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printBool(p *printBool, q *printBool)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintBool(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- printString ----
immutable printString
taxiom printString forall(e, Ev, p, *printString, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printString forall(p, *printString, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 5)
taxiom printString forall(p, *printString, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printString forall(p, *printString, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printString forall(p, *printString, trig(kind(iface(p))), kind(iface(p)) == 5)
taxiom printString forall(p, *printString, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printString), cmpf(p.E, as(g, *printString).E), cmpall(iface(p), g)))
func *printString.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SS(r), SErr)
func *printString.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printString.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printString.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printString.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printString(p *printString, q *printString)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintString(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- printBytes ----
immutable printBytes
taxiom printBytes forall(e, Ev, p, *printBytes, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printBytes forall(e, Ev, p, *printBytes, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.E, k))
taxiom printBytes forall(p, *printBytes, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 6)
taxiom printBytes forall(p, *printBytes, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printBytes forall(p, *printBytes, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printBytes forall(p, *printBytes, trig(kind(iface(p))), kind(iface(p)) == 6)
taxiom printBytes forall(p, *printBytes, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printBytes), cmpf(p.E, as(g, *printBytes).E), cmpall(iface(p), g)))
func *printBytes.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *printBytes.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printBytes.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printBytes.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printBytes.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printBytes(p *printBytes, q *printBytes)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintBytes(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- printDoubles ----
immutable printDoubles
taxiom printDoubles forall(e, Ev, p, *printDoubles, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printDoubles forall(e, Ev, p, *printDoubles, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.E, k))
taxiom printDoubles forall(p, *printDoubles, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 7)
taxiom printDoubles forall(p, *printDoubles, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printDoubles forall(p, *printDoubles, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printDoubles forall(p, *printDoubles, trig(kind(iface(p))), kind(iface(p)) == 7)
taxiom printDoubles forall(p, *printDoubles, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printDoubles), cmpf(p.E, as(g, *printDoubles).E), cmpall(iface(p), g)))
func *printDoubles.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SD(r[k]))
func *printDoubles.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printDoubles.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printDoubles.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printDoubles.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printDoubles(p *printDoubles, q *printDoubles)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintDoubles(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- printInts ----
immutable printInts
taxiom printInts forall(e, Ev, p, *printInts, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printInts forall(e, Ev, p, *printInts, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.E, k))
taxiom printInts forall(p, *printInts, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 8)
taxiom printInts forall(p, *printInts, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printInts forall(p, *printInts, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printInts forall(p, *printInts, trig(kind(iface(p))), kind(iface(p)) == 8)
taxiom printInts forall(p, *printInts, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printInts), cmpf(p.E, as(g, *printInts).E), cmpall(iface(p), g)))
func *printInts.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *printInts.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printInts.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printInts.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printInts.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printInts(p *printInts, q *printInts)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintInts(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- printUints ----
immutable printUints
taxiom printUints forall(e, Ev, p, *printUints, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printUints forall(e, Ev, p, *printUints, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.E, k))
taxiom printUints forall(p, *printUints, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 9)
taxiom printUints forall(p, *printUints, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printUints forall(p, *printUints, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printUints forall(p, *printUints, trig(kind(iface(p))), kind(iface(p)) == 9)
taxiom printUints forall(p, *printUints, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printUints), cmpf(p.E, as(g, *printUints).E), cmpall(iface(p), g)))
func *printUints.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *printUints.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printUints.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printUints.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printUints.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printUints(p *printUints, q *printUints)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintUints(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- printBools ----
immutable printBools
taxiom printBools forall(e, Ev, p, *printBools, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printBools forall(e, Ev, p, *printBools, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.E, k))
taxiom printBools forall(p, *printBools, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 10)
taxiom printBools forall(p, *printBools, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printBools forall(p, *printBools, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printBools forall(p, *printBools, trig(kind(iface(p))), kind(iface(p)) == 10)
taxiom printBools forall(p, *printBools, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printBools), cmpf(p.E, as(g, *printBools).E), cmpall(iface(p), g)))
func *printBools.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SB(r[k]))
func *printBools.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printBools.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printBools.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printBools.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printBools(p *printBools, q *printBools)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintBools(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- printStrings ----
immutable printStrings
taxiom printStrings forall(e, Ev, p, *printStrings, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printStrings forall(e, Ev, p, *printStrings, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.E, k))
taxiom printStrings forall(p, *printStrings, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 11)
taxiom printStrings forall(p, *printStrings, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printStrings forall(p, *printStrings, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printStrings forall(p, *printStrings, trig(kind(iface(p))), kind(iface(p)) == 11)
taxiom printStrings forall(p, *printStrings, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printStrings), cmpf(p.E, as(g, *printStrings).E), cmpall(iface(p), g)))
func *printStrings.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SS(r[k]))
func *printStrings.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printStrings.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printStrings.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printStrings.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printStrings(p *printStrings, q *printStrings)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintStrings(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- printListOfBytes ----
immutable printListOfBytes
taxiom printListOfBytes forall(e, Ev, p, *printListOfBytes, trig(sem(e, iface(p))), sem(e, iface(p)) == sem(e, p.E))
taxiom printListOfBytes forall(e, Ev, p, *printListOfBytes, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.E, k))
taxiom printListOfBytes forall(e, Ev, p, *printListOfBytes, k, int, j, int, trig(el2(e, iface(p), k, j)), el2(e, iface(p), k, j) == el2(e, p.E, k, j))
taxiom printListOfBytes forall(p, *printListOfBytes, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.E != nil && valid(p.E) && kind(p.E) == 12)
taxiom printListOfBytes forall(p, *printListOfBytes, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom printListOfBytes forall(p, *printListOfBytes, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom printListOfBytes forall(p, *printListOfBytes, trig(kind(iface(p))), kind(iface(p)) == 12)
taxiom printListOfBytes forall(p, *printListOfBytes, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *printListOfBytes), cmpf(p.E, as(g, *printListOfBytes).E), cmpall(iface(p), g)))
func *printListOfBytes.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SL(len(r[k])))
  ensures err == nil ==> forall(k, int, j, int, trig(r[k][j]), trig(el2(env, iface(this), k, j)), 0 <= k && k < len(r) && 0 <= j && j < len(r[k]) ==> el2(env, iface(this), k, j) == SI(r[k][j]))
func *printListOfBytes.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *printListOfBytes.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *printListOfBytes.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *printListOfBytes.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_printListOfBytes(p *printListOfBytes, q *printListOfBytes)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.E, q.E) == 0-cmpf(q.E, p.E)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func PrintListOfBytes(e1) (r)
  prop C08
  requires e1 != nil && valid(e1)
  ensures r != nil && valid(r) && semeq(e1, r)

// ---- elemDoubles ----
immutable elemDoubles
taxiom elemDoubles forall(e, Ev, p, *elemDoubles, trig(sem(e, iface(p))), sem(e, iface(p)) == elemSem(sem(e, p.List), sem(e, p.Index), el(e, p.List, norm(ival(sem(e, p.Index)), llen(sem(e, p.List))))))
taxiom elemDoubles forall(p, *elemDoubles, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 7 && p.Index != nil && valid(p.Index) && kind(p.Index) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.Index)))
taxiom elemDoubles forall(p, *elemDoubles, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom elemDoubles forall(p, *elemDoubles, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom elemDoubles forall(p, *elemDoubles, trig(kind(iface(p))), kind(iface(p)) == 1)
taxiom elemDoubles forall(p, *elemDoubles, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *elemDoubles), ite(cmpf(p.List, as(g, *elemDoubles).List) != 0, cmpf(p.List, as(g, *elemDoubles).List), cmpf(p.Index, as(g, *elemDoubles).Index)), cmpall(iface(p), g)))
func *elemDoubles.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SD(r), SErr)
func *elemDoubles.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *elemDoubles.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *elemDoubles.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *elemDoubles.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_elemDoubles(p *elemDoubles, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.Index) ==> forall(e, Ev, trig(sem(e, p.Index)), sem(e, p.Index) == semc(p.Index)) && forall(e, Ev, m, int, trig(el(e, p.Index, m)), el(e, p.Index, m) == elc(p.Index, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Index, m, i)), el2(e, p.Index, m, i) == elc2(p.Index, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_elemDoubles(p *elemDoubles, q *elemDoubles)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.Index, q.Index) == 0-cmpf(q.Index, p.Index)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func ElemDoubles(list, n) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires n != nil && valid(n)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == elemSem(sem(e, list), sem(e, n), el(e, list, norm(ival(sem(e, n)), llen(sem(e, list))))))

// ---- rangeDoubles ----
immutable rangeDoubles
taxiom rangeDoubles forall(e, Ev, p, *rangeDoubles, trig(sem(e, iface(p))), sem(e, iface(p)) == rangeSem(sem(e, p.List), sem(e, p.First), sem(e, p.Last)))
taxiom rangeDoubles forall(e, Ev, p, *rangeDoubles, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.List, k+norm(ival(sem(e, p.First)), llen(sem(e, p.List)))))
taxiom rangeDoubles forall(p, *rangeDoubles, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 7 && p.First != nil && valid(p.First) && kind(p.First) == 2 && p.Last != nil && valid(p.Last) && kind(p.Last) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.First)) && (p.hasVariable || !hv(p.Last)))
taxiom rangeDoubles forall(p, *rangeDoubles, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom rangeDoubles forall(p, *rangeDoubles, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom rangeDoubles forall(p, *rangeDoubles, trig(kind(iface(p))), kind(iface(p)) == 7)
taxiom rangeDoubles forall(p, *rangeDoubles, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *rangeDoubles), ite(cmpf(p.List, as(g, *rangeDoubles).List) != 0, cmpf(p.List, as(g, *rangeDoubles).List), ite(cmpf(p.First, as(g, *rangeDoubles).First) != 0, cmpf(p.First, as(g, *rangeDoubles).First), cmpf(p.Last, as(g, *rangeDoubles).Last))), cmpall(iface(p), g)))
func *rangeDoubles.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SD(r[k]))
func *rangeDoubles.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *rangeDoubles.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *rangeDoubles.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *rangeDoubles.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_rangeDoubles(p *rangeDoubles, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.First) ==> forall(e, Ev, trig(sem(e, p.First)), sem(e, p.First) == semc(p.First)) && forall(e, Ev, m, int, trig(el(e, p.First, m)), el(e, p.First, m) == elc(p.First, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.First, m, i)), el2(e, p.First, m, i) == elc2(p.First, m, i))
  requires !hv(p.Last) ==> forall(e, Ev, trig(sem(e, p.Last)), sem(e, p.Last) == semc(p.Last)) && forall(e, Ev, m, int, trig(el(e, p.Last, m)), el(e, p.Last, m) == elc(p.Last, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Last, m, i)), el2(e, p.Last, m, i) == elc2(p.Last, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_rangeDoubles(p *rangeDoubles, q *rangeDoubles)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.First, q.First) == 0-cmpf(q.First, p.First)
  requires cmpf(p.Last, q.Last) == 0-cmpf(q.Last, p.Last)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func RangeDoubles(list, from, to) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires from != nil && valid(from)
  requires to != nil && valid(to)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == rangeSem(sem(e, list), sem(e, from), sem(e, to)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < slen(sem(e, r)) ==> el(e, r, k) == el(e, list, k+norm(ival(sem(e, from)), llen(sem(e, list)))))

ghostdef listOfDouble forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
// ---- listOfDouble ----
immutable listOfDouble
taxiom listOfDouble forall(e, Ev, p, *listOfDouble, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> sem(e, lelem(p, k)) != SErr), SL(len(p.List)), SErr))
taxiom listOfDouble forall(e, Ev, p, *listOfDouble, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.List) ==> el(e, iface(p), k) == sem(e, lelem(p, k)))
taxiom listOfDouble forall(p, *listOfDouble, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> lelem(p, k) != nil && valid(lelem(p, k)) && (p.hasVariable || !hv(lelem(p, k)))))
taxiom listOfDouble forall(p, *listOfDouble, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom listOfDouble forall(p, *listOfDouble, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom listOfDouble forall(p, *listOfDouble, trig(kind(iface(p))), kind(iface(p)) == 7)
taxiom listOfDouble forall(p, *listOfDouble, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *listOfDouble), ite(len(p.List) != len(as(g, *listOfDouble).List), ite(len(p.List) < len(as(g, *listOfDouble).List), 0-1, 1), ite(ldiff(p, payload(g), len(p.List)) == len(p.List), 0, cmpf(lelem(p, ldiff(p, payload(g), len(p.List))), lelem(payload(g), ldiff(p, payload(g), len(p.List)))))), cmpall(iface(p), g)))
func *listOfDouble.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
  inv [i int, res any []float64]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(res) ==> sem(env, lelem(this, k)) == SD(res[k]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SD(r[k]))
func *listOfDouble.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *listOfDouble.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *listOfDouble.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *listOfDouble.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(q, *listOfDouble, k, int, trig(q.List[k]), 0 <= k && k < len(q.List) ==> q.List[k] == lelem(q, k))
  inv [i int, o any []Double]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> cmpf(lelem(this, k), o[k]) == 0)
  inv [i int, o any []Double]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> semeq(lelem(this, k), o[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_listOfDouble(p *listOfDouble, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires forall(m, int, trig(lelem(p, m)), 0 <= m && m < len(p.List) ==> forall(e, Ev, trig(sem(e, lelem(p, m))), sem(e, lelem(p, m)) == semc(lelem(p, m))) && forall(e, Ev, i, int, trig(el(e, lelem(p, m), i)), el(e, lelem(p, m), i) == elc(lelem(p, m), i)))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_listOfDouble(p *listOfDouble, q *listOfDouble)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires forall(m, int, trig(lelem(p, m)), trig(lelem(q, m)), cmpf(lelem(p, m), lelem(q, m)) == 0-cmpf(lelem(q, m), lelem(p, m)))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func NewListOfDouble(v) (r)
  prop C08 C10
  requires forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> v[k] != nil && valid(v[k]))
  inv [i int, b bool]: !b ==> forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  inv [i int]: forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> sem(e, v[k]) != SErr), SL(len(v)), SErr))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), sem(e, r) != SErr && 0 <= k && k < len(v) ==> el(e, r, k) == sem(e, v[k]))

// ---- elemInts ----
immutable elemInts
taxiom elemInts forall(e, Ev, p, *elemInts, trig(sem(e, iface(p))), sem(e, iface(p)) == elemSem(sem(e, p.List), sem(e, p.Index), el(e, p.List, norm(ival(sem(e, p.Index)), llen(sem(e, p.List))))))
taxiom elemInts forall(p, *elemInts, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 8 && p.Index != nil && valid(p.Index) && kind(p.Index) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.Index)))
taxiom elemInts forall(p, *elemInts, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom elemInts forall(p, *elemInts, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom elemInts forall(p, *elemInts, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom elemInts forall(p, *elemInts, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *elemInts), ite(cmpf(p.List, as(g, *elemInts).List) != 0, cmpf(p.List, as(g, *elemInts).List), cmpf(p.Index, as(g, *elemInts).Index)), cmpall(iface(p), g)))
func *elemInts.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *elemInts.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *elemInts.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *elemInts.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *elemInts.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_elemInts(p *elemInts, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.Index) ==> forall(e, Ev, trig(sem(e, p.Index)), sem(e, p.Index) == semc(p.Index)) && forall(e, Ev, m, int, trig(el(e, p.Index, m)), el(e, p.Index, m) == elc(p.Index, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Index, m, i)), el2(e, p.Index, m, i) == elc2(p.Index, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_elemInts(p *elemInts, q *elemInts)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.Index, q.Index) == 0-cmpf(q.Index, p.Index)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func ElemInts(list, n) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires n != nil && valid(n)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == elemSem(sem(e, list), sem(e, n), el(e, list, norm(ival(sem(e, n)), llen(sem(e, list))))))

// ---- rangeInts ----
immutable rangeInts
taxiom rangeInts forall(e, Ev, p, *rangeInts, trig(sem(e, iface(p))), sem(e, iface(p)) == rangeSem(sem(e, p.List), sem(e, p.First), sem(e, p.Last)))
taxiom rangeInts forall(e, Ev, p, *rangeInts, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.List, k+norm(ival(sem(e, p.First)), llen(sem(e, p.List)))))
taxiom rangeInts forall(p, *rangeInts, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 8 && p.First != nil && valid(p.First) && kind(p.First) == 2 && p.Last != nil && valid(p.Last) && kind(p.Last) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.First)) && (p.hasVariable || !hv(p.Last)))
taxiom rangeInts forall(p, *rangeInts, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom rangeInts forall(p, *rangeInts, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom rangeInts forall(p, *rangeInts, trig(kind(iface(p))), kind(iface(p)) == 8)
taxiom rangeInts forall(p, *rangeInts, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *rangeInts), ite(cmpf(p.List, as(g, *rangeInts).List) != 0, cmpf(p.List, as(g, *rangeInts).List), ite(cmpf(p.First, as(g, *rangeInts).First) != 0, cmpf(p.First, as(g, *rangeInts).First), cmpf(p.Last, as(g, *rangeInts).Last))), cmpall(iface(p), g)))
func *rangeInts.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *rangeInts.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *rangeInts.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *rangeInts.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *rangeInts.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_rangeInts(p *rangeInts, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.First) ==> forall(e, Ev, trig(sem(e, p.First)), sem(e, p.First) == semc(p.First)) && forall(e, Ev, m, int, trig(el(e, p.First, m)), el(e, p.First, m) == elc(p.First, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.First, m, i)), el2(e, p.First, m, i) == elc2(p.First, m, i))
  requires !hv(p.Last) ==> forall(e, Ev, trig(sem(e, p.Last)), sem(e, p.Last) == semc(p.Last)) && forall(e, Ev, m, int, trig(el(e, p.Last, m)), el(e, p.Last, m) == elc(p.Last, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Last, m, i)), el2(e, p.Last, m, i) == elc2(p.Last, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_rangeInts(p *rangeInts, q *rangeInts)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.First, q.First) == 0-cmpf(q.First, p.First)
  requires cmpf(p.Last, q.Last) == 0-cmpf(q.Last, p.Last)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func RangeInts(list, from, to) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires from != nil && valid(from)
  requires to != nil && valid(to)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == rangeSem(sem(e, list), sem(e, from), sem(e, to)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < slen(sem(e, r)) ==> el(e, r, k) == el(e, list, k+norm(ival(sem(e, from)), llen(sem(e, list)))))

ghostdef listOfInt forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
// ---- listOfInt ----
immutable listOfInt
taxiom listOfInt forall(e, Ev, p, *listOfInt, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> sem(e, lelem(p, k)) != SErr), SL(len(p.List)), SErr))
taxiom listOfInt forall(e, Ev, p, *listOfInt, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.List) ==> el(e, iface(p), k) == sem(e, lelem(p, k)))
taxiom listOfInt forall(p, *listOfInt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> lelem(p, k) != nil && valid(lelem(p, k)) && (p.hasVariable || !hv(lelem(p, k)))))
taxiom listOfInt forall(p, *listOfInt, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom listOfInt forall(p, *listOfInt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom listOfInt forall(p, *listOfInt, trig(kind(iface(p))), kind(iface(p)) == 8)
taxiom listOfInt forall(p, *listOfInt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *listOfInt), ite(len(p.List) != len(as(g, *listOfInt).List), ite(len(p.List) < len(as(g, *listOfInt).List), 0-1, 1), ite(ldiff(p, payload(g), len(p.List)) == len(p.List), 0, cmpf(lelem(p, ldiff(p, payload(g), len(p.List))), lelem(payload(g), ldiff(p, payload(g), len(p.List)))))), cmpall(iface(p), g)))
func *listOfInt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
  inv [i int, res any []int64]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(res) ==> sem(env, lelem(this, k)) == SI(res[k]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *listOfInt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *listOfInt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *listOfInt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *listOfInt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(q, *listOfInt, k, int, trig(q.List[k]), 0 <= k && k < len(q.List) ==> q.List[k] == lelem(q, k))
  inv [i int, o any []Int]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> cmpf(lelem(this, k), o[k]) == 0)
  inv [i int, o any []Int]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> semeq(lelem(this, k), o[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_listOfInt(p *listOfInt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires forall(m, int, trig(lelem(p, m)), 0 <= m && m < len(p.List) ==> forall(e, Ev, trig(sem(e, lelem(p, m))), sem(e, lelem(p, m)) == semc(lelem(p, m))) && forall(e, Ev, i, int, trig(el(e, lelem(p, m), i)), el(e, lelem(p, m), i) == elc(lelem(p, m), i)))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_listOfInt(p *listOfInt, q *listOfInt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires forall(m, int, trig(lelem(p, m)), trig(lelem(q, m)), cmpf(lelem(p, m), lelem(q, m)) == 0-cmpf(lelem(q, m), lelem(p, m)))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func NewListOfInt(v) (r)
  prop C08 C10
  requires forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> v[k] != nil && valid(v[k]))
  inv [i int, b bool]: !b ==> forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  inv [i int]: forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> sem(e, v[k]) != SErr), SL(len(v)), SErr))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), sem(e, r) != SErr && 0 <= k && k < len(v) ==> el(e, r, k) == sem(e, v[k]))

// ---- elemUints ----
immutable elemUints
taxiom elemUints forall(e, Ev, p, *elemUints, trig(sem(e, iface(p))), sem(e, iface(p)) == elemSem(sem(e, p.List), sem(e, p.Index), el(e, p.List, norm(ival(sem(e, p.Index)), llen(sem(e, p.List))))))
taxiom elemUints forall(p, *elemUints, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 9 && p.Index != nil && valid(p.Index) && kind(p.Index) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.Index)))
taxiom elemUints forall(p, *elemUints, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom elemUints forall(p, *elemUints, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom elemUints forall(p, *elemUints, trig(kind(iface(p))), kind(iface(p)) == 3)
taxiom elemUints forall(p, *elemUints, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *elemUints), ite(cmpf(p.List, as(g, *elemUints).List) != 0, cmpf(p.List, as(g, *elemUints).List), cmpf(p.Index, as(g, *elemUints).Index)), cmpall(iface(p), g)))
func *elemUints.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *elemUints.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *elemUints.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *elemUints.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *elemUints.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_elemUints(p *elemUints, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.Index) ==> forall(e, Ev, trig(sem(e, p.Index)), sem(e, p.Index) == semc(p.Index)) && forall(e, Ev, m, int, trig(el(e, p.Index, m)), el(e, p.Index, m) == elc(p.Index, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Index, m, i)), el2(e, p.Index, m, i) == elc2(p.Index, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_elemUints(p *elemUints, q *elemUints)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.Index, q.Index) == 0-cmpf(q.Index, p.Index)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func ElemUints(list, n) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires n != nil && valid(n)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == elemSem(sem(e, list), sem(e, n), el(e, list, norm(ival(sem(e, n)), llen(sem(e, list))))))

// ---- rangeUints ----
immutable rangeUints
taxiom rangeUints forall(e, Ev, p, *rangeUints, trig(sem(e, iface(p))), sem(e, iface(p)) == rangeSem(sem(e, p.List), sem(e, p.First), sem(e, p.Last)))
taxiom rangeUints forall(e, Ev, p, *rangeUints, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.List, k+norm(ival(sem(e, p.First)), llen(sem(e, p.List)))))
taxiom rangeUints forall(p, *rangeUints, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 9 && p.First != nil && valid(p.First) && kind(p.First) == 2 && p.Last != nil && valid(p.Last) && kind(p.Last) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.First)) && (p.hasVariable || !hv(p.Last)))
taxiom rangeUints forall(p, *rangeUints, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom rangeUints forall(p, *rangeUints, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom rangeUints forall(p, *rangeUints, trig(kind(iface(p))), kind(iface(p)) == 9)
taxiom rangeUints forall(p, *rangeUints, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *rangeUints), ite(cmpf(p.List, as(g, *rangeUints).List) != 0, cmpf(p.List, as(g, *rangeUints).List), ite(cmpf(p.First, as(g, *rangeUints).First) != 0, cmpf(p.First, as(g, *rangeUints).First), cmpf(p.Last, as(g, *rangeUints).Last))), cmpall(iface(p), g)))
func *rangeUints.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *rangeUints.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *rangeUints.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *rangeUints.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *rangeUints.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_rangeUints(p *rangeUints, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.First) ==> forall(e, Ev, trig(sem(e, p.First)), sem(e, p.First) == semc(p.First)) && forall(e, Ev, m, int, trig(el(e, p.First, m)), el(e, p.First, m) == elc(p.First, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.First, m, i)), el2(e, p.First, m, i) == elc2(p.First, m, i))
  requires !hv(p.Last) ==> forall(e, Ev, trig(sem(e, p.Last)), sem(e, p.Last) == semc(p.Last)) && forall(e, Ev, m, int, trig(el(e, p.Last, m)), el(e, p.Last, m) == elc(p.Last, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Last, m, i)), el2(e, p.Last, m, i) == elc2(p.Last, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_rangeUints(p *rangeUints, q *rangeUints)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.First, q.First) == 0-cmpf(q.First, p.First)
  requires cmpf(p.Last, q.Last) == 0-cmpf(q.Last, p.Last)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func RangeUints(list, from, to) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires from != nil && valid(from)
  requires to != nil && valid(to)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == rangeSem(sem(e, list), sem(e, from), sem(e, to)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < slen(sem(e, r)) ==> el(e, r, k) == el(e, list, k+norm(ival(sem(e, from)), llen(sem(e, list)))))

ghostdef listOfUint forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
// ---- listOfUint ----
immutable listOfUint
taxiom listOfUint forall(e, Ev, p, *listOfUint, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> sem(e, lelem(p, k)) != SErr), SL(len(p.List)), SErr))
taxiom listOfUint forall(e, Ev, p, *listOfUint, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.List) ==> el(e, iface(p), k) == sem(e, lelem(p, k)))
taxiom listOfUint forall(p, *listOfUint, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> lelem(p, k) != nil && valid(lelem(p, k)) && (p.hasVariable || !hv(lelem(p, k)))))
taxiom listOfUint forall(p, *listOfUint, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom listOfUint forall(p, *listOfUint, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom listOfUint forall(p, *listOfUint, trig(kind(iface(p))), kind(iface(p)) == 9)
taxiom listOfUint forall(p, *listOfUint, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *listOfUint), ite(len(p.List) != len(as(g, *listOfUint).List), ite(len(p.List) < len(as(g, *listOfUint).List), 0-1, 1), ite(ldiff(p, payload(g), len(p.List)) == len(p.List), 0, cmpf(lelem(p, ldiff(p, payload(g), len(p.List))), lelem(payload(g), ldiff(p, payload(g), len(p.List)))))), cmpall(iface(p), g)))
func *listOfUint.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
  inv [i int, res any []uint64]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(res) ==> sem(env, lelem(this, k)) == SI(res[k]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *listOfUint.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *listOfUint.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *listOfUint.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *listOfUint.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(q, *listOfUint, k, int, trig(q.List[k]), 0 <= k && k < len(q.List) ==> q.List[k] == lelem(q, k))
  inv [i int, o any []Uint]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> cmpf(lelem(this, k), o[k]) == 0)
  inv [i int, o any []Uint]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> semeq(lelem(this, k), o[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_listOfUint(p *listOfUint, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires forall(m, int, trig(lelem(p, m)), 0 <= m && m < len(p.List) ==> forall(e, Ev, trig(sem(e, lelem(p, m))), sem(e, lelem(p, m)) == semc(lelem(p, m))) && forall(e, Ev, i, int, trig(el(e, lelem(p, m), i)), el(e, lelem(p, m), i) == elc(lelem(p, m), i)))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_listOfUint(p *listOfUint, q *listOfUint)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires forall(m, int, trig(lelem(p, m)), trig(lelem(q, m)), cmpf(lelem(p, m), lelem(q, m)) == 0-cmpf(lelem(q, m), lelem(p, m)))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func NewListOfUint(v) (r)
  prop C08 C10
  requires forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> v[k] != nil && valid(v[k]))
  inv [i int, b bool]: !b ==> forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  inv [i int]: forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> sem(e, v[k]) != SErr), SL(len(v)), SErr))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), sem(e, r) != SErr && 0 <= k && k < len(v) ==> el(e, r, k) == sem(e, v[k]))

// ---- elemBools ----
immutable elemBools
taxiom elemBools forall(e, Ev, p, *elemBools, trig(sem(e, iface(p))), sem(e, iface(p)) == elemSem(sem(e, p.List), sem(e, p.Index), el(e, p.List, norm(ival(sem(e, p.Index)), llen(sem(e, p.List))))))
taxiom elemBools forall(p, *elemBools, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 10 && p.Index != nil && valid(p.Index) && kind(p.Index) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.Index)))
taxiom elemBools forall(p, *elemBools, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom elemBools forall(p, *elemBools, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom elemBools forall(p, *elemBools, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom elemBools forall(p, *elemBools, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *elemBools), ite(cmpf(p.List, as(g, *elemBools).List) != 0, cmpf(p.List, as(g, *elemBools).List), cmpf(p.Index, as(g, *elemBools).Index)), cmpall(iface(p), g)))
func *elemBools.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *elemBools.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *elemBools.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *elemBools.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *elemBools.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_elemBools(p *elemBools, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.Index) ==> forall(e, Ev, trig(sem(e, p.Index)), sem(e, p.Index) == semc(p.Index)) && forall(e, Ev, m, int, trig(el(e, p.Index, m)), el(e, p.Index, m) == elc(p.Index, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Index, m, i)), el2(e, p.Index, m, i) == elc2(p.Index, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_elemBools(p *elemBools, q *elemBools)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.Index, q.Index) == 0-cmpf(q.Index, p.Index)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func ElemBools(list, n) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires n != nil && valid(n)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == elemSem(sem(e, list), sem(e, n), el(e, list, norm(ival(sem(e, n)), llen(sem(e, list))))))

// ---- rangeBools ----
immutable rangeBools
taxiom rangeBools forall(e, Ev, p, *rangeBools, trig(sem(e, iface(p))), sem(e, iface(p)) == rangeSem(sem(e, p.List), sem(e, p.First), sem(e, p.Last)))
taxiom rangeBools forall(e, Ev, p, *rangeBools, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.List, k+norm(ival(sem(e, p.First)), llen(sem(e, p.List)))))
taxiom rangeBools forall(p, *rangeBools, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 10 && p.First != nil && valid(p.First) && kind(p.First) == 2 && p.Last != nil && valid(p.Last) && kind(p.Last) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.First)) && (p.hasVariable || !hv(p.Last)))
taxiom rangeBools forall(p, *rangeBools, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom rangeBools forall(p, *rangeBools, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom rangeBools forall(p, *rangeBools, trig(kind(iface(p))), kind(iface(p)) == 10)
taxiom rangeBools forall(p, *rangeBools, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *rangeBools), ite(cmpf(p.List, as(g, *rangeBools).List) != 0, cmpf(p.List, as(g, *rangeBools).List), ite(cmpf(p.First, as(g, *rangeBools).First) != 0, cmpf(p.First, as(g, *rangeBools).First), cmpf(p.Last, as(g, *rangeBools).Last))), cmpall(iface(p), g)))
func *rangeBools.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SB(r[k]))
func *rangeBools.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *rangeBools.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *rangeBools.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *rangeBools.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_rangeBools(p *rangeBools, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.First) ==> forall(e, Ev, trig(sem(e, p.First)), sem(e, p.First) == semc(p.First)) && forall(e, Ev, m, int, trig(el(e, p.First, m)), el(e, p.First, m) == elc(p.First, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.First, m, i)), el2(e, p.First, m, i) == elc2(p.First, m, i))
  requires !hv(p.Last) ==> forall(e, Ev, trig(sem(e, p.Last)), sem(e, p.Last) == semc(p.Last)) && forall(e, Ev, m, int, trig(el(e, p.Last, m)), el(e, p.Last, m) == elc(p.Last, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Last, m, i)), el2(e, p.Last, m, i) == elc2(p.Last, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_rangeBools(p *rangeBools, q *rangeBools)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.First, q.First) == 0-cmpf(q.First, p.First)
  requires cmpf(p.Last, q.Last) == 0-cmpf(q.Last, p.Last)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func RangeBools(list, from, to) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires from != nil && valid(from)
  requires to != nil && valid(to)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == rangeSem(sem(e, list), sem(e, from), sem(e, to)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < slen(sem(e, r)) ==> el(e, r, k) == el(e, list, k+norm(ival(sem(e, from)), llen(sem(e, list)))))

ghostdef listOfBool forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
// ---- listOfBool ----
immutable listOfBool
taxiom listOfBool forall(e, Ev, p, *listOfBool, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> sem(e, lelem(p, k)) != SErr), SL(len(p.List)), SErr))
taxiom listOfBool forall(e, Ev, p, *listOfBool, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.List) ==> el(e, iface(p), k) == sem(e, lelem(p, k)))
taxiom listOfBool forall(p, *listOfBool, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> lelem(p, k) != nil && valid(lelem(p, k)) && (p.hasVariable || !hv(lelem(p, k)))))
taxiom listOfBool forall(p, *listOfBool, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom listOfBool forall(p, *listOfBool, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom listOfBool forall(p, *listOfBool, trig(kind(iface(p))), kind(iface(p)) == 10)
taxiom listOfBool forall(p, *listOfBool, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *listOfBool), ite(len(p.List) != len(as(g, *listOfBool).List), ite(len(p.List) < len(as(g, *listOfBool).List), 0-1, 1), ite(ldiff(p, payload(g), len(p.List)) == len(p.List), 0, cmpf(lelem(p, ldiff(p, payload(g), len(p.List))), lelem(payload(g), ldiff(p, payload(g), len(p.List)))))), cmpall(iface(p), g)))
func *listOfBool.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
  inv [i int, res any []bool]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(res) ==> sem(env, lelem(this, k)) == SB(res[k]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SB(r[k]))
func *listOfBool.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *listOfBool.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *listOfBool.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *listOfBool.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(q, *listOfBool, k, int, trig(q.List[k]), 0 <= k && k < len(q.List) ==> q.List[k] == lelem(q, k))
  inv [i int, o any []Bool]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> cmpf(lelem(this, k), o[k]) == 0)
  inv [i int, o any []Bool]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> semeq(lelem(this, k), o[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_listOfBool(p *listOfBool, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires forall(m, int, trig(lelem(p, m)), 0 <= m && m < len(p.List) ==> forall(e, Ev, trig(sem(e, lelem(p, m))), sem(e, lelem(p, m)) == semc(lelem(p, m))) && forall(e, Ev, i, int, trig(el(e, lelem(p, m), i)), el(e, lelem(p, m), i) == elc(lelem(p, m), i)))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_listOfBool(p *listOfBool, q *listOfBool)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires forall(m, int, trig(lelem(p, m)), trig(lelem(q, m)), cmpf(lelem(p, m), lelem(q, m)) == 0-cmpf(lelem(q, m), lelem(p, m)))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func NewListOfBool(v) (r)
  prop C08 C10
  requires forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> v[k] != nil && valid(v[k]))
  inv [i int, b bool]: !b ==> forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  inv [i int]: forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> sem(e, v[k]) != SErr), SL(len(v)), SErr))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), sem(e, r) != SErr && 0 <= k && k < len(v) ==> el(e, r, k) == sem(e, v[k]))

// ---- elemStrings ----
immutable elemStrings
taxiom elemStrings forall(e, Ev, p, *elemStrings, trig(sem(e, iface(p))), sem(e, iface(p)) == elemSem(sem(e, p.List), sem(e, p.Index), el(e, p.List, norm(ival(sem(e, p.Index)), llen(sem(e, p.List))))))
taxiom elemStrings forall(p, *elemStrings, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 11 && p.Index != nil && valid(p.Index) && kind(p.Index) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.Index)))
taxiom elemStrings forall(p, *elemStrings, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom elemStrings forall(p, *elemStrings, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom elemStrings forall(p, *elemStrings, trig(kind(iface(p))), kind(iface(p)) == 5)
taxiom elemStrings forall(p, *elemStrings, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *elemStrings), ite(cmpf(p.List, as(g, *elemStrings).List) != 0, cmpf(p.List, as(g, *elemStrings).List), cmpf(p.Index, as(g, *elemStrings).Index)), cmpall(iface(p), g)))
func *elemStrings.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SS(r), SErr)
func *elemStrings.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *elemStrings.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *elemStrings.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *elemStrings.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_elemStrings(p *elemStrings, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.Index) ==> forall(e, Ev, trig(sem(e, p.Index)), sem(e, p.Index) == semc(p.Index)) && forall(e, Ev, m, int, trig(el(e, p.Index, m)), el(e, p.Index, m) == elc(p.Index, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Index, m, i)), el2(e, p.Index, m, i) == elc2(p.Index, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_elemStrings(p *elemStrings, q *elemStrings)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.Index, q.Index) == 0-cmpf(q.Index, p.Index)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func ElemStrings(list, n) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires n != nil && valid(n)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == elemSem(sem(e, list), sem(e, n), el(e, list, norm(ival(sem(e, n)), llen(sem(e, list))))))

// ---- rangeStrings ----
immutable rangeStrings
taxiom rangeStrings forall(e, Ev, p, *rangeStrings, trig(sem(e, iface(p))), sem(e, iface(p)) == rangeSem(sem(e, p.List), sem(e, p.First), sem(e, p.Last)))
taxiom rangeStrings forall(e, Ev, p, *rangeStrings, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.List, k+norm(ival(sem(e, p.First)), llen(sem(e, p.List)))))
taxiom rangeStrings forall(p, *rangeStrings, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 11 && p.First != nil && valid(p.First) && kind(p.First) == 2 && p.Last != nil && valid(p.Last) && kind(p.Last) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.First)) && (p.hasVariable || !hv(p.Last)))
taxiom rangeStrings forall(p, *rangeStrings, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom rangeStrings forall(p, *rangeStrings, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom rangeStrings forall(p, *rangeStrings, trig(kind(iface(p))), kind(iface(p)) == 11)
taxiom rangeStrings forall(p, *rangeStrings, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *rangeStrings), ite(cmpf(p.List, as(g, *rangeStrings).List) != 0, cmpf(p.List, as(g, *rangeStrings).List), ite(cmpf(p.First, as(g, *rangeStrings).First) != 0, cmpf(p.First, as(g, *rangeStrings).First), cmpf(p.Last, as(g, *rangeStrings).Last))), cmpall(iface(p), g)))
func *rangeStrings.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SS(r[k]))
func *rangeStrings.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *rangeStrings.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *rangeStrings.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *rangeStrings.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_rangeStrings(p *rangeStrings, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.First) ==> forall(e, Ev, trig(sem(e, p.First)), sem(e, p.First) == semc(p.First)) && forall(e, Ev, m, int, trig(el(e, p.First, m)), el(e, p.First, m) == elc(p.First, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.First, m, i)), el2(e, p.First, m, i) == elc2(p.First, m, i))
  requires !hv(p.Last) ==> forall(e, Ev, trig(sem(e, p.Last)), sem(e, p.Last) == semc(p.Last)) && forall(e, Ev, m, int, trig(el(e, p.Last, m)), el(e, p.Last, m) == elc(p.Last, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Last, m, i)), el2(e, p.Last, m, i) == elc2(p.Last, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_rangeStrings(p *rangeStrings, q *rangeStrings)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.First, q.First) == 0-cmpf(q.First, p.First)
  requires cmpf(p.Last, q.Last) == 0-cmpf(q.Last, p.Last)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func RangeStrings(list, from, to) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires from != nil && valid(from)
  requires to != nil && valid(to)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == rangeSem(sem(e, list), sem(e, from), sem(e, to)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < slen(sem(e, r)) ==> el(e, r, k) == el(e, list, k+norm(ival(sem(e, from)), llen(sem(e, list)))))

ghostdef listOfString forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
// ---- listOfString ----
immutable listOfString
taxiom listOfString forall(e, Ev, p, *listOfString, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> sem(e, lelem(p, k)) != SErr), SL(len(p.List)), SErr))
taxiom listOfString forall(e, Ev, p, *listOfString, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.List) ==> el(e, iface(p), k) == sem(e, lelem(p, k)))
taxiom listOfString forall(p, *listOfString, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> lelem(p, k) != nil && valid(lelem(p, k)) && (p.hasVariable || !hv(lelem(p, k)))))
taxiom listOfString forall(p, *listOfString, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom listOfString forall(p, *listOfString, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom listOfString forall(p, *listOfString, trig(kind(iface(p))), kind(iface(p)) == 11)
taxiom listOfString forall(p, *listOfString, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *listOfString), ite(len(p.List) != len(as(g, *listOfString).List), ite(len(p.List) < len(as(g, *listOfString).List), 0-1, 1), ite(ldiff(p, payload(g), len(p.List)) == len(p.List), 0, cmpf(lelem(p, ldiff(p, payload(g), len(p.List))), lelem(payload(g), ldiff(p, payload(g), len(p.List)))))), cmpall(iface(p), g)))
func *listOfString.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
  inv [i int, res any []string]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(res) ==> sem(env, lelem(this, k)) == SS(res[k]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SS(r[k]))
func *listOfString.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *listOfString.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *listOfString.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *listOfString.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(q, *listOfString, k, int, trig(q.List[k]), 0 <= k && k < len(q.List) ==> q.List[k] == lelem(q, k))
  inv [i int, o any []String]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> cmpf(lelem(this, k), o[k]) == 0)
  inv [i int, o any []String]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> semeq(lelem(this, k), o[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_listOfString(p *listOfString, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires forall(m, int, trig(lelem(p, m)), 0 <= m && m < len(p.List) ==> forall(e, Ev, trig(sem(e, lelem(p, m))), sem(e, lelem(p, m)) == semc(lelem(p, m))) && forall(e, Ev, i, int, trig(el(e, lelem(p, m), i)), el(e, lelem(p, m), i) == elc(lelem(p, m), i)))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_listOfString(p *listOfString, q *listOfString)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires forall(m, int, trig(lelem(p, m)), trig(lelem(q, m)), cmpf(lelem(p, m), lelem(q, m)) == 0-cmpf(lelem(q, m), lelem(p, m)))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func NewListOfString(v) (r)
  prop C08 C10
  requires forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> v[k] != nil && valid(v[k]))
  inv [i int, b bool]: !b ==> forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  inv [i int]: forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> sem(e, v[k]) != SErr), SL(len(v)), SErr))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), sem(e, r) != SErr && 0 <= k && k < len(v) ==> el(e, r, k) == sem(e, v[k]))

// ---- elemListOfBytes ----
immutable elemListOfBytes
taxiom elemListOfBytes forall(e, Ev, p, *elemListOfBytes, trig(sem(e, iface(p))), sem(e, iface(p)) == elemSem(sem(e, p.List), sem(e, p.Index), el(e, p.List, norm(ival(sem(e, p.Index)), llen(sem(e, p.List))))))
taxiom elemListOfBytes forall(e, Ev, p, *elemListOfBytes, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el2(e, p.List, norm(ival(sem(e, p.Index)), llen(sem(e, p.List))), k))
taxiom elemListOfBytes forall(p, *elemListOfBytes, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 12 && p.Index != nil && valid(p.Index) && kind(p.Index) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.Index)))
taxiom elemListOfBytes forall(p, *elemListOfBytes, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom elemListOfBytes forall(p, *elemListOfBytes, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom elemListOfBytes forall(p, *elemListOfBytes, trig(kind(iface(p))), kind(iface(p)) == 6)
taxiom elemListOfBytes forall(p, *elemListOfBytes, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *elemListOfBytes), ite(cmpf(p.List, as(g, *elemListOfBytes).List) != 0, cmpf(p.List, as(g, *elemListOfBytes).List), cmpf(p.Index, as(g, *elemListOfBytes).Index)), cmpall(iface(p), g)))
func *elemListOfBytes.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *elemListOfBytes.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *elemListOfBytes.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *elemListOfBytes.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *elemListOfBytes.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_elemListOfBytes(p *elemListOfBytes, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.Index) ==> forall(e, Ev, trig(sem(e, p.Index)), sem(e, p.Index) == semc(p.Index)) && forall(e, Ev, m, int, trig(el(e, p.Index, m)), el(e, p.Index, m) == elc(p.Index, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Index, m, i)), el2(e, p.Index, m, i) == elc2(p.Index, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
lemma antisym_elemListOfBytes(p *elemListOfBytes, q *elemListOfBytes)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.Index, q.Index) == 0-cmpf(q.Index, p.Index)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func ElemListOfBytes(list, n) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires n != nil && valid(n)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == elemSem(sem(e, list), sem(e, n), el(e, list, norm(ival(sem(e, n)), llen(sem(e, list))))))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < slen(sem(e, r)) ==> el(e, r, k) == el2(e, list, norm(ival(sem(e, n)), llen(sem(e, list))), k))

// ---- rangeListOfBytes ----
immutable rangeListOfBytes
taxiom rangeListOfBytes forall(e, Ev, p, *rangeListOfBytes, trig(sem(e, iface(p))), sem(e, iface(p)) == rangeSem(sem(e, p.List), sem(e, p.First), sem(e, p.Last)))
taxiom rangeListOfBytes forall(e, Ev, p, *rangeListOfBytes, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.List, k+norm(ival(sem(e, p.First)), llen(sem(e, p.List)))))
taxiom rangeListOfBytes forall(e, Ev, p, *rangeListOfBytes, k, int, j, int, trig(el2(e, iface(p), k, j)), el2(e, iface(p), k, j) == el2(e, p.List, k+norm(ival(sem(e, p.First)), llen(sem(e, p.List))), j))
taxiom rangeListOfBytes forall(p, *rangeListOfBytes, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.List != nil && valid(p.List) && kind(p.List) == 12 && p.First != nil && valid(p.First) && kind(p.First) == 2 && p.Last != nil && valid(p.Last) && kind(p.Last) == 2 && (p.hasVariable || !hv(p.List)) && (p.hasVariable || !hv(p.First)) && (p.hasVariable || !hv(p.Last)))
taxiom rangeListOfBytes forall(p, *rangeListOfBytes, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom rangeListOfBytes forall(p, *rangeListOfBytes, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom rangeListOfBytes forall(p, *rangeListOfBytes, trig(kind(iface(p))), kind(iface(p)) == 12)
taxiom rangeListOfBytes forall(p, *rangeListOfBytes, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *rangeListOfBytes), ite(cmpf(p.List, as(g, *rangeListOfBytes).List) != 0, cmpf(p.List, as(g, *rangeListOfBytes).List), ite(cmpf(p.First, as(g, *rangeListOfBytes).First) != 0, cmpf(p.First, as(g, *rangeListOfBytes).First), cmpf(p.Last, as(g, *rangeListOfBytes).Last))), cmpall(iface(p), g)))
func *rangeListOfBytes.Eval(this) (r, err)
  prop C09 C08
  requires this != nil && valid(iface(this))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SL(len(r[k])))
  ensures err == nil ==> forall(k, int, j, int, trig(r[k][j]), trig(el2(env, iface(this), k, j)), 0 <= k && k < len(r) && 0 <= j && j < len(r[k]) ==> el2(env, iface(this), k, j) == SI(r[k][j]))
func *rangeListOfBytes.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *rangeListOfBytes.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *rangeListOfBytes.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *rangeListOfBytes.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_rangeListOfBytes(p *rangeListOfBytes, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  requires !hv(p.First) ==> forall(e, Ev, trig(sem(e, p.First)), sem(e, p.First) == semc(p.First)) && forall(e, Ev, m, int, trig(el(e, p.First, m)), el(e, p.First, m) == elc(p.First, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.First, m, i)), el2(e, p.First, m, i) == elc2(p.First, m, i))
  requires !hv(p.Last) ==> forall(e, Ev, trig(sem(e, p.Last)), sem(e, p.Last) == semc(p.Last)) && forall(e, Ev, m, int, trig(el(e, p.Last, m)), el(e, p.Last, m) == elc(p.Last, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Last, m, i)), el2(e, p.Last, m, i) == elc2(p.Last, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
  ensures 0 <= k && k < slen(sem(e1, iface(p))) && 0 <= j && j < slen(el(e1, iface(p), k)) ==> el2(e1, iface(p), k, j) == el2(e2, iface(p), k, j)
lemma antisym_rangeListOfBytes(p *rangeListOfBytes, q *rangeListOfBytes)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  requires cmpf(p.First, q.First) == 0-cmpf(q.First, p.First)
  requires cmpf(p.Last, q.Last) == 0-cmpf(q.Last, p.Last)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func RangeListOfBytes(list, from, to) (r)
  prop C09 C08
  requires list != nil && valid(list)
  requires from != nil && valid(from)
  requires to != nil && valid(to)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == rangeSem(sem(e, list), sem(e, from), sem(e, to)))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < slen(sem(e, r)) ==> el(e, r, k) == el(e, list, k+norm(ival(sem(e, from)), llen(sem(e, list)))))

ghostdef listOfBytes forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
// ---- listOfBytes ----
immutable listOfBytes
taxiom listOfBytes forall(e, Ev, p, *listOfBytes, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> sem(e, lelem(p, k)) != SErr), SL(len(p.List)), SErr))
taxiom listOfBytes forall(e, Ev, p, *listOfBytes, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.List) ==> el(e, iface(p), k) == sem(e, lelem(p, k)))
taxiom listOfBytes forall(e, Ev, p, *listOfBytes, k, int, j, int, trig(el2(e, iface(p), k, j)), 0 <= k && k < len(p.List) ==> el2(e, iface(p), k, j) == el(e, lelem(p, k), j))
taxiom listOfBytes forall(p, *listOfBytes, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> lelem(p, k) != nil && valid(lelem(p, k)) && (p.hasVariable || !hv(lelem(p, k)))))
taxiom listOfBytes forall(p, *listOfBytes, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom listOfBytes forall(p, *listOfBytes, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom listOfBytes forall(p, *listOfBytes, trig(kind(iface(p))), kind(iface(p)) == 12)
taxiom listOfBytes forall(p, *listOfBytes, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *listOfBytes), ite(len(p.List) != len(as(g, *listOfBytes).List), ite(len(p.List) < len(as(g, *listOfBytes).List), 0-1, 1), ite(ldiff(p, payload(g), len(p.List)) == len(p.List), 0, cmpf(lelem(p, ldiff(p, payload(g), len(p.List))), lelem(payload(g), ldiff(p, payload(g), len(p.List)))))), cmpall(iface(p), g)))
func *listOfBytes.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))
  inv [i int, res any [][]byte]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(res) ==> sem(env, lelem(this, k)) == SL(len(res[k])))
  inv [i int, res any [][]byte]: forall(k, int, j, int, trig(el(env, lelem(this, k), j)), 0 <= k && k < i && k < len(res) && 0 <= j && j < len(res[k]) ==> el(env, lelem(this, k), j) == SI(res[k][j]))
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SL(len(r[k])))
  ensures err == nil ==> forall(k, int, j, int, trig(r[k][j]), trig(el2(env, iface(this), k, j)), 0 <= k && k < len(r) && 0 <= j && j < len(r[k]) ==> el2(env, iface(this), k, j) == SI(r[k][j]))
func *listOfBytes.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *listOfBytes.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *listOfBytes.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *listOfBytes.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  assumes forall(q, *listOfBytes, k, int, trig(q.List[k]), 0 <= k && k < len(q.List) ==> q.List[k] == lelem(q, k))
  inv [i int, o any []Bytes]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> cmpf(lelem(this, k), o[k]) == 0)
  inv [i int, o any []Bytes]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> semeq(lelem(this, k), o[k]))
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_listOfBytes(p *listOfBytes, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires forall(m, int, trig(lelem(p, m)), 0 <= m && m < len(p.List) ==> forall(e, Ev, trig(sem(e, lelem(p, m))), sem(e, lelem(p, m)) == semc(lelem(p, m))) && forall(e, Ev, i, int, trig(el(e, lelem(p, m), i)), el(e, lelem(p, m), i) == elc(lelem(p, m), i)))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)
  ensures 0 <= k && k < slen(sem(e1, iface(p))) && 0 <= j && j < slen(el(e1, iface(p), k)) ==> el2(e1, iface(p), k, j) == el2(e2, iface(p), k, j)
lemma antisym_listOfBytes(p *listOfBytes, q *listOfBytes)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires forall(m, int, trig(lelem(p, m)), trig(lelem(q, m)), cmpf(lelem(p, m), lelem(q, m)) == 0-cmpf(lelem(q, m), lelem(p, m)))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func NewListOfBytes(v) (r)
  prop C08 C10
  requires forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> v[k] != nil && valid(v[k]))
  inv [i int, b bool]: !b ==> forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  inv [i int]: forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> sem(e, v[k]) != SErr), SL(len(v)), SErr))
  ensures forall(e, Ev, k, int, trig(el(e, r, k)), sem(e, r) != SErr && 0 <= k && k < len(v) ==> el(e, r, k) == sem(e, v[k]))

smt {
(define-fun elemSem ((l Sem) (i Sem) (x Sem)) Sem (ite (and (isL l) (isI i) (> (llen l) 0) (< (norm (ival i) (llen l)) (llen l))) x SErr))
(define-fun rangeSem ((l Sem) (i Sem) (j Sem)) Sem (ite (and (isL l) (isI i) (isI j) (> (llen l) 0) (<= (norm (ival i) (llen l)) (norm (ival j) (llen l))) (<= (norm (ival j) (llen l)) (llen l))) (SL (- (norm (ival j) (llen l)) (norm (ival i) (llen l)))) SErr))
}

// ---- and ----
immutable and
taxiom and forall(e, Ev, p, *and, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SB(true), sem(e, p.V2), ite(sem(e, p.V1) == SErr, SErr, SB(false))))
taxiom and forall(p, *and, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 4 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 4 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom and forall(p, *and, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom and forall(p, *and, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom and forall(p, *and, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom and forall(p, *and, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *and), ite(cmpf(p.V1, as(g, *and).V1) != 0, cmpf(p.V1, as(g, *and).V1), cmpf(p.V2, as(g, *and).V2)), cmpall(iface(p), g)))
func *and.Eval(this) (r, err)
  prop C07 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *and.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *and.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *and.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *and.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_and(p *and, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_and(p *and, q *and)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

// ---- or ----
immutable or
taxiom or forall(e, Ev, p, *or, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SB(true), SB(true), sem(e, p.V2)))
taxiom or forall(p, *or, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 4 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 4 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom or forall(p, *or, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom or forall(p, *or, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom or forall(p, *or, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom or forall(p, *or, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *or), ite(cmpf(p.V1, as(g, *or).V1) != 0, cmpf(p.V1, as(g, *or).V1), cmpf(p.V2, as(g, *or).V2)), cmpall(iface(p), g)))
func *or.Eval(this) (r, err)
  prop C07 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *or.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *or.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *or.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *or.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_or(p *or, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_or(p *or, q *or)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

// ---- not ----
immutable not
taxiom not forall(e, Ev, p, *not, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.V1) == SB(true), SB(false), SB(true)))
taxiom not forall(p, *not, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 4 && (p.hasVariable || !hv(p.V1)))
taxiom not forall(p, *not, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom not forall(p, *not, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom not forall(p, *not, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom not forall(p, *not, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *not), cmpf(p.V1, as(g, *not).V1), cmpall(iface(p), g)))
func *not.Eval(this) (r, err)
  prop C07 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *not.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *not.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *not.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *not.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_not(p *not, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_not(p *not, q *not)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func And(v1, v2) (r)
  prop C07
  requires v1 != nil && valid(v1)
  requires v2 != nil && valid(v2)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), T(e, r) <==> T(e, v1) && T(e, v2))

func Or(v1, v2) (r)
  prop C07
  requires v1 != nil && valid(v1)
  requires v2 != nil && valid(v2)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), T(e, r) <==> T(e, v1) || T(e, v2))

func Not(v1) (r)
  prop C07
  requires v1 != nil && valid(v1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), T(e, r) <==> !T(e, v1))

func IsFalse(fn) (r)
  prop C07
  requires fn != nil && valid(fn)
  ensures r ==> forall(e, Ev, trig(sem(e, fn)), !T(e, fn))
func IsTrue(fn) (r)
  prop C07
  requires fn != nil && valid(fn)
  ensures r ==> forall(e, Ev, trig(sem(e, fn)), T(e, fn))

// ---- toLower ----
immutable toLower
taxiom toLower forall(e, Ev, p, *toLower, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isS(sem(e, p.S)), SS(tolower(sval(sem(e, p.S)))), SErr))
taxiom toLower forall(p, *toLower, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.S != nil && valid(p.S) && kind(p.S) == 5 && (p.hasVariable || !hv(p.S)))
taxiom toLower forall(p, *toLower, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom toLower forall(p, *toLower, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom toLower forall(p, *toLower, trig(kind(iface(p))), kind(iface(p)) == 5)
taxiom toLower forall(p, *toLower, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *toLower), cmpf(p.S, as(g, *toLower).S), cmpall(iface(p), g)))
func *toLower.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SS(r), SErr)
func *toLower.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *toLower.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *toLower.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *toLower.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_toLower(p *toLower, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.S) ==> forall(e, Ev, trig(sem(e, p.S)), sem(e, p.S) == semc(p.S)) && forall(e, Ev, m, int, trig(el(e, p.S, m)), el(e, p.S, m) == elc(p.S, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.S, m, i)), el2(e, p.S, m, i) == elc2(p.S, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_toLower(p *toLower, q *toLower)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.S, q.S) == 0-cmpf(q.S, p.S)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func ToLower(s1) (r)
  prop C10 C08
  requires s1 != nil && valid(s1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isS(sem(e, s1)), SS(tolower(sval(sem(e, s1)))), SErr))

// ---- toUpper ----
immutable toUpper
taxiom toUpper forall(e, Ev, p, *toUpper, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isS(sem(e, p.S)), SS(toupper(sval(sem(e, p.S)))), SErr))
taxiom toUpper forall(p, *toUpper, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.S != nil && valid(p.S) && kind(p.S) == 5 && (p.hasVariable || !hv(p.S)))
taxiom toUpper forall(p, *toUpper, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom toUpper forall(p, *toUpper, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom toUpper forall(p, *toUpper, trig(kind(iface(p))), kind(iface(p)) == 5)
taxiom toUpper forall(p, *toUpper, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *toUpper), cmpf(p.S, as(g, *toUpper).S), cmpall(iface(p), g)))
func *toUpper.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SS(r), SErr)
func *toUpper.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *toUpper.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *toUpper.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *toUpper.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_toUpper(p *toUpper, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.S) ==> forall(e, Ev, trig(sem(e, p.S)), sem(e, p.S) == semc(p.S)) && forall(e, Ev, m, int, trig(el(e, p.S, m)), el(e, p.S, m) == elc(p.S, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.S, m, i)), el2(e, p.S, m, i) == elc2(p.S, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_toUpper(p *toUpper, q *toUpper)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.S, q.S) == 0-cmpf(q.S, p.S)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func ToUpper(s1) (r)
  prop C10 C08
  requires s1 != nil && valid(s1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isS(sem(e, s1)), SS(toupper(sval(sem(e, s1)))), SErr))

// ---- contains ----
immutable contains
taxiom contains forall(e, Ev, p, *contains, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isS(sem(e, p.S)) && isS(sem(e, p.Substr)), SB(scontains(sval(sem(e, p.S)), sval(sem(e, p.Substr)))), SErr))
taxiom contains forall(p, *contains, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.S != nil && valid(p.S) && kind(p.S) == 5 && p.Substr != nil && valid(p.Substr) && kind(p.Substr) == 5 && (p.hasVariable || !hv(p.S)) && (p.hasVariable || !hv(p.Substr)))
taxiom contains forall(p, *contains, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom contains forall(p, *contains, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom contains forall(p, *contains, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom contains forall(p, *contains, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *contains), ite(cmpf(p.S, as(g, *contains).S) != 0, cmpf(p.S, as(g, *contains).S), cmpf(p.Substr, as(g, *contains).Substr)), cmpall(iface(p), g)))
func *contains.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *contains.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *contains.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *contains.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *contains.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_contains(p *contains, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.S) ==> forall(e, Ev, trig(sem(e, p.S)), sem(e, p.S) == semc(p.S)) && forall(e, Ev, m, int, trig(el(e, p.S, m)), el(e, p.S, m) == elc(p.S, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.S, m, i)), el2(e, p.S, m, i) == elc2(p.S, m, i))
  requires !hv(p.Substr) ==> forall(e, Ev, trig(sem(e, p.Substr)), sem(e, p.Substr) == semc(p.Substr)) && forall(e, Ev, m, int, trig(el(e, p.Substr, m)), el(e, p.Substr, m) == elc(p.Substr, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Substr, m, i)), el2(e, p.Substr, m, i) == elc2(p.Substr, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_contains(p *contains, q *contains)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.S, q.S) == 0-cmpf(q.S, p.S)
  requires cmpf(p.Substr, q.Substr) == 0-cmpf(q.Substr, p.Substr)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func Contains(s1, substr1) (r)
  prop C10 C08
  requires s1 != nil && valid(s1)
  requires substr1 != nil && valid(substr1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isS(sem(e, s1)) && isS(sem(e, substr1)), SB(scontains(sval(sem(e, s1)), sval(sem(e, substr1)))), SErr))

// ---- equalFold ----
immutable equalFold
taxiom equalFold forall(e, Ev, p, *equalFold, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isS(sem(e, p.S)) && isS(sem(e, p.T)), SB(sequalfold(sval(sem(e, p.S)), sval(sem(e, p.T)))), SErr))
taxiom equalFold forall(p, *equalFold, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.S != nil && valid(p.S) && kind(p.S) == 5 && p.T != nil && valid(p.T) && kind(p.T) == 5 && (p.hasVariable || !hv(p.S)) && (p.hasVariable || !hv(p.T)))
taxiom equalFold forall(p, *equalFold, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom equalFold forall(p, *equalFold, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom equalFold forall(p, *equalFold, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom equalFold forall(p, *equalFold, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *equalFold), ite(cmpf(p.S, as(g, *equalFold).S) != 0, cmpf(p.S, as(g, *equalFold).S), cmpf(p.T, as(g, *equalFold).T)), cmpall(iface(p), g)))
func *equalFold.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *equalFold.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *equalFold.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *equalFold.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *equalFold.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_equalFold(p *equalFold, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.S) ==> forall(e, Ev, trig(sem(e, p.S)), sem(e, p.S) == semc(p.S)) && forall(e, Ev, m, int, trig(el(e, p.S, m)), el(e, p.S, m) == elc(p.S, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.S, m, i)), el2(e, p.S, m, i) == elc2(p.S, m, i))
  requires !hv(p.T) ==> forall(e, Ev, trig(sem(e, p.T)), sem(e, p.T) == semc(p.T)) && forall(e, Ev, m, int, trig(el(e, p.T, m)), el(e, p.T, m) == elc(p.T, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.T, m, i)), el2(e, p.T, m, i) == elc2(p.T, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_equalFold(p *equalFold, q *equalFold)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.S, q.S) == 0-cmpf(q.S, p.S)
  requires cmpf(p.T, q.T) == 0-cmpf(q.T, p.T)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func EqualFold(s1, t1) (r)
  prop C10 C08
  requires s1 != nil && valid(s1)
  requires t1 != nil && valid(t1)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isS(sem(e, s1)) && isS(sem(e, t1)), SB(sequalfold(sval(sem(e, s1)), sval(sem(e, t1)))), SErr))

// ---- hasPrefix ----
immutable hasPrefix
taxiom hasPrefix forall(e, Ev, p, *hasPrefix, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isS(sem(e, p.V1)) && isS(sem(e, p.V2)), SB(shasprefix(sval(sem(e, p.V1)), sval(sem(e, p.V2)))), SErr))
taxiom hasPrefix forall(p, *hasPrefix, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 5 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 5 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom hasPrefix forall(p, *hasPrefix, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom hasPrefix forall(p, *hasPrefix, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom hasPrefix forall(p, *hasPrefix, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom hasPrefix forall(p, *hasPrefix, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *hasPrefix), ite(cmpf(p.V1, as(g, *hasPrefix).V1) != 0, cmpf(p.V1, as(g, *hasPrefix).V1), cmpf(p.V2, as(g, *hasPrefix).V2)), cmpall(iface(p), g)))
func *hasPrefix.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *hasPrefix.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *hasPrefix.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *hasPrefix.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *hasPrefix.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_hasPrefix(p *hasPrefix, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_hasPrefix(p *hasPrefix, q *hasPrefix)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func HasPrefix(v11, v21) (r)
  prop C10 C08
  requires v11 != nil && valid(v11)
  requires v21 != nil && valid(v21)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isS(sem(e, v11)) && isS(sem(e, v21)), SB(shasprefix(sval(sem(e, v11)), sval(sem(e, v21)))), SErr))

// ---- hasSuffix ----
immutable hasSuffix
taxiom hasSuffix forall(e, Ev, p, *hasSuffix, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isS(sem(e, p.V1)) && isS(sem(e, p.V2)), SB(shassuffix(sval(sem(e, p.V1)), sval(sem(e, p.V2)))), SErr))
taxiom hasSuffix forall(p, *hasSuffix, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.V1 != nil && valid(p.V1) && kind(p.V1) == 5 && p.V2 != nil && valid(p.V2) && kind(p.V2) == 5 && (p.hasVariable || !hv(p.V1)) && (p.hasVariable || !hv(p.V2)))
taxiom hasSuffix forall(p, *hasSuffix, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom hasSuffix forall(p, *hasSuffix, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom hasSuffix forall(p, *hasSuffix, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom hasSuffix forall(p, *hasSuffix, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *hasSuffix), ite(cmpf(p.V1, as(g, *hasSuffix).V1) != 0, cmpf(p.V1, as(g, *hasSuffix).V1), cmpf(p.V2, as(g, *hasSuffix).V2)), cmpall(iface(p), g)))
func *hasSuffix.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *hasSuffix.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *hasSuffix.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *hasSuffix.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *hasSuffix.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_hasSuffix(p *hasSuffix, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.V1) ==> forall(e, Ev, trig(sem(e, p.V1)), sem(e, p.V1) == semc(p.V1)) && forall(e, Ev, m, int, trig(el(e, p.V1, m)), el(e, p.V1, m) == elc(p.V1, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V1, m, i)), el2(e, p.V1, m, i) == elc2(p.V1, m, i))
  requires !hv(p.V2) ==> forall(e, Ev, trig(sem(e, p.V2)), sem(e, p.V2) == semc(p.V2)) && forall(e, Ev, m, int, trig(el(e, p.V2, m)), el(e, p.V2, m) == elc(p.V2, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.V2, m, i)), el2(e, p.V2, m, i) == elc2(p.V2, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_hasSuffix(p *hasSuffix, q *hasSuffix)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.V1, q.V1) == 0-cmpf(q.V1, p.V1)
  requires cmpf(p.V2, q.V2) == 0-cmpf(q.V2, p.V2)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func HasSuffix(v11, v21) (r)
  prop C10 C08
  requires v11 != nil && valid(v11)
  requires v21 != nil && valid(v21)
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isS(sem(e, v11)) && isS(sem(e, v21)), SB(shassuffix(sval(sem(e, v11)), sval(sem(e, v21)))), SErr))

func !strings.ToLower(s) (r)
  trusted standard library: a function of the string
  ensures r == tolower(s)
func !strings.ToUpper(s) (r)
  trusted standard library: a function of the string
  ensures r == toupper(s)
func !strings.Contains(s, t) (r)
  trusted standard library: a function of the strings
  ensures r == scontains(s, t)
func !strings.EqualFold(s, t) (r)
  trusted standard library: a function of the strings
  ensures r == sequalfold(s, t)
func !strings.HasPrefix(s, t) (r)
  trusted standard library: a function of the strings
  ensures r == shasprefix(s, t)
func !strings.HasSuffix(s, t) (r)
  trusted standard library: a function of the strings
  ensures r == shassuffix(s, t)
func !strings.Compare(s, t) (r)
  trusted standard library: three-way comparison
  ensures r == strcmp(s, t)
func !bytes.Equal(a, b) (r)
  trusted standard library
  ensures r <==> len(a) == len(b) && forall(k, int, trig(a[k]), trig(b[k]), 0 <= k && k < len(a) ==> a[k] == b[k])
func !bytes.Compare(a, b) (r)
  trusted standard library: lexicographic
  ensures exists(d, int, 0 <= d && d <= len(a) && d <= len(b) && forall(k, int, trig(a[k]), trig(b[k]), 0 <= k && k < d ==> a[k] == b[k]) && (d < len(a) && d < len(b) ==> a[d] != b[d]) && r == ite(d == len(a), ite(d == len(b), 0, 0-1), ite(d == len(b), 1, ite(a[d] < b[d], 0-1, 1))))
func !fmt.Printf(format, args) (n, err)
  trusted standard library: prints
  writes al
func !strings.Join(a, sep) (r)
  trusted standard library
  writes al
func !regexp.Compile(e) (r, err)
  trusted standard library
  writes al
  ensures err == nil ==> r != nil && rxOf(r) == e
func !regexp.*Regexp.MatchString(re, s) (r)
  trusted standard library: a function of the expression and the string
  requires re != nil
  ensures r <==> rxm(rxOf(re), s)

// ---- regex ----
immutable regex
taxiom regex forall(e, Ev, p, *regex, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(isS(sem(e, p.S)), SB(rxm(p.expr, sval(sem(e, p.S)))), SErr))
taxiom regex forall(p, *regex, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.S != nil && valid(p.S) && kind(p.S) == 5 && (p.hasVariable || !hv(p.S)) && p.r != nil && rxOf(p.r) == p.expr)
taxiom regex forall(p, *regex, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom regex forall(p, *regex, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom regex forall(p, *regex, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom regex forall(p, *regex, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *regex), ite(strcmp(p.expr, as(g, *regex).expr) != 0, strcmp(p.expr, as(g, *regex).expr), cmpf(p.S, as(g, *regex).S)), cmpall(iface(p), g)))
func *regex.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *regex.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *regex.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *regex.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *regex.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_regex(p *regex, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.S) ==> forall(e, Ev, trig(sem(e, p.S)), sem(e, p.S) == semc(p.S)) && forall(e, Ev, m, int, trig(el(e, p.S, m)), el(e, p.S, m) == elc(p.S, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.S, m, i)), el2(e, p.S, m, i) == elc2(p.S, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_regex(p *regex, q *regex)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.S, q.S) == 0-cmpf(q.S, p.S)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func Regex(expr, input) (r, err)
  prop C10 C08
  requires expr != nil && valid(expr) && input != nil && valid(input)
  uses novar
  ensures err == nil ==> r != nil && valid(r)
  ensures err == nil ==> forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isS(sem(e, input)), SB(rxm(sval(semc(expr)), sval(sem(e, input)))), SErr))

ghostdef inSetInt forall(x, int64, trig(setI(this, x)), trig(has(this.set, x)), setI(this, x) <==> has(this.set, x))
// ---- inSetInt ----
immutable inSetInt
taxiom inSetInt forall(e, Ev, p, *inSetInt, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.Elem) == SErr, SErr, SB(setI(p, ival(sem(e, p.Elem))))))
taxiom inSetInt forall(p, *inSetInt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.Elem != nil && valid(p.Elem) && kind(p.Elem) == 2 && p.List != nil && valid(p.List) && kind(p.List) == 8 && (p.hasVariable || !hv(p.Elem)) && (p.hasVariable || !hv(p.List)) && !hv(p.List) && forall(x, int64, trig(setI(p, x)), setI(p, x) <==> inlistInt(p.List, x)))
taxiom inSetInt forall(p, *inSetInt, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom inSetInt forall(p, *inSetInt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom inSetInt forall(p, *inSetInt, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom inSetInt forall(p, *inSetInt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *inSetInt), ite(cmpf(p.Elem, as(g, *inSetInt).Elem) != 0, cmpf(p.Elem, as(g, *inSetInt).Elem), cmpf(p.List, as(g, *inSetInt).List)), cmpall(iface(p), g)))
func *inSetInt.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(x, int64, trig(setI(this, x)), trig(has(this.set, x)), setI(this, x) <==> has(this.set, x))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *inSetInt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *inSetInt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *inSetInt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *inSetInt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  uses novar novar1
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_inSetInt(p *inSetInt, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.Elem) ==> forall(e, Ev, trig(sem(e, p.Elem)), sem(e, p.Elem) == semc(p.Elem)) && forall(e, Ev, m, int, trig(el(e, p.Elem, m)), el(e, p.Elem, m) == elc(p.Elem, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Elem, m, i)), el2(e, p.Elem, m, i) == elc2(p.Elem, m, i))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_inSetInt(p *inSetInt, q *inSetInt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.Elem, q.Elem) == 0-cmpf(q.Elem, p.Elem)
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

def inlistInt(l, x) = exists(k, int, trig(elc(l, k)), 0 <= k && k < slen(sem(e0, l)) && el(e0, l, k) == SI(x))
func ContainsInt(element, list) (r, err)
  prop C10 C08
  requires element != nil && valid(element) && list != nil && valid(list)
  uses novar novar1
  inv [i int, m any map[int64]struct{}, l any []int64]: forall(k, int, trig(l[k]), 0 <= k && k < i && k < len(l) ==> has(m, l[k]))
  inv [i int, m any map[int64]struct{}, l any []int64]: forall(x, int64, trig(has(m, x)), has(m, x) ==> exists(k, int, 0 <= k && k < i && k < len(l) && l[k] == x))
  ensures err == nil ==> r != nil && valid(r)
  ensures err == nil ==> forall(e, Ev, trig(sem(e, r)), err(e, element) ==> sem(e, r) == SErr)
  ensures err == nil ==> forall(e, Ev, trig(sem(e, r)), !err(e, element) ==> (T(e, r) <==> inlistInt(list, ival(sem(e, element)))))

ghostdef inSetUint forall(x, uint64, trig(setI(this, x)), trig(has(this.set, x)), setI(this, x) <==> has(this.set, x))
// ---- inSetUint ----
immutable inSetUint
taxiom inSetUint forall(e, Ev, p, *inSetUint, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.Elem) == SErr, SErr, SB(setI(p, ival(sem(e, p.Elem))))))
taxiom inSetUint forall(p, *inSetUint, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.Elem != nil && valid(p.Elem) && kind(p.Elem) == 3 && p.List != nil && valid(p.List) && kind(p.List) == 9 && (p.hasVariable || !hv(p.Elem)) && (p.hasVariable || !hv(p.List)) && !hv(p.List) && forall(x, uint64, trig(setI(p, x)), setI(p, x) <==> inlistUint(p.List, x)))
taxiom inSetUint forall(p, *inSetUint, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom inSetUint forall(p, *inSetUint, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom inSetUint forall(p, *inSetUint, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom inSetUint forall(p, *inSetUint, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *inSetUint), ite(cmpf(p.Elem, as(g, *inSetUint).Elem) != 0, cmpf(p.Elem, as(g, *inSetUint).Elem), cmpf(p.List, as(g, *inSetUint).List)), cmpall(iface(p), g)))
func *inSetUint.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(x, uint64, trig(setI(this, x)), trig(has(this.set, x)), setI(this, x) <==> has(this.set, x))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *inSetUint.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *inSetUint.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *inSetUint.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *inSetUint.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  uses novar novar1
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_inSetUint(p *inSetUint, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.Elem) ==> forall(e, Ev, trig(sem(e, p.Elem)), sem(e, p.Elem) == semc(p.Elem)) && forall(e, Ev, m, int, trig(el(e, p.Elem, m)), el(e, p.Elem, m) == elc(p.Elem, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Elem, m, i)), el2(e, p.Elem, m, i) == elc2(p.Elem, m, i))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_inSetUint(p *inSetUint, q *inSetUint)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.Elem, q.Elem) == 0-cmpf(q.Elem, p.Elem)
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

def inlistUint(l, x) = exists(k, int, trig(elc(l, k)), 0 <= k && k < slen(sem(e0, l)) && el(e0, l, k) == SI(x))
func ContainsUint(element, list) (r, err)
  prop C10 C08
  requires element != nil && valid(element) && list != nil && valid(list)
  uses novar novar1
  inv [i int, m any map[uint64]struct{}, l any []uint64]: forall(k, int, trig(l[k]), 0 <= k && k < i && k < len(l) ==> has(m, l[k]))
  inv [i int, m any map[uint64]struct{}, l any []uint64]: forall(x, uint64, trig(has(m, x)), has(m, x) ==> exists(k, int, 0 <= k && k < i && k < len(l) && l[k] == x))
  ensures err == nil ==> r != nil && valid(r)
  ensures err == nil ==> forall(e, Ev, trig(sem(e, r)), err(e, element) ==> sem(e, r) == SErr)
  ensures err == nil ==> forall(e, Ev, trig(sem(e, r)), !err(e, element) ==> (T(e, r) <==> inlistUint(list, ival(sem(e, element)))))

ghostdef inSetString forall(x, string, trig(setS(this, x)), trig(has(this.set, x)), setS(this, x) <==> has(this.set, x))
// ---- inSetString ----
immutable inSetString
taxiom inSetString forall(e, Ev, p, *inSetString, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(sem(e, p.Elem) == SErr, SErr, SB(setS(p, sval(sem(e, p.Elem))))))
taxiom inSetString forall(p, *inSetString, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && p.Elem != nil && valid(p.Elem) && kind(p.Elem) == 5 && p.List != nil && valid(p.List) && kind(p.List) == 11 && (p.hasVariable || !hv(p.Elem)) && (p.hasVariable || !hv(p.List)) && !hv(p.List) && forall(x, string, trig(setS(p, x)), setS(p, x) <==> inlistString(p.List, x)))
taxiom inSetString forall(p, *inSetString, trig(hv(iface(p))), hv(iface(p)) <==> p.hasVariable)
taxiom inSetString forall(p, *inSetString, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom inSetString forall(p, *inSetString, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom inSetString forall(p, *inSetString, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *inSetString), ite(cmpf(p.Elem, as(g, *inSetString).Elem) != 0, cmpf(p.Elem, as(g, *inSetString).Elem), cmpf(p.List, as(g, *inSetString).List)), cmpall(iface(p), g)))
func *inSetString.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  assumes forall(x, string, trig(setS(this, x)), trig(has(this.set, x)), setS(this, x) <==> has(this.set, x))
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *inSetString.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *inSetString.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *inSetString.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *inSetString.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  uses novar novar1
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma const_inSetString(p *inSetString, e1 Ev, e2 Ev, k int, j int)
  prop C08
  requires p != nil && valid(iface(p)) && !hv(iface(p))
  requires !hv(p.Elem) ==> forall(e, Ev, trig(sem(e, p.Elem)), sem(e, p.Elem) == semc(p.Elem)) && forall(e, Ev, m, int, trig(el(e, p.Elem, m)), el(e, p.Elem, m) == elc(p.Elem, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.Elem, m, i)), el2(e, p.Elem, m, i) == elc2(p.Elem, m, i))
  requires !hv(p.List) ==> forall(e, Ev, trig(sem(e, p.List)), sem(e, p.List) == semc(p.List)) && forall(e, Ev, m, int, trig(el(e, p.List, m)), el(e, p.List, m) == elc(p.List, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.List, m, i)), el2(e, p.List, m, i) == elc2(p.List, m, i))
  ensures sem(e1, iface(p)) == sem(e2, iface(p))
lemma antisym_inSetString(p *inSetString, q *inSetString)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  requires cmpf(p.Elem, q.Elem) == 0-cmpf(q.Elem, p.Elem)
  requires cmpf(p.List, q.List) == 0-cmpf(q.List, p.List)
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

def inlistString(l, x) = exists(k, int, trig(elc(l, k)), 0 <= k && k < slen(sem(e0, l)) && el(e0, l, k) == SS(x))
func ContainsString(element, list) (r, err)
  prop C10 C08
  requires element != nil && valid(element) && list != nil && valid(list)
  uses novar novar1
  inv [i int, m any map[string]struct{}, l any []string]: forall(k, int, trig(l[k]), 0 <= k && k < i && k < len(l) ==> has(m, l[k]))
  inv [i int, m any map[string]struct{}, l any []string]: forall(x, string, trig(has(m, x)), has(m, x) ==> exists(k, int, 0 <= k && k < i && k < len(l) && l[k] == x))
  ensures err == nil ==> r != nil && valid(r)
  ensures err == nil ==> forall(e, Ev, trig(sem(e, r)), err(e, element) ==> sem(e, r) == SErr)
  ensures err == nil ==> forall(e, Ev, trig(sem(e, r)), !err(e, element) ==> (T(e, r) <==> inlistString(list, sval(sem(e, element)))))

func !time.Now() (r)
  trusted standard library
  writes al
func !time.Time.UnixNano(t) (r)
  trusted the time is a constant of one evaluation
  ensures r == nowv(env)

// ---- now ----
immutable now
taxiom now forall(e, Ev, p, *now, trig(sem(e, iface(p))), sem(e, iface(p)) == SI(nowv(e)))
taxiom now forall(p, *now, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && true)
taxiom now forall(p, *now, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom now forall(p, *now, trig(hash(iface(p))), hash(iface(p)) == hashNow())
taxiom now forall(p, *now, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom now forall(p, *now, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *now), 0, cmpall(iface(p), g)))
func *now.Eval(this) (r, err)
  prop C10 C08
  requires this != nil && valid(iface(this))
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *now.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *now.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *now.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *now.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_now(p *now, q *now)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

def hashNow() = wrapu64(527+hashS("now"))
iface !parser.Value.Double(this) (r, err)
  writes al
  ensures err == nil <==> pokD(this)
  ensures err == nil ==> r == pD(this)
mutable varDouble.Value
// ---- varDouble ----
immutable varDouble
taxiom varDouble forall(e, Ev, p, *varDouble, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(label(e) == nil || !pokD(label(e)), SErr, SD(pD(label(e)))))
taxiom varDouble forall(p, *varDouble, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && true)
taxiom varDouble forall(p, *varDouble, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom varDouble forall(p, *varDouble, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom varDouble forall(p, *varDouble, trig(kind(iface(p))), kind(iface(p)) == 1)
taxiom varDouble forall(p, *varDouble, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *varDouble), 0, cmpall(iface(p), g)))
func *varDouble.Eval(this) (r, err)
  prop C10 C11 C08
  requires this != nil && valid(iface(this))
  assumes this.Value == label(env)
  ensures sem(env, iface(this)) == ite(err == nil, SD(r), SErr)
func *varDouble.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *varDouble.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *varDouble.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *varDouble.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_varDouble(p *varDouble, q *varDouble)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func DoubleVar() (r)
  prop C10 C11 C08
  ensures r != nil && fresh(r) && valid(iface(r)) && kind(iface(r)) == 1

func *varDouble.SetValue(this, v)
  prop C10 C11
  requires this != nil
  modifies this.Value
  ensures this.Value == v

iface !parser.Value.Int(this) (r, err)
  writes al
  ensures err == nil <==> pokI(this)
  ensures err == nil ==> r == pI(this)
mutable varInt.Value
// ---- varInt ----
immutable varInt
taxiom varInt forall(e, Ev, p, *varInt, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(label(e) == nil || !pokI(label(e)), SErr, SI(pI(label(e)))))
taxiom varInt forall(p, *varInt, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && true)
taxiom varInt forall(p, *varInt, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom varInt forall(p, *varInt, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom varInt forall(p, *varInt, trig(kind(iface(p))), kind(iface(p)) == 2)
taxiom varInt forall(p, *varInt, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *varInt), 0, cmpall(iface(p), g)))
func *varInt.Eval(this) (r, err)
  prop C10 C11 C08
  requires this != nil && valid(iface(this))
  assumes this.Value == label(env)
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *varInt.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *varInt.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *varInt.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *varInt.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_varInt(p *varInt, q *varInt)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func IntVar() (r)
  prop C10 C11 C08
  ensures r != nil && fresh(r) && valid(iface(r)) && kind(iface(r)) == 2

func *varInt.SetValue(this, v)
  prop C10 C11
  requires this != nil
  modifies this.Value
  ensures this.Value == v

iface !parser.Value.Uint(this) (r, err)
  writes al
  ensures err == nil <==> pokU(this)
  ensures err == nil ==> r == pU(this)
mutable varUint.Value
// ---- varUint ----
immutable varUint
taxiom varUint forall(e, Ev, p, *varUint, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(label(e) == nil || !pokU(label(e)), SErr, SI(pU(label(e)))))
taxiom varUint forall(p, *varUint, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && true)
taxiom varUint forall(p, *varUint, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom varUint forall(p, *varUint, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom varUint forall(p, *varUint, trig(kind(iface(p))), kind(iface(p)) == 3)
taxiom varUint forall(p, *varUint, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *varUint), 0, cmpall(iface(p), g)))
func *varUint.Eval(this) (r, err)
  prop C10 C11 C08
  requires this != nil && valid(iface(this))
  assumes this.Value == label(env)
  ensures sem(env, iface(this)) == ite(err == nil, SI(r), SErr)
func *varUint.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *varUint.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *varUint.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *varUint.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_varUint(p *varUint, q *varUint)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func UintVar() (r)
  prop C10 C11 C08
  ensures r != nil && fresh(r) && valid(iface(r)) && kind(iface(r)) == 3

func *varUint.SetValue(this, v)
  prop C10 C11
  requires this != nil
  modifies this.Value
  ensures this.Value == v

iface !parser.Value.Bool(this) (r, err)
  writes al
  ensures err == nil <==> pokB(this)
  ensures err == nil ==> r == pB(this)
mutable varBool.Value
// ---- varBool ----
immutable varBool
taxiom varBool forall(e, Ev, p, *varBool, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(label(e) == nil || !pokB(label(e)), SErr, SB(pB(label(e)))))
taxiom varBool forall(p, *varBool, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && true)
taxiom varBool forall(p, *varBool, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom varBool forall(p, *varBool, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom varBool forall(p, *varBool, trig(kind(iface(p))), kind(iface(p)) == 4)
taxiom varBool forall(p, *varBool, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *varBool), 0, cmpall(iface(p), g)))
func *varBool.Eval(this) (r, err)
  prop C10 C11 C08
  requires this != nil && valid(iface(this))
  assumes this.Value == label(env)
  ensures sem(env, iface(this)) == ite(err == nil, SB(r), SErr)
func *varBool.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *varBool.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *varBool.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *varBool.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_varBool(p *varBool, q *varBool)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BoolVar() (r)
  prop C10 C11 C08
  ensures r != nil && fresh(r) && valid(iface(r)) && kind(iface(r)) == 4

func *varBool.SetValue(this, v)
  prop C10 C11
  requires this != nil
  modifies this.Value
  ensures this.Value == v

iface !parser.Value.String(this) (r, err)
  writes al
  ensures err == nil <==> pokS(this)
  ensures err == nil ==> r == pS(this)
mutable varString.Value
// ---- varString ----
immutable varString
taxiom varString forall(e, Ev, p, *varString, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(label(e) == nil || !pokS(label(e)), SErr, SS(pS(label(e)))))
taxiom varString forall(p, *varString, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && true)
taxiom varString forall(p, *varString, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom varString forall(p, *varString, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom varString forall(p, *varString, trig(kind(iface(p))), kind(iface(p)) == 5)
taxiom varString forall(p, *varString, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *varString), 0, cmpall(iface(p), g)))
func *varString.Eval(this) (r, err)
  prop C10 C11 C08
  requires this != nil && valid(iface(this))
  assumes this.Value == label(env)
  ensures sem(env, iface(this)) == ite(err == nil, SS(r), SErr)
func *varString.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *varString.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *varString.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *varString.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_varString(p *varString, q *varString)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func StringVar() (r)
  prop C10 C11 C08
  ensures r != nil && fresh(r) && valid(iface(r)) && kind(iface(r)) == 5

func *varString.SetValue(this, v)
  prop C10 C11
  requires this != nil
  modifies this.Value
  ensures this.Value == v

iface !parser.Value.Bytes(this) (r, err)
  writes al
  ensures err == nil <==> pokY(this)
  ensures err == nil ==> len(r) == pYlen(this) && forall(k, int, trig(r[k]), trig(pY(this, k)), 0 <= k && k < len(r) ==> r[k] == pY(this, k))
mutable varBytes.Value
// ---- varBytes ----
immutable varBytes
taxiom varBytes forall(e, Ev, p, *varBytes, trig(sem(e, iface(p))), sem(e, iface(p)) == ite(label(e) == nil || !pokY(label(e)), SErr, SL(pYlen(label(e)))))
taxiom varBytes forall(e, Ev, p, *varBytes, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == SI(pY(label(e), k)))
taxiom varBytes forall(p, *varBytes, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && true)
taxiom varBytes forall(p, *varBytes, trig(hv(iface(p))), hv(iface(p)) <==> true)
taxiom varBytes forall(p, *varBytes, trig(hash(iface(p))), hash(iface(p)) == p.hash)
taxiom varBytes forall(p, *varBytes, trig(kind(iface(p))), kind(iface(p)) == 6)
taxiom varBytes forall(p, *varBytes, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *varBytes), 0, cmpall(iface(p), g)))
func *varBytes.Eval(this) (r, err)
  prop C10 C11 C08
  requires this != nil && valid(iface(this))
  assumes this.Value == label(env)
  ensures err != nil ==> sem(env, iface(this)) == SErr
  ensures err == nil ==> sem(env, iface(this)) == SL(len(r))
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(el(env, iface(this), k)), 0 <= k && k < len(r) ==> el(env, iface(this), k) == SI(r[k]))
func *varBytes.HasVariable(this) (r)
  prop C08
  requires this != nil
  ensures r == hv(iface(this))
func *varBytes.Hash(this) (r)
  prop C08
  requires this != nil
  ensures r == hash(iface(this))
func *varBytes.String(this) (r)
  trusted printing: a function of the immutable value
  writes al
  ensures r == strOf(iface(this))
func *varBytes.Compare(this, that) (r)
  prop C08 C12
  requires this != nil && that != nil && valid(iface(this)) && valid(that)
  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)
  ensures r == cmpf(iface(this), that)
  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)
lemma antisym_varBytes(p *varBytes, q *varBytes)
  prop C08 C12
  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))
  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))

func BytesVar() (r)
  prop C10 C11 C08
  ensures r != nil && fresh(r) && valid(iface(r)) && kind(iface(r)) == 6

func *varBytes.SetValue(this, v)
  prop C10 C11
  requires this != nil
  modifies this.Value
  ensures this.Value == v

func Now() (r)
  prop C10
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SI(nowv(e)))

