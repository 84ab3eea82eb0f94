#!/usr/bin/env python3
# writes contracts/funcs.spec: the contracts of relapse/funcs (a regular family of types)
o=[]
def w(s=""): o.append(s)
w("""// Contracts of relapse/funcs. Written by tools/genfuncs.py.
// sem(e, f) is what function f evaluates to under the valuation e of its variables; el and el2 are the
// elements of a list or of bytes. The taxioms define sem on every built-in type from its operands.
package relapse/funcs
use stdlib
ghost env Ev
pre {
(declare-sort Ev 0)
}
smt {
(declare-datatypes ((Sem 0)) (((SErr) (SB (bval Bool)) (SI (ival Int)) (SD (dval Float)) (SS (sval Str)) (SL (llen Int)))))
(declare-fun label (Ev) Iface)
(declare-fun sem (Ev Iface) Sem)
(declare-fun el (Ev Iface Int) Sem)
(declare-fun el2 (Ev Iface Int Int) Sem)
(define-fun slen ((s Sem)) Int (ite ((_ is SL) s) (llen s) 0))
(define-fun isL ((s Sem)) Bool ((_ is SL) s))
(define-fun isI ((s Sem)) Bool ((_ is SI) s))
(define-fun isS ((s Sem)) Bool ((_ is SS) s))
(declare-fun semeq (Iface Iface) Bool)
(declare-fun pokY (Iface) Bool) (declare-fun pYlen (Iface) Int) (declare-fun pY (Iface Int) Int)
(assert (forall ((f Iface) (g Iface)) (! (=> (semeq f g) (forall ((e Ev)) (! (= (sem e f) (sem e g)) :pattern ((sem e f)) :pattern ((sem e g))))) :pattern ((semeq f g)))))
(assert (forall ((f Iface) (g Iface)) (! (=> (semeq f g) (forall ((e Ev) (k Int)) (! (=> (and (<= 0 k) (< k (slen (sem e f)))) (= (el e f k) (el e g k))) :pattern ((el e f k)) :pattern ((el e g k))))) :pattern ((semeq f g)))))
(assert (forall ((f Iface) (g Iface)) (! (=> (semeq f g) (forall ((e Ev) (k Int) (j Int)) (! (=> (and (<= 0 k) (< k (slen (sem e f))) (<= 0 j) (< j (slen (el e f k)))) (= (el2 e f k j) (el2 e g k j))) :pattern ((el2 e f k j)) :pattern ((el2 e g k j))))) :pattern ((semeq f g)))))
(declare-fun sqe (Iface Iface) Ev)
(declare-fun sqk (Iface Iface) Int)
(declare-fun sqj (Iface Iface) Int)
; a difference is witnessed
(assert (forall ((f Iface) (g Iface)) (! (or (semeq f g) (let ((e (sqe f g)) (k (sqk f g)) (j (sqj f g))) (or (not (= (sem e f) (sem e g))) (and (<= 0 k) (< k (slen (sem e f))) (not (= (el e f k) (el e g k)))) (and (<= 0 k) (< k (slen (sem e f))) (<= 0 j) (< j (slen (el e f k))) (not (= (el2 e f k j) (el2 e g k j))))))) :pattern ((semeq f g)))))
(declare-fun hv (Iface) Bool)
(declare-fun hash (Iface) Int)
(declare-fun valid (Iface) Bool)
; the result type of a function, and what follows for sem from the definition of sem
(declare-fun kind (Iface) Int)
(define-fun isel ((k Int) (x Sem)) Bool (ite (= k 7) ((_ is SD) x) (ite (or (= k 6) (= k 8) (= k 9)) ((_ is SI) x) (ite (= k 10) ((_ is SB) x) (ite (= k 11) ((_ is SS) x) ((_ is SL) x))))))
(assert (forall ((e Ev) (f Iface)) (! (or (= (sem e f) SErr) (ite (= (kind f) 1) ((_ is SD) (sem e f)) (ite (or (= (kind f) 2) (= (kind f) 3)) ((_ is SI) (sem e f)) (ite (= (kind f) 4) ((_ is SB) (sem e f)) (ite (= (kind f) 5) ((_ is SS) (sem e f)) (=> (and (<= 6 (kind f)) (<= (kind f) 12)) (and ((_ is SL) (sem e f)) (<= 0 (llen (sem e f)))))))))) :pattern ((sem e f)))))
(assert (forall ((e Ev) (f Iface) (k Int)) (! (=> (and (<= 0 k) (< k (slen (sem e f))) (<= 6 (kind f)) (<= (kind f) 12)) (and (isel (kind f) (el e f k)) (=> (= (kind f) 12) (<= 0 (llen (el e f k)))))) :pattern ((el e f k)))))
(declare-fun strOf (Iface) Str)
(declare-fun cmpf (Iface Iface) Int)
(declare-fun semc (Iface) Sem)
(declare-fun elc (Iface Int) Sem)
(declare-fun elc2 (Iface Int Int) Sem)
(declare-fun cel (Int Int) Sem)
(declare-fun cel2 (Int Int Int) Sem)
(declare-fun lelem (Int Int) Iface)
(declare-fun setI (Int Int) Bool)
(declare-fun setS (Int Str) Bool)
(define-fun norm ((i Int) (n Int)) Int (ite (< i 0) (emod i n) i))
(define-fun strcmp ((a Str) (b Str)) Int (ite (strlt a b) (- 1) (ite (= a b) 0 1)))
(define-fun intcmp ((a Int) (b Int)) Int (ite (< a b) (- 1) (ite (= a b) 0 1)))
(define-fun boolcmp ((a Bool) (b Bool)) Int (ite (= a b) 0 (ite a 1 (- 1))))
(define-fun dcmp ((a Float) (b Float)) Int (ite (fltlt a b) (- 1) (ite (fltlt b a) 1 (ite (= a b) 0 (ite (fltnan a) (- 1) 1)))))
(define-fun scmp ((a Sem) (b Sem)) Int (ite ((_ is SB) a) (boolcmp (bval a) (bval b)) (ite ((_ is SI) a) (intcmp (ival a) (ival b)) (ite ((_ is SD) a) (dcmp (dval a) (dval b)) (strcmp (sval a) (sval b))))))
(define-fun cmpall ((f Iface) (g Iface)) Int (ite (not (= (hash f) (hash g))) (ite (< (hash f) (hash g)) (- 1) 1) (strcmp (strOf f) (strOf g))))
; first difference of two byte strings or lists
(declare-fun lexd (Ev Iface Iface) Int)
(define-fun lexlen ((e Ev) (f Iface) (g Iface)) Int (ite (< (llen (sem e f)) (llen (sem e g))) (llen (sem e f)) (llen (sem e g))))
(assert (forall ((e Ev) (f Iface) (g Iface)) (! (=> (and (<= 0 (llen (sem e f))) (<= 0 (llen (sem e g)))) (and (<= 0 (lexd e f g)) (<= (lexd e f g) (lexlen e f g)) (=> (< (lexd e f g) (lexlen e f g)) (not (= (el e f (lexd e f g)) (el e g (lexd e f g))))))) :pattern ((lexd e f g)))))
(assert (forall ((e Ev) (f Iface) (g Iface) (k Int)) (! (=> (and (<= 0 k) (< k (lexd e f g))) (= (el e f k) (el e g k))) :pattern ((lexd e f g) (el e f k)) :pattern ((lexd e f g) (el e g k)) :pattern ((lexd e f g) (elc f k)) :pattern ((lexd e f g) (elc g k)) :pattern ((lexd e f g) (pY (label e) k)))))
(define-fun lexcmp ((e Ev) (f Iface) (g Iface)) Int (ite (= (lexd e f g) (llen (sem e f))) (ite (= (lexd e f g) (llen (sem e g))) 0 (- 1)) (ite (= (lexd e f g) (llen (sem e g))) 1 (ite (< (ival (el e f (lexd e f g))) (ival (el e g (lexd e f g)))) (- 1) 1))))
(declare-const e0 Ev)
; first difference of two lists of functions or of two constant lists
(declare-fun ldiff (Int Int Int) Int)
(assert (forall ((p Int) (q Int) (n Int)) (! (=> (<= 0 n) (and (<= 0 (ldiff p q n)) (<= (ldiff p q n) n) (=> (< (ldiff p q n) n) (not (= 0 (cmpf (lelem p (ldiff p q n)) (lelem q (ldiff p q n)))))))) :pattern ((ldiff p q n)))))
(assert (forall ((p Int) (q Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k (ldiff p q n))) (= 0 (cmpf (lelem p k) (lelem q k)))) :pattern ((ldiff p q n) (lelem p k)) :pattern ((ldiff p q n) (lelem q k)))))
(declare-fun cdiff (Int Int Int) Int)
(assert (forall ((p Int) (q Int) (n Int)) (! (=> (<= 0 n) (and (<= 0 (cdiff p q n)) (<= (cdiff p q n) n) (=> (< (cdiff p q n) n) (not (= (cel p (cdiff p q n)) (cel q (cdiff p q n))))))) :pattern ((cdiff p q n)))))
(assert (forall ((p Int) (q Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k (cdiff p q n))) (= (cel p k) (cel q k))) :pattern ((cdiff p q n) (cel p k)) :pattern ((cdiff p q n) (cel q k)))))
(declare-fun lexdY (Int Int Int) Int)
(define-fun lenY ((p Int) (q Int) (k Int)) Int (ite (< (llen (cel p k)) (llen (cel q k))) (llen (cel p k)) (llen (cel q k))))
(assert (forall ((p Int) (q Int) (k Int)) (! (=> (and (<= 0 (llen (cel p k))) (<= 0 (llen (cel q k)))) (and (<= 0 (lexdY p q k)) (<= (lexdY p q k) (lenY p q k)) (=> (< (lexdY p q k) (lenY p q k)) (not (= (cel2 p k (lexdY p q k)) (cel2 q k (lexdY p q k))))))) :pattern ((lexdY p q k)))))
(assert (forall ((p Int) (q Int) (k Int) (j Int)) (! (=> (and (<= 0 j) (< j (lexdY p q k))) (= (cel2 p k j) (cel2 q k j))) :pattern ((lexdY p q k) (cel2 p k j)) :pattern ((lexdY p q k) (cel2 q k j)))))
(define-fun lcY ((p Int) (q Int) (k Int)) Int (ite (= (lexdY p q k) (llen (cel p k))) (ite (= (lexdY p q k) (llen (cel q k))) 0 (- 1)) (ite (= (lexdY p q k) (llen (cel q k))) 1 (ite (< (ival (cel2 p k (lexdY p q k))) (ival (cel2 q k (lexdY p q k)))) (- 1) 1))))
(declare-fun ldY (Int Int Int) Int)
(assert (forall ((p Int) (q Int) (n Int)) (! (=> (<= 0 n) (and (<= 0 (ldY p q n)) (<= (ldY p q n) n) (=> (< (ldY p q n) n) (not (= 0 (lcY p q (ldY p q n))))))) :pattern ((ldY p q n)))))
(assert (forall ((p Int) (q Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k (ldY p q n))) (= 0 (lcY p q k))) :pattern ((ldY p q n) (cel p k)) :pattern ((ldY p q n) (cel q k)))))
(declare-fun lexdC (Int Int Int) Int)
(assert (forall ((p Int) (q Int) (n Int)) (! (=> (<= 0 n) (and (<= 0 (lexdC p q n)) (<= (lexdC p q n) n) (=> (< (lexdC p q n) n) (not (= (cel p (lexdC p q n)) (cel q (lexdC p q n))))))) :pattern ((lexdC p q n)))))
(assert (forall ((p Int) (q Int) (n Int) (j Int)) (! (=> (and (<= 0 j) (< j (lexdC p q n))) (= (cel p j) (cel q j))) :pattern ((lexdC p q n) (cel p j)) :pattern ((lexdC p q n) (cel q j)))))
(define-fun lexC ((p Int) (q Int) (m Int) (n Int)) Int (let ((d (lexdC p q (ite (< m n) m n)))) (ite (= d m) (ite (= d n) 0 (- 1)) (ite (= d n) 1 (ite (< (ival (cel p d)) (ival (cel q d))) (- 1) 1)))))
(declare-fun hashS (Str) Int)
(declare-fun fltbits (Float) Int)
(declare-fun nowv (Ev) Int)
; what the value behind a label gives
(declare-fun pokD (Iface) Bool) (declare-fun pD (Iface) Float)
(declare-fun pokI (Iface) Bool) (declare-fun pI (Iface) Int)
(declare-fun pokU (Iface) Bool) (declare-fun pU (Iface) Int)
(declare-fun pokB (Iface) Bool) (declare-fun pB (Iface) Bool)
(declare-fun pokS (Iface) Bool) (declare-fun pS (Iface) Str)
; string functions of the standard library
(declare-fun tolower (Str) Str) (declare-fun toupper (Str) Str)
(declare-fun scontains (Str Str) Bool) (declare-fun sequalfold (Str Str) Bool) (declare-fun shasprefix (Str Str) Bool) (declare-fun shassuffix (Str Str) Bool)
(declare-fun rxm (Str Str) Bool) (declare-fun rxOf (Int) Str)
}

// truth: an evaluation error counts as false
def T(e, f) = sem(e, f) == SB(true)
def err(e, f) = sem(e, f) == SErr

// ---- interface contracts ----
iface Hashable.Hash(this) (r)
  ensures r == hash(this)

iface Stringer.String(this) (r)
  writes al
  ensures r == strOf(this)

iface Func.HasVariable(this) (r)
  ensures r == hv(this)

iface Comparable.Compare(this, that) (r)
  writes al
  requires that != nil && valid(this) && valid(that)
  ensures r == cmpf(this, that)
  ensures r == 0 ==> hash(this) == hash(that) && semeq(this, that)
""")
KIND={'Double':('float64','SD'),'Int':('int64','SI'),'Uint':('uint64','SI'),'Bool':('bool','SB'),'String':('string','SS')}
SC=['Double','Int','Uint','Bool','String','Bytes']
LI={'Doubles':'Double','Ints':'Int','Uints':'Uint','Bools':'Bool','Strings':'String','ListOfBytes':'Bytes'}
def evalens(kind,this,r='r',err='err',ev='env'):
    """postcondition of Eval"""
    L=[]
    if kind in KIND:
        L.append(f"ensures sem({ev}, {this}) == ite({err} == nil, {KIND[kind][1]}({r}), SErr)")
    else:
        L.append(f"ensures {err} != nil ==> sem({ev}, {this}) == SErr")
        L.append(f"ensures {err} == nil ==> sem({ev}, {this}) == SL(len({r}))")
        if kind=='Bytes':
            L.append(f"ensures {err} == nil ==> forall(k, int, trig({r}[k]), trig(el({ev}, {this}, k)), 0 <= k && k < len({r}) ==> el({ev}, {this}, k) == SI({r}[k]))")
        elif kind=='ListOfBytes':
            L.append(f"ensures {err} == nil ==> forall(k, int, trig({r}[k]), trig(el({ev}, {this}, k)), 0 <= k && k < len({r}) ==> el({ev}, {this}, k) == SL(len({r}[k])))")
            L.append(f"ensures {err} == nil ==> forall(k, int, j, int, trig({r}[k][j]), trig(el2({ev}, {this}, k, j)), 0 <= k && k < len({r}) && 0 <= j && j < len({r}[k]) ==> el2({ev}, {this}, k, j) == SI({r}[k][j]))")
        else:
            c=KIND[LI[kind]][1]
            L.append(f"ensures {err} == nil ==> forall(k, int, trig({r}[k]), trig(el({ev}, {this}, k)), 0 <= k && k < len({r}) ==> el({ev}, {this}, k) == {c}({r}[k]))")
    return L
for k in SC+list(LI):
    w(f"iface {k}.Eval(this) (r, err)")
    w("  writes al")
    w("  requires valid(this)")
    for l in evalens(k,'this'): w("  "+l)
    w()
KN={k:i+1 for i,k in enumerate(SC+list(LI))}
for k in KN: w(f"taxiom Const{k} forall(f, Iface, trig(implements(f, Const{k})), trig(kind(f)), implements(f, Const{k}) ==> kind(f) == {KN[k]})")
for k in KN: w(f"taxiom {k} forall(f, Iface, trig(implements(f, {k})), trig(kind(f)), implements(f, {k}) ==> kind(f) == {KN[k]})")
w()
types={}
def typ(name,fields,kind,sem,valid=None,els=None,hvar='p.hasVariable',hashx='p.hash',props='',evalprops='',extra_eval=(),cmp=None,eval=True,novar_lemma=True,cmpextra=(),opens=None,selfvalid=''):
    """fields: function valued fields [(name,kind)] in the order of comparison"""
    types[name]=1
    w(f"// ---- {name} ----")
    w(f"immutable {name}")
    w(f"taxiom {name} forall(e, Ev, p, *{name}, trig(sem(e, iface(p))), sem(e, iface(p)) == {sem})")
    for x in (els or []): w(f"taxiom {name} {x}")
    v=[]
    for f,fk in fields: v.append(f"p.{f} != nil && valid(p.{f}) && kind(p.{f}) == {KN[fk]}")
    if hvar=='p.hasVariable':
        for f,_ in fields: v.append(f"(p.hasVariable || !hv(p.{f}))")
    if valid: v.append(valid)
    w(f"taxiom {name} forall(p, *{name}, trig(valid(iface(p))), valid(iface(p)) <==> p != nil && "+(" && ".join(v) or "true")+")")
    w(f"taxiom {name} forall(p, *{name}, trig(hv(iface(p))), hv(iface(p)) <==> {hvar})")
    w(f"taxiom {name} forall(p, *{name}, trig(hash(iface(p))), hash(iface(p)) == {hashx})")
    w(f"taxiom {name} forall(p, *{name}, trig(kind(iface(p))), kind(iface(p)) == {KN[kind]})")
    # comparison
    lex='0'
    if cmp is not None: lex=cmp
    else:
        for f,_ in reversed(fields):
            c=f"cmpf(p.{f}, as(g, *{name}).{f})"
            lex=f"ite({c} != 0, {c}, {lex})" if lex!='0' else c
    w(f"taxiom {name} forall(p, *{name}, g, Iface, trig(cmpf(iface(p), g)), cmpf(iface(p), g) == ite(hash(iface(p)) == hash(g) && typeis(g, *{name}), {lex}, cmpall(iface(p), g)))")
    if eval:
        w(f"func *{name}.Eval(this) (r, err)")
        w(f"  prop {evalprops} C08")
        w(f"  requires this != nil && valid(iface(this))")
        for x in extra_eval: w("  "+x)
        for l in evalens(kind,'iface(this)'): w("  "+l)
    w(f"func *{name}.HasVariable(this) (r)")
    w("  prop C08\n  requires this != nil")
    w("  ensures r == hv(iface(this))")
    w(f"func *{name}.Hash(this) (r)")
    w("  prop C08\n  requires this != nil")
    for x in cmpextra:
        if x.startswith('@hash '): w("  "+x[6:])
    w("  ensures r == hash(iface(this))")
    w(f"func *{name}.String(this) (r)")
    w("  trusted printing: a function of the immutable value\n  writes al\n  ensures r == strOf(iface(this))")
    w(f"func *{name}.Compare(this, that) (r)")
    w("  prop C08 C12\n  requires this != nil && that != nil && valid(iface(this)) && valid(that)")
    w("  assumes tag(that) != tag(iface(this)) && hash(that) == hash(iface(this)) && strOf(that) == strOf(iface(this)) ==> semeq(iface(this), that)")
    for x in cmpextra:
        if not x.startswith('@'): w("  "+x)
    w("  ensures r == cmpf(iface(this), that)")
    w("  ensures r == 0 ==> hash(iface(this)) == hash(that) && semeq(iface(this), that)")
    # a function without variables is constant
    if hvar not in ('true','false') or hvar=='false':
        w(f"lemma const_{name}(p *{name}, e1 Ev, e2 Ev, k int, j int)")
        w("  prop C08\n  requires p != nil && valid(iface(p)) && !hv(iface(p))")
        for f,fk in fields:
            w(f"  requires !hv(p.{f}) ==> forall(e, Ev, trig(sem(e, p.{f})), sem(e, p.{f}) == semc(p.{f})) && forall(e, Ev, m, int, trig(el(e, p.{f}, m)), el(e, p.{f}, m) == elc(p.{f}, m)) && forall(e, Ev, m, int, i, int, trig(el2(e, p.{f}, m, i)), el2(e, p.{f}, m, i) == elc2(p.{f}, m, i))")
        for x in cmpextra:
            if x.startswith('@const '): w("  "+x[7:])
        w("  ensures sem(e1, iface(p)) == sem(e2, iface(p))")
        if kind not in KIND:
            w("  ensures 0 <= k && k < slen(sem(e1, iface(p))) ==> el(e1, iface(p), k) == el(e2, iface(p), k)")
        if kind=='ListOfBytes':
            w("  ensures 0 <= k && k < slen(sem(e1, iface(p))) && 0 <= j && j < slen(el(e1, iface(p), k)) ==> el2(e1, iface(p), k, j) == el2(e2, iface(p), k, j)")
    # antisymmetry between two values of the type
    w(f"lemma antisym_{name}(p *{name}, q *{name})")
    w("  prop C08 C12\n  requires p != nil && q != nil && valid(iface(p)) && valid(iface(q))")
    for f,fk in fields: w(f"  requires cmpf(p.{f}, q.{f}) == 0-cmpf(q.{f}, p.{f})")
    for x in cmpextra:
        if x.startswith('@anti '): w("  "+x[6:])
    w("  ensures cmpf(iface(p), iface(q)) == 0-cmpf(iface(q), iface(p))")
    w()
def ctor(name,args,res,semx,props,els=None,errres=False,pre=()):
    """args: [(name,kind)]"""
    w(f"func {name}("+", ".join(a for a,_ in args)+") (r"+(", err" if errres else "")+")")
    w(f"  prop {props} C08")
    for x in pre: w("  "+x)
    for a,k in args: w(f"  requires {a} != nil && valid({a})")
    g="err == nil ==> " if errres else ""
    w(f"  ensures {g}r != nil && valid(r)")
    w(f"  ensures {g}forall(e, Ev, trig(sem(e, r)), sem(e, r) == {semx})")
    for x in els or []: w(f"  ensures {g}{x}")
    w("  uses_axiom novar") if False else None
    w()

# ---- constants ----
w("// a function without variables evaluates to the same result for every value: lemmas const_* by induction on the structure")
w("axiom forall(e, Ev, f, Iface, trig(sem(e, f)), usesnovar() && valid(f) && !hv(f) ==> sem(e, f) == semc(f))") if False else None
consts={'Double':'double','Int':'int','Uint':'uint','Bool':'bool','String':'string','Bytes':'bytes','Doubles':'','Ints':'','Uints':'','Bools':'','Strings':'','ListOfBytes':''}
IDS={}
H0="31*527"
for k in consts:
    n="const"+k
    cmpx=None; els=[]; ev=[]; cx=[]; valid=None
    if k in KIND:
        c=KIND[k][1]
        semx=f"{c}(p.v)"
        q=f"as(g, *{n}).v"
        cmpx={'Double':f"dcmp(p.v, {q})",'Int':f"intcmp(p.v, {q})",'Uint':f"intcmp(p.v, {q})",'Bool':f"boolcmp(p.v, {q})",'String':f"strcmp(p.v, {q})"}[k]
        hashid={'Int':73679,'Uint':2642756,'String':2486848561}.get(k)
        valid={'Int':"p.hash == hI(p.v)",'Uint':"p.hash == hU(p.v)",'String':"p.hash == hS(p.v)"}.get(k)
        if k=='Bool': pass
    else:
        semx="SL(len(p.v))"
        els.append(f"forall(e, Ev, p, *{n}, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.v) ==> el(e, iface(p), k) == cel(p, k))")
        if k=='Bytes':
            gd=[f"forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SI(this.v[k]))"]
        elif k=='ListOfBytes':
            els.append(f"forall(e, Ev, p, *{n}, k, int, j, int, trig(el2(e, iface(p), k, j)), 0 <= k && k < len(p.v) ==> el2(e, iface(p), k, j) == cel2(p, k, j))")
            gd=[f"forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == SL(len(this.v[k])))",
                f"forall(k, int, j, int, trig(cel2(this, k, j)), trig(this.v[k][j]), 0 <= k && k < len(this.v) && 0 <= j && j < llen(cel(this, k)) ==> cel2(this, k, j) == SI(this.v[k][j]))"]
        else:
            gd=[f"forall(k, int, trig(cel(this, k)), trig(this.v[k]), 0 <= k && k < len(this.v) ==> cel(this, k) == {KIND[LI[k]][1]}(this.v[k]))"]
        for g in gd: w(f"ghostdef {n} {g}")
        for g in gd: ev.append("assumes "+g)
        for g in gd: cx.append("assumes "+g)
        for g in gd: cx.append("assumes typeis(that, *%s) ==> "%n + g.replace("this.v",f"as(that, *{n}).v").replace("cel(this",f"cel(payload(that)").replace("cel2(this",f"cel2(payload(that)"))
        q=f"as(g, *{n})"
        if k=='Bytes': 
            cmpx=f"lexC(p, payload(g), len(p.v), len({q}.v))"
            valid="forall(k, int, trig(cel(p, k)), 0 <= k && k < len(p.v) ==> isI(cel(p, k)))"
        elif k=='ListOfBytes': 
            cmpx=f"ite(len(p.v) != len({q}.v), ite(len(p.v) < len({q}.v), 0-1, 1), ite(ldY(p, payload(g), len(p.v)) == len(p.v), 0, lcY(p, payload(g), ldY(p, payload(g), len(p.v)))))"
            cx.append(f"inv [i int]: typeis(that, *constListOfBytes) ==> forall(k, int, trig(cel(this, k)), 0 <= k && k < i && k < len(this.v) ==> lcY(this, payload(that), k) == 0)")
            valid="forall(k, int, trig(cel(p, k)), 0 <= k && k < len(p.v) ==> isL(cel(p, k)) && 0 <= llen(cel(p, k))) && forall(k, int, j, int, trig(cel2(p, k, j)), 0 <= k && k < len(p.v) && 0 <= j && j < llen(cel(p, k)) ==> isI(cel2(p, k, j)))"
        else:
            cmpx=f"ite(len(p.v) != len({q}.v), ite(len(p.v) < len({q}.v), 0-1, 1), ite(cdiff(p, payload(g), len(p.v)) == len(p.v), 0, scmp(cel(p, cdiff(p, payload(g), len(p.v))), cel(payload(g), cdiff(p, payload(g), len(p.v))))))"
            cx.append(f"inv [i int, o any {{[]%s}}]: forall(k, int, 0 <= k && k < i && k < len(o) && k < len(this.v) ==> same{LI[k]}(this.v[k], o[k]))".replace('{[]%s}','[]'+KIND[LI[k]][0]))
            ty=LI[k]
            vv=lambda t: "forall(k, int, trig(cel(%s, k)), 0 <= k && k < len(%s.v) ==> is%s(cel(%s, k)))"%(t,t,{'Double':'D','Int':'I','Uint':'I','Bool':'B','String':'S'}[ty],t)
            valid=vv('p')
    typ(n,[],k,semx,els=els,hvar='false',cmp=cmpx,evalprops='C10',extra_eval=ev,cmpextra=cx,valid=valid)
    # constructor
    w(f"func {k}Const(v) (r)")
    w("  prop C08 C10")
    w(f"  ensures r != nil && valid(r) && typeis(r, *{n}) && fresh(r)")
    w(f"  ensures as(r, *{n}).v == v")
    if k in KIND: w(f"  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == {KIND[k][1]}(v))")
    else:
        w(f"  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SL(len(v)))")
        if k=='Bytes': w("  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < len(v) ==> el(e, r, k) == SI(v[k]))")
        elif k=='ListOfBytes':
            w("  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < len(v) ==> el(e, r, k) == SL(len(v[k])))")
            w("  ensures forall(e, Ev, k, int, j, int, trig(el2(e, r, k, j)), 0 <= k && k < len(v) && 0 <= j && j < len(v[k]) ==> el2(e, r, k, j) == SI(v[k][j]))")
        else: w(f"  ensures forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < len(v) ==> el(e, r, k) == {KIND[LI[k]][1]}(v[k]))")
    w(f"func Trim{k}(f) (r)")
    w("  prop C08 C07\n  requires f != nil && valid(f)")
    w("  uses novar novar1 novar2\n  ensures r != nil && valid(r) && semeq(f, r)\n  ensures hv(f) ==> r == f")
    w()
w("""def sameInt(a, b) = a == b
def sameUint(a, b) = a == b
def sameBool(a, b) = a == b
def sameString(a, b) = a == b
def sameDouble(a, b) = a == b
smt {
(define-fun isD ((s Sem)) Bool ((_ is SD) s))
(define-fun isB ((s Sem)) Bool ((_ is SB) s))
}
def hI(v) = wrapu64(2300386+conv64(v))
def hU(v) = wrapu64(31*(527+2636666)+v)
def hS(v) = wrapu64(31*(527+2486848561)+hashS(v))
def conv64(v) = ite(v < 0, v+18446744073709551616, v)

func !math.Float64bits(d) (r)
  trusted standard library
  ensures r == fltbits(d)
func deriveHashString(s) (r)
  trusted a function of the string
  ensures r == hashS(s)

// the induction over the structure of a function whose step are the lemmas const_*
lemma novar(e Ev, f Iface)
  trusted induction on the (finite, immutable) structure; steps const_*; assumed of user-defined functions
  trig sem(e, f)
  requires valid(f) && !hv(f)
  ensures sem(e, f) == semc(f)
lemma novar1(e Ev, f Iface, k int)
  trusted as novar
  trig el(e, f, k)
  requires valid(f) && !hv(f) && 0 <= k && k < slen(sem(e, f))
  ensures el(e, f, k) == elc(f, k)
lemma novar2(e Ev, f Iface, k int, j int)
  trusted as novar
  trig el2(e, f, k, j)
  requires valid(f) && !hv(f) && 0 <= k && k < slen(sem(e, f)) && 0 <= j && j < slen(el(e, f, k))
  ensures el2(e, f, k, j) == elc2(f, k, j)

lemma antisym_types(f Iface, g Iface)
  prop C08 C12
  ensures cmpall(f, g) == 0-cmpall(g, f)

func Equal(l, r) (b)
  prop C08 C07
  requires l != nil && r != nil && valid(l) && valid(r)
  ensures b <==> hash(l) == hash(r) && cmpf(l, r) == 0
  ensures b ==> semeq(l, r)

func Hash(name, hs) (r)
  prop C08
  inv [h any uint64]: len(hs) == 0 ==> h == wrapu64(527+hashS(name))
  ensures len(hs) == 0 ==> r == wrapu64(527+hashS(name))
  requires forall(k, int, trig(hs[k]), 0 <= k && k < len(hs) ==> hs[k] != nil)
func hashWithId(id, hs) (r)
  prop C08
  requires forall(k, int, trig(hs[k]), 0 <= k && k < len(hs) ==> hs[k] != nil)
""")
# ---- comparisons ----
lc={'Double':'double','Int':'int','Uint':'uint','Bool':'bool','String':'string','Bytes':'bytes'}
def s(f): return f"sem(e, {f})"
def rel(k,op,a,b):
    A,B=s(a),s(b)
    if k=='Double':
        x,y=f"dval({A})",f"dval({B})"
        return {'GE':f"fltle({y}, {x})",'Gt':f"fltlt({y}, {x})",'LE':f"fltle({x}, {y})",'Lt':f"fltlt({x}, {y})",'Eq':f"flteq({x}, {y})",'Ne':f"!flteq({x}, {y})"}[op]
    if k in('Int','Uint'):
        x,y=f"ival({A})",f"ival({B})"
        return {'GE':f"{x} >= {y}",'Gt':f"{x} > {y}",'LE':f"{x} <= {y}",'Lt':f"{x} < {y}",'Eq':f"{x} == {y}",'Ne':f"{x} != {y}"}[op]
    if k=='Bool': return {'Eq':f"bval({A}) == bval({B})",'Ne':f"bval({A}) != bval({B})"}[op]
    if k=='String': return {'Eq':f"sval({A}) == sval({B})",'Ne':f"sval({A}) != sval({B})"}[op]
    c=f"lexcmp(e, {a}, {b})"
    return {'GE':f"{c} >= 0",'Gt':f"{c} > 0",'LE':f"{c} <= 0",'Lt':f"{c} < 0",'Eq':f"{c} == 0",'Ne':f"{c} != 0"}[op]
for op,ks in [('GE','Double Int Uint Bytes'),('Gt','Double Int Uint Bytes'),('LE','Double Int Uint Bytes'),('Lt','Double Int Uint Bytes'),('Eq','Double Int Uint Bool String Bytes'),('Ne','Double Int Uint Bool String Bytes')]:
    for k in ks.split():
        n=lc[k]+op
        f=lambda a,b: f"ite({s(a)} == SErr || {s(b)} == SErr, SB(false), SB({rel(k,op,a,b)}))"
        typ(n,[('V1',k),('V2',k)],'Bool',f('p.V1','p.V2'),evalprops='C10')
        ctor(k+op,[('a',k),('b',k)],'Bool',f('a','b'),'C10')
# ---- type, length, print, elem, range, list ----
for k in SC:
    f=lambda a: f"SB({s(a)} != SErr)"
    typ('typ'+k,[('E',k)],'Bool',f('p.E'),evalprops='C10')
    ctor('Type'+k,[('v',k)],'Bool',f('v'),'C10')
for k in list(LI)+['String','Bytes']:
    if k=='String': f=lambda a: f"ite(isS({s(a)}), SI(len(sval({s(a)}))), SErr)"
    else: f=lambda a: f"ite(isL({s(a)}), SI(llen({s(a)})), SErr)"
    typ('len'+k,[('E',k)],'Int',f('p.E'),evalprops='C09')
    ctor('Len'+k,[('e1',k)],'Int',f('e1'),'C09')
def elt(kind,n,src,idx='k',idx2='j'): pass
for k in SC+list(LI):
    n='print'+k
    els=[]
    if k not in KIND: els.append(f"forall(e, Ev, p, *{n}, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.E, k))")
    if k=='ListOfBytes': els.append(f"forall(e, Ev, p, *{n}, k, int, j, int, trig(el2(e, iface(p), k, j)), el2(e, iface(p), k, j) == el2(e, p.E, k, j))")
    typ(n,[('E',k)],k,s('p.E'),els=els,hvar='true',evalprops='C10')
    w(f"func Print{k}(e1) (r)\n  prop C08\n  requires e1 != nil && valid(e1)\n  ensures r != nil && valid(r) && semeq(e1, r)\n")
for L,k in LI.items():
    n='elem'+L
    sem=lambda l,i: f"elemSem({s(l)}, {s(i)}, el(e, {l}, norm(ival({s(i)}), llen({s(l)}))))"
    els=[]
    E=lambda n,l,i: f"el(e, {n}, k) == el2(e, {l}, norm(ival({s(i)}), llen({s(l)})), k)"
    if k=='Bytes': els.append(f"forall(e, Ev, p, *{n}, k, int, trig(el(e, iface(p), k)), {E('iface(p)','p.List','p.Index')})")
    typ(n,[('List',L),('Index','Int')],k,sem('p.List','p.Index'),els=els,evalprops='C09')
    ctor('Elem'+L,[('list',L),('n','Int')],k,sem('list','n'),'C09',els=[f"forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < slen(sem(e, r)) ==> {E('r','list','n')})"] if k=='Bytes' else [])
    n='range'+L
    A=lambda l,i,j: f"rangeSem({s(l)}, {s(i)}, {s(j)})"
    F=lambda l,i: f"k+norm(ival({s(i)}), llen({s(l)}))"
    els=[f"forall(e, Ev, p, *{n}, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == el(e, p.List, {F('p.List','p.First')}))"]
    if k=='Bytes': els.append(f"forall(e, Ev, p, *{n}, k, int, j, int, trig(el2(e, iface(p), k, j)), el2(e, iface(p), k, j) == el2(e, p.List, {F('p.List','p.First')}, j))")
    typ(n,[('List',L),('First','Int'),('Last','Int')],L,A('p.List','p.First','p.Last'),els=els,evalprops='C09')
    ctor('Range'+L,[('list',L),('from','Int'),('to','Int')],L,A('list','from','to'),'C09',els=[f"forall(e, Ev, k, int, trig(el(e, r, k)), 0 <= k && k < slen(sem(e, r)) ==> el(e, r, k) == el(e, list, {F('list','from')}))"])
    # listOf
    n='listOf'+k
    own=f"forall(q, *{n}, k, int, trig(q.List[k]), 0 <= k && k < len(q.List) ==> q.List[k] == lelem(q, k))"
    own1=f"forall(k, int, trig(lelem(this, k)), trig(this.List[k]), 0 <= k && k < len(this.List) ==> this.List[k] == lelem(this, k))"
    w(f"ghostdef {n} {own1}")
    els=[]
    if k=='Bytes':
        els.append(f"forall(e, Ev, p, *{n}, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.List) ==> el(e, iface(p), k) == sem(e, lelem(p, k)))")
        els.append(f"forall(e, Ev, p, *{n}, k, int, j, int, trig(el2(e, iface(p), k, j)), 0 <= k && k < len(p.List) ==> el2(e, iface(p), k, j) == el(e, lelem(p, k), j))")
    else:
        els.append(f"forall(e, Ev, p, *{n}, k, int, trig(el(e, iface(p), k)), 0 <= k && k < len(p.List) ==> el(e, iface(p), k) == sem(e, lelem(p, k)))")
    if k=='Bytes':
        inv=[f"inv [i int, res any [][]byte]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(res) ==> sem(env, lelem(this, k)) == SL(len(res[k])))",
             f"inv [i int, res any [][]byte]: forall(k, int, j, int, trig(el(env, lelem(this, k), j)), 0 <= k && k < i && k < len(res) && 0 <= j && j < len(res[k]) ==> el(env, lelem(this, k), j) == SI(res[k][j]))"]
    else:
        g,c=KIND[k]
        inv=[f"inv [i int, res any []{g}]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(res) ==> sem(env, lelem(this, k)) == {c}(res[k]))"]
    cx=["assumes "+own,
        f"inv [i int, o any []{k}]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> cmpf(lelem(this, k), o[k]) == 0)",
        f"inv [i int, o any []{k}]: forall(k, int, trig(lelem(this, k)), 0 <= k && k < i && k < len(o) && k < len(this.List) ==> semeq(lelem(this, k), o[k]))",
        "@const requires forall(m, int, trig(lelem(p, m)), 0 <= m && m < len(p.List) ==> forall(e, Ev, trig(sem(e, lelem(p, m))), sem(e, lelem(p, m)) == semc(lelem(p, m))) && forall(e, Ev, i, int, trig(el(e, lelem(p, m), i)), el(e, lelem(p, m), i) == elc(lelem(p, m), i)))",
        "@anti requires forall(m, int, trig(lelem(p, m)), trig(lelem(q, m)), cmpf(lelem(p, m), lelem(q, m)) == 0-cmpf(lelem(q, m), lelem(p, m)))",
        ]
    q=f"as(g, *{n})"
    cmpx=f"ite(len(p.List) != len({q}.List), ite(len(p.List) < len({q}.List), 0-1, 1), ite(ldiff(p, payload(g), len(p.List)) == len(p.List), 0, cmpf(lelem(p, ldiff(p, payload(g), len(p.List))), lelem(payload(g), ldiff(p, payload(g), len(p.List))))))"
    typ(n,[],L,f"ite(forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> sem(e, lelem(p, k)) != SErr), SL(len(p.List)), SErr)",els=els,evalprops='C10',
        valid="forall(k, int, trig(lelem(p, k)), 0 <= k && k < len(p.List) ==> lelem(p, k) != nil && valid(lelem(p, k)) && (p.hasVariable || !hv(lelem(p, k))))",
        cmp=cmpx,extra_eval=["assumes "+own1]+inv,cmpextra=cx)
    w(f"func NewListOf{k}(v) (r)")
    w("  prop C08 C10")
    w("  requires forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> v[k] != nil && valid(v[k]))")
    w("  inv [i int, b bool]: !b ==> forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))")
    w("  inv [i int]: forall(k, int, trig(v[k]), 0 <= k && k < i && k < len(v) ==> !hv(v[k]))")
    w("  ensures r != nil && valid(r)")
    w("  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(forall(k, int, trig(v[k]), 0 <= k && k < len(v) ==> sem(e, v[k]) != SErr), SL(len(v)), SErr))")
    w("  ensures forall(e, Ev, k, int, trig(el(e, r, k)), sem(e, r) != SErr && 0 <= k && k < len(v) ==> el(e, r, k) == sem(e, v[k]))")
    w()
w("""smt {
(define-fun elemSem ((l Sem) (i Sem) (x Sem)) Sem (ite (and (isL l) (isI i) (> (llen l) 0) (< (norm (ival i) (llen l)) (llen l))) x SErr))
(define-fun rangeSem ((l Sem) (i Sem) (j Sem)) Sem (ite (and (isL l) (isI i) (isI j) (> (llen l) 0) (<= (norm (ival i) (llen l)) (norm (ival j) (llen l))) (<= (norm (ival j) (llen l)) (llen l))) (SL (- (norm (ival j) (llen l)) (norm (ival i) (llen l)))) SErr))
}
""")
# ---- logic ----
andS=lambda a,b: f"ite({s(a)} == SB(true), {s(b)}, ite({s(a)} == SErr, SErr, SB(false)))"
orS=lambda a,b: f"ite({s(a)} == SB(true), SB(true), {s(b)})"
notS=lambda a: f"ite({s(a)} == SB(true), SB(false), SB(true))"
typ('and',[('V1','Bool'),('V2','Bool')],'Bool',andS('p.V1','p.V2'),evalprops='C07')
typ('or',[('V1','Bool'),('V2','Bool')],'Bool',orS('p.V1','p.V2'),evalprops='C07')
typ('not',[('V1','Bool')],'Bool',notS('p.V1'),evalprops='C07')
for n,args,post in [('And','v1, v2','T(e, v1) && T(e, v2)'),('Or','v1, v2','T(e, v1) || T(e, v2)'),('Not','v1','!T(e, v1)')]:
    w(f"func {n}({args}) (r)\n  prop C07")
    for a in args.split(', '): w(f"  requires {a} != nil && valid({a})")
    w(f"  ensures r != nil && valid(r)\n  ensures forall(e, Ev, trig(sem(e, r)), T(e, r) <==> {post})\n")
w("""func IsFalse(fn) (r)
  prop C07
  requires fn != nil && valid(fn)
  ensures r ==> forall(e, Ev, trig(sem(e, fn)), !T(e, fn))
func IsTrue(fn) (r)
  prop C07
  requires fn != nil && valid(fn)
  ensures r ==> forall(e, Ev, trig(sem(e, fn)), T(e, fn))
""")
# ---- strings ----
def strf(n,fields,kind,sem,cn,reg=True):
    typ(n,[(f,'String') for f in fields],kind,sem(*['p.'+f for f in fields]),evalprops='C10')
    ctor(cn,[(f.lower()+'1','String') for f in fields],kind,sem(*[f.lower()+'1' for f in fields]),'C10')
strf('toLower',['S'],'String',lambda a: f"ite(isS({s(a)}), SS(tolower(sval({s(a)}))), SErr)",'ToLower')
strf('toUpper',['S'],'String',lambda a: f"ite(isS({s(a)}), SS(toupper(sval({s(a)}))), SErr)",'ToUpper')
b2=lambda fn: lambda a,b: f"ite(isS({s(a)}) && isS({s(b)}), SB({fn}(sval({s(a)}), sval({s(b)}))), SErr)"
FIELDS={}
import re
src=open('/repo/relapse/funcs/string.go').read()
for n,cn,fn in [('contains','Contains','scontains'),('equalFold','EqualFold','sequalfold'),('hasPrefix','HasPrefix','shasprefix'),('hasSuffix','HasSuffix','shassuffix')]:
    m=re.search(r'type %s struct \{(.*?)\}'%n,src,re.S).group(1)
    fs=[l.split()[0] for l in m.strip().splitlines() if l.split()[1]=='String']
    strf(n,fs,'Bool',b2(fn),cn)
for n,lf in [('ToLower','tolower'),('ToUpper','toupper')]:
    w(f"func !strings.{n}(s) (r)\n  trusted standard library: a function of the string\n  ensures r == {lf}(s)")
for n,lf in [('Contains','scontains'),('EqualFold','sequalfold'),('HasPrefix','shasprefix'),('HasSuffix','shassuffix')]:
    w(f"func !strings.{n}(s, t) (r)\n  trusted standard library: a function of the strings\n  ensures r == {lf}(s, t)")
w("""func !strings.Compare(s, t) (r)
  trusted standard library: three-way comparison
  ensures r == strcmp(s, t)
func !bytes.Equal(a, b) (r)
  trusted standard library
  ensures r <==> len(a) == len(b) && forall(k, int, trig(a[k]), trig(b[k]), 0 <= k && k < len(a) ==> a[k] == b[k])
func !bytes.Compare(a, b) (r)
  trusted standard library: lexicographic
  ensures exists(d, int, 0 <= d && d <= len(a) && d <= len(b) && forall(k, int, trig(a[k]), trig(b[k]), 0 <= k && k < d ==> a[k] == b[k]) && (d < len(a) && d < len(b) ==> a[d] != b[d]) && r == ite(d == len(a), ite(d == len(b), 0, 0-1), ite(d == len(b), 1, ite(a[d] < b[d], 0-1, 1))))
func !fmt.Printf(format, args) (n, err)
  trusted standard library: prints
  writes al
func !strings.Join(a, sep) (r)
  trusted standard library
  writes al
func !regexp.Compile(e) (r, err)
  trusted standard library
  writes al
  ensures err == nil ==> r != nil && rxOf(r) == e
func !regexp.*Regexp.MatchString(re, s) (r)
  trusted standard library: a function of the expression and the string
  requires re != nil
  ensures r <==> rxm(rxOf(re), s)
""")
typ('regex',[('S','String')],'Bool',f"ite(isS({s('p.S')}), SB(rxm(p.expr, sval({s('p.S')}))), SErr)",valid="p.r != nil && rxOf(p.r) == p.expr",
    cmp="ite(strcmp(p.expr, as(g, *regex).expr) != 0, strcmp(p.expr, as(g, *regex).expr), cmpf(p.S, as(g, *regex).S))",evalprops='C10')
w(f"""func Regex(expr, input) (r, err)
  prop C10 C08
  requires expr != nil && valid(expr) && input != nil && valid(input)
  uses novar
  ensures err == nil ==> r != nil && valid(r)
  ensures err == nil ==> forall(e, Ev, trig(sem(e, r)), sem(e, r) == ite(isS({s('input')}), SB(rxm(sval(semc(expr)), sval({s('input')}))), SErr))
""")
# ---- sets ----
for k,L,c,sv in [('Int','Ints','SI','ival'),('Uint','Uints','SI','ival'),('String','Strings','SS','sval')]:
    n='inSet'+k; g=KIND[k][0]; sf='setS' if k=='String' else 'setI'; so='string' if k=='String' else g
    own=f"forall(x, {so}, trig({sf}(this, x)), trig(has(this.set, x)), {sf}(this, x) <==> has(this.set, x))"
    w(f"ghostdef {n} {own}")
    typ(n,[('Elem',k),('List',L)],'Bool',f"ite({s('p.Elem')} == SErr, SErr, SB({sf}(p, {sv}({s('p.Elem')}))))",
        valid=f"!hv(p.List) && forall(x, {so}, trig({sf}(p, x)), {sf}(p, x) <==> inlist{k}(p.List, x))",evalprops='C10',
        extra_eval=["assumes "+own], cmpextra=["uses novar novar1"])
    w(f"def inlist{k}(l, x) = exists(k, int, trig(elc(l, k)), 0 <= k && k < slen(sem(e0, l)) && el(e0, l, k) == {c}(x))")
    w(f"""func Contains{k}(element, list) (r, err)
  prop C10 C08
  requires element != nil && valid(element) && list != nil && valid(list)
  uses novar novar1
  inv [i int, m any map[{g}]struct{{}}, l any []{g}]: forall(k, int, trig(l[k]), 0 <= k && k < i && k < len(l) ==> has(m, l[k]))
  inv [i int, m any map[{g}]struct{{}}, l any []{g}]: forall(x, {so}, trig(has(m, x)), has(m, x) ==> exists(k, int, 0 <= k && k < i && k < len(l) && l[k] == x))
  ensures err == nil ==> r != nil && valid(r)
  ensures err == nil ==> forall(e, Ev, trig(sem(e, r)), err(e, element) ==> sem(e, r) == SErr)
  ensures err == nil ==> forall(e, Ev, trig(sem(e, r)), !err(e, element) ==> (T(e, r) <==> inlist{k}(list, {sv}({s('element')}))))
""")
# ---- now, variables ----
w("""func !time.Now() (r)
  trusted standard library
  writes al
func !time.Time.UnixNano(t) (r)
  trusted the time is a constant of one evaluation
  ensures r == nowv(env)
""")
typ('now',[],'Int',"SI(nowv(e))",hvar='true',hashx='hashNow()',evalprops='C10',eval=True,cmpextra=[])
w("def hashNow() = wrapu64(527+hashS(\"now\"))") 
PV={'Double':('D','SD'),'Int':('I','SI'),'Uint':('U','SI'),'Bool':('B','SB'),'String':('S','SS'),'Bytes':('Y','SL')}
for k,(x,c) in PV.items():
    n='var'+k
    w(f"iface parser.Value.{k}(this) (r, err)" if False else f"iface !parser.Value.{k}(this) (r, err)")
    w("  writes al")
    w(f"  ensures err == nil <==> pok{x}(this)")
    if k=='Bytes':
        w("  ensures err == nil ==> len(r) == pYlen(this) && forall(k, int, trig(r[k]), trig(pY(this, k)), 0 <= k && k < len(r) ==> r[k] == pY(this, k))")
    else: w(f"  ensures err == nil ==> r == p{x}(this)")
    v="label(e)"
    semx=f"ite({v} == nil || !pok{x}({v}), SErr, "+(f"SL(pYlen({v})))" if k=='Bytes' else f"{c}(p{x}({v})))")
    els=[f"forall(e, Ev, p, *{n}, k, int, trig(el(e, iface(p), k)), el(e, iface(p), k) == SI(pY(label(e), k)))"] if k=='Bytes' else []
    w(f"mutable {n}.Value")
    typ(n,[],k,semx,els=els,hvar='true',evalprops='C10 C11',extra_eval=["assumes this.Value == label(env)"],cmp='0')
    w(f"func {k}Var() (r)\n  prop C10 C11 C08\n  ensures r != nil && fresh(r) && valid(iface(r)) && kind(iface(r)) == {KN[k]}\n")
    w(f"func *{n}.SetValue(this, v)\n  prop C10 C11\n  requires this != nil\n  modifies this.Value\n  ensures this.Value == v\n")
w("func Now() (r)\n  prop C10\n  ensures r != nil && valid(r)\n  ensures forall(e, Ev, trig(sem(e, r)), sem(e, r) == SI(nowv(e)))\n")
open('/verif/contracts/funcs.spec','w').write("\n".join(x for x in o if x is not None)+"\n")
