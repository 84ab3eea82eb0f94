// Languages of forests: what a pattern denotes. The laws are theorems of lean/Lang.lean, where Lang is the set
// of forests over trees whose labels are valuations.
package relapse/ast
use funcs name
option rows
immutable relapse/ast.Pattern relapse/ast.Empty relapse/ast.TreeNode relapse/ast.LeafNode relapse/ast.Concat relapse/ast.Or relapse/ast.And relapse/ast.ZeroOrMore relapse/ast.Reference relapse/ast.Not relapse/ast.ZAny relapse/ast.Contains relapse/ast.Optional relapse/ast.Interleave
touch relapse/ast.Pattern tp
pre {
(declare-sort Tree 0)
(declare-sort Lang 0)
(declare-sort Pr 0)
(declare-datatypes ((Forest 0)) (((fnil) (fcons (fhd Tree) (ftl Forest)))))
}
smt {
; a tree is a label, which is a valuation, and its children
(declare-fun tev (Tree) Ev)
(declare-fun kids (Tree) Forest)
(declare-fun holds (Pr Tree) Bool)
(declare-fun mem (Forest Lang) Bool)
(declare-fun null (Lang) Bool)
(declare-fun dl (Lang Tree) Lang)
(declare-fun lnone () Lang)
(declare-fun lany () Lang)
(declare-fun lempty () Lang)
(declare-fun lnode (Pr Lang) Lang)
(declare-fun lor (Lang Lang) Lang)
(declare-fun land (Lang Lang) Lang)
(declare-fun lnot (Lang) Lang)
(declare-fun lcat (Lang Lang) Lang)
(declare-fun lilv (Lang Lang) Lang)
(declare-fun lstar (Lang) Lang)
(define-fun lcontains ((a Lang)) Lang (lcat lany (lcat a lany)))
(define-fun lopt ((a Lang)) Lang (lor a lempty))
; membership and derivatives: mem_nil, mem_cons
(assert (forall ((a Lang)) (! (= (mem fnil a) (null a)) :pattern ((null a)) :pattern ((mem fnil a)))))
(assert (forall ((t Tree) (f Forest) (a Lang)) (! (= (mem (fcons t f) a) (mem f (dl a t))) :pattern ((mem (fcons t f) a)) :pattern ((mem f (dl a t)) (fcons t f)))))
(assert (forall ((f Forest)) (! (not (mem f lnone)) :pattern ((mem f lnone)))))
(assert (forall ((f Forest)) (! (mem f lany) :pattern ((mem f lany)))))
(assert (forall ((f Forest)) (! (= (mem f lempty) (= f fnil)) :pattern ((mem f lempty)))))
(assert (forall ((f Forest) (p Pr) (a Lang)) (! (= (mem f (lnode p a)) (and ((_ is fcons) f) (= (ftl f) fnil) (holds p (fhd f)) (mem (kids (fhd f)) a))) :pattern ((mem f (lnode p a))))))
(assert (forall ((f Forest) (a Lang) (b Lang)) (! (= (mem f (lor a b)) (or (mem f a) (mem f b))) :pattern ((mem f (lor a b))))))
(assert (forall ((f Forest) (a Lang) (b Lang)) (! (= (mem f (land a b)) (and (mem f a) (mem f b))) :pattern ((mem f (land a b))))))
(assert (forall ((f Forest) (a Lang)) (! (= (mem f (lnot a)) (not (mem f a))) :pattern ((mem f (lnot a))))))
; null_cat, null_ilv, null_star
(assert (forall ((a Lang) (b Lang)) (! (= (null (lcat a b)) (and (null a) (null b))) :pattern ((null (lcat a b))))))
(assert (forall ((a Lang) (b Lang)) (! (= (null (lilv a b)) (and (null a) (null b))) :pattern ((null (lilv a b))))))
(assert (forall ((a Lang)) (! (null (lstar a)) :pattern ((null (lstar a))))))
; dl_none, dl_any, dl_empty, dl_node_yes, dl_node_no, dl_or, dl_and, dl_not, dl_cat_null, dl_cat_not_null, dl_ilv, dl_star
(assert (forall ((t Tree)) (! (= (dl lnone t) lnone) :pattern ((dl lnone t)))))
(assert (forall ((t Tree)) (! (= (dl lany t) lany) :pattern ((dl lany t)))))
(assert (forall ((t Tree)) (! (= (dl lempty t) lnone) :pattern ((dl lempty t)))))
(assert (forall ((t Tree) (p Pr) (a Lang)) (! (= (dl (lnode p a) t) (ite (and (holds p t) (mem (kids t) a)) lempty lnone)) :pattern ((dl (lnode p a) t)))))
(assert (forall ((t Tree) (a Lang) (b Lang)) (! (= (dl (lor a b) t) (lor (dl a t) (dl b t))) :pattern ((dl (lor a b) t)))))
(assert (forall ((t Tree) (a Lang) (b Lang)) (! (= (dl (land a b) t) (land (dl a t) (dl b t))) :pattern ((dl (land a b) t)))))
(assert (forall ((t Tree) (a Lang)) (! (= (dl (lnot a) t) (lnot (dl a t))) :pattern ((dl (lnot a) t)))))
(assert (forall ((t Tree) (a Lang) (b Lang)) (! (= (dl (lcat a b) t) (ite (null a) (lor (lcat (dl a t) b) (dl b t)) (lcat (dl a t) b))) :pattern ((dl (lcat a b) t)))))
(assert (forall ((t Tree) (a Lang) (b Lang)) (! (= (dl (lilv a b) t) (lor (lilv (dl a t) b) (lilv a (dl b t)))) :pattern ((dl (lilv a b) t)))))
(assert (forall ((t Tree) (a Lang)) (! (= (dl (lstar a) t) (lcat (dl a t) (lstar a))) :pattern ((dl (lstar a) t)))))
; cat_empty_left, cat_empty_right, cat_none_left, cat_none_right, cat_any_any, cat_assoc
(assert (forall ((a Lang)) (! (= (lcat lempty a) a) :pattern ((lcat lempty a)))))
(assert (forall ((a Lang)) (! (= (lcat a lempty) a) :pattern ((lcat a lempty)))))
(assert (forall ((a Lang)) (! (= (lcat lnone a) lnone) :pattern ((lcat lnone a)))))
(assert (forall ((a Lang)) (! (= (lcat a lnone) lnone) :pattern ((lcat a lnone)))))
(assert (= (lcat lany lany) lany))
(assert (forall ((a Lang) (b Lang) (c Lang)) (! (= (lcat (lcat a b) c) (lcat a (lcat b c))) :pattern ((lcat (lcat a b) c)))))
; ilv_comm, ilv_empty_left, ilv_empty_right, ilv_none_left, ilv_none_right, ilv_any_any
(assert (forall ((a Lang) (b Lang)) (! (= (lilv a b) (lilv b a)) :pattern ((lilv a b)))))
(assert (forall ((a Lang)) (! (= (lilv lempty a) a) :pattern ((lilv lempty a)))))
(assert (forall ((a Lang)) (! (= (lilv lnone a) lnone) :pattern ((lilv lnone a)))))
(assert (= (lilv lany lany) lany))
; not_not, not_any, not_none
(assert (forall ((a Lang)) (! (= (lnot (lnot a)) a) :pattern ((lnot (lnot a))))))
(assert (= (lnot lany) lnone))
(assert (= (lnot lnone) lany))
; star_star, star_any, star_none, star_empty
(assert (forall ((a Lang)) (! (= (lstar (lstar a)) (lstar a)) :pattern ((lstar (lstar a))))))
(assert (= (lstar lany) lany))
(assert (= (lstar lnone) lempty))
(assert (= (lstar lempty) lempty))
; languages with the same members are the same (ext_)
(declare-fun lsame (Lang Lang) Bool)
(declare-fun lwit (Lang Lang) Forest)
(assert (forall ((a Lang) (b Lang)) (! (= (lsame a b) (= a b)) :pattern ((lsame a b)))))
(assert (forall ((a Lang) (b Lang)) (! (or (= a b) (not (= (mem (lwit a b) a) (mem (lwit a b) b)))) :pattern ((lsame a b)))))
; predicates of the label of a tree: by a name, by an expression and by a function
(declare-fun nameP (Int) Pr)
(declare-fun exprP (Int) Pr)
(declare-fun funP (Iface) Pr)
(assert (forall ((t Tree) (n Int)) (! (= (holds (nameP n) t) (desc (tev t) n)) :pattern ((holds (nameP n) t)))))
(assert (forall ((t Tree) (f Iface)) (! (= (holds (funP f) t) (= (sem (tev t) f) (SB true))) :pattern ((holds (funP f) t)))))
; predicates that hold of the same labels are the same
(declare-fun psame (Pr Pr) Bool)
(declare-fun pwit (Pr Pr) Tree)
(assert (forall ((p Pr) (q Pr)) (! (= (psame p q) (= p q)) :pattern ((psame p q)))))
(assert (forall ((p Pr) (q Pr)) (! (or (= p q) (not (= (holds p (pwit p q)) (holds q (pwit p q))))) :pattern ((psame p q)))))
; the meaning of a reference: any solution of the equations of the grammar. vref holds of the declared names.
(declare-fun lref (Str) Lang)
(declare-fun vref (Str) Bool)
; the pattern that a name refers to in the grammar at hand
(declare-fun refp (Str) Int)
; what an AST pattern denotes, and which patterns are well formed
(declare-fun alang (Int) Lang)
(declare-fun vpat (Int) Bool)
(declare-fun pk (Int) Int)
(declare-fun tp (Int) Bool)
(declare-fun rt (Int) Bool)
(assert (forall ((p Int)) (! (rt p) :pattern ((rt p)))))
(assert (forall ((p Int)) (! (tp p) :pattern ((tp p)))))
}

axiom forall(p, *ast.Pattern, trig(tp(p)), pk(p) == ite(p.Empty != nil, 0, ite(p.TreeNode != nil, 1, ite(p.LeafNode != nil, 2, ite(p.Concat != nil, 3, ite(p.Or != nil, 4, ite(p.And != nil, 5, ite(p.ZeroOrMore != nil, 6, ite(p.Reference != nil, 7, ite(p.Not != nil, 8, ite(p.ZAny != nil, 9, ite(p.Contains != nil, 10, ite(p.Optional != nil, 11, ite(p.Interleave != nil, 12, 13))))))))))))))
// well-formed patterns are what the parser and the constructors build: exactly one alternative
axiom forall(p, *ast.Pattern, trig(tp(p)), vpat(p) <==> p != nil && (p.Empty != nil <==> pk(p) == 0) && (p.TreeNode != nil <==> pk(p) == 1) && (p.LeafNode != nil <==> pk(p) == 2) && (p.Concat != nil <==> pk(p) == 3) && (p.Or != nil <==> pk(p) == 4) && (p.And != nil <==> pk(p) == 5) && (p.ZeroOrMore != nil <==> pk(p) == 6) && (p.Reference != nil <==> pk(p) == 7) && (p.Not != nil <==> pk(p) == 8) && (p.ZAny != nil <==> pk(p) == 9) && (p.Contains != nil <==> pk(p) == 10) && (p.Optional != nil <==> pk(p) == 11) && (p.Interleave != nil <==> pk(p) == 12) && ite(pk(p) == 0, true, ite(pk(p) == 1, p.TreeNode.Name != nil && vname(p.TreeNode.Name) && vpat(p.TreeNode.Pattern), ite(pk(p) == 2, p.LeafNode.Expr != nil, ite(pk(p) == 3, vpat(p.Concat.LeftPattern) && vpat(p.Concat.RightPattern), ite(pk(p) == 4, vpat(p.Or.LeftPattern) && vpat(p.Or.RightPattern), ite(pk(p) == 5, vpat(p.And.LeftPattern) && vpat(p.And.RightPattern), ite(pk(p) == 6, vpat(p.ZeroOrMore.Pattern), ite(pk(p) == 7, vref(p.Reference.Name), ite(pk(p) == 8, vpat(p.Not.Pattern), ite(pk(p) == 9, true, ite(pk(p) == 10, vpat(p.Contains.Pattern), ite(pk(p) == 11, vpat(p.Optional.Pattern), pk(p) == 12 && vpat(p.Interleave.LeftPattern) && vpat(p.Interleave.RightPattern))))))))))))))
axiom forall(p, *ast.Pattern, trig(tp(p)), vpat(p) ==> alang(p) == ite(pk(p) == 0, lempty(), ite(pk(p) == 1, lnode(nameP(p.TreeNode.Name), alang(p.TreeNode.Pattern)), ite(pk(p) == 2, lnode(exprP(p.LeafNode.Expr), lempty()), ite(pk(p) == 3, lcat(alang(p.Concat.LeftPattern), alang(p.Concat.RightPattern)), ite(pk(p) == 4, lor(alang(p.Or.LeftPattern), alang(p.Or.RightPattern)), ite(pk(p) == 5, land(alang(p.And.LeftPattern), alang(p.And.RightPattern)), ite(pk(p) == 6, lstar(alang(p.ZeroOrMore.Pattern)), ite(pk(p) == 7, lref(p.Reference.Name), ite(pk(p) == 8, lnot(alang(p.Not.Pattern)), ite(pk(p) == 9, lany(), ite(pk(p) == 10, lcontains(alang(p.Contains.Pattern)), ite(pk(p) == 11, lopt(alang(p.Optional.Pattern)), lilv(alang(p.Interleave.LeftPattern), alang(p.Interleave.RightPattern)))))))))))))))

// the constructors
func NewEmpty() (r)
  prop C01 C02
  ensures fresh(r) && vpat(r) && alang(r) == lempty() && tp(r) && pk(r) == 0
func NewZAny() (r)
  prop C01 C02
  ensures fresh(r) && vpat(r) && alang(r) == lany() && tp(r) && pk(r) == 9
func NewNot(p) (r)
  prop C01 C02
  requires vpat(p)
  ensures fresh(r) && vpat(r) && alang(r) == lnot(alang(p)) && tp(r) && pk(r) == 8 && r.Not.Pattern == p
func NewContains(p) (r)
  prop C01 C02
  requires vpat(p)
  ensures fresh(r) && vpat(r) && alang(r) == lcontains(alang(p)) && tp(r) && pk(r) == 10 && r.Contains.Pattern == p
func NewOptional(p) (r)
  prop C01 C02
  requires vpat(p)
  ensures fresh(r) && vpat(r) && alang(r) == lopt(alang(p)) && tp(r) && pk(r) == 11 && r.Optional.Pattern == p
func NewZeroOrMore(p) (r)
  prop C01 C02
  requires vpat(p)
  ensures fresh(r) && vpat(r) && alang(r) == lstar(alang(p)) && tp(r) && pk(r) == 6 && r.ZeroOrMore.Pattern == p
func NewReference(name) (r)
  prop C01 C02
  requires vref(name)
  ensures fresh(r) && vpat(r) && alang(r) == lref(name) && tp(r) && pk(r) == 7
func NewLeafNode(e) (r)
  prop C01 C02
  requires e != nil
  ensures fresh(r) && vpat(r) && alang(r) == lnode(exprP(e), lempty()) && tp(r) && pk(r) == 2
func NewTreeNode(n, p) (r)
  prop C01 C02
  requires n != nil && vname(n) && vpat(p)
  ensures fresh(r) && vpat(r) && alang(r) == lnode(nameP(n), alang(p)) && tp(r) && pk(r) == 1 && r.TreeNode.Pattern == p && r.TreeNode.Name == n
def all(ps) = forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> vpat(ps[i]))
// the operator applied to a list, to the right: op(p0, op(p1, ... pn))
smt {
(declare-fun catr ((Array Int Int) Int Int) Lang)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (< lo hi) (= (catr row lo hi) (ite (= (+ lo 1) hi) (alang (select row lo)) (lcat (alang (select row lo)) (catr row (+ lo 1) hi))))) :pattern ((catr row lo hi) (rt lo)))))
}
func NewConcat(ps) (r)
  prop C01 C02
  hint rt(off(ps)) && rt(off(ps)+1)
  requires all(ps)
  ensures len(ps) == 0 ==> r == nil
  ensures len(ps) > 0 ==> vpat(r) && alang(r) == catr(elems(ps), off(ps), off(ps)+len(ps)) && tp(r)
  ensures len(ps) == 2 ==> fresh(r) && pk(r) == 3 && r.Concat.LeftPattern == ps[0] && r.Concat.RightPattern == ps[1] && alang(r) == lcat(alang(ps[0]), alang(ps[1]))
func newConcat(ps) (r)
  prop C01 C02
  hint rt(off(ps)) && rt(off(ps)+1)
  requires all(ps) && len(ps) > 0
  ensures vpat(r) && alang(r) == catr(elems(ps), off(ps), off(ps)+len(ps)) && tp(r)
  ensures len(ps) == 1 ==> r == ps[0]
// the operator applied to a list, to the right: op(p0, op(p1, ... pn))
smt {
(declare-fun orr ((Array Int Int) Int Int) Lang)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (< lo hi) (= (orr row lo hi) (ite (= (+ lo 1) hi) (alang (select row lo)) (lor (alang (select row lo)) (orr row (+ lo 1) hi))))) :pattern ((orr row lo hi) (rt lo)))))
}
func NewOr(ps) (r)
  prop C01 C02
  hint rt(off(ps)) && rt(off(ps)+1)
  requires all(ps)
  ensures len(ps) == 0 ==> r == nil
  ensures len(ps) > 0 ==> vpat(r) && alang(r) == orr(elems(ps), off(ps), off(ps)+len(ps)) && tp(r)
  ensures len(ps) == 2 ==> fresh(r) && pk(r) == 4 && r.Or.LeftPattern == ps[0] && r.Or.RightPattern == ps[1] && alang(r) == lor(alang(ps[0]), alang(ps[1]))
func newOr(ps) (r)
  prop C01 C02
  hint rt(off(ps)) && rt(off(ps)+1)
  requires all(ps) && len(ps) > 0
  ensures vpat(r) && alang(r) == orr(elems(ps), off(ps), off(ps)+len(ps)) && tp(r)
  ensures len(ps) == 1 ==> r == ps[0]
// the operator applied to a list, to the right: op(p0, op(p1, ... pn))
smt {
(declare-fun andr ((Array Int Int) Int Int) Lang)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (< lo hi) (= (andr row lo hi) (ite (= (+ lo 1) hi) (alang (select row lo)) (land (alang (select row lo)) (andr row (+ lo 1) hi))))) :pattern ((andr row lo hi) (rt lo)))))
}
func NewAnd(ps) (r)
  prop C01 C02
  hint rt(off(ps)) && rt(off(ps)+1)
  requires all(ps)
  ensures len(ps) == 0 ==> r == nil
  ensures len(ps) > 0 ==> vpat(r) && alang(r) == andr(elems(ps), off(ps), off(ps)+len(ps)) && tp(r)
  ensures len(ps) == 2 ==> fresh(r) && pk(r) == 5 && r.And.LeftPattern == ps[0] && r.And.RightPattern == ps[1] && alang(r) == land(alang(ps[0]), alang(ps[1]))
func newAnd(ps) (r)
  prop C01 C02
  hint rt(off(ps)) && rt(off(ps)+1)
  requires all(ps) && len(ps) > 0
  ensures vpat(r) && alang(r) == andr(elems(ps), off(ps), off(ps)+len(ps)) && tp(r)
  ensures len(ps) == 1 ==> r == ps[0]
// the operator applied to a list, to the right: op(p0, op(p1, ... pn))
smt {
(declare-fun ilvr ((Array Int Int) Int Int) Lang)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (< lo hi) (= (ilvr row lo hi) (ite (= (+ lo 1) hi) (alang (select row lo)) (lilv (alang (select row lo)) (ilvr row (+ lo 1) hi))))) :pattern ((ilvr row lo hi) (rt lo)))))
}
func NewInterleave(ps) (r)
  prop C01 C02
  hint rt(off(ps)) && rt(off(ps)+1)
  requires all(ps)
  ensures len(ps) == 0 ==> r == nil
  ensures len(ps) > 0 ==> vpat(r) && alang(r) == ilvr(elems(ps), off(ps), off(ps)+len(ps)) && tp(r)
  ensures len(ps) == 2 ==> fresh(r) && pk(r) == 12 && r.Interleave.LeftPattern == ps[0] && r.Interleave.RightPattern == ps[1] && alang(r) == lilv(alang(ps[0]), alang(ps[1]))
func newInterleave(ps) (r)
  prop C01 C02
  hint rt(off(ps)) && rt(off(ps)+1)
  requires all(ps) && len(ps) > 0
  ensures vpat(r) && alang(r) == ilvr(elems(ps), off(ps), off(ps)+len(ps)) && tp(r)
  ensures len(ps) == 1 ==> r == ps[0]

func NewAnyName() (r)
  prop C02
  ensures fresh(r) && vname(r) && forall(t, Tree, trig(holds(nameP(r), t)), holds(nameP(r), t))

// grammars: the declared names are those of the reference lookup
def gok(g) = g != nil && (g.TopPattern != nil ==> vref("main") && vpat(g.TopPattern) && alang(g.TopPattern) == lref("main")) && forall(i, int, trig(g.PatternDecls[i]), 0 <= i && i < len(g.PatternDecls) ==> g.PatternDecls[i] != nil && vref(g.PatternDecls[i].Name) && vpat(g.PatternDecls[i].Pattern) && alang(g.PatternDecls[i].Pattern) == lref(g.PatternDecls[i].Name)) && forall(n, string, trig(vref(n)), vref(n) ==> n == "main" && g.TopPattern != nil || exists(i, int, trig(g.PatternDecls[i]), 0 <= i && i < len(g.PatternDecls) && g.PatternDecls[i].Name == n))
def refsok(refs) = refs != nil && forall(n, string, trig(has(refs, n)), trig(vref(n)), (has(refs, n) <==> vref(n)) && (vref(n) ==> vpat(refs[n]) && alang(refs[n]) == lref(n)))
// the declarations define refp
def gfix(g) = gok(g) && (g.TopPattern != nil ==> g.TopPattern == refp("main")) && forall(i, int, trig(g.PatternDecls[i]), 0 <= i && i < len(g.PatternDecls) ==> g.PatternDecls[i].Pattern == refp(g.PatternDecls[i].Name))
def refsfix(refs) = refsok(refs) && forall(n, string, trig(refs[n]), vref(n) ==> refs[n] == refp(n))
func NewRefLookup(g) (r)
  prop C01 C02
  requires gok(g)
  ensures fresh(r) && refsok(r)
  ensures gfix(g) ==> refsfix(r)
  inv [i int, refs any RefLookup]: gfix(g) ==> forall(n, string, trig(refs[n]), has(refs, n) ==> refs[n] == refp(n))
  inv [i int, refs any RefLookup]: forall(n, string, trig(has(refs, n)), has(refs, n) ==> vref(n) && vpat(refs[n]) && alang(refs[n]) == lref(n))
  inv [i int, refs any RefLookup]: forall(j, int, trig(g.PatternDecls[j]), 0 <= j && j < i && j < len(g.PatternDecls) ==> has(refs, g.PatternDecls[j].Name))
func newHash() (r)
  prop C01 C02
  ensures r != nil && fresh(r)
func NewGrammar(m) (g)
  option appendx builds
  prop C01 C02
  requires refsok(m)
  ensures fresh(g) && gok(g)
  inv [names []string]: forall(i, int, trig(names[i]), 0 <= i && i < len(names) ==> has(m, names[i]) && names[i] != "main")
  inv [names []string]: forall(n, string, trig(visited(n)), visited(n) && n != "main" ==> exists(i, int, trig(names[i]), 0 <= i && i < len(names) && names[i] == n))
  inv [i int, ps any []*ast.PatternDecl]: len(ps) == i
  inv [i int, ps any []*ast.PatternDecl]: forall(j, int, trig(ps[j]), 0 <= j && j < len(ps) ==> ps[j] != nil && isallocated(ps[j]) && vref(ps[j].Name) && ps[j].Pattern == m[ps[j].Name])
  inv [i int, ps any []*ast.PatternDecl, names any []string]: forall(j, int, trig(names[j]), 0 <= j && j < i && j < len(names) ==> ps[j].Name == names[j])
