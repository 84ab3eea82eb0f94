// Contracts of relapse/interp.
package relapse/interp
use lang fold asteq
ghost pst PSt
pre {
(declare-sort PSt 0)
}
smt {
; the position of a parser: the node it is at, the nodes that follow it, and the position of the parent
(declare-fun nextok (PSt) Bool) (declare-fun leafP (PSt) Bool)
(declare-fun pcur (PSt) Tree)
(declare-fun prem (PSt) Forest)
(declare-fun pup (PSt) PSt)
; the function that an evaluator evaluates
(declare-fun bfun (Iface) Iface)
; how many children patterns pattern p asks about, and what the answer to question k is for the tree t
(declare-fun nc (Int) Int)
(assert (forall ((p Int)) (! (>= (nc p) 0) :pattern ((nc p)))))
(declare-fun ans (Int Int Tree) Bool)
}
def allp(ps) = forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> vpat(ps[i]))

// the same, by positions in the underlying array
def allq(ps) = forall(j, int, trig(elems(ps)[j]), off(ps) <= j && j < off(ps) + len(ps) ==> vpat(elems(ps)[j]))
def answers(ps, p, t) = forall(j, int, trig(elems(ps)[j]), off(ps) <= j && j < off(ps) + nc(p) ==> (null(alang(elems(ps)[j])) <==> ans(p, j - off(ps), t)))

axiom forall(p, *ast.Pattern, trig(tp(p), nc(p)), vpat(p) ==> nc(p) == ite(pk(p) == 1 || pk(p) == 2, 1, ite(pk(p) == 3, nc(p.Concat.LeftPattern) + ite(null(alang(p.Concat.LeftPattern)), nc(p.Concat.RightPattern), 0), ite(pk(p) == 4, nc(p.Or.LeftPattern) + nc(p.Or.RightPattern), ite(pk(p) == 5, nc(p.And.LeftPattern) + nc(p.And.RightPattern), ite(pk(p) == 12, nc(p.Interleave.LeftPattern) + nc(p.Interleave.RightPattern), ite(pk(p) == 6, nc(p.ZeroOrMore.Pattern), ite(pk(p) == 7, nc(refp(p.Reference.Name)), ite(pk(p) == 8, nc(p.Not.Pattern), ite(pk(p) == 10, nc(p.Contains.Pattern), ite(pk(p) == 11, nc(p.Optional.Pattern), 0)))))))))))
axiom forall(p, *ast.Pattern, k, int, t, Tree, trig(tp(p), ans(p, k, t)), vpat(p) ==> (ans(p, k, t) <==> ite(pk(p) == 1, holds(nameP(p.TreeNode.Name), t) && mem(kids(t), alang(p.TreeNode.Pattern)), ite(pk(p) == 2, holds(exprP(p.LeafNode.Expr), t) && kids(t) == fnil(), ite(pk(p) == 3, ite(k < nc(p.Concat.LeftPattern), ans(p.Concat.LeftPattern, k, t), ans(p.Concat.RightPattern, k - nc(p.Concat.LeftPattern), t)), ite(pk(p) == 4, ite(k < nc(p.Or.LeftPattern), ans(p.Or.LeftPattern, k, t), ans(p.Or.RightPattern, k - nc(p.Or.LeftPattern), t)), ite(pk(p) == 5, ite(k < nc(p.And.LeftPattern), ans(p.And.LeftPattern, k, t), ans(p.And.RightPattern, k - nc(p.And.LeftPattern), t)), ite(pk(p) == 12, ite(k < nc(p.Interleave.LeftPattern), ans(p.Interleave.LeftPattern, k, t), ans(p.Interleave.RightPattern, k - nc(p.Interleave.LeftPattern), t)), ite(pk(p) == 6, ans(p.ZeroOrMore.Pattern, k, t), ite(pk(p) == 7, ans(refp(p.Reference.Name), k, t), ite(pk(p) == 8, ans(p.Not.Pattern, k, t), ite(pk(p) == 10, ans(p.Contains.Pattern, k, t), ite(pk(p) == 11, ans(p.Optional.Pattern, k, t), true)))))))))))))

func Nullable(refs, p) (r)
  prop C01 C02
  requires refsok(refs) && vpat(p)
  ensures r <==> null(alang(p))

// parsers: what the engines rely on (parser/json and parser/proto are verified by themselves for C15-C18)
iface !parser.Interface.Next(this) (err)
  modifies pst
  ensures err == nil <==> nextok(old(pst))
  ensures err == nil ==> prem(old(pst)) == fcons(pcur(pst), prem(pst)) && pup(pst) == pup(old(pst))
  ensures err == io.EOF ==> prem(old(pst)) == fnil() && pup(pst) == pup(old(pst))
iface !parser.Interface.IsLeaf(this) (r)
  ensures r <==> leafP(pst)
  ensures r ==> kids(pcur(pst)) == fnil()
iface !parser.Interface.Down(this)
  modifies pst
  ensures prem(pst) == kids(pcur(old(pst))) && pup(pst) == old(pst)
iface !parser.Interface.Up(this)
  modifies pst
  ensures pst == pup(old(pst))
iface relapse/compose.Bool.Eval(this, v) (r, err)
  ensures err == nil ==> (r <==> holds(funP(bfun(this)), pcur(pst)))
func relapse/compose.NewBoolFunc(f) (r, err)
  trusted collects the variables of a function by reflection
  requires f != nil && valid(f)
  ensures err == nil ==> r != nil && bfun(r) == f
func relapse/compose.NewBool(e) (r, err)
  trusted composes the function of an expression from the registry of functions by reflection
  requires e != nil
  ensures err == nil ==> r != nil && valid(r) && funP(r) == exprP(e)

func derivCall(refs, p, label) (r, err)
  prop C01
  requires refsfix(refs) && vpat(p) && label != nil
  ensures err == nil ==> fresh(r) && allp(r) && len(r) == nc(p)
  ensures err == nil ==> forall(k, int, trig(r[k]), trig(ans(p, k, pcur(pst))), 0 <= k && k < len(r) ==> (mem(kids(pcur(pst)), alang(r[k])) <==> ans(p, k, pcur(pst))))
func derivReturn(refs, p, ps) (r, rest)
  prop C01
  requires refsfix(refs) && vpat(p) && allq(ps)
  requires len(ps) >= nc(p) && answers(ps, p, pcur(pst))
  ensures vpat(r) && alang(r) == dl(alang(p), pcur(pst))
  ensures arr(rest) == arr(ps) && off(rest) == off(ps) + nc(p) && len(rest) == len(ps) - nc(p)

// lists of patterns: where the questions of each pattern start
smt {
(declare-fun ncs ((Array Int Int) Int Int) Int)
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= hi lo) (= (ncs row lo hi) 0)) :pattern ((ncs row lo hi)))))
(assert (forall ((row (Array Int Int)) (lo Int) (hi Int)) (! (=> (<= lo hi) (= (ncs row lo (+ hi 1)) (+ (ncs row lo hi) (nc (select row hi))))) :pattern ((ncs row lo hi) (select row hi)))))
}
impl Simplifier *simplifier
def sinv(s) = s != nil && refsok(s.refs) && s.cache != nil && !s.record
smt {
; what the text of an expression denotes as the predicate of a leaf
(declare-fun printed (Str) Pr)
; which operator a function passed to simplifyChildren simplifies: 0 or, 1 and
(declare-fun opk (Int) Int)
; equal patterns denote the same (C21)
}
// the text of a function reads back as the function (C10's harness prints and parses functions)
axiom forall(f, Iface, trig(strOf(f)), printed("->" + strOf(f)) == funP(f))
def lo(ps) = off(ps)
def hi(ps) = off(ps) + len(ps)
def orsof(ps) = lors(elems(ps), off(ps), off(ps) + len(ps))
def andsof(ps) = lands(elems(ps), off(ps), off(ps) + len(ps))
def ilvsof(ps) = ilvs(elems(ps), off(ps), off(ps) + len(ps))

global C02 emptyset != nil && vpat(emptyset) && alang(emptyset) == lnone()

func relapse/compose.ConvertBuiltInIntoFunction(e) (r, err)
  trusted the function of a built-in operator has the meaning of the operator
  ensures err == nil ==> r != nil && exprP(r) == exprP(e)
func relapse/ast.NewFunction(name, ps) (r)
  trusted the functions or and and of the registry are the connectives
  ensures r != nil
  ensures name == "or" && len(ps) == 2 ==> forall(t, Tree, trig(holds(exprP(r), t)), holds(exprP(r), t) <==> holds(exprP(ps[0]), t) || holds(exprP(ps[1]), t))
  ensures name == "and" && len(ps) == 2 ==> forall(t, Tree, trig(holds(exprP(r), t)), holds(exprP(r), t) <==> holds(exprP(ps[0]), t) && holds(exprP(ps[1]), t))
func relapse/parser.ParseExpr(s) (r, err)
  trusted the text of an expression denotes what it says (the harness of C10 checks it)
  ensures err == nil ==> r != nil && exprP(r) == printed(s)

func NewSimplifier(g) (r)
  prop C02
  requires gok(g)
  ensures typeis(r, *simplifier) && fresh(as(r, *simplifier)) && fresh(as(r, *simplifier).cache) && sinv(as(r, *simplifier))
func checkRef(refs, p) (r)
  prop C02
  requires refsok(refs) && vpat(p)
  ensures vpat(r) && alang(r) == alang(p)
func isNotZany(p) (r)
  prop C02
  requires vpat(p)
  ensures r ==> alang(p) == lnone()
func isZany(p) (r)
  prop C02
  requires vpat(p)
  ensures r ==> alang(p) == lany()
func isEmpty(p) (r)
  prop C02
  requires vpat(p)
  ensures r ==> alang(p) == lempty()
func simplifyConcat(p1, p2) (r)
  prop C02
  requires vpat(p1) && vpat(p2)
  ensures vpat(r) && lsame(alang(r), lcat(alang(p1), alang(p2)))
func simplifyZeroOrMore(p) (r)
  prop C02
  requires vpat(p)
  ensures vpat(r) && alang(r) == lstar(alang(p))
func simplifyNot(p) (r)
  prop C02
  requires vpat(p)
  ensures vpat(r) && alang(r) == lnot(alang(p))
func simplifyOptional(p) (r)
  prop C02
  requires vpat(p)
  ensures vpat(r) && lsame(alang(r), lopt(alang(p)))
func simplifyContains(p) (r)
  prop C02
  requires vpat(p)
  ensures vpat(r) && lsame(alang(r), lcontains(alang(p)))
func getOrs(p) (r)
  prop C02
  option appendx concats
  hint atmk(r)
  requires vpat(p)
  ensures fresh(r) && len(r) > 0 && allp(r) && orsof(r) == alang(p) && atmk(r)
func getAnds(p) (r)
  prop C02
  option appendx concats
  hint atmk(r)
  requires vpat(p)
  ensures fresh(r) && len(r) > 0 && allp(r) && andsof(r) == alang(p) && atmk(r)
func getInterleaves(p) (r)
  prop C02
  option appendx concats
  hint atmk(r)
  requires vpat(p)
  ensures fresh(r) && len(r) > 0 && allp(r) && ilvsof(r) == alang(p) && atmk(r)
func !sort.Sort@*relapse/interp.sortable(data)
  trusted standard library: permutes with Swap
  writes E|*relapse/ast.Pattern
  writes E|uint64
  requires data != nil && len(data.hashes) == len(data.list)
  modifies elems(data.list), elems(data.hashes)
  ensures perm(old(elems(data.list)), elems(data.list), off(data.list), off(data.list) + len(data.list))
func *sortable.Len(ps) (r)
  prop C02
  requires ps != nil
  ensures r == len(ps.list)
func *sortable.Swap(ps, i, j)
  prop C02
  requires ps != nil && 0 <= i && i < len(ps.list) && 0 <= j && j < len(ps.list) && len(ps.hashes) == len(ps.list)
  modifies elems(ps.list), elems(ps.hashes)
  ensures ps.list[i] == old(ps.list[j]) && ps.list[j] == old(ps.list[i])
  ensures forall(k, int, trig(ps.list[k]), 0 <= k && k < len(ps.list) && k != i && k != j ==> ps.list[k] == old(ps.list[k]))
func order(ps) (r)
  prop C02
  hint atmk(ps)
  requires allp(ps)
  modifies elems(ps)
  ensures fresh(r) && len(r) == len(ps) && allp(ps)
  ensures perm(old(elems(ps)), elems(ps), off(ps), off(ps) + len(ps))
func orderedSet(ps) (r)
  prop C02
  requires allp(ps)
  modifies elems(ps)
  ensures arr(r) == arr(ps) && off(r) == off(ps) && len(r) <= len(ps) && (len(ps) > 0 ==> len(r) > 0) && allp(r)
  ensures orsof(r) == old(orsof(ps)) && andsof(r) == old(andsof(ps))
  inv []: allp(ps)
  inv [i int, u any int]: 0 <= u && u < i && i <= len(ps)
  inv [i int]: forall(k, int, trig(ps[k]), i <= k && k < len(ps) ==> ps[k] == entry(ps[k]))
  inv [i int, u any int]: lors(elems(ps), off(ps), off(ps) + u + 1) == lors(entry(elems(ps)), off(ps), off(ps) + i)
  inv [i int, u any int]: lands(elems(ps), off(ps), off(ps) + u + 1) == lands(entry(elems(ps)), off(ps), off(ps) + i)
func value.func(*relapse/ast.Pattern,*relapse/ast.Pattern)*relapse/ast.Pattern(f, l, r) (p)
  requires vpat(l) && vpat(r)
  writes al fresh
  ensures vpat(p) && (opk(f) == 0 ==> alang(p) == lor(alang(l), alang(r))) && (opk(f) == 1 ==> alang(p) == land(alang(l), alang(r)))
func simplifyChildren(children, op, record) (r)
  prop C02
  option concats
  hint rt(off(children)) && rt(off(children)+1)
  requires allp(children) && !record && op != nil
  modifies elems(children)
  ensures allp(r) && len(r) <= len(children) && (len(children) > 0 ==> len(r) > 0)
  ensures opk(op) == 0 ==> lsame(orsof(r), old(orsof(children)))
  ensures opk(op) == 1 ==> lsame(andsof(r), old(andsof(children)))
func simplifyOr(refs, p1, p2, record) (r)
  prop C02
  option concats
  requires refsok(refs) && vpat(p1) && vpat(p2) && !record
  closdef opk(clo) == 0
  ensures vpat(r) && lsame(alang(r), lor(alang(p1), alang(p2)))
  inv [i int, p any *ast.Pattern, list any []*ast.Pattern]: vpat(p) && alang(p) == lors(elems(list), off(list), off(list) + ite(i < 1, 1, i))
func simplifyAnd(refs, p1, p2, record) (r)
  prop C02
  option concats
  requires refsok(refs) && vpat(p1) && vpat(p2) && !record
  closdef opk(clo) == 1
  ensures vpat(r) && lsame(alang(r), land(alang(p1), alang(p2)))
  inv [i int, p any *ast.Pattern, list any []*ast.Pattern]: vpat(p) && alang(p) == lands(elems(list), off(list), off(list) + ite(i < 1, 1, i))
func simplifyInterleave(refs, p1, p2) (r)
  prop C02
  option concats
  requires refsok(refs) && vpat(p1) && vpat(p2)
  ensures vpat(r) && lsame(alang(r), lilv(alang(p1), alang(p2)))
  inv [i int, p any *ast.Pattern, list any []*ast.Pattern]: vpat(p) && alang(p) == ilvs(elems(list), off(list), off(list) + ite(i < 1, 1, i))
func simps(refs, ps) (r)
  prop C01
  requires refsok(refs) && allp(ps)
  modifies elems(ps)
  ensures r == ps && allp(r)
  ensures forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> alang(ps[i]) == alang(old(ps[i])))
  inv [k int]: forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> vpat(ps[i]) && alang(ps[i]) == alang(old(ps[i])))

func *simplifier.Simplify(this, p) (r)
  prop C02
  requires sinv(this) && vpat(p)
  modifies mapof(this.cache)
  ensures sinv(this) && vpat(r) && lsame(alang(r), alang(p))
func *simplifier.simplify(this, p, top) (r)
  prop C02
  requires sinv(this) && vpat(p)
  modifies mapof(this.cache)
  ensures sinv(this) && vpat(r) && lsame(alang(r), alang(p))

func escapable(ps) (r)
  prop C01
  requires allp(ps)
  ensures !r ==> forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> alang(ps[i]) == lany() || alang(ps[i]) == lnone())
  inv [i int]: forall(j, int, trig(ps[j]), 0 <= j && j < i && j < len(ps) ==> alang(ps[j]) == lany() || alang(ps[j]) == lnone())

def start(ps, i) = ncs(elems(ps), off(ps), off(ps) + i)
func derivCalls(refs, ps, label) (r, err)
  prop C01
  requires refsfix(refs) && allp(ps) && label != nil
  ensures err == nil ==> fresh(r) && allp(r) && len(r) == start(ps, len(ps))
  ensures err == nil ==> forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> 0 <= start(ps, i) && start(ps, i) + nc(ps[i]) <= len(r))
  ensures err == nil ==> forall(i, int, k, int, trig(ans(ps[i], k, pcur(pst))), 0 <= i && i < len(ps) && 0 <= k && k < nc(ps[i]) ==> (mem(kids(pcur(pst)), alang(r[start(ps, i) + k])) <==> ans(ps[i], k, pcur(pst))))
  inv [i int, r any []*ast.Pattern]: fresh(r) && len(r) == start(ps, i)
  inv [i int, r any []*ast.Pattern]: forall(j, int, trig(ps[j]), 0 <= j && j < i && j < len(ps) ==> 0 <= start(ps, j) && start(ps, j) + nc(ps[j]) <= len(r))
  inv [i int, r any []*ast.Pattern]: allp(r)
  inv [i int, r any []*ast.Pattern]: forall(j, int, k, int, trig(ans(ps[j], k, pcur(pst))), 0 <= j && j < i && j < len(ps) && 0 <= k && k < nc(ps[j]) ==> (mem(kids(pcur(pst)), alang(r[start(ps, j) + k])) <==> ans(ps[j], k, pcur(pst))))
func derivReturns(refs, ps, ev) (r)
  prop C01
  requires refsfix(refs) && allp(ps) && allp(ev) && len(ev) == start(ps, len(ps))
  hint atmk(ev)
  requires forall(i, int, trig(ps[i]), 0 <= i && i < len(ps) ==> 0 <= start(ps, i) && start(ps, i) + nc(ps[i]) <= len(ev))
  requires forall(i, int, k, int, trig(ans(ps[i], k, pcur(pst))), 0 <= i && i < len(ps) && 0 <= k && k < nc(ps[i]) ==> (null(alang(elems(ev)[off(ev) + start(ps, i) + k])) <==> ans(ps[i], k, pcur(pst))))
  ensures fresh(r) && len(r) == len(ps) && allp(r)
  ensures forall(i, int, trig(r[i]), 0 <= i && i < len(r) ==> alang(r[i]) == dl(alang(ps[i]), pcur(pst)))
  inv [i int, rest any []*ast.Pattern]: arr(rest) == arr(ev) && off(rest) == off(ev) + start(ps, i) && len(rest) == len(ev) - start(ps, i)
  inv [i int, r any []*ast.Pattern]: forall(j, int, trig(r[j]), 0 <= j && j < i && j < len(ps) ==> vpat(r[j]) && alang(r[j]) == dl(alang(ps[j]), pcur(pst)))
func deriv(refs, ps, tree) (r, err)
  prop C01
  requires refsfix(refs) && allp(ps) && tree != nil
  modifies pst
  ensures err == nil ==> len(r) == len(ps) && allp(r) && pup(pst) == pup(old(pst))
  ensures err == nil ==> forall(i, int, trig(r[i]), 0 <= i && i < len(r) ==> (null(alang(r[i])) <==> mem(prem(old(pst)), alang(ps[i]))))
  inv [r any []*ast.Pattern]: pup(pst) == pup(old(pst)) && len(r) == len(ps)
  inv [r any []*ast.Pattern]: allp(r)
  inv [r any []*ast.Pattern]: forall(i, int, trig(r[i]), 0 <= i && i < len(r) ==> (mem(prem(pst), alang(r[i])) <==> mem(prem(old(pst)), alang(ps[i]))))
func Interpret(g, p) (r, err)
  prop C01
  requires gfix(g) && vref("main") && p != nil
  modifies pst
  ensures err == nil ==> (r <==> mem(prem(old(pst)), lref("main")))
func *simplifier.Grammar(this) (g)
  prop C02
  requires sinv(this) && this.refs != nil
  modifies mapof(this.cache), mapof(this.refs)
  ensures sinv(this) && gok(g)
  inv []: sinv(this)
