// Contracts of relapse/interp/recursion.go. An unguarded step leads from a pattern to an operand of it, and from a
// reference to the pattern it refers to; never into a tree node.
package relapse/interp
use lang
smt {
(declare-fun step (Int Int) Bool)
; reaches by one or more steps
(declare-fun reaches (Int Int) Bool)
; every chain of steps from the pattern ends
(declare-fun ends (Int) Bool)
; a pattern that reaches itself can be reached
(declare-fun cyclic (Int) Bool)
; lean/Rec.lean
(assert (forall ((p Int) (q Int)) (! (=> (step p q) (reaches p q)) :pattern ((step p q)))))
(assert (forall ((p Int) (q Int) (r Int)) (! (=> (and (reaches p q) (step q r)) (reaches p r)) :pattern ((reaches p q) (step q r)))))
(assert (forall ((p Int)) (! (=> (reaches p p) (cyclic p)) :pattern ((reaches p p)))))
(assert (forall ((p Int) (q Int)) (! (=> (and (step p q) (cyclic q)) (cyclic p)) :pattern ((step p q) (cyclic q)))))
(assert (forall ((p Int)) (! (=> (ends p) (not (cyclic p))) :pattern ((ends p)))))
}
def two(p, a, b) = step(p, a) && step(p, b) && (ends(p) <==> ends(a) && ends(b))
def one(p, a) = step(p, a) && (ends(p) <==> ends(a))
axiom forall(p, *ast.Pattern, trig(tp(p)), vpat(p) ==> ite(pk(p) == 3, two(p, p.Concat.LeftPattern, p.Concat.RightPattern), ite(pk(p) == 4, two(p, p.Or.LeftPattern, p.Or.RightPattern), ite(pk(p) == 5, two(p, p.And.LeftPattern, p.And.RightPattern), ite(pk(p) == 12, two(p, p.Interleave.LeftPattern, p.Interleave.RightPattern), ite(pk(p) == 6, one(p, p.ZeroOrMore.Pattern), ite(pk(p) == 7, one(p, refp(p.Reference.Name)), ite(pk(p) == 8, one(p, p.Not.Pattern), ite(pk(p) == 10, one(p, p.Contains.Pattern), ite(pk(p) == 11, one(p, p.Optional.Pattern), ends(p)))))))))))

def busy(m, q) = has(m, q) && m[q]
def ok(m) = m != nil && forall(q, *ast.Pattern, trig(has(m, q)), has(m, q) && !m[q] ==> ends(q))

func hasRecursion(visited, refs, p) (r)
  prop C22
  requires refsfix(refs) && vpat(p) && ok(visited)
  requires forall(q, *ast.Pattern, trig(has(visited, q)), busy(visited, q) ==> reaches(q, p))
  modifies mapof(visited)
  ensures ite(r, cyclic(p), ends(p))
  ensures !r ==> ok(visited) && forall(q, *ast.Pattern, trig(has(visited, q)), trig(old(has(visited, q))), busy(visited, q) <==> old(busy(visited, q)))
func childHasRecursion(visited, refs, p) (r)
  prop C22
  requires refsfix(refs) && vpat(p) && ok(visited)
  requires forall(q, *ast.Pattern, trig(has(visited, q)), busy(visited, q) ==> q == p || reaches(q, p))
  modifies mapof(visited)
  ensures ite(r, cyclic(p), ends(p))
  ensures !r ==> ok(visited) && forall(q, *ast.Pattern, trig(has(visited, q)), trig(old(has(visited, q))), busy(visited, q) <==> old(busy(visited, q)))
// a definition from which a cycle can be reached: the cycle goes through a reference, because patterns are trees
func HasRecursion(g) (r)
  prop C22
  requires gok(g) && gfix(g)
  ensures r ==> exists(n, string, trig(refp(n)), vref(n) && cyclic(refp(n)))
  ensures !r ==> forall(n, string, trig(refp(n)), vref(n) ==> ends(refp(n)))
  inv []: forall(n, string, trig(visited(n)), visited(n) ==> ends(refp(n)))
