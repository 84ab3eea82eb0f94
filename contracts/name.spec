// Contracts of relapse/name: name expressions. desc(e, n) says that the label of the valuation e is
// described by the name expression n.
package relapse/name
use funcs
immutable relapse/ast.NameExpr
immutable relapse/ast.Name
immutable relapse/ast.AnyNameExcept
immutable relapse/ast.NameChoice
smt {
(declare-fun desc (Ev Int) Bool)
(declare-fun descn (Ev Int) Bool)
(declare-fun vname (Int) Bool)
; the value a literal name holds
(declare-fun nD (Int) Float) (declare-fun nI (Int) Int) (declare-fun nU (Int) Int) (declare-fun nB (Int) Bool) (declare-fun nS (Int) Str)
(declare-fun nYlen (Int) Int) (declare-fun nY (Int Int) Int)
}
def isset(m) = m.DoubleValue != nil || m.IntValue != nil || m.UintValue != nil || m.BoolValue != nil || m.StringValue != nil || m.BytesValue != nil
// well-formed name expressions: exactly what the parser builds
axiom forall(n, *ast.NameExpr, trig(vname(n)), vname(n) <==> n != nil && ite(n.Name != nil, isset(n.Name), ite(n.AnyName != nil, true, ite(n.AnyNameExcept != nil, vname(n.AnyNameExcept.Except), n.NameChoice != nil && vname(n.NameChoice.Left) && vname(n.NameChoice.Right)))))
axiom forall(e, Ev, n, *ast.NameExpr, trig(desc(e, n)), desc(e, n) <==> ite(n.Name != nil, descn(e, n.Name), ite(n.AnyName != nil, true, ite(n.AnyNameExcept != nil, !desc(e, n.AnyNameExcept.Except), desc(e, n.NameChoice.Left) || desc(e, n.NameChoice.Right)))))
axiom forall(e, Ev, m, *ast.Name, trig(descn(e, m)), descn(e, m) <==> label(e) != nil && ite(m.DoubleValue != nil, pokD(label(e)) && flteq(pD(label(e)), nD(m)), ite(m.IntValue != nil, pokI(label(e)) && pI(label(e)) == nI(m), ite(m.UintValue != nil, pokU(label(e)) && pU(label(e)) == nU(m), ite(m.BoolValue != nil, pokB(label(e)) && pB(label(e)) == nB(m), ite(m.StringValue != nil, pokS(label(e)) && pS(label(e)) == nS(m), pokY(label(e)) && pYlen(label(e)) == nYlen(m) && forall(k, int, trig(nY(m, k)), trig(pY(label(e), k)), 0 <= k && k < nYlen(m) ==> pY(label(e), k) == nY(m, k))))))))

func NameToFunc(n) (r)
  prop C11
  requires vname(n)
  assumes forall(m, *ast.Name, trig(m.DoubleValue), m.DoubleValue != nil ==> *m.DoubleValue == nD(m))
  assumes forall(m, *ast.Name, trig(m.IntValue), m.IntValue != nil ==> *m.IntValue == nI(m))
  assumes forall(m, *ast.Name, trig(m.UintValue), m.UintValue != nil ==> *m.UintValue == nU(m))
  assumes forall(m, *ast.Name, trig(m.BoolValue), m.BoolValue != nil ==> (*m.BoolValue <==> nB(m)))
  assumes forall(m, *ast.Name, trig(m.StringValue), m.StringValue != nil ==> *m.StringValue == nS(m))
  assumes forall(m, *ast.Name, trig(m.BytesValue), m.BytesValue != nil ==> len(m.BytesValue) == nYlen(m))
  assumes forall(m, *ast.Name, k, int, trig(nY(m, k)), trig(m.BytesValue[k]), m.BytesValue != nil && 0 <= k && k < len(m.BytesValue) ==> m.BytesValue[k] == nY(m, k))
  ensures r != nil && valid(r)
  ensures forall(e, Ev, trig(sem(e, r)), trig(desc(e, n)), T(e, r) <==> desc(e, n))
