// Equality of AST patterns (generated by tools/genasteq.py). The class of a value is its structure without the
// spelling of literals: Equal answers whether the classes are equal, and equal classes have the same meaning.
package relapse/ast
use lang
immutable relapse/ast.Expr
immutable relapse/ast.Terminal
immutable relapse/ast.List
immutable relapse/ast.Function
immutable relapse/ast.BuiltIn
immutable relapse/ast.Keyword
immutable relapse/ast.Space
immutable relapse/ast.Variable
def isset(m) = m.DoubleValue != nil || m.IntValue != nil || m.UintValue != nil || m.BoolValue != nil || m.StringValue != nil || m.BytesValue != nil
smt {
; what (*Pattern).Hash answers: a function of the immutable pattern
(declare-fun patHash (Int) Int)

(declare-sort Cls 0)
(declare-fun cnil () Cls)
(declare-fun cvD (Float) Cls) (declare-fun cgD (Cls) Float)
(assert (forall ((v Float)) (! (and (= (cgD (cvD v)) v) (not (= (cvD v) cnil))) :pattern ((cvD v)))))
(declare-fun cvI (Int) Cls) (declare-fun cgI (Cls) Int)
(assert (forall ((v Int)) (! (and (= (cgI (cvI v)) v) (not (= (cvI v) cnil))) :pattern ((cvI v)))))
(declare-fun cvU (Int) Cls) (declare-fun cgU (Cls) Int)
(assert (forall ((v Int)) (! (and (= (cgU (cvU v)) v) (not (= (cvU v) cnil))) :pattern ((cvU v)))))
(declare-fun cvB (Bool) Cls) (declare-fun cgB (Cls) Bool)
(assert (forall ((v Bool)) (! (and (= (cgB (cvB v)) v) (not (= (cvB v) cnil))) :pattern ((cvB v)))))
(declare-fun cvS (Str) Cls) (declare-fun cgS (Cls) Str)
(assert (forall ((v Str)) (! (and (= (cgS (cvS v)) v) (not (= (cvS v) cnil))) :pattern ((cvS v)))))
(declare-fun cPattern (Int) Cls) (declare-fun uPattern (Int) Bool) (declare-fun mkPattern (Cls Cls Cls Cls Cls Cls Cls Cls Cls Cls Cls Cls Cls) Cls) (declare-fun gPattern0 (Cls) Cls) (declare-fun gPattern1 (Cls) Cls) (declare-fun gPattern2 (Cls) Cls) (declare-fun gPattern3 (Cls) Cls) (declare-fun gPattern4 (Cls) Cls) (declare-fun gPattern5 (Cls) Cls) (declare-fun gPattern6 (Cls) Cls) (declare-fun gPattern7 (Cls) Cls) (declare-fun gPattern8 (Cls) Cls) (declare-fun gPattern9 (Cls) Cls) (declare-fun gPattern10 (Cls) Cls) (declare-fun gPattern11 (Cls) Cls) (declare-fun gPattern12 (Cls) Cls)
(assert (forall ((p Int)) (! (uPattern p) :pattern ((uPattern p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls) (a4 Cls) (a5 Cls) (a6 Cls) (a7 Cls) (a8 Cls) (a9 Cls) (a10 Cls) (a11 Cls) (a12 Cls)) (! (and (not (= (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12) cnil)) (= (gPattern0 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a0) (= (gPattern1 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a1) (= (gPattern2 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a2) (= (gPattern3 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a3) (= (gPattern4 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a4) (= (gPattern5 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a5) (= (gPattern6 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a6) (= (gPattern7 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a7) (= (gPattern8 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a8) (= (gPattern9 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a9) (= (gPattern10 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a10) (= (gPattern11 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a11) (= (gPattern12 (mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)) a12)) :pattern ((mkPattern a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 a10 a11 a12)))))
(declare-fun cEmpty (Int) Cls) (declare-fun uEmpty (Int) Bool) (declare-fun mkEmpty (Cls) Cls) (declare-fun gEmpty0 (Cls) Cls)
(assert (forall ((p Int)) (! (uEmpty p) :pattern ((uEmpty p)))))
(assert (forall ((a0 Cls)) (! (and (not (= (mkEmpty a0) cnil)) (= (gEmpty0 (mkEmpty a0)) a0)) :pattern ((mkEmpty a0)))))
(declare-fun cTreeNode (Int) Cls) (declare-fun uTreeNode (Int) Bool) (declare-fun mkTreeNode (Cls Cls Cls) Cls) (declare-fun gTreeNode0 (Cls) Cls) (declare-fun gTreeNode1 (Cls) Cls) (declare-fun gTreeNode2 (Cls) Cls)
(assert (forall ((p Int)) (! (uTreeNode p) :pattern ((uTreeNode p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls)) (! (and (not (= (mkTreeNode a0 a1 a2) cnil)) (= (gTreeNode0 (mkTreeNode a0 a1 a2)) a0) (= (gTreeNode1 (mkTreeNode a0 a1 a2)) a1) (= (gTreeNode2 (mkTreeNode a0 a1 a2)) a2)) :pattern ((mkTreeNode a0 a1 a2)))))
(declare-fun cLeafNode (Int) Cls) (declare-fun uLeafNode (Int) Bool) (declare-fun mkLeafNode (Cls) Cls) (declare-fun gLeafNode0 (Cls) Cls)
(assert (forall ((p Int)) (! (uLeafNode p) :pattern ((uLeafNode p)))))
(assert (forall ((a0 Cls)) (! (and (not (= (mkLeafNode a0) cnil)) (= (gLeafNode0 (mkLeafNode a0)) a0)) :pattern ((mkLeafNode a0)))))
(declare-fun cConcat (Int) Cls) (declare-fun uConcat (Int) Bool) (declare-fun mkConcat (Cls Cls Cls Cls Cls Cls) Cls) (declare-fun gConcat0 (Cls) Cls) (declare-fun gConcat1 (Cls) Cls) (declare-fun gConcat2 (Cls) Cls) (declare-fun gConcat3 (Cls) Cls) (declare-fun gConcat4 (Cls) Cls) (declare-fun gConcat5 (Cls) Cls)
(assert (forall ((p Int)) (! (uConcat p) :pattern ((uConcat p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls) (a4 Cls) (a5 Cls)) (! (and (not (= (mkConcat a0 a1 a2 a3 a4 a5) cnil)) (= (gConcat0 (mkConcat a0 a1 a2 a3 a4 a5)) a0) (= (gConcat1 (mkConcat a0 a1 a2 a3 a4 a5)) a1) (= (gConcat2 (mkConcat a0 a1 a2 a3 a4 a5)) a2) (= (gConcat3 (mkConcat a0 a1 a2 a3 a4 a5)) a3) (= (gConcat4 (mkConcat a0 a1 a2 a3 a4 a5)) a4) (= (gConcat5 (mkConcat a0 a1 a2 a3 a4 a5)) a5)) :pattern ((mkConcat a0 a1 a2 a3 a4 a5)))))
(declare-fun cOr (Int) Cls) (declare-fun uOr (Int) Bool) (declare-fun mkOr (Cls Cls Cls Cls Cls) Cls) (declare-fun gOr0 (Cls) Cls) (declare-fun gOr1 (Cls) Cls) (declare-fun gOr2 (Cls) Cls) (declare-fun gOr3 (Cls) Cls) (declare-fun gOr4 (Cls) Cls)
(assert (forall ((p Int)) (! (uOr p) :pattern ((uOr p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls) (a4 Cls)) (! (and (not (= (mkOr a0 a1 a2 a3 a4) cnil)) (= (gOr0 (mkOr a0 a1 a2 a3 a4)) a0) (= (gOr1 (mkOr a0 a1 a2 a3 a4)) a1) (= (gOr2 (mkOr a0 a1 a2 a3 a4)) a2) (= (gOr3 (mkOr a0 a1 a2 a3 a4)) a3) (= (gOr4 (mkOr a0 a1 a2 a3 a4)) a4)) :pattern ((mkOr a0 a1 a2 a3 a4)))))
(declare-fun cAnd (Int) Cls) (declare-fun uAnd (Int) Bool) (declare-fun mkAnd (Cls Cls Cls Cls Cls) Cls) (declare-fun gAnd0 (Cls) Cls) (declare-fun gAnd1 (Cls) Cls) (declare-fun gAnd2 (Cls) Cls) (declare-fun gAnd3 (Cls) Cls) (declare-fun gAnd4 (Cls) Cls)
(assert (forall ((p Int)) (! (uAnd p) :pattern ((uAnd p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls) (a4 Cls)) (! (and (not (= (mkAnd a0 a1 a2 a3 a4) cnil)) (= (gAnd0 (mkAnd a0 a1 a2 a3 a4)) a0) (= (gAnd1 (mkAnd a0 a1 a2 a3 a4)) a1) (= (gAnd2 (mkAnd a0 a1 a2 a3 a4)) a2) (= (gAnd3 (mkAnd a0 a1 a2 a3 a4)) a3) (= (gAnd4 (mkAnd a0 a1 a2 a3 a4)) a4)) :pattern ((mkAnd a0 a1 a2 a3 a4)))))
(declare-fun cZeroOrMore (Int) Cls) (declare-fun uZeroOrMore (Int) Bool) (declare-fun mkZeroOrMore (Cls Cls Cls Cls) Cls) (declare-fun gZeroOrMore0 (Cls) Cls) (declare-fun gZeroOrMore1 (Cls) Cls) (declare-fun gZeroOrMore2 (Cls) Cls) (declare-fun gZeroOrMore3 (Cls) Cls)
(assert (forall ((p Int)) (! (uZeroOrMore p) :pattern ((uZeroOrMore p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls)) (! (and (not (= (mkZeroOrMore a0 a1 a2 a3) cnil)) (= (gZeroOrMore0 (mkZeroOrMore a0 a1 a2 a3)) a0) (= (gZeroOrMore1 (mkZeroOrMore a0 a1 a2 a3)) a1) (= (gZeroOrMore2 (mkZeroOrMore a0 a1 a2 a3)) a2) (= (gZeroOrMore3 (mkZeroOrMore a0 a1 a2 a3)) a3)) :pattern ((mkZeroOrMore a0 a1 a2 a3)))))
(declare-fun cReference (Int) Cls) (declare-fun uReference (Int) Bool) (declare-fun mkReference (Cls Str) Cls) (declare-fun gReference0 (Cls) Cls) (declare-fun gReference1 (Cls) Str)
(assert (forall ((p Int)) (! (uReference p) :pattern ((uReference p)))))
(assert (forall ((a0 Cls) (a1 Str)) (! (and (not (= (mkReference a0 a1) cnil)) (= (gReference0 (mkReference a0 a1)) a0) (= (gReference1 (mkReference a0 a1)) a1)) :pattern ((mkReference a0 a1)))))
(declare-fun cNot (Int) Cls) (declare-fun uNot (Int) Bool) (declare-fun mkNot (Cls Cls Cls Cls) Cls) (declare-fun gNot0 (Cls) Cls) (declare-fun gNot1 (Cls) Cls) (declare-fun gNot2 (Cls) Cls) (declare-fun gNot3 (Cls) Cls)
(assert (forall ((p Int)) (! (uNot p) :pattern ((uNot p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls)) (! (and (not (= (mkNot a0 a1 a2 a3) cnil)) (= (gNot0 (mkNot a0 a1 a2 a3)) a0) (= (gNot1 (mkNot a0 a1 a2 a3)) a1) (= (gNot2 (mkNot a0 a1 a2 a3)) a2) (= (gNot3 (mkNot a0 a1 a2 a3)) a3)) :pattern ((mkNot a0 a1 a2 a3)))))
(declare-fun cZAny (Int) Cls) (declare-fun uZAny (Int) Bool) (declare-fun mkZAny (Cls) Cls) (declare-fun gZAny0 (Cls) Cls)
(assert (forall ((p Int)) (! (uZAny p) :pattern ((uZAny p)))))
(assert (forall ((a0 Cls)) (! (and (not (= (mkZAny a0) cnil)) (= (gZAny0 (mkZAny a0)) a0)) :pattern ((mkZAny a0)))))
(declare-fun cContains (Int) Cls) (declare-fun uContains (Int) Bool) (declare-fun mkContains (Cls Cls) Cls) (declare-fun gContains0 (Cls) Cls) (declare-fun gContains1 (Cls) Cls)
(assert (forall ((p Int)) (! (uContains p) :pattern ((uContains p)))))
(assert (forall ((a0 Cls) (a1 Cls)) (! (and (not (= (mkContains a0 a1) cnil)) (= (gContains0 (mkContains a0 a1)) a0) (= (gContains1 (mkContains a0 a1)) a1)) :pattern ((mkContains a0 a1)))))
(declare-fun cOptional (Int) Cls) (declare-fun uOptional (Int) Bool) (declare-fun mkOptional (Cls Cls Cls Cls) Cls) (declare-fun gOptional0 (Cls) Cls) (declare-fun gOptional1 (Cls) Cls) (declare-fun gOptional2 (Cls) Cls) (declare-fun gOptional3 (Cls) Cls)
(assert (forall ((p Int)) (! (uOptional p) :pattern ((uOptional p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls)) (! (and (not (= (mkOptional a0 a1 a2 a3) cnil)) (= (gOptional0 (mkOptional a0 a1 a2 a3)) a0) (= (gOptional1 (mkOptional a0 a1 a2 a3)) a1) (= (gOptional2 (mkOptional a0 a1 a2 a3)) a2) (= (gOptional3 (mkOptional a0 a1 a2 a3)) a3)) :pattern ((mkOptional a0 a1 a2 a3)))))
(declare-fun cInterleave (Int) Cls) (declare-fun uInterleave (Int) Bool) (declare-fun mkInterleave (Cls Cls Cls Cls Cls Cls) Cls) (declare-fun gInterleave0 (Cls) Cls) (declare-fun gInterleave1 (Cls) Cls) (declare-fun gInterleave2 (Cls) Cls) (declare-fun gInterleave3 (Cls) Cls) (declare-fun gInterleave4 (Cls) Cls) (declare-fun gInterleave5 (Cls) Cls)
(assert (forall ((p Int)) (! (uInterleave p) :pattern ((uInterleave p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls) (a4 Cls) (a5 Cls)) (! (and (not (= (mkInterleave a0 a1 a2 a3 a4 a5) cnil)) (= (gInterleave0 (mkInterleave a0 a1 a2 a3 a4 a5)) a0) (= (gInterleave1 (mkInterleave a0 a1 a2 a3 a4 a5)) a1) (= (gInterleave2 (mkInterleave a0 a1 a2 a3 a4 a5)) a2) (= (gInterleave3 (mkInterleave a0 a1 a2 a3 a4 a5)) a3) (= (gInterleave4 (mkInterleave a0 a1 a2 a3 a4 a5)) a4) (= (gInterleave5 (mkInterleave a0 a1 a2 a3 a4 a5)) a5)) :pattern ((mkInterleave a0 a1 a2 a3 a4 a5)))))
(declare-fun cNameExpr (Int) Cls) (declare-fun uNameExpr (Int) Bool) (declare-fun mkNameExpr (Cls Cls Cls Cls) Cls) (declare-fun gNameExpr0 (Cls) Cls) (declare-fun gNameExpr1 (Cls) Cls) (declare-fun gNameExpr2 (Cls) Cls) (declare-fun gNameExpr3 (Cls) Cls)
(assert (forall ((p Int)) (! (uNameExpr p) :pattern ((uNameExpr p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls)) (! (and (not (= (mkNameExpr a0 a1 a2 a3) cnil)) (= (gNameExpr0 (mkNameExpr a0 a1 a2 a3)) a0) (= (gNameExpr1 (mkNameExpr a0 a1 a2 a3)) a1) (= (gNameExpr2 (mkNameExpr a0 a1 a2 a3)) a2) (= (gNameExpr3 (mkNameExpr a0 a1 a2 a3)) a3)) :pattern ((mkNameExpr a0 a1 a2 a3)))))
(declare-fun cName (Int) Cls) (declare-fun uName (Int) Bool) (declare-fun mkName (Cls Cls Cls Cls Cls Cls Cls) Cls) (declare-fun gName0 (Cls) Cls) (declare-fun gName1 (Cls) Cls) (declare-fun gName2 (Cls) Cls) (declare-fun gName3 (Cls) Cls) (declare-fun gName4 (Cls) Cls) (declare-fun gName5 (Cls) Cls) (declare-fun gName6 (Cls) Cls)
(assert (forall ((p Int)) (! (uName p) :pattern ((uName p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls) (a4 Cls) (a5 Cls) (a6 Cls)) (! (and (not (= (mkName a0 a1 a2 a3 a4 a5 a6) cnil)) (= (gName0 (mkName a0 a1 a2 a3 a4 a5 a6)) a0) (= (gName1 (mkName a0 a1 a2 a3 a4 a5 a6)) a1) (= (gName2 (mkName a0 a1 a2 a3 a4 a5 a6)) a2) (= (gName3 (mkName a0 a1 a2 a3 a4 a5 a6)) a3) (= (gName4 (mkName a0 a1 a2 a3 a4 a5 a6)) a4) (= (gName5 (mkName a0 a1 a2 a3 a4 a5 a6)) a5) (= (gName6 (mkName a0 a1 a2 a3 a4 a5 a6)) a6)) :pattern ((mkName a0 a1 a2 a3 a4 a5 a6)))))
(declare-fun cAnyName (Int) Cls) (declare-fun uAnyName (Int) Bool) (declare-fun mkAnyName (Cls) Cls) (declare-fun gAnyName0 (Cls) Cls)
(assert (forall ((p Int)) (! (uAnyName p) :pattern ((uAnyName p)))))
(assert (forall ((a0 Cls)) (! (and (not (= (mkAnyName a0) cnil)) (= (gAnyName0 (mkAnyName a0)) a0)) :pattern ((mkAnyName a0)))))
(declare-fun cAnyNameExcept (Int) Cls) (declare-fun uAnyNameExcept (Int) Bool) (declare-fun mkAnyNameExcept (Cls Cls Cls Cls) Cls) (declare-fun gAnyNameExcept0 (Cls) Cls) (declare-fun gAnyNameExcept1 (Cls) Cls) (declare-fun gAnyNameExcept2 (Cls) Cls) (declare-fun gAnyNameExcept3 (Cls) Cls)
(assert (forall ((p Int)) (! (uAnyNameExcept p) :pattern ((uAnyNameExcept p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls)) (! (and (not (= (mkAnyNameExcept a0 a1 a2 a3) cnil)) (= (gAnyNameExcept0 (mkAnyNameExcept a0 a1 a2 a3)) a0) (= (gAnyNameExcept1 (mkAnyNameExcept a0 a1 a2 a3)) a1) (= (gAnyNameExcept2 (mkAnyNameExcept a0 a1 a2 a3)) a2) (= (gAnyNameExcept3 (mkAnyNameExcept a0 a1 a2 a3)) a3)) :pattern ((mkAnyNameExcept a0 a1 a2 a3)))))
(declare-fun cNameChoice (Int) Cls) (declare-fun uNameChoice (Int) Bool) (declare-fun mkNameChoice (Cls Cls Cls Cls Cls) Cls) (declare-fun gNameChoice0 (Cls) Cls) (declare-fun gNameChoice1 (Cls) Cls) (declare-fun gNameChoice2 (Cls) Cls) (declare-fun gNameChoice3 (Cls) Cls) (declare-fun gNameChoice4 (Cls) Cls)
(assert (forall ((p Int)) (! (uNameChoice p) :pattern ((uNameChoice p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls) (a4 Cls)) (! (and (not (= (mkNameChoice a0 a1 a2 a3 a4) cnil)) (= (gNameChoice0 (mkNameChoice a0 a1 a2 a3 a4)) a0) (= (gNameChoice1 (mkNameChoice a0 a1 a2 a3 a4)) a1) (= (gNameChoice2 (mkNameChoice a0 a1 a2 a3 a4)) a2) (= (gNameChoice3 (mkNameChoice a0 a1 a2 a3 a4)) a3) (= (gNameChoice4 (mkNameChoice a0 a1 a2 a3 a4)) a4)) :pattern ((mkNameChoice a0 a1 a2 a3 a4)))))
(declare-fun cExpr (Int) Cls) (declare-fun uExpr (Int) Bool) (declare-fun mkExpr (Cls Cls Cls Cls Cls Cls) Cls) (declare-fun gExpr0 (Cls) Cls) (declare-fun gExpr1 (Cls) Cls) (declare-fun gExpr2 (Cls) Cls) (declare-fun gExpr3 (Cls) Cls) (declare-fun gExpr4 (Cls) Cls) (declare-fun gExpr5 (Cls) Cls)
(assert (forall ((p Int)) (! (uExpr p) :pattern ((uExpr p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls) (a4 Cls) (a5 Cls)) (! (and (not (= (mkExpr a0 a1 a2 a3 a4 a5) cnil)) (= (gExpr0 (mkExpr a0 a1 a2 a3 a4 a5)) a0) (= (gExpr1 (mkExpr a0 a1 a2 a3 a4 a5)) a1) (= (gExpr2 (mkExpr a0 a1 a2 a3 a4 a5)) a2) (= (gExpr3 (mkExpr a0 a1 a2 a3 a4 a5)) a3) (= (gExpr4 (mkExpr a0 a1 a2 a3 a4 a5)) a4) (= (gExpr5 (mkExpr a0 a1 a2 a3 a4 a5)) a5)) :pattern ((mkExpr a0 a1 a2 a3 a4 a5)))))
(declare-fun cTerminal (Int) Cls) (declare-fun uTerminal (Int) Bool) (declare-fun mkTerminal (Cls Cls Cls Cls Cls Cls Cls Cls) Cls) (declare-fun gTerminal0 (Cls) Cls) (declare-fun gTerminal1 (Cls) Cls) (declare-fun gTerminal2 (Cls) Cls) (declare-fun gTerminal3 (Cls) Cls) (declare-fun gTerminal4 (Cls) Cls) (declare-fun gTerminal5 (Cls) Cls) (declare-fun gTerminal6 (Cls) Cls) (declare-fun gTerminal7 (Cls) Cls)
(assert (forall ((p Int)) (! (uTerminal p) :pattern ((uTerminal p)))))
(assert (forall ((a0 Cls) (a1 Cls) (a2 Cls) (a3 Cls) (a4 Cls) (a5 Cls) (a6 Cls) (a7 Cls)) (! (and (not (= (mkTerminal a0 a1 a2 a3 a4 a5 a6 a7) cnil)) (= (gTerminal0 (mkTerminal a0 a1 a2 a3 a4 a5 a6 a7)) a0) (= (gTerminal1 (mkTerminal a0 a1 a2 a3 a4 a5 a6 a7)) a1) (= (gTerminal2 (mkTerminal a0 a1 a2 a3 a4 a5 a6 a7)) a2) (= (gTerminal3 (mkTerminal a0 a1 a2 a3 a4 a5 a6 a7)) a3) (= (gTerminal4 (mkTerminal a0 a1 a2 a3 a4 a5 a6 a7)) a4) (= (gTerminal5 (mkTerminal a0 a1 a2 a3 a4 a5 a6 a7)) a5) (= (gTerminal6 (mkTerminal a0 a1 a2 a3 a4 a5 a6 a7)) a6) (= (gTerminal7 (mkTerminal a0 a1 a2 a3 a4 a5 a6 a7)) a7)) :pattern ((mkTerminal a0 a1 a2 a3 a4 a5 a6 a7)))))
(declare-fun cList (Int) Cls) (declare-fun uList (Int) Bool) (declare-fun mkList (Cls Int Cls Cls Cls) Cls) (declare-fun gList0 (Cls) Cls) (declare-fun gList1 (Cls) Int) (declare-fun gList2 (Cls) Cls) (declare-fun gList3 (Cls) Cls) (declare-fun gList4 (Cls) Cls)
(assert (forall ((p Int)) (! (uList p) :pattern ((uList p)))))
(assert (forall ((a0 Cls) (a1 Int) (a2 Cls) (a3 Cls) (a4 Cls)) (! (and (not (= (mkList a0 a1 a2 a3 a4) cnil)) (= (gList0 (mkList a0 a1 a2 a3 a4)) a0) (= (gList1 (mkList a0 a1 a2 a3 a4)) a1) (= (gList2 (mkList a0 a1 a2 a3 a4)) a2) (= (gList3 (mkList a0 a1 a2 a3 a4)) a3) (= (gList4 (mkList a0 a1 a2 a3 a4)) a4)) :pattern ((mkList a0 a1 a2 a3 a4)))))
(declare-fun cFunction (Int) Cls) (declare-fun uFunction (Int) Bool) (declare-fun mkFunction (Cls Str Cls Cls Cls) Cls) (declare-fun gFunction0 (Cls) Cls) (declare-fun gFunction1 (Cls) Str) (declare-fun gFunction2 (Cls) Cls) (declare-fun gFunction3 (Cls) Cls) (declare-fun gFunction4 (Cls) Cls)
(assert (forall ((p Int)) (! (uFunction p) :pattern ((uFunction p)))))
(assert (forall ((a0 Cls) (a1 Str) (a2 Cls) (a3 Cls) (a4 Cls)) (! (and (not (= (mkFunction a0 a1 a2 a3 a4) cnil)) (= (gFunction0 (mkFunction a0 a1 a2 a3 a4)) a0) (= (gFunction1 (mkFunction a0 a1 a2 a3 a4)) a1) (= (gFunction2 (mkFunction a0 a1 a2 a3 a4)) a2) (= (gFunction3 (mkFunction a0 a1 a2 a3 a4)) a3) (= (gFunction4 (mkFunction a0 a1 a2 a3 a4)) a4)) :pattern ((mkFunction a0 a1 a2 a3 a4)))))
(declare-fun cBuiltIn (Int) Cls) (declare-fun uBuiltIn (Int) Bool) (declare-fun mkBuiltIn (Cls Cls) Cls) (declare-fun gBuiltIn0 (Cls) Cls) (declare-fun gBuiltIn1 (Cls) Cls)
(assert (forall ((p Int)) (! (uBuiltIn p) :pattern ((uBuiltIn p)))))
(assert (forall ((a0 Cls) (a1 Cls)) (! (and (not (= (mkBuiltIn a0 a1) cnil)) (= (gBuiltIn0 (mkBuiltIn a0 a1)) a0) (= (gBuiltIn1 (mkBuiltIn a0 a1)) a1)) :pattern ((mkBuiltIn a0 a1)))))
(declare-fun cKeyword (Int) Cls) (declare-fun uKeyword (Int) Bool) (declare-fun mkKeyword (Cls Str) Cls) (declare-fun gKeyword0 (Cls) Cls) (declare-fun gKeyword1 (Cls) Str)
(assert (forall ((p Int)) (! (uKeyword p) :pattern ((uKeyword p)))))
(assert (forall ((a0 Cls) (a1 Str)) (! (and (not (= (mkKeyword a0 a1) cnil)) (= (gKeyword0 (mkKeyword a0 a1)) a0) (= (gKeyword1 (mkKeyword a0 a1)) a1)) :pattern ((mkKeyword a0 a1)))))
(declare-fun cSpace (Int) Cls) (declare-fun uSpace (Int) Bool) (declare-fun mkSpace (Cls) Cls) (declare-fun gSpace0 (Cls) Cls)
(assert (forall ((p Int)) (! (uSpace p) :pattern ((uSpace p)))))
(assert (forall ((a0 Cls)) (! (and (not (= (mkSpace a0) cnil)) (= (gSpace0 (mkSpace a0)) a0)) :pattern ((mkSpace a0)))))
(declare-fun cVariable (Int) Cls) (declare-fun uVariable (Int) Bool) (declare-fun mkVariable (Int) Cls) (declare-fun gVariable0 (Cls) Int)
(assert (forall ((p Int)) (! (uVariable p) :pattern ((uVariable p)))))
(assert (forall ((a0 Int)) (! (and (not (= (mkVariable a0) cnil)) (= (gVariable0 (mkVariable a0)) a0)) :pattern ((mkVariable a0)))))
; the elements of the lists and the bytes that a value holds
(declare-fun seqS (Int) Cls) (declare-fun seqE (Int) Cls) (declare-fun clsY (Int) Cls)
(declare-fun sqnil (Int) Bool) (declare-fun sqlen (Int) Int) (declare-fun sqS (Int Int) Str) (declare-fun sqE (Int Int) Int)
(assert (forall ((m Int)) (! (not (fltnan (nD m))) :pattern ((nD m)))))
(assert (forall ((t Tree) (n Int)) (! (= (holds (nameP n) t) (desc (tev t) n)) :pattern ((desc (tev t) n)))))
; sequences with the same elements are the same
(assert (forall ((a Int) (b Int)) (! (= (= (seqS a) (seqS b)) (and (= (sqnil a) (sqnil b)) (= (sqlen a) (sqlen b)) (forall ((k Int)) (! (=> (and (<= 0 k) (< k (sqlen a))) (= (sqS a k) (sqS b k))) :pattern ((sqS a k)) :pattern ((sqS b k)))))) :pattern ((seqS a) (seqS b)))))
(assert (forall ((a Int) (b Int)) (! (= (= (seqE a) (seqE b)) (and (= (sqnil a) (sqnil b)) (= (sqlen a) (sqlen b)) (forall ((k Int)) (! (=> (and (<= 0 k) (< k (sqlen a))) (= (cExpr (sqE a k)) (cExpr (sqE b k)))) :pattern ((sqE a k)) :pattern ((sqE b k)))))) :pattern ((seqE a) (seqE b)))))
(assert (forall ((a Int) (b Int)) (! (= (= (clsY a) (clsY b)) (and (= (nYlen a) (nYlen b)) (forall ((k Int)) (! (=> (and (<= 0 k) (< k (nYlen a))) (= (nY a k) (nY b k))) :pattern ((nY a k)) :pattern ((nY b k)))))) :pattern ((clsY a) (clsY b)))))
; an expression is compiled from its structure
(assert (forall ((a Int) (b Int)) (! (=> (= (cExpr a) (cExpr b)) (= (exprP a) (exprP b))) :pattern ((cExpr a) (cExpr b)))))
(declare-fun patEq (Int Int) Bool)
(declare-fun nameEq (Int Int) Bool)
(assert (forall ((a Int) (b Int)) (! (= (patEq a b) (= (cPattern a) (cPattern b))) :pattern ((patEq a b)))))
(assert (forall ((a Int) (b Int)) (! (= (nameEq a b) (= (cNameExpr a) (cNameExpr b))) :pattern ((nameEq a b)))))
}

axiom forall(p, *ast.Pattern, trig(uPattern(p)), cPattern(p) == ite(p == nil, cnil(), mkPattern(cEmpty(p.Empty), cTreeNode(p.TreeNode), cLeafNode(p.LeafNode), cConcat(p.Concat), cOr(p.Or), cAnd(p.And), cZeroOrMore(p.ZeroOrMore), cReference(p.Reference), cNot(p.Not), cZAny(p.ZAny), cContains(p.Contains), cOptional(p.Optional), cInterleave(p.Interleave))))
axiom forall(p, *ast.Empty, trig(uEmpty(p)), cEmpty(p) == ite(p == nil, cnil(), mkEmpty(cKeyword(p.Empty))))
axiom forall(p, *ast.TreeNode, trig(uTreeNode(p)), cTreeNode(p) == ite(p == nil, cnil(), mkTreeNode(cNameExpr(p.Name), cKeyword(p.Colon), cPattern(p.Pattern))))
axiom forall(p, *ast.LeafNode, trig(uLeafNode(p)), cLeafNode(p) == ite(p == nil, cnil(), mkLeafNode(cExpr(p.Expr))))
axiom forall(p, *ast.Concat, trig(uConcat(p)), cConcat(p) == ite(p == nil, cnil(), mkConcat(cKeyword(p.OpenBracket), cPattern(p.LeftPattern), cKeyword(p.Comma), cPattern(p.RightPattern), cKeyword(p.ExtraComma), cKeyword(p.CloseBracket))))
axiom forall(p, *ast.Or, trig(uOr(p)), cOr(p) == ite(p == nil, cnil(), mkOr(cKeyword(p.OpenParen), cPattern(p.LeftPattern), cKeyword(p.Pipe), cPattern(p.RightPattern), cKeyword(p.CloseParen))))
axiom forall(p, *ast.And, trig(uAnd(p)), cAnd(p) == ite(p == nil, cnil(), mkAnd(cKeyword(p.OpenParen), cPattern(p.LeftPattern), cKeyword(p.Ampersand), cPattern(p.RightPattern), cKeyword(p.CloseParen))))
axiom forall(p, *ast.ZeroOrMore, trig(uZeroOrMore(p)), cZeroOrMore(p) == ite(p == nil, cnil(), mkZeroOrMore(cKeyword(p.OpenParen), cPattern(p.Pattern), cKeyword(p.CloseParen), cKeyword(p.Star))))
axiom forall(p, *ast.Reference, trig(uReference(p)), cReference(p) == ite(p == nil, cnil(), mkReference(cKeyword(p.At), p.Name)))
axiom forall(p, *ast.Not, trig(uNot(p)), cNot(p) == ite(p == nil, cnil(), mkNot(cKeyword(p.Exclamation), cKeyword(p.OpenParen), cPattern(p.Pattern), cKeyword(p.CloseParen))))
axiom forall(p, *ast.ZAny, trig(uZAny(p)), cZAny(p) == ite(p == nil, cnil(), mkZAny(cKeyword(p.Star))))
axiom forall(p, *ast.Contains, trig(uContains(p)), cContains(p) == ite(p == nil, cnil(), mkContains(cKeyword(p.Dot), cPattern(p.Pattern))))
axiom forall(p, *ast.Optional, trig(uOptional(p)), cOptional(p) == ite(p == nil, cnil(), mkOptional(cKeyword(p.OpenParen), cPattern(p.Pattern), cKeyword(p.CloseParen), cKeyword(p.QuestionMark))))
axiom forall(p, *ast.Interleave, trig(uInterleave(p)), cInterleave(p) == ite(p == nil, cnil(), mkInterleave(cKeyword(p.OpenCurly), cPattern(p.LeftPattern), cKeyword(p.SemiColon), cPattern(p.RightPattern), cKeyword(p.ExtraSemiColon), cKeyword(p.CloseCurly))))
axiom forall(p, *ast.NameExpr, trig(uNameExpr(p)), cNameExpr(p) == ite(p == nil, cnil(), mkNameExpr(cName(p.Name), cAnyName(p.AnyName), cAnyNameExcept(p.AnyNameExcept), cNameChoice(p.NameChoice))))
axiom forall(p, *ast.Name, trig(uName(p)), cName(p) == ite(p == nil, cnil(), mkName(cSpace(p.Before), ite(p.DoubleValue != nil, cvD(nD(p)), cnil()), ite(p.IntValue != nil, cvI(nI(p)), cnil()), ite(p.UintValue != nil, cvU(nU(p)), cnil()), ite(p.BoolValue != nil, cvB(nB(p)), cnil()), ite(p.StringValue != nil, cvS(nS(p)), cnil()), clsY(p))))
axiom forall(p, *ast.AnyName, trig(uAnyName(p)), cAnyName(p) == ite(p == nil, cnil(), mkAnyName(cKeyword(p.Underscore))))
axiom forall(p, *ast.AnyNameExcept, trig(uAnyNameExcept(p)), cAnyNameExcept(p) == ite(p == nil, cnil(), mkAnyNameExcept(cKeyword(p.Exclamation), cKeyword(p.OpenParen), cNameExpr(p.Except), cKeyword(p.CloseParen))))
axiom forall(p, *ast.NameChoice, trig(uNameChoice(p)), cNameChoice(p) == ite(p == nil, cnil(), mkNameChoice(cKeyword(p.OpenParen), cNameExpr(p.Left), cKeyword(p.Pipe), cNameExpr(p.Right), cKeyword(p.CloseParen))))
axiom forall(p, *ast.Expr, trig(uExpr(p)), cExpr(p) == ite(p == nil, cnil(), mkExpr(cKeyword(p.RightArrow), cKeyword(p.Comma), cTerminal(p.Terminal), cList(p.List), cFunction(p.Function), cBuiltIn(p.BuiltIn))))
axiom forall(p, *ast.Terminal, trig(uTerminal(p)), cTerminal(p) == ite(p == nil, cnil(), mkTerminal(cSpace(p.Before), ite(p.DoubleValue != nil, cvD(nD(p)), cnil()), ite(p.IntValue != nil, cvI(nI(p)), cnil()), ite(p.UintValue != nil, cvU(nU(p)), cnil()), ite(p.BoolValue != nil, cvB(nB(p)), cnil()), ite(p.StringValue != nil, cvS(nS(p)), cnil()), clsY(p), cVariable(p.Variable))))
axiom forall(p, *ast.List, trig(uList(p)), cList(p) == ite(p == nil, cnil(), mkList(cSpace(p.Before), p.Type, cKeyword(p.OpenCurly), seqE(p), cKeyword(p.CloseCurly))))
axiom forall(p, *ast.Function, trig(uFunction(p)), cFunction(p) == ite(p == nil, cnil(), mkFunction(cSpace(p.Before), p.Name, cKeyword(p.OpenParen), seqE(p), cKeyword(p.CloseParen))))
axiom forall(p, *ast.BuiltIn, trig(uBuiltIn(p)), cBuiltIn(p) == ite(p == nil, cnil(), mkBuiltIn(cKeyword(p.Symbol), cExpr(p.Expr))))
axiom forall(p, *ast.Keyword, trig(uKeyword(p)), cKeyword(p) == ite(p == nil, cnil(), mkKeyword(cSpace(p.Before), p.Value)))
axiom forall(p, *ast.Space, trig(uSpace(p)), cSpace(p) == ite(p == nil, cnil(), mkSpace(seqS(p))))
axiom forall(p, *ast.Variable, trig(uVariable(p)), cVariable(p) == ite(p == nil, cnil(), mkVariable(p.Type)))

func deriveEqualPattern(this, that) (r)
  prop C21
  hint uPattern(this) && uPattern(that) && tp(this) && tp(that)
  ensures r <==> cPattern(this) == cPattern(that)
  ensures r && vpat(this) && vpat(that) ==> tp(this) && tp(that) && pk(this) == pk(that) && alang(this) == alang(that)

func *Pattern.Equal(this, that) (r)
  prop C21
  hint uPattern(this) && uPattern(that) && tp(this) && tp(that)
  ensures r <==> cPattern(this) == cPattern(that)
  ensures r <==> patEq(this, that)
  ensures r && vpat(this) && vpat(that) ==> tp(this) && tp(that) && pk(this) == pk(that) && alang(this) == alang(that)

func deriveEqual_1(this, that) (r)
  prop C21
  hint uEmpty(this) && uEmpty(that)
  ensures r <==> cEmpty(this) == cEmpty(that)

func deriveEqual_2(this, that) (r)
  prop C21
  hint uTreeNode(this) && uTreeNode(that)
  ensures r <==> cTreeNode(this) == cTreeNode(that)
  ensures r && this != nil && vname(this.Name) && vname(that.Name) ==> psame(nameP(this.Name), nameP(that.Name))
  ensures r && this != nil && vpat(this.Pattern) && vpat(that.Pattern) ==> alang(this.Pattern) == alang(that.Pattern)

func deriveEqual_3(this, that) (r)
  prop C21
  hint uLeafNode(this) && uLeafNode(that)
  ensures r <==> cLeafNode(this) == cLeafNode(that)
  ensures r && this != nil ==> exprP(this.Expr) == exprP(that.Expr)

func deriveEqual_4(this, that) (r)
  prop C21
  hint uConcat(this) && uConcat(that)
  ensures r <==> cConcat(this) == cConcat(that)
  ensures r && this != nil && vpat(this.LeftPattern) && vpat(that.LeftPattern) ==> alang(this.LeftPattern) == alang(that.LeftPattern)
  ensures r && this != nil && vpat(this.RightPattern) && vpat(that.RightPattern) ==> alang(this.RightPattern) == alang(that.RightPattern)

func deriveEqual_5(this, that) (r)
  prop C21
  hint uOr(this) && uOr(that)
  ensures r <==> cOr(this) == cOr(that)
  ensures r && this != nil && vpat(this.LeftPattern) && vpat(that.LeftPattern) ==> alang(this.LeftPattern) == alang(that.LeftPattern)
  ensures r && this != nil && vpat(this.RightPattern) && vpat(that.RightPattern) ==> alang(this.RightPattern) == alang(that.RightPattern)

func deriveEqual_6(this, that) (r)
  prop C21
  hint uAnd(this) && uAnd(that)
  ensures r <==> cAnd(this) == cAnd(that)
  ensures r && this != nil && vpat(this.LeftPattern) && vpat(that.LeftPattern) ==> alang(this.LeftPattern) == alang(that.LeftPattern)
  ensures r && this != nil && vpat(this.RightPattern) && vpat(that.RightPattern) ==> alang(this.RightPattern) == alang(that.RightPattern)

func deriveEqual_7(this, that) (r)
  prop C21
  hint uZeroOrMore(this) && uZeroOrMore(that)
  ensures r <==> cZeroOrMore(this) == cZeroOrMore(that)
  ensures r && this != nil && vpat(this.Pattern) && vpat(that.Pattern) ==> alang(this.Pattern) == alang(that.Pattern)

func deriveEqual_8(this, that) (r)
  prop C21
  hint uReference(this) && uReference(that)
  ensures r <==> cReference(this) == cReference(that)
  ensures r && this != nil ==> this.Name == that.Name

func deriveEqual_9(this, that) (r)
  prop C21
  hint uNot(this) && uNot(that)
  ensures r <==> cNot(this) == cNot(that)
  ensures r && this != nil && vpat(this.Pattern) && vpat(that.Pattern) ==> alang(this.Pattern) == alang(that.Pattern)

func deriveEqual_10(this, that) (r)
  prop C21
  hint uZAny(this) && uZAny(that)
  ensures r <==> cZAny(this) == cZAny(that)

func deriveEqual_11(this, that) (r)
  prop C21
  hint uContains(this) && uContains(that)
  ensures r <==> cContains(this) == cContains(that)
  ensures r && this != nil && vpat(this.Pattern) && vpat(that.Pattern) ==> alang(this.Pattern) == alang(that.Pattern)

func deriveEqual_12(this, that) (r)
  prop C21
  hint uOptional(this) && uOptional(that)
  ensures r <==> cOptional(this) == cOptional(that)
  ensures r && this != nil && vpat(this.Pattern) && vpat(that.Pattern) ==> alang(this.Pattern) == alang(that.Pattern)

func deriveEqual_13(this, that) (r)
  prop C21
  hint uInterleave(this) && uInterleave(that)
  ensures r <==> cInterleave(this) == cInterleave(that)
  ensures r && this != nil && vpat(this.LeftPattern) && vpat(that.LeftPattern) ==> alang(this.LeftPattern) == alang(that.LeftPattern)
  ensures r && this != nil && vpat(this.RightPattern) && vpat(that.RightPattern) ==> alang(this.RightPattern) == alang(that.RightPattern)

func deriveEqualNameExpr(this, that) (r)
  prop C21
  hint uNameExpr(this) && uNameExpr(that)
  ensures r <==> cNameExpr(this) == cNameExpr(that)
  ensures r && vname(this) && vname(that) ==> psame(nameP(this), nameP(that))

func *NameExpr.Equal(this, that) (r)
  prop C21
  hint uNameExpr(this) && uNameExpr(that)
  ensures r <==> cNameExpr(this) == cNameExpr(that)
  ensures r <==> nameEq(this, that)
  ensures r && vname(this) && vname(that) ==> psame(nameP(this), nameP(that))

func deriveEqual_14(this, that) (r)
  prop C21
  hint uName(this) && uName(that)
  assumes forall(m, *ast.Name, trig(m.DoubleValue), m.DoubleValue != nil ==> *m.DoubleValue == nD(m))
  assumes forall(m, *ast.Name, trig(m.IntValue), m.IntValue != nil ==> *m.IntValue == nI(m))
  assumes forall(m, *ast.Name, trig(m.UintValue), m.UintValue != nil ==> *m.UintValue == nU(m))
  assumes forall(m, *ast.Name, trig(m.BoolValue), m.BoolValue != nil ==> (*m.BoolValue <==> nB(m)))
  assumes forall(m, *ast.Name, trig(m.StringValue), m.StringValue != nil ==> *m.StringValue == nS(m))
  assumes forall(m, *ast.Name, trig(m.BytesValue), len(m.BytesValue) == nYlen(m))
  assumes forall(m, *ast.Name, k, int, trig(nY(m, k)), trig(m.BytesValue[k]), 0 <= k && k < len(m.BytesValue) ==> m.BytesValue[k] == nY(m, k))
  ensures r <==> cName(this) == cName(that)
  ensures r && isset(this) && isset(that) ==> forall(e, Ev, trig(descn(e, this)), trig(descn(e, that)), descn(e, this) <==> descn(e, that))

func deriveEqual_15(this, that) (r)
  prop C21
  hint uAnyName(this) && uAnyName(that)
  ensures r <==> cAnyName(this) == cAnyName(that)

func deriveEqual_16(this, that) (r)
  prop C21
  hint uAnyNameExcept(this) && uAnyNameExcept(that)
  ensures r <==> cAnyNameExcept(this) == cAnyNameExcept(that)
  ensures r && this != nil && vname(this.Except) && vname(that.Except) ==> psame(nameP(this.Except), nameP(that.Except))

func deriveEqual_17(this, that) (r)
  prop C21
  hint uNameChoice(this) && uNameChoice(that)
  ensures r <==> cNameChoice(this) == cNameChoice(that)
  ensures r && this != nil && vname(this.Left) && vname(that.Left) ==> psame(nameP(this.Left), nameP(that.Left))
  ensures r && this != nil && vname(this.Right) && vname(that.Right) ==> psame(nameP(this.Right), nameP(that.Right))

func deriveEqual_21(this, that) (r)
  prop C21
  hint uExpr(this) && uExpr(that)
  ensures r <==> cExpr(this) == cExpr(that)

func *Terminal.Equal(this, that) (r)
  prop C21
  hint uTerminal(this) && uTerminal(that)
  assumes forall(m, *ast.Terminal, trig(m.DoubleValue), m.DoubleValue != nil ==> *m.DoubleValue == nD(m))
  assumes forall(m, *ast.Terminal, trig(m.IntValue), m.IntValue != nil ==> *m.IntValue == nI(m))
  assumes forall(m, *ast.Terminal, trig(m.UintValue), m.UintValue != nil ==> *m.UintValue == nU(m))
  assumes forall(m, *ast.Terminal, trig(m.BoolValue), m.BoolValue != nil ==> (*m.BoolValue <==> nB(m)))
  assumes forall(m, *ast.Terminal, trig(m.StringValue), m.StringValue != nil ==> *m.StringValue == nS(m))
  assumes forall(m, *ast.Terminal, trig(m.BytesValue), len(m.BytesValue) == nYlen(m))
  assumes forall(m, *ast.Terminal, k, int, trig(nY(m, k)), trig(m.BytesValue[k]), 0 <= k && k < len(m.BytesValue) ==> m.BytesValue[k] == nY(m, k))
  ensures r <==> cTerminal(this) == cTerminal(that)

func deriveEqual_22(this, that) (r)
  prop C21
  hint uList(this) && uList(that)
  assumes forall(m, *ast.List, trig(m.Elems), (m.Elems == nil <==> sqnil(m)) && len(m.Elems) == sqlen(m))
  assumes forall(m, *ast.List, k, int, trig(sqE(m, k)), trig(m.Elems[k]), 0 <= k && k < len(m.Elems) ==> m.Elems[k] == sqE(m, k))
  ensures r <==> cList(this) == cList(that)

func deriveEqual_23(this, that) (r)
  prop C21
  hint uFunction(this) && uFunction(that)
  assumes forall(m, *ast.Function, trig(m.Params), (m.Params == nil <==> sqnil(m)) && len(m.Params) == sqlen(m))
  assumes forall(m, *ast.Function, k, int, trig(sqE(m, k)), trig(m.Params[k]), 0 <= k && k < len(m.Params) ==> m.Params[k] == sqE(m, k))
  ensures r <==> cFunction(this) == cFunction(that)

func deriveEqual_24(this, that) (r)
  prop C21
  hint uBuiltIn(this) && uBuiltIn(that)
  ensures r <==> cBuiltIn(this) == cBuiltIn(that)

func deriveEqual_20(this, that) (r)
  prop C21
  hint uKeyword(this) && uKeyword(that)
  ensures r <==> cKeyword(this) == cKeyword(that)

func deriveEqual_(this, that) (r)
  prop C21
  hint uSpace(this) && uSpace(that)
  assumes forall(m, *ast.Space, trig(m.Space), (m.Space == nil <==> sqnil(m)) && len(m.Space) == sqlen(m))
  assumes forall(m, *ast.Space, k, int, trig(sqS(m, k)), trig(m.Space[k]), 0 <= k && k < len(m.Space) ==> m.Space[k] == sqS(m, k))
  ensures r <==> cSpace(this) == cSpace(that)

func deriveEqual_26(this, that) (r)
  prop C21
  hint uVariable(this) && uVariable(that)
  ensures r <==> cVariable(this) == cVariable(that)

func deriveEqual_18(this, that) (r)
  prop C21
  ensures r <==> (this == nil <==> that == nil) && len(this) == len(that) && forall(k, int, trig(this[k]), trig(that[k]), 0 <= k && k < len(this) ==> this[k] == that[k])
  inv [i int]: forall(k, int, trig(this[k]), trig(that[k]), 0 <= k && k < i ==> this[k] == that[k])
  inv [i int]: 0 <= i

func deriveEqual_25(this, that) (r)
  prop C21
  ensures r <==> (this == nil <==> that == nil) && len(this) == len(that) && forall(k, int, trig(this[k]), trig(that[k]), 0 <= k && k < len(this) ==> cExpr(this[k]) == cExpr(that[k]))
  inv [i int]: forall(k, int, trig(this[k]), trig(that[k]), 0 <= k && k < i ==> cExpr(this[k]) == cExpr(that[k]))
  inv [i int]: 0 <= i

func *Pattern.Hash(this) (r)
  trusted generated structural hash: a function of the (immutable) pattern
  ensures r == patHash(this)
