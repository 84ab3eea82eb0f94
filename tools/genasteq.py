#!/usr/bin/env python3
# writes contracts/asteq.spec: the equality of AST patterns, from the declarations of the structs
import re
src=open('/repo/relapse/ast/relapse.pb.go').read()
T="Pattern Empty TreeNode LeafNode Concat Or And ZeroOrMore Reference Not ZAny Contains Optional Interleave NameExpr Name AnyName AnyNameExcept NameChoice Expr Terminal List Function BuiltIn Keyword Space Variable".split()
eq={"Pattern":["deriveEqualPattern","*Pattern.Equal"],"NameExpr":["deriveEqualNameExpr","*NameExpr.Equal"],"Empty":["deriveEqual_1"],"TreeNode":["deriveEqual_2"],"LeafNode":["deriveEqual_3"],"Concat":["deriveEqual_4"],"Or":["deriveEqual_5"],"And":["deriveEqual_6"],"ZeroOrMore":["deriveEqual_7"],"Reference":["deriveEqual_8"],"Not":["deriveEqual_9"],"ZAny":["deriveEqual_10"],"Contains":["deriveEqual_11"],"Optional":["deriveEqual_12"],"Interleave":["deriveEqual_13"],"Name":["deriveEqual_14"],"AnyName":["deriveEqual_15"],"AnyNameExcept":["deriveEqual_16"],"NameChoice":["deriveEqual_17"],"Keyword":["deriveEqual_20"],"Expr":["deriveEqual_21"],"List":["deriveEqual_22"],"Function":["deriveEqual_23"],"BuiltIn":["deriveEqual_24"],"Variable":["deriveEqual_26"],"Space":["deriveEqual_"],"Terminal":["*Terminal.Equal"]}
extra={
"NameExpr":["r && vname(this) && vname(that) ==> psame(nameP(this), nameP(that))"],
"Name":["r && isset(this) && isset(that) ==> forall(e, Ev, trig(descn(e, this)), trig(descn(e, that)), descn(e, this) <==> descn(e, that))"],
"AnyNameExcept":["r && this != nil && vname(this.Except) && vname(that.Except) ==> psame(nameP(this.Except), nameP(that.Except))"],
"NameChoice":["r && this != nil && vname(this.Left) && vname(that.Left) ==> psame(nameP(this.Left), nameP(that.Left))","r && this != nil && vname(this.Right) && vname(that.Right) ==> psame(nameP(this.Right), nameP(that.Right))"],
"Pattern":["r && vpat(this) && vpat(that) ==> tp(this) && tp(that) && pk(this) == pk(that) && alang(this) == alang(that)"],
"TreeNode":["r && this != nil && vname(this.Name) && vname(that.Name) ==> psame(nameP(this.Name), nameP(that.Name))"],
"LeafNode":["r && this != nil ==> exprP(this.Expr) == exprP(that.Expr)"],
"Reference":["r && this != nil ==> this.Name == that.Name"],
"Expr":[],
}
for t,fs in {"TreeNode":["Pattern"],"Concat":["LeftPattern","RightPattern"],"Or":["LeftPattern","RightPattern"],"And":["LeftPattern","RightPattern"],"Interleave":["LeftPattern","RightPattern"],"ZeroOrMore":["Pattern"],"Not":["Pattern"],"Contains":["Pattern"],"Optional":["Pattern"]}.items():
    for f in fs: extra.setdefault(t,[]).append(f"r && this != nil && vpat(this.{f}) && vpat(that.{f}) ==> alang(this.{f}) == alang(that.{f})")
def fields(t):
    m=re.search(r'\ntype %s struct \{\n(.*?)\n\}'%t,src,re.S)
    out=[]
    for l in m.group(1).split('\n'):
        l=l.strip()
        if l=='' or l.startswith('//'): continue
        w=l.split(); out.append((w[0],w[1]))
    return out
smt=[]; ax=[]
smt.append("(declare-sort Cls 0)\n(declare-fun cnil () Cls)")
for n,s in (("D","Float"),("I","Int"),("U","Int"),("B","Bool"),("S","Str")):
    smt.append(f"(declare-fun cv{n} ({s}) Cls) (declare-fun cg{n} (Cls) {s})\n(assert (forall ((v {s})) (! (and (= (cg{n} (cv{n} v)) v) (not (= (cv{n} v) cnil))) :pattern ((cv{n} v)))))")
ptr={"*float64":"D","*int64":"I","*uint64":"U","*bool":"B","*string":"S"}
for t in T:
    args=[];sorts=[]
    for f,ty in fields(t):
        if t=="Terminal" and f=="Literal": continue
        if ty in ptr: args.append(f"ite(p.{f} != nil, cv{ptr[ty]}(n{ptr[ty]}(p)), cnil())"); sorts.append("Cls")
        elif ty=="string": args.append(f"p.{f}"); sorts.append("Str")
        elif ty=="types.Type": args.append(f"p.{f}"); sorts.append("Int")
        elif ty=="[]byte": args.append("clsY(p)"); sorts.append("Cls")
        elif ty=="[]string": args.append("seqS(p)"); sorts.append("Cls")
        elif ty=="[]*Expr": args.append("seqE(p)"); sorts.append("Cls")
        else: args.append(f"c{ty[1:]}(p.{f})"); sorts.append("Cls")
    smt.append(f"(declare-fun c{t} (Int) Cls) (declare-fun u{t} (Int) Bool) (declare-fun mk{t} ({' '.join(sorts)}) Cls) "+' '.join(f"(declare-fun g{t}{i} (Cls) {s})" for i,s in enumerate(sorts)))
    smt.append(f"(assert (forall ((p Int)) (! (u{t} p) :pattern ((u{t} p)))))")
    vs=' '.join(f"(a{i} {s})" for i,s in enumerate(sorts)); mk=f"(mk{t} {' '.join('a%d'%i for i in range(len(sorts)))})"
    smt.append(f"(assert (forall ({vs}) (! (and (not (= {mk} cnil)) "+' '.join(f"(= (g{t}{i} {mk}) a{i})" for i in range(len(sorts)))+f") :pattern ({mk}))))")
    ax.append(f"axiom forall(p, *ast.{t}, trig(u{t}(p)), c{t}(p) == ite(p == nil, cnil(), mk{t}({', '.join(args)})))")
o=[]
o.append("""// Equality of AST patterns (generated by tools/genasteq.py). The class of a value is its structure without the
// spelling of literals: Equal answers whether the classes are equal, and equal classes have the same meaning.
package relapse/ast
use lang
immutable relapse/ast.Expr
immutable relapse/ast.Terminal
immutable relapse/ast.List
immutable relapse/ast.Function
immutable relapse/ast.BuiltIn
immutable relapse/ast.Keyword
immutable relapse/ast.Space
immutable relapse/ast.Variable
def isset(m) = m.DoubleValue != nil || m.IntValue != nil || m.UintValue != nil || m.BoolValue != nil || m.StringValue != nil || m.BytesValue != nil
smt {
; what (*Pattern).Hash answers: a function of the immutable pattern
(declare-fun patHash (Int) Int)
""")
o+=smt
o.append("""; the elements of the lists and the bytes that a value holds
(declare-fun seqS (Int) Cls) (declare-fun seqE (Int) Cls) (declare-fun clsY (Int) Cls)
(declare-fun sqnil (Int) Bool) (declare-fun sqlen (Int) Int) (declare-fun sqS (Int Int) Str) (declare-fun sqE (Int Int) Int)
(assert (forall ((m Int)) (! (not (fltnan (nD m))) :pattern ((nD m)))))
(assert (forall ((t Tree) (n Int)) (! (= (holds (nameP n) t) (desc (tev t) n)) :pattern ((desc (tev t) n)))))
; sequences with the same elements are the same
(assert (forall ((a Int) (b Int)) (! (= (= (seqS a) (seqS b)) (and (= (sqnil a) (sqnil b)) (= (sqlen a) (sqlen b)) (forall ((k Int)) (! (=> (and (<= 0 k) (< k (sqlen a))) (= (sqS a k) (sqS b k))) :pattern ((sqS a k)) :pattern ((sqS b k)))))) :pattern ((seqS a) (seqS b)))))
(assert (forall ((a Int) (b Int)) (! (= (= (seqE a) (seqE b)) (and (= (sqnil a) (sqnil b)) (= (sqlen a) (sqlen b)) (forall ((k Int)) (! (=> (and (<= 0 k) (< k (sqlen a))) (= (cExpr (sqE a k)) (cExpr (sqE b k)))) :pattern ((sqE a k)) :pattern ((sqE b k)))))) :pattern ((seqE a) (seqE b)))))
(assert (forall ((a Int) (b Int)) (! (= (= (clsY a) (clsY b)) (and (= (nYlen a) (nYlen b)) (forall ((k Int)) (! (=> (and (<= 0 k) (< k (nYlen a))) (= (nY a k) (nY b k))) :pattern ((nY a k)) :pattern ((nY b k)))))) :pattern ((clsY a) (clsY b)))))
; an expression is compiled from its structure
(assert (forall ((a Int) (b Int)) (! (=> (= (cExpr a) (cExpr b)) (= (exprP a) (exprP b))) :pattern ((cExpr a) (cExpr b)))))
(declare-fun patEq (Int Int) Bool)
(declare-fun nameEq (Int Int) Bool)
(assert (forall ((a Int) (b Int)) (! (= (patEq a b) (= (cPattern a) (cPattern b))) :pattern ((patEq a b)))))
(assert (forall ((a Int) (b Int)) (! (= (nameEq a b) (= (cNameExpr a) (cNameExpr b))) :pattern ((nameEq a b)))))
}
""")
o+=ax
cells=lambda t: "\n".join(["  assumes forall(m, *ast.%s, trig(m.%s), m.%s != nil ==> %s)"%(t,f,f,("*m.%s == n%s(m)"%(f,k) if k!="B" else "(*m.%s <==> nB(m))"%f)) for f,k in (("DoubleValue","D"),("IntValue","I"),("UintValue","U"),("BoolValue","B"),("StringValue","S"))]+["  assumes forall(m, *ast.%s, trig(m.BytesValue), len(m.BytesValue) == nYlen(m))"%t,"  assumes forall(m, *ast.%s, k, int, trig(nY(m, k)), trig(m.BytesValue[k]), 0 <= k && k < len(m.BytesValue) ==> m.BytesValue[k] == nY(m, k))"%t])
seq=lambda t,f,k: f"  assumes forall(m, *ast.{t}, trig(m.{f}), (m.{f} == nil <==> sqnil(m)) && len(m.{f}) == sqlen(m))\n  assumes forall(m, *ast.{t}, k, int, trig(sq{k}(m, k)), trig(m.{f}[k]), 0 <= k && k < len(m.{f}) ==> m.{f}[k] == sq{k}(m, k))"
for t in T:
    for fn in eq[t]:
        o.append(f"\nfunc {fn}(this, that) (r)\n  prop C21\n  hint u{t}(this) && u{t}(that)"+(" && tp(this) && tp(that)" if t=="Pattern" else ""))
        if t in("Name","Terminal"): o.append(cells(t))
        if t=="Space": o.append(seq(t,"Space","S"))
        if t=="List": o.append(seq(t,"Elems","E"))
        if t=="Function": o.append(seq(t,"Params","E"))
        o.append(f"  ensures r <==> c{t}(this) == c{t}(that)")
        if fn=="*Pattern.Equal": o.append("  ensures r <==> patEq(this, that)")
        if fn=="*NameExpr.Equal": o.append("  ensures r <==> nameEq(this, that)")
        for e in extra.get(t,[]): o.append("  ensures "+e)
for fn,e in (("deriveEqual_18","this[k] == that[k]"),("deriveEqual_25","cExpr(this[k]) == cExpr(that[k])")):
    o.append(f"\nfunc {fn}(this, that) (r)\n  prop C21\n  ensures r <==> (this == nil <==> that == nil) && len(this) == len(that) && forall(k, int, trig(this[k]), trig(that[k]), 0 <= k && k < len(this) ==> {e})\n  inv [i int]: forall(k, int, trig(this[k]), trig(that[k]), 0 <= k && k < i ==> {e})\n  inv [i int]: 0 <= i")
o.append("\nfunc *Pattern.Hash(this) (r)\n  trusted generated structural hash: a function of the (immutable) pattern\n  ensures r == patHash(this)")
open('/verif/contracts/asteq.spec','w').write('\n'.join(o)+'\n')
