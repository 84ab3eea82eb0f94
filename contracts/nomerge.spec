// Contracts of parser/proto/nomerge.go: fields that are presented again after another field was.
package parser/proto
ghost mst MSt
ghost merr Bool
pre {
(declare-sort MSt 0)
(declare-sort MTree 0)
(declare-datatypes ((MForest 0)) (((mnil) (mcons (mhd MTree) (mtl MForest)))))
}
smt {
; the position of a parser: the node it is at, the nodes that follow it, and the position of the parent
(declare-fun mcur (MSt) MTree)
(declare-fun mrem (MSt) MForest)
(declare-fun mup (MSt) MSt)
; a node: whether it is a leaf, an index of an element, or named by a field, and its children
(declare-fun mleaf (MTree) Bool)
(declare-fun mint (MTree) Bool)
(declare-fun mstr (MTree) Bool)
(declare-fun mname (MTree) Str)
(declare-fun mkids (MTree) MForest)
; no field is presented again in nodes that follow fields named in the set, nor anywhere below them
(declare-fun mclean (MForest (Array Str Bool)) Bool)
(assert (forall ((s (Array Str Bool))) (! (mclean mnil s) :pattern ((mclean mnil s)))))
(assert (forall ((t MTree) (r MForest) (s (Array Str Bool))) (! (= (mclean (mcons t r) s)
  (ite (mleaf t) (mclean r s)
  (ite (mint t) (and (mclean (mkids t) ((as const (Array Str Bool)) false)) (mclean r s))
  (and (mstr t) (not (select s (mname t))) (mclean (mkids t) ((as const (Array Str Bool)) false)) (mclean r (store s (mname t) true)))))) :pattern ((mclean (mcons t r) s)))))
(define-fun mnone () (Array Str Bool) ((as const (Array Str Bool)) false))
}
// the parser, as C18 shows it: errors of the parser are kept in merr
iface parser/proto.ProtoParser.Next(this) (err)
  modifies mst, merr
  ensures err == nil ==> mrem(old(mst)) == mcons(mcur(mst), mrem(mst)) && mup(mst) == mup(old(mst)) && merr == old(merr)
  ensures err == io.EOF ==> mrem(old(mst)) == mnil() && mup(mst) == mup(old(mst)) && merr == old(merr)
  ensures err != nil && err != io.EOF ==> merr
iface parser/proto.ProtoParser.IsLeaf(this) (r)
  ensures r <==> mleaf(mcur(mst))
iface parser/proto.ProtoParser.Int(this) (r, err)
  ensures err == nil <==> mint(mcur(mst))
iface parser/proto.ProtoParser.String(this) (r, err)
  ensures err == nil <==> mstr(mcur(mst))
  ensures err == nil ==> r == mname(mcur(mst))
iface parser/proto.ProtoParser.Down(this)
  modifies mst
  ensures mrem(mst) == mkids(mcur(old(mst))) && mup(mst) == old(mst)
iface parser/proto.ProtoParser.Up(this)
  modifies mst
  ensures mst == mup(old(mst))
iface parser/proto.ProtoParser.Field(this) (r)
  ensures true

func NoLatentAppendingOrMerging(parser) (err)
  prop C20
  requires parser != nil
  modifies mst, merr
  ensures err == nil ==> mclean(mrem(old(mst)), mnone()) && mup(mst) == mup(old(mst)) && (old(!merr) ==> !merr)
  ensures err != nil && !merr ==> !mclean(mrem(old(mst)), mnone())
  inv []: mup(mst) == mup(old(mst)) && (old(!merr) ==> !merr)
  inv [seen any map[string]bool]: seen != nil && (mclean(mrem(old(mst)), mnone()) <==> mclean(mrem(mst), dom(seen)))
