// Contracts of encode/proto: writes stay within the buffer, keep what was written before, and append the
// protocol buffer encoding of the value that the parser is at.
package encode/proto
use interp proto funcs encbuf
smt {
; the value of the node that the parser is at
(declare-fun vD (PSt) Float) (declare-fun vI (PSt) Int) (declare-fun vU (PSt) Int) (declare-fun vB (PSt) Bool) (declare-fun vS (PSt) Str)
(declare-fun vYlen (PSt) Int) (declare-fun vY (PSt Int) Int)
(define-fun slenx ((s Str)) Int (strlen s)) (define-fun satc ((s Str) (k Int)) Int (strat s k))
(declare-fun bitsflt32 (Float) Int)
(declare-fun flt2flt_float32 (Float) Float)
(declare-fun encok (Iface) Bool)
}
iface !parser.Interface.Double(this) (r, err)
  ensures err == nil ==> r == vD(pst)
iface !parser.Interface.Int(this) (r, err)
  ensures err == nil ==> r == vI(pst)
iface !parser.Interface.Uint(this) (r, err)
  ensures err == nil ==> r == vU(pst)
iface !parser.Interface.Bool(this) (r, err)
  ensures err == nil ==> (r <==> vB(pst))
iface !parser.Interface.String(this) (r, err)
  ensures err == nil ==> r == vS(pst)
iface !parser.Interface.Bytes(this) (r, err)
  ensures err == nil ==> len(r) == vYlen(pst) && forall(k, int, trig(r[k]), trig(vY(pst, k)), 0 <= k && k < len(r) ==> r[k] == vY(pst, k))
func !math.Float32bits(f) (r)
  trusted standard library
  ensures r == bitsflt32(f)

// the key of the field, then the value, starting at q
def keyat(r, o, key) = forall(k, int, trig(r[o+k]), 0 <= k && k < len(key) ==> r[o+k] == key[k])
def q0(this, offset) = offset + len(this.key)
def u64(x) = ite(x >= 0, x, x+18446744073709551616)
def nothing(o, offset) = o == offset
def there(b) = nextok(b)
def basic(r, o, buf, offset) = offset <= o && o <= len(r) && own(r, buf)
def pre1(this, buf, offset) = this != nil && room(buf, offset) && isallocated(this.key) && len(this.key) <= 10

iface fieldEncoder.encode(this, buf, offset, p) (r, o, err)
  requires this != nil && p != nil && encok(this) && room(buf, offset)
  modifies elems(buf), pst
  writes E|byte al
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
func *doubleField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> plit8(elems(r), off(r)+q0(this, offset)) == fltbits(vD(pst)) && o == q0(this, offset)+8
func *floatField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> plit4(elems(r), off(r)+q0(this, offset)) == bitsflt32(flt2flt_float32(vD(pst))) && o == q0(this, offset)+4
func *intField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> uvend(elems(r), off(r)+q0(this, offset), off(r)+o) == off(r)+o && uvsum(elems(r), off(r)+q0(this, offset), off(r)+o) == u64(vI(pst))
func *uintField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> uvend(elems(r), off(r)+q0(this, offset), off(r)+o) == off(r)+o && uvsum(elems(r), off(r)+q0(this, offset), off(r)+o) == vU(pst)
func *fixed64UintField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> plit8(elems(r), off(r)+q0(this, offset)) == vU(pst) && o == q0(this, offset)+8
func *fixed32UintField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> plit4(elems(r), off(r)+q0(this, offset)) == vU(pst) % 4294967296 && o == q0(this, offset)+4
func *boolField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> uvend(elems(r), off(r)+q0(this, offset), off(r)+o) == off(r)+o && uvsum(elems(r), off(r)+q0(this, offset), off(r)+o) == ite(vB(pst), 1, 0)
func *fixed64IntField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> plit8(elems(r), off(r)+q0(this, offset)) == u64(vI(pst)) && o == q0(this, offset)+8
func *fixed32IntField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> plit4(elems(r), off(r)+q0(this, offset)) == u64(vI(pst)) % 4294967296 && o == q0(this, offset)+4
func *sint32Field.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> uvend(elems(r), off(r)+q0(this, offset), off(r)+o) == off(r)+o && (-2147483648 <= vI(pst) && vI(pst) <= 2147483647 ==> zig(uvsum(elems(r), off(r)+q0(this, offset), off(r)+o)) == vI(pst))
func *sint64Field.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> uvend(elems(r), off(r)+q0(this, offset), off(r)+o) == off(r)+o && zig(uvsum(elems(r), off(r)+q0(this, offset), off(r)+o)) == vI(pst)
func *stringField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  uses vdec
  hint vdm(elems(r), off(r), q0(this, offset), 0, o-slenx(vS(pst)), off(r)+o, slenx(vS(pst))) && rt(vsh(slenx(vS(pst)), 0)) && rt(vsh(slenx(vS(pst)), 1)) && rt(r[o-slenx(vS(pst))-1]) && rt(r[q0(this, offset)])
  ensures err == nil && there(old(pst)) && leafP(pst) ==> uvend(elems(r), off(r)+q0(this, offset), off(r)+o) == off(r)+o-slenx(vS(pst)) && uvsum(elems(r), off(r)+q0(this, offset), off(r)+o) == slenx(vS(pst))
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), o-slenx(vS(pst)) <= k && k < o ==> r[k] == satc(vS(pst), k-o+slenx(vS(pst))))
func *bytesField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
  ensures err == nil && !(there(old(pst)) && leafP(pst)) ==> nothing(o, offset)
  ensures err == nil && there(old(pst)) && leafP(pst) ==> forall(k, int, trig(r[k]), offset <= k && k < q0(this, offset) ==> r[k] == old(this.key[k-offset]))
  uses vdec
  hint vdm(elems(r), off(r), q0(this, offset), 0, o-vYlen(pst), off(r)+o, vYlen(pst)) && rt(vsh(vYlen(pst), 0)) && rt(vsh(vYlen(pst), 1)) && rt(r[o-vYlen(pst)-1]) && rt(r[q0(this, offset)])
  ensures err == nil && there(old(pst)) && leafP(pst) ==> uvend(elems(r), off(r)+q0(this, offset), off(r)+o) == off(r)+o-vYlen(pst) && uvsum(elems(r), off(r)+q0(this, offset), off(r)+o) == vYlen(pst)
func *repeatedField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires this != nil && this.fieldEnc != nil && encok(this.fieldEnc) && p != nil && room(buf, offset)
  modifies elems(buf), pst
  inv [b any []byte, n any int]: room(b, n) && offset <= n && own(b, buf)
  inv [b any []byte, n any int]: kept(b, buf, offset) && keptb(buf, offset)
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
func *msg.encode(this, buf, offset, p) (r, o, err)
  prop C19
  assumes forall(n, string, trig(has(this.fieldEncoders, n)), has(this.fieldEncoders, n) ==> this.fieldEncoders[n] != nil && encok(this.fieldEncoders[n]))
  inv [b any []byte, n any int]: room(b, n) && offset <= n && own(b, buf)
  inv [b any []byte, n any int]: kept(b, buf, offset) && keptb(buf, offset)
  requires this != nil && p != nil && room(buf, offset)
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
func *msgField.encode(this, buf, offset, p) (r, o, err)
  prop C19
  requires pre1(this, buf, offset) && this.msg != nil && p != nil
  modifies elems(buf), pst
  ensures err == nil ==> basic(r, o, buf, offset) && kept(r, buf, offset) && keptb(buf, offset)
func *encoder.Encode(this, buf, p) (r, err)
  prop C19
  requires this != nil && this.msg != nil && p != nil
  modifies elems(buf), pst
  ensures true
