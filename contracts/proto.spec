// Contracts of parser/proto: no message makes the parser panic or read outside its buffer, and a scalar is
// reported as the value its wire bytes encode.
package parser/proto

smt {
(define-fun emod8 ((n Int)) Int (mod n 8))
(define-fun packable ((t Int)) Bool (not (and (<= 9 t) (<= t 12))))
(define-fun low32 ((n Int)) Int (mod n 4294967296))
; little-endian numbers
(define-fun plit4 ((r (Array Int Int)) (p Int)) Int (+ (select r (+ p 0)) (* 256 (+ (select r (+ p 1)) (* 256 (+ (select r (+ p 2)) (* 256 (select r (+ p 3)))))))))
(define-fun plit8 ((r (Array Int Int)) (p Int)) Int (+ (select r (+ p 0)) (* 256 (+ (select r (+ p 1)) (* 256 (+ (select r (+ p 2)) (* 256 (+ (select r (+ p 3)) (* 256 (+ (select r (+ p 4)) (* 256 (+ (select r (+ p 5)) (* 256 (+ (select r (+ p 6)) (* 256 (select r (+ p 7)))))))))))))))))
(declare-fun fltbits32 (Int) Float)
; conversion to a double, which keeps every value
(declare-fun flt2flt_float64 (Float) Float)
(declare-fun fltbits64 (Int) Float)
; variable-length integers: where the one at p ends (-1 when it does not), and its value
(declare-fun uvend ((Array Int Int) Int Int) Int)
(declare-fun uvsum ((Array Int Int) Int Int) Int)
(declare-fun uvt (Int) Bool)
(assert (forall ((p Int)) (! (uvt p) :pattern ((uvt p)))))
(assert (forall ((row (Array Int Int)) (p Int) (e Int)) (! (= (uvend row p e) (ite (>= p e) (- 1) (ite (< (select row p) 128) (+ p 1) (uvend row (+ p 1) e)))) :pattern ((uvend row p e) (uvt p)))))
(assert (forall ((row (Array Int Int)) (p Int) (e Int)) (! (= (uvsum row p e) (ite (>= p e) 0 (ite (< (select row p) 128) (select row p) (+ (- (select row p) 128) (* 128 (uvsum row (+ p 1) e)))))) :pattern ((uvsum row p e) (uvt p)))))
; at most 64 bits
(define-fun uvok ((row (Array Int Int)) (p Int) (e Int)) Bool
  (and (>= (uvend row p e) 0) (<= (- (uvend row p e) p) 10) (=> (= (- (uvend row p e) p) 10) (<= (select row (+ p 9)) 1))))
(define-fun zig ((n Int)) Int (ite (= (mod n 2) 0) (div n 2) (- (- (div n 2)) 1)))
(define-fun s64 ((n Int)) Int (ite (< n 9223372036854775808) n (- n 18446744073709551616)))
(define-fun s32 ((n Int)) Int (ite (< (mod n 4294967296) 2147483648) (mod n 4294967296) (- (mod n 4294967296) 4294967296)))
; where the value of a field of a wire type starts and ends, -1 when it does not
(define-fun vfrom ((w Int) (row (Array Int Int)) (p Int) (e Int)) Int (ite (= w 2) (uvend row p e) p))
(define-fun vto ((w Int) (row (Array Int Int)) (p Int) (e Int)) Int
  (ite (= w 0) (ite (uvok row p e) (uvend row p e) (- 1))
  (ite (= w 1) (ite (<= (+ p 8) e) (+ p 8) (- 1))
  (ite (= w 2) (ite (and (uvok row p e) (<= (+ (uvend row p e) (uvsum row p e)) e)) (+ (uvend row p e) (uvsum row p e)) (- 1))
  (ite (= w 5) (ite (<= (+ p 4) e) (+ p 4) (- 1)) (- 1))))))
}

smt {
; the wire type of a field type, and the key of a field that is not packed
(define-fun wtype ((t Int)) Int (ite (or (= t 1) (= t 6) (= t 16)) 1 (ite (or (= t 2) (= t 7) (= t 15)) 5 (ite (and (<= 9 t) (<= t 12)) 2 0))))
(define-fun fkey ((num Int) (t Int)) Int (+ (mod (* 8 num) 4294967296) (wtype t)))
(define-fun pkey ((num Int)) Int (+ (mod (* 8 num) 4294967296) 2))
; the end of the field whose key is at p
(define-fun fend ((row (Array Int Int)) (p Int) (e Int)) Int (vto (mod (uvsum row p e) 8) row (uvend row p e) e))
; rskip: the end of the fields with key k that start at p
(declare-fun rskip ((Array Int Int) Int Int Int) Int)
(assert (forall ((row (Array Int Int)) (p Int) (e Int) (k Int)) (! (= (rskip row p e k)
  (ite (>= p e) p (ite (not (uvok row p e)) (- 1) (ite (not (= (uvsum row p e) k)) p
  (ite (< (fend row p e) 0) (- 1) (rskip row (fend row p e) e k))))))
  :pattern ((rskip row p e k) (uvt p)))))
; kscan: the first field from p whose key is in d; -2 at the end, -1 for a malformed message
(declare-fun kscan ((Array Int Int) Int Int (Array Int Bool)) Int)
(assert (forall ((row (Array Int Int)) (p Int) (e Int) (d (Array Int Bool))) (! (= (kscan row p e d)
  (ite (>= p e) (- 2) (ite (not (uvok row p e)) (- 1) (ite (select d (uvsum row p e)) p
  (ite (< (fend row p e) 0) (- 1) (kscan row (fend row p e) e d))))))
  :pattern ((kscan row p e d) (uvt p)))))
}

global C17,C18 errUnknownWireType != nil && errUnknownWireType != io.EOF
global trusted !typeis(io.EOF, *errVarint)

func encoding/binary.Uvarint(buf) (v, n)
  trusted standard library: decodes a variable-length integer of at most 64 bits
  ensures n > 0 <==> uvok(elems(buf), off(buf), off(buf)+len(buf))
  ensures n > 0 ==> v == uvsum(elems(buf), off(buf), off(buf)+len(buf)) && off(buf)+n == uvend(elems(buf), off(buf), off(buf)+len(buf))

func !strings.Map(f, s) (r)
  trusted standard library: applies a function of this package that only looks at its argument
  writes al

func newErrVarint(buf) (err)
  prop C17
  ensures err != nil && err != io.EOF

def pw(i) = ite(i == 0, 1, ite(i == 1, 128, ite(i == 2, 16384, ite(i == 3, 2097152, ite(i == 4, 268435456, ite(i == 5, 34359738368, ite(i == 6, 4398046511104, ite(i == 7, 562949953421312, ite(i == 8, 72057594037927936, ite(i == 9, 9223372036854775808, 0))))))))))
def E(buf) = off(buf)+len(buf)

func uvarint(buf) (v, n, err)
  prop C17 C18
  shifts 0 7 14 21 28 35 42 49 56 63
  inv [i int]: uvt(off(buf)+i) && uvend(elems(buf), off(buf), E(buf)) == uvend(elems(buf), off(buf)+i, E(buf))
  inv [i int, shift uint]: shift == 7*i
  inv [i int, uv uint64]: i <= 9 ==> uv < pw(i) && uv+pw(i)*uvsum(elems(buf), off(buf)+i, E(buf)) == uvsum(elems(buf), off(buf), E(buf))
  ensures err != io.EOF
  ensures err == nil ==> 1 <= n && n <= len(buf) && n <= 10
  ensures err == nil <==> uvok(elems(buf), off(buf), E(buf))
  ensures err == nil ==> off(buf)+n == uvend(elems(buf), off(buf), E(buf))
  ensures err == nil ==> v == uvsum(elems(buf), off(buf), E(buf))

func length(wireType, buf) (prefix, l, err)
  prop C17 C18
  ensures err != io.EOF
  ensures err == nil ==> 0 <= prefix && 0 <= l && prefix+l <= len(buf)
  ensures err == nil <==> vto(wireType, elems(buf), off(buf), E(buf)) >= 0
  ensures err == nil ==> off(buf)+prefix == vfrom(wireType, elems(buf), off(buf), E(buf)) && off(buf)+prefix+l == vto(wireType, elems(buf), off(buf), E(buf))

impl DescMap *descMap

// a field of a well-formed descriptor
def fok(f) = f != nil && f.Label != nil && f.Type != nil && 1 <= *f.Type && *f.Type <= 18
// a map from keys to fields holds a field only at a key that it is written with
def num(f) = ite(f.Number != nil, *f.Number, 0)
def keyof(f) = fkey(num(f), *f.Type)
def keyed(f, k) = k == keyof(f) || *f.Label == 3 && packable(*f.Type) && k == pkey(num(f))
def mapok(m) = m != nil ==> forall(k, uint64, trig(m[k]), has(m, k) ==> fok(m[k]) && keyed(m[k], k))
def mapsok(d) = forall(m, *descriptor.DescriptorProto, trig(d.msgToField[m]), has(d.msgToField, m) ==> mapok(d.msgToField[m]))
def bufok(t) = isallocated(t.buf) && 0 <= off(t.buf) && len(t.buf) <= 281474976710656 && 0 <= t.offset && 0 <= t.length && t.offset+t.length <= len(t.buf)
def stok(t) = (!t.isLeaf ==> !t.hadLeaf) && bufok(t) && mapok(t.fieldsMap) && (t.field != nil ==> fok(t.field)) && (t.inRepeated || t.inPacked || t.isRepeated || t.isLeaf ==> t.field != nil) && (t.isRepeated && !t.inRepeated ==> t.length == 0) && (t.isRepeated || t.inRepeated ==> !t.isPacked && !t.inPacked) && (t.isLeaf ==> *t.field.Type != 11)
// b was entered from a
def below(a, b) = b.inRepeated ==> b.buf == a.buf && a.length == 0
def stackok(s) = forall(k, int, trig(s.stack[k]), 0 <= k && k < len(s.stack) ==> stok(s.stack[k]) && s.stack[k].field != nil)
def chain(s) = forall(k, int, j, int, trig(s.stack[k], s.stack[j]), 0 <= k && j == k+1 && j < len(s.stack) ==> below(s.stack[k], s.stack[j]))
def descok(s) = typeis(s.descMap, *descMap) && as(s.descMap, *descMap) != nil && mapsok(as(s.descMap, *descMap)) && mapok(s.initFieldsMap)
def pok(s) = s != nil && 0 <= len(s.stack) && len(s.stack) <= cap(s.stack) && descok(s) && stok(s.state) && stackok(s) && chain(s) && (len(s.stack) > 0 ==> below(s.stack[len(s.stack)-1], s.state))

func *protoParser.IsLeaf(s) (r)
  prop C17 C18
  requires s != nil
  ensures r == s.isLeaf

func *protoParser.Value(s) (r)
  prop C17 C18
  requires pok(s)
  ensures arr(r) == arr(s.buf) && off(r) == off(s.buf)+s.offset && len(r) == s.length

def typ(s) = *s.field.Type
def grown(s, o) = arr(s.stack) == arr(o) || fresh(s.stack)

def rept(s) = s.isRepeated && !s.inRepeated
// the message or packed field presented last was entered
def inside(s) = arr(s.buf) == arr(old(s.buf)) && off(s.buf) == off(old(s.buf))+old(s.offset) && len(s.buf) == old(s.length) && s.offset == 0 && s.length == 0

func *protoParser.Down(s)
  prop C17 C18
  requires pok(s) && s.field != nil
  modifies s.state, s.stack, elems(s.stack)
  ensures len(s.stack) == len(old(s.stack))+1 && s.stack[len(old(s.stack))] == old(s.state)
  ensures pok(s)
  ensures grown(s, old(s.stack))
  ensures forall(k, int, trig(s.stack[k]), 0 <= k && k < len(old(s.stack)) ==> s.stack[k] == old(s.stack[k]))
  ensures old(rept(s)) ==> s.inRepeated && s.isRepeated && s.buf == old(s.buf) && s.offset == old(s.offset) && s.length == 0 && s.field == old(s.field) && s.fieldsMap == old(s.fieldsMap) && s.parent == old(s.parent) && s.isLeaf == old(s.isLeaf) && s.indexRepeated == 0
  ensures old(!rept(s) && typ(s) == 11) ==> inside(s) && !s.isLeaf && !s.inRepeated && !s.inPacked && !s.isRepeated
  ensures old(!rept(s) && typ(s) == 11 && has(as(s.descMap, *descMap).fieldToMsg, s.field)) ==> s.parent == as(s.descMap, *descMap).fieldToMsg[old(s.field)]
  ensures old(!rept(s) && typ(s) == 11) && has(as(s.descMap, *descMap).msgToField, s.parent) ==> s.fieldsMap == as(s.descMap, *descMap).msgToField[s.parent]
  ensures old(!rept(s) && typ(s) != 11 && s.isPacked && !s.inPacked) ==> inside(s) && s.inPacked && s.field == old(s.field) && s.isLeaf == old(s.isLeaf) && s.indexRepeated == 0
  ensures old(!rept(s) && typ(s) != 11 && !(s.isPacked && !s.inPacked)) ==> s.isLeaf && s.hadLeaf == old(s.hadLeaf) && s.buf == old(s.buf) && s.offset == old(s.offset) && s.length == old(s.length) && s.field == old(s.field)

// all but the offset
def same(a, b) = a.buf == b.buf && a.parent == b.parent && a.fieldsMap == b.fieldsMap && a.length == b.length && a.field == b.field && a.isLeaf == b.isLeaf && a.hadLeaf == b.hadLeaf && a.isRepeated == b.isRepeated && a.inRepeated == b.inRepeated && a.indexRepeated == b.indexRepeated && a.isPacked == b.isPacked && a.inPacked == b.inPacked
def under(s, o) = forall(k, int, trig(s.stack[k]), 0 <= k && k < len(o) ==> s.stack[k] == old(s.stack[k]))
// row R(s); the value at P(s) to L(s); the message ends at X(s)
def R(s) = elems(s.buf)
def P(s) = off(s.buf)+s.offset
def L(s) = off(s.buf)+s.offset+s.length
def X(s) = off(s.buf)+len(s.buf)

func unpackedKey(field) (r)
  prop C17 C18
  shifts 3
  requires fok(field)
  ensures r == keyof(field)

func *protoParser.Up(s)
  prop C17 C18
  requires pok(s) && len(s.stack) > 0
  modifies s.state, s.stack
  ensures pok(s) && s.field != nil
  ensures arr(s.stack) == arr(old(s.stack)) && off(s.stack) == off(old(s.stack)) && len(s.stack) == len(old(s.stack))-1
  ensures same(s.state, old(s.stack[len(s.stack)-1]))
  ensures s.offset == ite(old(s.inRepeated), old(s.offset+s.length), old(s.stack[len(s.stack)-1].offset))

func *protoParser.skipRepeated(s) (err)
  prop C17 C18
  requires pok(s) && s.isRepeated && !s.inRepeated && !s.isLeaf
  modifies s.state, s.stack, elems(s.stack)
  hint uvt(P(s))
  inv []: pok(s)
  inv [err error]: err == nil || err == io.EOF ==> len(s.stack) == len(old(s.stack))+1 && s.inRepeated
  inv []: len(s.stack) >= len(old(s.stack))+1 && s.buf == old(s.buf)
  inv []: s.stack[len(old(s.stack))] == old(s.state)
  inv []: grown(s, old(s.stack))
  inv []: forall(k, int, trig(s.stack[k]), 0 <= k && k < len(old(s.stack)) ==> s.stack[k] == old(s.stack[k]))
  inv []: !s.isLeaf && uvt(old(P(s))) && uvt(L(s)) && s.field == old(s.field) && s.fieldsMap == old(s.fieldsMap) && s.parent == old(s.parent)
  inv [err error]: old(rskip(R(s), P(s), X(s), keyof(s.field))) == ite(err == nil, rskip(R(s), L(s), X(s), old(keyof(s.field))), ite(err == io.EOF, L(s), -1))
  ensures pok(s) && err != io.EOF
  ensures err == nil <==> old(rskip(R(s), P(s), X(s), keyof(s.field))) >= 0
  ensures err == nil ==> P(s) == old(rskip(R(s), P(s), X(s), keyof(s.field)))
  ensures err == nil ==> same(s.state, old(s.state)) && len(s.stack) == len(old(s.stack))
  ensures under(s, old(s.stack))
  ensures grown(s, old(s.stack))
  ensures len(s.stack) >= len(old(s.stack)) && s.buf == old(s.buf) && !s.isLeaf && s.fieldsMap == old(s.fieldsMap) && s.parent == old(s.parent)

// the position from which the next field of a message is looked for
def from(s) = ite(s.isRepeated, rskip(R(s), P(s), X(s), keyof(s.field)), L(s))
def scan(s) = ite(from(s) < 0, -1, kscan(R(s), from(s), X(s), dom(s.fieldsMap)))
def inmsg(s) = !s.isLeaf && !s.inRepeated && !s.inPacked
// the next element of a repeated field
def elem(s) = L(s) < X(s) && uvok(R(s), L(s), X(s)) && uvsum(R(s), L(s), X(s)) == keyof(s.field)
def wat(s, q) = emod8(uvsum(R(s), q, X(s)))
def single(f, w) = !(*f.Label == 3 && !(packable(*f.Type) && w == 2))

func *protoParser.Next(s) (err)
  prop C17 C18
  requires pok(s)
  modifies s.state, s.stack, elems(s.stack)
  inv []: pok(s) && !s.isRepeated && !s.inRepeated && !s.inPacked && !s.isLeaf && s.length == 0 && s.buf == old(s.buf) && s.inRepeated == old(s.inRepeated) && len(s.stack) == len(old(s.stack))
  inv []: s.fieldsMap == old(s.fieldsMap) && s.parent == old(s.parent) && s.offset < len(s.buf)
  inv []: uvt(P(s)) && old(scan(s)) == kscan(R(s), P(s), X(s), dom(s.fieldsMap))
  inv []: forall(k, int, trig(s.stack[k]), 0 <= k && k < len(old(s.stack)) ==> s.stack[k] == old(s.stack[k]))
  hint uvt(L(s))
  ensures pok(s)
  ensures err == nil ==> s.field != nil
  ensures err == nil || err == io.EOF ==> len(s.stack) == len(old(s.stack)) && s.inRepeated == old(s.inRepeated)
  ensures grown(s, old(s.stack))
  ensures under(s, old(s.stack)) && s.buf == old(s.buf) && len(s.stack) >= len(old(s.stack))
  ensures old(s.isLeaf) ==> s.isLeaf && s.hadLeaf && s.offset == old(s.offset) && s.length == old(s.length) && s.field == old(s.field) && ite(old(s.hadLeaf), err == io.EOF, err == nil)
  ensures old(!s.isLeaf) ==> !s.isLeaf
  ensures s.fieldsMap == old(s.fieldsMap) && s.parent == old(s.parent)
  ensures old(!s.isLeaf && s.inRepeated) ==> s.field == old(s.field) && (err == io.EOF <==> old(L(s) >= X(s) || uvok(R(s), L(s), X(s)) && !elem(s))) && (err == nil <==> old(elem(s) && fend(R(s), L(s), X(s)) >= 0))
  ensures old(!s.isLeaf && s.inRepeated) && err == io.EOF ==> L(s) == old(L(s))
  ensures old(!s.isLeaf && s.inRepeated) && err == nil ==> P(s) == old(vfrom(wat(s, L(s)), R(s), uvend(R(s), L(s), X(s)), X(s))) && L(s) == old(fend(R(s), L(s), X(s)))
  ensures old(!s.isLeaf && s.inRepeated) && err == nil && 0 <= old(s.indexRepeated) && old(s.indexRepeated) < 281474976710656 ==> s.indexRepeated == old(s.indexRepeated)+1
  ensures old(!s.isLeaf && s.inPacked) ==> s.field == old(s.field) && (err == io.EOF <==> old(L(s) >= X(s))) && (err == nil <==> old(L(s) < X(s) && vto(wtype(typ(s)), R(s), L(s), X(s)) >= 0))
  ensures old(!s.isLeaf && s.inPacked) && err == nil ==> P(s) == old(vfrom(wtype(typ(s)), R(s), L(s), X(s))) && L(s) == old(vto(wtype(typ(s)), R(s), L(s), X(s)))
  ensures old(!s.isLeaf && s.inPacked) && err == nil && 0 <= old(s.indexRepeated) && old(s.indexRepeated) < 281474976710656 ==> s.indexRepeated == old(s.indexRepeated)+1
  ensures old(inmsg(s)) ==> (err == io.EOF <==> old(scan(s) == -2)) && (err == nil ==> old(scan(s)) >= 0)
  ensures old(inmsg(s)) && err == nil ==> s.field == old(s.fieldsMap[uvsum(R(s), scan(s), X(s))])
  ensures old(inmsg(s)) && err == nil && single(s.field, old(wat(s, scan(s)))) ==> !s.isRepeated && P(s) == old(vfrom(wat(s, scan(s)), R(s), uvend(R(s), scan(s), X(s)), X(s))) && L(s) == old(fend(R(s), scan(s), X(s)))
  ensures old(inmsg(s)) && err == nil && !single(s.field, old(wat(s, scan(s)))) ==> s.isRepeated && P(s) == old(scan(s)) && s.length == 0
  ensures old(inmsg(s)) && err == nil ==> (s.isPacked <==> *s.field.Label == 3 && packable(typ(s)) && old(wat(s, scan(s))) == 2)

// ---- values of leaves: row R(s), from P(s) to L(s)
def vi(s, e) = (e == nil <==> uvok(R(s), P(s), L(s)))
def V(s) = uvsum(R(s), P(s), L(s))

func *protoParser.decodeInt64(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures err != io.EOF && vi(s, err) && (err == nil ==> v == s64(V(s)))
func *protoParser.decodeUint64(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures err != io.EOF && vi(s, err) && (err == nil ==> v == V(s))
func *protoParser.decodeInt32(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures err != io.EOF && vi(s, err) && (err == nil ==> v == s32(V(s)))
func *protoParser.decodeUint32(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures err != io.EOF && vi(s, err) && (err == nil ==> v == low32(V(s)))
func *protoParser.decodeFixed64(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures err != io.EOF && (err == nil <==> s.length >= 8) && (err == nil ==> v == plit8(R(s), P(s)))
func *protoParser.decodeFixed32(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures err != io.EOF && (err == nil <==> s.length >= 4) && (err == nil ==> v == plit4(R(s), P(s)))
func *protoParser.decodeSfixed32(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures err != io.EOF && (err == nil <==> s.length >= 4) && (err == nil ==> v == s32(plit4(R(s), P(s))))
func *protoParser.decodeSfixed64(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures err != io.EOF && (err == nil <==> s.length >= 8) && (err == nil ==> v == s64(plit8(R(s), P(s))))
func *protoParser.decodeSint32(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures err != io.EOF && vi(s, err) && (err == nil ==> v == zig(low32(V(s))))
func *protoParser.decodeSint64(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures err != io.EOF && vi(s, err) && (err == nil ==> v == zig(V(s)))

func *protoParser.Int(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures !s.isLeaf ==> (err == nil <==> s.inRepeated || s.inPacked)
  ensures !s.isLeaf && err == nil && s.indexRepeated >= 0 ==> v == s.indexRepeated-1
  ensures s.isLeaf && typ(s) == 3 ==> vi(s, err) && (err == nil ==> v == s64(V(s)))
  ensures s.isLeaf && (typ(s) == 5 || typ(s) == 14) ==> vi(s, err) && (err == nil ==> v == s32(V(s)))
  ensures s.isLeaf && typ(s) == 15 ==> (err == nil <==> s.length >= 4) && (err == nil ==> v == s32(plit4(R(s), P(s))))
  ensures s.isLeaf && typ(s) == 16 ==> (err == nil <==> s.length >= 8) && (err == nil ==> v == s64(plit8(R(s), P(s))))
  ensures s.isLeaf && typ(s) == 17 ==> vi(s, err) && (err == nil ==> v == zig(low32(V(s))))
  ensures s.isLeaf && typ(s) == 18 ==> vi(s, err) && (err == nil ==> v == zig(V(s)))
  ensures s.isLeaf && err == nil ==> typ(s) == 3 || typ(s) == 5 || 14 <= typ(s)

func *protoParser.Uint(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures !s.isLeaf && s.fieldNames ==> err != nil
  ensures !s.isLeaf && !s.fieldNames && s.field != nil && s.field.Number != nil && *s.field.Number >= 0 ==> err == nil && v == *s.field.Number
  ensures s.isLeaf && typ(s) == 4 ==> vi(s, err) && (err == nil ==> v == V(s))
  ensures s.isLeaf && typ(s) == 6 ==> (err == nil <==> s.length >= 8) && (err == nil ==> v == plit8(R(s), P(s)))
  ensures s.isLeaf && typ(s) == 7 ==> (err == nil <==> s.length >= 4) && (err == nil ==> v == plit4(R(s), P(s)))
  ensures s.isLeaf && typ(s) == 13 ==> vi(s, err) && (err == nil ==> v == low32(V(s)))
  ensures s.isLeaf && err == nil ==> typ(s) == 4 || typ(s) == 6 || typ(s) == 7 || typ(s) == 13

func *protoParser.Double(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures !s.isLeaf ==> err != nil
  ensures s.isLeaf && 2 < typ(s) ==> err != nil
  ensures s.isLeaf && typ(s) <= 2 ==> (err == nil <==> s.length == 4 || s.length == 8)
  ensures s.isLeaf && typ(s) <= 2 && s.length == 8 ==> v == fltbits64(plit8(R(s), P(s)))
  ensures s.isLeaf && typ(s) <= 2 && s.length == 4 ==> v == flt2flt_float64(fltbits32(plit4(R(s), P(s))))

func *protoParser.Bool(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures !s.isLeaf || typ(s) != 8 ==> err != nil
  ensures s.isLeaf && typ(s) == 8 ==> vi(s, err) && (err == nil ==> (v <==> V(s) != 0))

func *protoParser.String(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures s.isLeaf ==> (err == nil <==> typ(s) == 9)
  ensures s.isLeaf && err == nil ==> len(v) == s.length && forall(k, int, trig(v[k]), 0 <= k && k < s.length ==> v[k] == R(s)[P(s)+k])
  ensures !s.isLeaf ==> (err == nil <==> s.fieldNames && !s.inRepeated)
  ensures !s.isLeaf && err == nil && s.field != nil && s.field.Name != nil ==> v == *s.field.Name

func *protoParser.Bytes(s) (v, err)
  prop C17 C18
  requires pok(s)
  ensures err == nil <==> s.isLeaf && typ(s) == 12
  ensures err == nil ==> arr(v) == arr(s.buf) && off(v) == P(s) && len(v) == s.length

// ---- starting over
def begun(s, b) = s.buf == b && s.offset == 0 && s.length == 0 && s.fieldsMap == s.initFieldsMap && s.parent == s.initRoot && !s.isLeaf && !s.isRepeated && !s.inRepeated && !s.isPacked && !s.inPacked && s.field == nil && len(s.stack) == 0

func *protoParser.Init(s, buf) (err)
  prop C17 C18
  requires s != nil && descok(s)
  modifies s.state, s.stack
  ensures pok(s) && err == nil && begun(s, buf)

func *protoParser.Reset(s) (err)
  prop C17 C18
  requires pok(s)
  modifies s.state, s.stack
  ensures pok(s) && err == nil
  ensures begun(s, ite(old(len(s.stack)) > 0, old(s.stack[0].buf), old(s.buf)))

func *protoParser.Message(s) (r)
  prop C17 C18
  requires s != nil
  ensures r == s.parent

func *protoParser.Field(s) (r)
  prop C17 C18
  requires s != nil
  ensures r == s.field

// ---- the map of descriptors (its construction is checked by the harness only: the contracts assume that it is
// well formed, see descok)
func *descMap.GetRoot(d) (r)
  prop C17 C18
  requires d != nil
  ensures r == d.root
func *descMap.LookupMessage(d, f) (r)
  prop C17 C18
  requires d != nil
  ensures has(d.fieldToMsg, f) ==> r == d.fieldToMsg[f]
  ensures r != nil ==> has(d.fieldToMsg, f)
func *descMap.LookupFields(d, m) (r)
  prop C17 C18
  requires d != nil
  ensures has(d.msgToField, m) ==> r == d.msgToField[m]
  ensures r != nil ==> has(d.msgToField, m)

func couldBePacked(f) (r)
  prop C17 C18
  requires fok(f)
  ensures r <==> *f.Label == 3 && packable(*f.Type)

func keysOf(f) (r)
  prop C17 C18
  shifts 3
  requires fok(f)
  ensures 1 <= len(r) && len(r) <= 2 && r[0] == keyof(f)
  ensures len(r) == 2 <==> *f.Label == 3 && packable(*f.Type)
  ensures len(r) == 2 ==> r[1] == pkey(num(f))
