// Contracts of parser/json: no input makes the parser panic or read outside its buffer, and what it presents
// is what the bytes of the document say. The extent of a token is given by functions over the bytes of the
// buffer's array (positions in that array): sscan for strings, dend and nend for numbers, bscan for objects
// and arrays, wend for white space, vend for any value; -1 stands for a malformed or truncated one.
package parser/json

smt {
(declare-fun ust (Int) Bool)
(assert (forall ((p Int)) (! (ust p) :pattern ((ust p)))))
(define-fun jhex ((c Int)) Bool (or (and (<= 48 c) (<= c 57)) (and (<= 97 c) (<= c 102)) (and (<= 65 c) (<= c 70))))
(define-fun jesc ((c Int)) Bool (or (= c 98) (= c 102) (= c 110) (= c 114) (= c 116) (= c 92) (= c 47) (= c 34)))
(define-fun jws ((c Int)) Bool (or (= c 32) (= c 10) (= c 13) (= c 9)))
(define-fun jdig ((c Int)) Bool (and (<= 48 c) (<= c 57)))
; sscan: inside a string at p; s is 0, 1 after a backslash, 2 to 5 before the hexadecimal digits of an escape
(declare-fun sscan ((Array Int Int) Int Int Int) Int)
(assert (forall ((row (Array Int Int)) (p Int) (e Int) (s Int)) (! (= (sscan row p e s)
  (ite (>= p e) (- 1)
  (ite (= s 1) (ite (jesc (select row p)) (sscan row (+ p 1) e 0) (ite (= (select row p) 117) (sscan row (+ p 1) e 2) (- 1)))
  (ite (>= s 2) (ite (jhex (select row p)) (sscan row (+ p 1) e (ite (= s 5) 0 (+ s 1))) (- 1))
  (ite (= (select row p) 34) (+ p 1)
  (ite (= (select row p) 92) (sscan row (+ p 1) e 1)
  (ite (< (select row p) 32) (- 1) (sscan row (+ p 1) e 0))))))))
  :pattern ((sscan row p e s) (ust p)))))
(declare-fun wend ((Array Int Int) Int Int) Int)
(assert (forall ((row (Array Int Int)) (p Int) (e Int)) (! (= (wend row p e) (ite (and (< p e) (jws (select row p))) (wend row (+ p 1) e) p)) :pattern ((wend row p e) (ust p)))))
(declare-fun dend ((Array Int Int) Int Int) Int)
(assert (forall ((row (Array Int Int)) (p Int) (e Int)) (! (= (dend row p e) (ite (and (< p e) (jdig (select row p))) (dend row (+ p 1) e) p)) :pattern ((dend row p e) (ust p)))))
(define-fun nend3 ((row (Array Int Int)) (p Int) (e Int)) Int (ite (and (< p e) (or (= (select row p) 101) (= (select row p) 69))) (ite (and (< (+ p 1) e) (or (= (select row (+ p 1)) 43) (= (select row (+ p 1)) 45))) (dend row (+ p 2) e) (dend row (+ p 1) e)) p))
(define-fun nend2 ((row (Array Int Int)) (p Int) (e Int)) Int (nend3 row (ite (and (< p e) (= (select row p) 46)) (dend row (+ p 1) e) p) e))
(define-fun nend1 ((row (Array Int Int)) (p Int) (e Int)) Int (nend2 row (ite (= (select row p) 48) (+ p 1) (ite (and (<= 49 (select row p)) (<= (select row p) 57)) (dend row (+ p 1) e) p)) e))
(define-fun nend ((row (Array Int Int)) (p Int) (e Int)) Int (ite (= (select row p) 45) (ite (>= (+ p 1) e) (- 1) (nend1 row (+ p 1) e)) (nend1 row p e)))
; bscan: at p, inside n brackets o c that are open
(declare-fun bscan ((Array Int Int) Int Int Int Int Int) Int)
(define-fun bnum ((row (Array Int Int)) (p Int) (o Int) (c Int) (n Int)) Int (ite (= (select row p) 34) n (ite (= (select row p) o) (+ n 1) (ite (= (select row p) c) (- n 1) n))))
(define-fun bpos ((row (Array Int Int)) (p Int) (e Int)) Int (ite (= (select row p) 34) (sscan row (+ p 1) e 0) (+ p 1)))
(assert (forall ((row (Array Int Int)) (p Int) (e Int) (o Int) (c Int) (n Int)) (! (= (bscan row p e o c n)
  (ite (>= p e) (- 1)
  (ite (< (bpos row p e) 0) (- 1)
  (ite (= (bnum row p o c n) 0) (bpos row p e) (bscan row (bpos row p e) e o c (bnum row p o c n))))))
  :pattern ((bscan row p e o c n) (ust p)))))
(define-fun lit4 ((row (Array Int Int)) (p Int) (e Int) (a Int) (b Int) (c Int) (d Int)) Int (ite (and (<= (+ p 4) e) (= (select row p) a) (= (select row (+ p 1)) b) (= (select row (+ p 2)) c) (= (select row (+ p 3)) d)) (+ p 4) (- 1)))
(define-fun vnum ((c Int)) Bool (or (= c 45) (jdig c)))
(define-fun vend ((row (Array Int Int)) (p Int) (e Int)) Int
  (ite (>= p e) (- 1)
  (ite (vnum (select row p)) (nend row p e)
  (ite (= (select row p) 34) (sscan row (+ p 1) e 0)
  (ite (= (select row p) 123) (bscan row p e 123 125 0)
  (ite (= (select row p) 91) (bscan row p e 91 93 0)
  (ite (= (select row p) 116) (lit4 row p e 116 114 117 101)
  (ite (= (select row p) 102) (ite (and (<= (+ p 5) e) (= (select row (+ p 4)) 101) (>= (lit4 row p e 102 97 108 115) 0)) (+ p 5) (- 1))
  (ite (= (select row p) 110) (lit4 row p e 110 117 108 108)
  (- 1))))))))))
}

smt {
; objq: where the name of the next field starts, -2 at the end of the object, -1 for an error
(define-fun objq ((row (Array Int Int)) (p Int) (e Int) (first Bool)) Int
  (ite (>= p e) (- 1)
  (ite first (ite (= (select row p) 123) (wend row (+ p 1) e) (- 1))
  (ite (= (select row p) 44) (wend row (+ p 1) e) (ite (= (select row p) 125) (- 2) (- 1))))))
; objv: where the value of the field with its name at q starts, -2 at the end of the object, -1 for an error
(define-fun colon ((row (Array Int Int)) (p Int) (e Int)) Int (ite (and (< p e) (= (select row p) 58)) (wend row (+ p 1) e) (- 1)))
(define-fun objv ((row (Array Int Int)) (q Int) (e Int)) Int
  (ite (< q 0) q
  (ite (>= q e) (- 1)
  (ite (= (select row q) 34) (ite (< (sscan row (+ q 1) e 0) 0) (- 1) (colon row (wend row (sscan row (+ q 1) e 0) e) e))
  (ite (= (select row q) 125) (- 2) (- 1))))))
; arrv: where the next element starts, -2 at the end of the array, -1 for an error
(define-fun arrv1 ((row (Array Int Int)) (q Int) (e Int)) Int (ite (and (< q e) (= (select row q) 93)) (- 2) q))
(define-fun arrv ((row (Array Int Int)) (p Int) (e Int) (first Bool)) Int
  (ite (>= p e) (- 1)
  (ite first (ite (= (select row p) 91) (arrv1 row (wend row (+ p 1) e) e) (- 1))
  (ite (= (select row p) 44) (arrv1 row (wend row (+ p 1) e) e) (ite (= (select row p) 93) (- 2) (- 1))))))
}

lemma wend_range(row bytes, p int, e int)
  prop C15 C16
  requires p <= e
  hint ust(p)
  induct e-p
  trig wend(row, p, e)
  ensures p <= wend(row, p, e) && wend(row, p, e) <= e

lemma dend_range(row bytes, p int, e int)
  prop C15 C16
  requires p <= e
  hint ust(p)
  induct e-p
  trig dend(row, p, e)
  ensures p <= dend(row, p, e) && dend(row, p, e) <= e

lemma sscan_range(row bytes, p int, e int, n int)
  prop C15 C16
  requires 0 <= p && p <= e && 0 <= n && n <= 5
  hint ust(p)
  induct e-p
  trig sscan(row, p, e, n)
  ensures sscan(row, p, e, n) == -1 || p < sscan(row, p, e, n) && sscan(row, p, e, n) <= e

lemma bscan_range(row bytes, p int, e int, o int, c int, n int)
  prop C15 C16
  uses sscan_range
  requires 0 <= p && p <= e
  hint ust(p)
  induct e-p
  trig bscan(row, p, e, o, c, n)
  ensures bscan(row, p, e, o, c, n) == -1 || p < bscan(row, p, e, o, c, n) && bscan(row, p, e, o, c, n) <= e

def R(s) = elems(s.buf)
def P(s) = off(s.buf)+s.offset
def E(s) = off(s.buf)+len(s.buf)
def stok(t) = isallocated(t.buf) && 0 <= off(t.buf) && len(t.buf) <= 281474976710656 && 0 <= t.offset && t.offset <= len(t.buf)
// the value presented last lies inside the buffer
def vok(t) = 0 <= t.startValueOffset && t.startValueOffset <= t.endValueOffset && t.endValueOffset <= len(t.buf)
def stackok(s) = forall(k, int, trig(s.stack[k]), 0 <= k && k < len(s.stack) ==> stok(s.stack[k]) && vok(s.stack[k]))
def jok(s) = s != nil && stok(s.state) && (s.isLeaf ==> vok(s.state)) && stackok(s)
// what scanning never touches
def kept(s) = s.buf == old(s.buf) && s.inArray == old(s.inArray) && s.isLeaf == old(s.isLeaf) && s.arrayIndex == old(s.arrayIndex)
def keptf(s) = kept(s) && s.name == old(s.name) && s.firstArrayValue == old(s.firstArrayValue) && s.firstObjectValue == old(s.firstObjectValue)
def keptv(s) = keptf(s) && s.startValueOffset == old(s.startValueOffset) && s.endValueOffset == old(s.endValueOffset) && s.isValueArray == old(s.isValueArray) && s.isValueObject == old(s.isValueObject)

global C15,C16 ErrUnquote != nil && ErrUnquote != io.EOF

func errInString(buf) (err)
  prop C15
  ensures err != nil && err != io.EOF

func isString(buf) (r)
  prop C15 C16
  ensures r <==> (len(buf) > 0 && buf[0] == 34)

func scanString(buf) (n, err)
  prop C15 C16
  inv [i int]: ust(off(buf)+1+i)
  inv [i int]: ust(off(buf)+i)
  inv [i int, udigits int, escaped bool]: sscan(elems(buf), off(buf)+1, off(buf)+len(buf), 0) == sscan(elems(buf), off(buf)+i, off(buf)+len(buf), ite(escaped, 1, ite(udigits >= 0, udigits+2, 0)))
  inv [udigits int, escaped bool]: udigits <= 3 && -1 <= udigits && !(escaped && udigits >= 0)
  inv [i int, udigits int, escaped bool]: sscan(elems(buf), off(buf)+1, off(buf)+len(buf), 0) == sscan(elems(buf), off(buf)+1+i, off(buf)+len(buf), ite(escaped, 1, ite(udigits >= 0, udigits+2, 0)))
  ensures err == nil ==> 2 <= n && n <= len(buf)
  ensures err != io.EOF
  ensures err == nil <==> len(buf) > 0 && buf[0] == 34 && sscan(elems(buf), off(buf)+1, off(buf)+len(buf), 0) >= 0
  ensures err == nil ==> off(buf)+n == sscan(elems(buf), off(buf)+1, off(buf)+len(buf), 0)

func skipSpace(buf) (n)
  prop C15 C16
  inv [i int]: ust(off(buf)+i) && wend(elems(buf), off(buf), off(buf)+len(buf)) == wend(elems(buf), off(buf)+i, off(buf)+len(buf))
  ensures 0 <= n && n <= len(buf)
  ensures off(buf)+n == wend(elems(buf), off(buf), off(buf)+len(buf))

func scanBrackets(buf, open, close) (n, err)
  prop C15 C16
  requires open != 34 && close != 34 && open != close
  inv [i int]: 0 <= i && ust(off(buf)+i)
  inv [i int, n int]: -i <= n && n <= i
  inv [i int, n int]: bscan(elems(buf), off(buf), off(buf)+len(buf), open, close, 0) == bscan(elems(buf), off(buf)+i, off(buf)+len(buf), open, close, n)
  ensures err == nil ==> 1 <= n && n <= len(buf)
  ensures err != io.EOF
  ensures err == nil <==> bscan(elems(buf), off(buf), off(buf)+len(buf), open, close, 0) >= 0
  ensures err == nil ==> off(buf)+n == bscan(elems(buf), off(buf), off(buf)+len(buf), open, close, 0)

func *jsonParser.isNext(s, c) (r)
  prop C15 C16
  requires jok(s)
  ensures r <==> (P(s) < E(s) && s.buf[s.offset] == c)

func *jsonParser.expected(s, expected) (err)
  prop C15
  requires jok(s)
  ensures err != nil && err != io.EOF

func *jsonParser.skipSpace(s) (err)
  prop C15 C16
  requires jok(s)
  modifies s.state
  ensures jok(s) && keptv(s) && err == nil
  ensures P(s) == wend(R(s), old(P(s)), E(s))

func *jsonParser.scanOpenObject(s) (err)
  prop C15 C16
  requires jok(s)
  modifies s.state
  ensures jok(s) && keptv(s) && err != io.EOF
  ensures err == nil <==> old(P(s) < E(s) && s.buf[s.offset] == 123)
  ensures err == nil ==> P(s) == wend(R(s), old(P(s))+1, E(s))

func *jsonParser.scanOpenArray(s) (err)
  prop C15 C16
  requires jok(s)
  modifies s.state
  ensures jok(s) && keptv(s) && err != io.EOF
  ensures err == nil <==> old(P(s) < E(s) && s.buf[s.offset] == 91)
  ensures err == nil ==> P(s) == wend(R(s), old(P(s))+1, E(s))

func *jsonParser.scanString(s) (err)
  prop C15 C16
  requires jok(s) && !s.isLeaf
  modifies s.state
  ensures jok(s) && keptf(s) && s.isValueArray == old(s.isValueArray) && s.isValueObject == old(s.isValueObject) && err != io.EOF
  ensures err == nil <==> old(P(s) < E(s) && s.buf[s.offset] == 34) && sscan(R(s), old(P(s))+1, E(s), 0) >= 0
  ensures err == nil ==> s.startValueOffset == old(s.offset) && off(s.buf)+s.endValueOffset == sscan(R(s), old(P(s))+1, E(s), 0)
  ensures err == nil ==> vok(s) && P(s) == wend(R(s), off(s.buf)+s.endValueOffset, E(s))

func *jsonParser.scanName(s) (err)
  prop C15 C16
  requires jok(s)
  modifies s.state
  ensures jok(s) && kept(s) && s.firstArrayValue == old(s.firstArrayValue) && s.firstObjectValue == old(s.firstObjectValue) && err != io.EOF
  ensures s.startValueOffset == old(s.startValueOffset) && s.endValueOffset == old(s.endValueOffset) && s.isValueArray == old(s.isValueArray) && s.isValueObject == old(s.isValueObject)
  ensures err == nil ==> old(P(s) < E(s) && s.buf[s.offset] == 34) && sscan(R(s), old(P(s))+1, E(s), 0) >= 0
  ensures err == nil ==> P(s) == wend(R(s), sscan(R(s), old(P(s))+1, E(s), 0), E(s))

func *jsonParser.scanTrue(s) (err)
  prop C15 C16
  requires jok(s) && !s.isLeaf
  modifies s.state
  ensures jok(s) && keptf(s) && s.isValueArray == old(s.isValueArray) && s.isValueObject == old(s.isValueObject) && err != io.EOF
  ensures err == nil <==> lit4(R(s), old(P(s)), E(s), 116, 114, 117, 101) >= 0
  ensures err == nil ==> s.startValueOffset == old(s.offset) && s.endValueOffset == old(s.offset)+4 && P(s) == wend(R(s), old(P(s))+4, E(s))

func *jsonParser.scanFalse(s) (err)
  prop C15 C16
  requires jok(s) && !s.isLeaf
  modifies s.state
  ensures jok(s) && keptf(s) && s.isValueArray == old(s.isValueArray) && s.isValueObject == old(s.isValueObject) && err != io.EOF
  ensures err == nil <==> old(P(s))+5 <= E(s) && lit4(R(s), old(P(s)), E(s), 102, 97, 108, 115) >= 0 && old(s.buf[s.offset+4]) == 101
  ensures err == nil ==> s.startValueOffset == old(s.offset) && s.endValueOffset == old(s.offset)+5 && P(s) == wend(R(s), old(P(s))+5, E(s))

func *jsonParser.scanNull(s) (err)
  prop C15 C16
  requires jok(s) && !s.isLeaf
  modifies s.state
  ensures jok(s) && keptf(s) && s.isValueArray == old(s.isValueArray) && s.isValueObject == old(s.isValueObject) && err != io.EOF
  ensures err == nil <==> lit4(R(s), old(P(s)), E(s), 110, 117, 108, 108) >= 0
  ensures err == nil ==> s.startValueOffset == old(s.offset) && s.endValueOffset == old(s.offset)+4 && P(s) == wend(R(s), old(P(s))+4, E(s))

func *jsonParser.scanArray(s) (err)
  prop C15 C16
  requires jok(s) && !s.isLeaf
  modifies s.state
  ensures jok(s) && keptf(s) && s.isValueObject == old(s.isValueObject) && err != io.EOF
  ensures err == nil <==> bscan(R(s), old(P(s)), E(s), 91, 93, 0) >= 0
  ensures err == nil ==> s.isValueArray && vok(s) && s.startValueOffset == old(s.offset) && off(s.buf)+s.endValueOffset == bscan(R(s), old(P(s)), E(s), 91, 93, 0)
  ensures err == nil ==> P(s) == wend(R(s), off(s.buf)+s.endValueOffset, E(s))
  ensures err != nil ==> s.isValueArray == old(s.isValueArray)

func *jsonParser.scanObject(s) (err)
  prop C15 C16
  requires jok(s) && !s.isLeaf
  modifies s.state
  ensures jok(s) && keptf(s) && s.isValueArray == old(s.isValueArray) && err != io.EOF
  ensures err == nil <==> bscan(R(s), old(P(s)), E(s), 123, 125, 0) >= 0
  ensures err == nil ==> s.isValueObject && vok(s) && s.startValueOffset == old(s.offset) && off(s.buf)+s.endValueOffset == bscan(R(s), old(P(s)), E(s), 123, 125, 0)
  ensures err == nil ==> P(s) == wend(R(s), off(s.buf)+s.endValueOffset, E(s))
  ensures err != nil ==> s.isValueObject == old(s.isValueObject)

func *jsonParser.scanNumber(s) (err)
  prop C15 C16
  requires jok(s) && P(s) < E(s)
  requires !s.isLeaf
  modifies s.state
  inv []: ust(P(s))
  inv []: jok(s) && s.buf == entry(s.buf) && s.inArray == entry(s.inArray) && s.isLeaf == entry(s.isLeaf) && s.arrayIndex == entry(s.arrayIndex) && s.name == entry(s.name) && s.firstArrayValue == entry(s.firstArrayValue) && s.firstObjectValue == entry(s.firstObjectValue)
  inv []: s.isValueArray == entry(s.isValueArray) && s.isValueObject == entry(s.isValueObject) && s.startValueOffset == entry(s.startValueOffset) && s.offset >= entry(s.offset)
  inv []: dend(R(s), entry(P(s)), E(s)) == dend(R(s), P(s), E(s))
  ensures jok(s) && keptf(s) && s.isValueArray == old(s.isValueArray) && s.isValueObject == old(s.isValueObject) && err != io.EOF
  ensures err == nil <==> nend(R(s), old(P(s)), E(s)) >= 0
  ensures err == nil ==> vok(s) && s.startValueOffset == old(s.offset) && off(s.buf)+s.endValueOffset == nend(R(s), old(P(s)), E(s)) && s.offset == s.endValueOffset

func *jsonParser.scanValue(s) (err)
  prop C15 C16
  requires jok(s) && !s.isLeaf
  modifies s.state
  ensures jok(s) && keptf(s) && err != io.EOF
  ensures err == nil <==> vend(R(s), old(P(s)), E(s)) >= 0
  ensures err == nil ==> vok(s) && s.startValueOffset == old(s.offset) && off(s.buf)+s.endValueOffset == vend(R(s), old(P(s)), E(s))
  ensures err == nil ==> P(s) == ite(old(vnum(s.buf[s.offset])), off(s.buf)+s.endValueOffset, wend(R(s), off(s.buf)+s.endValueOffset, E(s)))
  ensures err == nil ==> (s.isValueArray <==> old(s.isValueArray) || old(s.buf[s.offset] == 91))
  ensures err == nil ==> (s.isValueObject <==> old(s.isValueObject) || old(s.buf[s.offset] == 123))

func *jsonParser.scanColon(s) (err)
  prop C15 C16
  requires jok(s)
  modifies s.state
  ensures jok(s) && keptv(s) && err != io.EOF
  ensures err == nil <==> old(P(s) < E(s) && s.buf[s.offset] == 58)
  ensures err == nil ==> P(s) == wend(R(s), old(P(s))+1, E(s))

func *jsonParser.scanComma(s) (err)
  prop C15 C16
  requires jok(s)
  modifies s.state
  ensures jok(s) && keptv(s) && err != io.EOF
  ensures err == nil <==> old(P(s) < E(s) && s.buf[s.offset] == 44)
  ensures err == nil ==> P(s) == wend(R(s), old(P(s))+1, E(s))

func *jsonParser.scanCloseObject(s) (err)
  prop C15 C16
  requires jok(s)
  ensures err != nil && (err == io.EOF <==> P(s) < E(s) && s.buf[s.offset] == 125)

func *jsonParser.scanCloseArray(s) (err)
  prop C15 C16
  requires jok(s)
  ensures err != nil && (err == io.EOF <==> P(s) < E(s) && s.buf[s.offset] == 93)

func getu4(s) (r)
  prop C15
  ensures -1 <= r && r <= 65535
  ensures 0 <= r ==> len(s) >= 6

func unquoteBytes(s) (t, ok)
  prop C15
  inv [w int, b []byte]: w <= len(b)-4 && 8 <= len(b)
  ensures true

func unquote(s) (t, ok)
  prop C15
  ensures true

// the value at v is presented, and the offset is after it
def shown(s, v) = vok(s) && off(s.buf)+s.startValueOffset == v && off(s.buf)+s.endValueOffset == vend(R(s), v, E(s)) && P(s) == ite(vnum(R(s)[v]), vend(R(s), v, E(s)), wend(R(s), vend(R(s), v, E(s)), E(s)))
def kinds(s, v) = (s.isValueArray <==> s.buf[v-off(s.buf)] == 91) && (s.isValueObject <==> s.buf[v-off(s.buf)] == 123)

func *jsonParser.nextValueInArray(s) (err)
  prop C15 C16
  uses wend_range dend_range sscan_range bscan_range
  requires jok(s) && !s.isLeaf && !s.isValueArray && !s.isValueObject
  modifies s.state
  ensures jok(s) && kept(s) && s.name == old(s.name) && s.firstObjectValue == old(s.firstObjectValue)
  ensures err == io.EOF <==> arrv(R(s), old(P(s)), E(s), old(s.firstArrayValue)) == -2
  ensures err == nil <==> arrv(R(s), old(P(s)), E(s), old(s.firstArrayValue)) >= 0 && vend(R(s), arrv(R(s), old(P(s)), E(s), old(s.firstArrayValue)), E(s)) >= 0
  ensures err == nil ==> shown(s, arrv(R(s), old(P(s)), E(s), old(s.firstArrayValue))) && kinds(s, arrv(R(s), old(P(s)), E(s), old(s.firstArrayValue)))
  ensures err == nil ==> !s.firstArrayValue

func *jsonParser.nextValueInObject(s) (err)
  prop C15 C16
  uses wend_range dend_range sscan_range bscan_range
  requires jok(s) && !s.isLeaf && !s.isValueArray && !s.isValueObject
  modifies s.state
  ensures jok(s) && kept(s) && s.firstArrayValue == old(s.firstArrayValue)
  ensures err == io.EOF <==> objv(R(s), objq(R(s), old(P(s)), E(s), old(s.firstObjectValue)), E(s)) == -2
  ensures err == nil ==> objv(R(s), objq(R(s), old(P(s)), E(s), old(s.firstObjectValue)), E(s)) >= 0
  ensures err == nil ==> shown(s, objv(R(s), objq(R(s), old(P(s)), E(s), old(s.firstObjectValue)), E(s)))
  ensures err == nil ==> kinds(s, objv(R(s), objq(R(s), old(P(s)), E(s), old(s.firstObjectValue)), E(s)))
  ensures err == nil ==> !s.firstObjectValue

// the position before which Next looks for a value
def nxt(s) = wend(R(s), P(s), E(s))

func *jsonParser.Next(s) (err)
  prop C15 C16
  uses wend_range dend_range sscan_range bscan_range
  requires jok(s)
  modifies s.state
  ensures jok(s) && s.buf == old(s.buf) && s.inArray == old(s.inArray) && s.isLeaf == old(s.isLeaf)
  ensures err == nil ==> vok(s)
  ensures old(s.isLeaf) ==> (err == nil <==> old(s.firstObjectValue)) && (err == io.EOF <==> !old(s.firstObjectValue)) && !s.firstObjectValue && s.startValueOffset == old(s.startValueOffset) && s.endValueOffset == old(s.endValueOffset)
  ensures !s.isLeaf && s.inArray ==> (err == io.EOF <==> old(arrv(R(s), nxt(s), E(s), s.firstArrayValue) == -2))
  ensures !s.isLeaf && s.inArray ==> (err == nil <==> old(arrv(R(s), nxt(s), E(s), s.firstArrayValue) >= 0 && vend(R(s), arrv(R(s), nxt(s), E(s), s.firstArrayValue), E(s)) >= 0))
  ensures !s.isLeaf && s.inArray && err == nil ==> shown(s, old(arrv(R(s), nxt(s), E(s), s.firstArrayValue))) && kinds(s, old(arrv(R(s), nxt(s), E(s), s.firstArrayValue)))
  ensures !s.isLeaf && s.inArray && err == nil && 0 <= old(s.arrayIndex) && old(s.arrayIndex) < 281474976710656 ==> s.arrayIndex == old(ite(s.firstArrayValue, s.arrayIndex, s.arrayIndex+1)) && !s.firstArrayValue
  ensures !s.isLeaf && !s.inArray ==> (err == io.EOF <==> old(objv(R(s), objq(R(s), nxt(s), E(s), s.firstObjectValue), E(s)) == -2))
  ensures !s.isLeaf && !s.inArray && err == nil ==> old(objv(R(s), objq(R(s), nxt(s), E(s), s.firstObjectValue), E(s))) >= 0
  ensures !s.isLeaf && !s.inArray && err == nil ==> shown(s, old(objv(R(s), objq(R(s), nxt(s), E(s), s.firstObjectValue), E(s)))) && kinds(s, old(objv(R(s), objq(R(s), nxt(s), E(s), s.firstObjectValue), E(s))))
  ensures !s.isLeaf && !s.inArray && err == nil ==> !s.firstObjectValue

func *jsonParser.IsLeaf(s) (r)
  prop C15 C16
  requires s != nil
  ensures r == s.isLeaf

func *jsonParser.Value(s) (r)
  prop C15 C16
  requires jok(s) && vok(s)
  ensures arr(r) == arr(s.buf) && off(r) == off(s.buf)+s.startValueOffset && len(r) == s.endValueOffset-s.startValueOffset

func *jsonParser.Double(s) (v, err)
  prop C15 C16
  requires jok(s)
  ensures !s.isLeaf ==> err != nil

func *jsonParser.Int(s) (v, err)
  prop C15 C16
  requires jok(s)
  ensures !s.isLeaf && !s.inArray ==> err != nil
  ensures !s.isLeaf && s.inArray ==> err == nil && v == s.arrayIndex

func *jsonParser.Uint(s) (v, err)
  prop C15 C16
  requires jok(s)
  ensures !s.isLeaf ==> err != nil

func *jsonParser.Bool(s) (v, err)
  prop C15 C16
  requires jok(s)
  ensures !s.isLeaf ==> err != nil

func *jsonParser.String(s) (v, err)
  prop C15 C16
  requires jok(s)
  ensures !s.isLeaf && !s.inArray ==> err == nil && v == s.name
  ensures !s.isLeaf && s.inArray ==> err != nil

func *jsonParser.Bytes(s) (v, err)
  prop C15 C16
  ensures err != nil

func *jsonParser.Down(s)
  prop C15 C16
  requires jok(s) && vok(s)
  modifies s.state, s.stack, elems(s.stack)
  ensures jok(s) && len(s.stack) == len(old(s.stack))+1 && s.stack[len(old(s.stack))] == old(s.state)
  ensures forall(k, int, trig(s.stack[k]), 0 <= k && k < len(old(s.stack)) ==> s.stack[k] == old(s.stack[k]))
  ensures old(s.isValueObject || s.isValueArray) ==> arr(s.buf) == arr(old(s.buf)) && off(s.buf) == off(old(s.buf))+old(s.startValueOffset) && len(s.buf) == old(s.endValueOffset-s.startValueOffset) && s.offset == 0 && !s.isLeaf
  ensures old(s.isValueObject) ==> !s.inArray && s.firstObjectValue
  ensures old(!s.isValueObject && s.isValueArray) ==> s.inArray && s.firstArrayValue && s.arrayIndex == 0
  ensures old(!s.isValueObject && !s.isValueArray) ==> s.isLeaf && s.firstObjectValue && s.buf == old(s.buf) && s.startValueOffset == old(s.startValueOffset) && s.endValueOffset == old(s.endValueOffset)

func *jsonParser.Up(s)
  prop C15 C16
  requires jok(s) && len(s.stack) > 0
  modifies s.state, s.stack
  ensures jok(s) && vok(s)
  ensures s.state == old(s.stack[len(s.stack)-1])
  ensures arr(s.stack) == arr(old(s.stack)) && off(s.stack) == off(old(s.stack)) && len(s.stack) == len(old(s.stack))-1

// the state in which a document begins
def W(buf) = wend(elems(buf), off(buf), off(buf)+len(buf))
def opens(buf, c) = W(buf) < off(buf)+len(buf) && elems(buf)[W(buf)] == c
def started(s, buf, err) = (opens(buf, 123) ==> err == nil && s.buf == buf && P(s) == W(buf) && !s.inArray && !s.isLeaf && s.firstObjectValue) && (!opens(buf, 123) ==> (err == nil <==> vend(elems(buf), W(buf), off(buf)+len(buf)) >= 0)) && (opens(buf, 91) && err == nil ==> arr(s.buf) == arr(buf) && off(s.buf) == W(buf) && len(s.buf) == vend(elems(buf), W(buf), off(buf)+len(buf))-W(buf) && s.offset == 0 && s.inArray && s.firstArrayValue && s.arrayIndex == 0 && !s.isLeaf) && (!opens(buf, 123) && !opens(buf, 91) && err == nil ==> s.isLeaf && s.firstObjectValue && s.buf == buf && off(buf)+s.startValueOffset == W(buf) && off(buf)+s.endValueOffset == vend(elems(buf), W(buf), off(buf)+len(buf)))

func *jsonParser.Init(s, buf) (err)
  prop C15 C16
  uses wend_range dend_range sscan_range bscan_range
  requires s != nil
  modifies s.state, s.stack
  ensures jok(s) && len(s.stack) == 0
  ensures err == nil && s.isLeaf ==> vok(s)
  ensures started(s, buf, err)

func *jsonParser.Reset(s) (err)
  prop C15 C16
  requires jok(s)
  modifies s.state, s.stack
  ensures jok(s) && len(s.stack) == 0
  ensures old(len(s.stack)) > 0 ==> started(s, old(s.stack[0].buf), err)
  ensures old(len(s.stack)) == 0 ==> started(s, old(s.buf), err)

func NewJsonParser() (r)
  prop C15 C16
  ensures typeis(r, *jsonParser) && jok(as(r, *jsonParser)) && len(as(r, *jsonParser).stack) == 0
