// Contracts of relapse/sets/indexset.go: tables of distinct values with stable indexes.
package relapse/sets

def inteq(a, b) = len(a) == len(b) && forall(k, int, 0 <= k && k < len(a) ==> a[k] == b[k])

func NewInts() (r)
  prop C14
  ensures len(r) == 0

func Ints.Index(this, is) (r)
  prop C14 C06
  inv [i int]: forall(k, int, trig(this[k]), 0 <= k && k < i && k < len(this) ==> !inteq(this[k], is))
  inv [j int, iis any []int]: forall(m, int, 0 <= m && m < j && m < len(iis) ==> iis[m] == is[m])
  ensures -1 <= r && r < len(this)
  ensures 0 <= r ==> inteq(this[r], is)
  ensures forall(k, int, trig(this[k]), 0 <= k && k < ite(r < 0, len(this), r) ==> !inteq(this[k], is))

func *Ints.Add(this, is) (r)
  prop C14 C06
  requires this != nil
  modifies deref(this), elems(*this)
  ensures 0 <= r && r < len(*this) && inteq((*this)[r], is)
  ensures len(old(*this)) <= len(*this) && len(*this) <= len(old(*this))+1
  ensures forall(k, int, trig((*this)[k]), 0 <= k && k < len(old(*this)) ==> (*this)[k] == old((*this)[k]))
  ensures forall(k, int, trig((*this)[k]), 0 <= k && k < r ==> !inteq((*this)[k], is))
  ensures r < len(old(*this)) ==> len(*this) == len(old(*this))

func NewPairs() (r)
  prop C14
  ensures len(r) == 0

func Pairs.Index(this, se) (r)
  prop C14 C06
  inv [i int]: forall(k, int, trig(this[k]), 0 <= k && k < i && k < len(this) ==> this[k] != se)
  ensures -1 <= r && r < len(this)
  ensures 0 <= r ==> this[r] == se
  ensures forall(k, int, trig(this[k]), 0 <= k && k < ite(r < 0, len(this), r) ==> this[k] != se)

func *Pairs.Add(this, se) (r)
  prop C14 C06
  requires this != nil
  modifies deref(this), elems(*this)
  ensures 0 <= r && r < len(*this) && (*this)[r] == se
  ensures len(old(*this)) <= len(*this) && len(*this) <= len(old(*this))+1
  ensures forall(k, int, trig((*this)[k]), 0 <= k && k < len(old(*this)) ==> (*this)[k] == old((*this)[k]))
  ensures forall(k, int, trig((*this)[k]), 0 <= k && k < r ==> (*this)[k] != se)
  ensures r < len(old(*this)) ==> len(*this) == len(old(*this))

func NewBitsSet() (r)
  prop C14
  ensures len(r) == 0

def wfbits(s) = forall(k, int, trig(s[k]), 0 <= k && k < len(s) ==> len(s[k].vals) == nwords(s[k]))

func BitsSet.Index(this, bs) (r)
  prop C14 C06
  requires wfbits(this) && len(bs.vals) == nwords(bs)
  inv [i int]: forall(k, int, trig(this[k]), 0 <= k && k < i && k < len(this) ==> !biteq(this[k], bs))
  ensures -1 <= r && r < len(this)
  ensures 0 <= r ==> biteq(this[r], bs)
  ensures forall(k, int, trig(this[k]), 0 <= k && k < ite(r < 0, len(this), r) ==> !biteq(this[k], bs))

func *BitsSet.Add(this, bs) (r)
  prop C14 C06
  requires this != nil
  requires wfbits(*this) && len(bs.vals) == nwords(bs)
  modifies deref(this), elems(*this)
  ensures wfbits(*this)
  ensures 0 <= r && r < len(*this) && biteq((*this)[r], bs)
  ensures len(old(*this)) <= len(*this) && len(*this) <= len(old(*this))+1
  ensures forall(k, int, trig((*this)[k]), 0 <= k && k < len(old(*this)) ==> (*this)[k] == old((*this)[k]))
  ensures forall(k, int, trig((*this)[k]), 0 <= k && k < r ==> !biteq((*this)[k], bs))
  ensures r < len(old(*this)) ==> len(*this) == len(old(*this))

// equality of lists of patterns
def patseq(a, b) = len(a) == len(b) && (a == nil <==> b == nil) && forall(k, int, trig(a[k], b[k]), 0 <= k && k < len(a) ==> patEq(a[k], b[k]))

func NewPatterns() (r)
  prop C14
  ensures len(r) == 0

func deriveEquals(this, that) (r)
  prop C14 C06
  inv [i int]: forall(k, int, trig(this[k], that[k]), 0 <= k && k < i && k < len(this) ==> patEq(this[k], that[k]))
  ensures r <==> patseq(this, that)

func Patterns.Index(this, patterns) (r)
  prop C14 C06
  inv [i int]: forall(k, int, trig(this[k]), 0 <= k && k < i && k < len(this) ==> !patseq(this[k], patterns))
  ensures -1 <= r && r < len(this)
  ensures 0 <= r ==> patseq(this[r], patterns)
  ensures forall(k, int, trig(this[k]), 0 <= k && k < ite(r < 0, len(this), r) ==> !patseq(this[k], patterns))

func *Patterns.Add(this, patterns) (r)
  prop C14 C06
  requires this != nil
  modifies deref(this), elems(*this)
  ensures 0 <= r && r < len(*this)
  ensures r == len(old(*this)) ==> (*this)[r] == patterns && len(*this) == len(old(*this))+1
  ensures r < len(old(*this)) ==> *this == old(*this) && patseq((*this)[r], patterns)
  ensures forall(k, int, trig((*this)[k]), 0 <= k && k < len(old(*this)) ==> (*this)[k] == old((*this)[k]))
  ensures forall(k, int, trig((*this)[k]), 0 <= k && k < r ==> !patseq((*this)[k], patterns))
