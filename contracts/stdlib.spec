// Contracts assumed of the Go standard library.
package stdlib
mode any

func !fmt.Sprintf(format, args) (r)
  trusted standard library: formats without touching the heap of the repository
  writes al

func !fmt.Errorf(format, args) (err)
  trusted standard library: returns a new error that is not nil
  writes al
  ensures err != nil && err != io.EOF

// variables of the standard library that nothing assigns
global trusted io.EOF != nil && io.ErrShortBuffer != nil && io.ErrUnexpectedEOF != nil && io.EOF != io.ErrShortBuffer && io.EOF != io.ErrUnexpectedEOF

func !strconv.ParseFloat(s, bitSize) (f, err)
  trusted standard library: parses without touching the heap of the repository
  writes al
  ensures err != io.EOF
func !strconv.ParseInt(s, base, bitSize) (i, err)
  trusted standard library: parses without touching the heap of the repository
  writes al
  ensures err != io.EOF
func !strconv.ParseUint(s, base, bitSize) (i, err)
  trusted standard library: parses without touching the heap of the repository
  writes al
  ensures err != io.EOF
  ensures err == nil ==> len(s) > 0
  ensures err == nil && base == 16 && len(s) == 4 ==> i <= 65535
func unicode/utf8.DecodeRune(p) (r, size)
  trusted standard library: decodes the first code point; the size is within the slice
  ensures 0 <= size && size <= 4 && size <= len(p) && (len(p) > 0 ==> size >= 1)
  ensures 0 <= r && r <= 1114111
func unicode/utf8.EncodeRune(p, r) (n)
  trusted standard library: writes at most four bytes; panics when p is too short
  writes E|byte
  requires len(p) >= 4
  modifies elems(p)
  ensures 1 <= n && n <= 4
func unicode/utf16.IsSurrogate(r) (b)
  trusted standard library
  ensures b <==> 55296 <= r && r < 57344
func unicode/utf16.DecodeRune(r1, r2) (r)
  trusted standard library
  ensures r == 65533 || 65536 <= r && r <= 1114111 && 55296 <= r1 && r1 < 56320 && 56320 <= r2 && r2 < 57344

func !sort.Strings(x)
  trusted standard library: permutes the strings
  writes E|string
  modifies elems(x)
  ensures forall(i, int, trig(x[i]), 0 <= i && i < len(x) ==> exists(j, int, 0 <= j && j < len(x) && x[i] == old(x[j])))
  ensures forall(j, int, trig(old(x[j])), 0 <= j && j < len(x) ==> exists(i, int, trig(x[i]), 0 <= i && i < len(x) && x[i] == old(x[j])))
