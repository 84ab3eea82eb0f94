From a3d8bb66129c7bb086c3aec4867fd23e57fc10d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 01/23] fix: keep duplicate operands when simplifying an
 interleave

Interleave is not idempotent: {a:*;a:*} describes two a fields.
---
 relapse/interp/order.go    | 18 ++++++++++++------
 relapse/interp/simplify.go |  4 +++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/relapse/interp/order.go b/relapse/interp/order.go
index d105e8f..2073b68 100644
--- a/relapse/interp/order.go
+++ b/relapse/interp/order.go
@@ -49,12 +49,8 @@ func (ps *sortable) Less(i, j int) bool {
 	return ps.list[i].GetTreeNode() == nil
 }
 
-// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
-func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
-	if len(ps) == 0 || len(ps) == 1 {
-		return ps
-	}
-
+// order creates a stable order, while taking into account treenodes, and returns the hashes that were used for ordering.
+func order(ps []*ast.Pattern) []uint64 {
 	hashes := make([]uint64, len(ps))
 	for i, p := range ps {
 		if p.GetTreeNode() == nil {
@@ -66,6 +62,16 @@ func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
 
 	sortable := &sortable{hashes, ps}
 	sort.Sort(sortable)
+	return hashes
+}
+
+// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
+func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
+	if len(ps) == 0 || len(ps) == 1 {
+		return ps
+	}
+
+	hashes := order(ps)
 
 	u := 0
 	for i := 1; i < len(ps); i++ {
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index f8eede6..1fe0bf4 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -380,7 +380,9 @@ func simplifyInterleave(refs ast.RefLookup, p1, p2 *ast.Pattern) *ast.Pattern {
 	}
 	left := getInterleaves(p1)
 	right := getInterleaves(p2)
-	list := orderedSet(append(left, right...))
+	list := append(left, right...)
+	//Interleave is not idempotent, so duplicates have to be kept.
+	order(list)
 	var p *ast.Pattern = list[0]
 	for i := range list {
 		if i == 0 {
-- 
2.43.0


From 9733be098c775acb46c79fcafbd4e2b074a93556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 02/23] fix: evaluate a negated comparison as the negation of
 the comparison

---
 relapse/funcs/logic.go | 69 ++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/relapse/funcs/logic.go b/relapse/funcs/logic.go
index f2cdfde..8b6d592 100644
--- a/relapse/funcs/logic.go
+++ b/relapse/funcs/logic.go
@@ -30,32 +30,6 @@ func Not(v1 Bool) Bool {
 	if vv, ok := v1.(*or); ok {
 		return And(Not(vv.V1), Not(vv.V2))
 	}
-	switch vv := v1.(type) {
-	case *boolEq:
-		return BoolNe(vv.V1, vv.V2)
-	case *bytesEq:
-		return BytesNe(vv.V1, vv.V2)
-	case *doubleEq:
-		return DoubleNe(vv.V1, vv.V2)
-	case *intEq:
-		return IntNe(vv.V1, vv.V2)
-	case *stringEq:
-		return StringNe(vv.V1, vv.V2)
-	case *uintEq:
-		return UintNe(vv.V1, vv.V2)
-	case *boolNe:
-		return BoolEq(vv.V1, vv.V2)
-	case *bytesNe:
-		return BytesEq(vv.V1, vv.V2)
-	case *doubleNe:
-		return DoubleEq(vv.V1, vv.V2)
-	case *intNe:
-		return IntEq(vv.V1, vv.V2)
-	case *stringNe:
-		return StringEq(vv.V1, vv.V2)
-	case *uintNe:
-		return UintEq(vv.V1, vv.V2)
-	}
 	return TrimBool(&not{
 		V1:          v1,
 		hash:        hashWithId(23, v1),
@@ -138,6 +112,24 @@ func And(v1, v2 Bool) Bool {
 			return BoolConst(false)
 		}
 	}
+	if r, ok := v2.(*not); ok {
+		if c1, c2, ok := eqVarConsts(v1, r.V1); ok {
+			if !Equal(c1, c2) {
+				return v1
+			} else {
+				return BoolConst(false)
+			}
+		}
+	}
+	if l, ok := v1.(*not); ok {
+		if c1, c2, ok := eqVarConsts(v2, l.V1); ok {
+			if !Equal(c1, c2) {
+				return v2
+			} else {
+				return BoolConst(false)
+			}
+		}
+	}
 	switch vv1 := v1.(type) {
 	case *stringEq:
 		if vv2, ok := v2.(*stringEq); ok {
@@ -247,6 +239,31 @@ func And(v1, v2 Bool) Bool {
 	})
 }
 
+//eqVarConsts returns the two constants, if both functions compare the same variable for equality with a constant.
+func eqVarConsts(v1, v2 Bool) (aConst, aConst, bool) {
+	switch vv1 := v1.(type) {
+	case *stringEq:
+		if vv2, ok := v2.(*stringEq); ok {
+			c1, ok1 := isVarConst(vv1.V1, vv1.V2)
+			c2, ok2 := isVarConst(vv2.V1, vv2.V2)
+			return c1, c2, ok1 && ok2
+		}
+	case *intEq:
+		if vv2, ok := v2.(*intEq); ok {
+			c1, ok1 := isVarConst(vv1.V1, vv1.V2)
+			c2, ok2 := isVarConst(vv2.V1, vv2.V2)
+			return c1, c2, ok1 && ok2
+		}
+	case *uintEq:
+		if vv2, ok := v2.(*uintEq); ok {
+			c1, ok1 := isVarConst(vv1.V1, vv1.V2)
+			c2, ok2 := isVarConst(vv2.V1, vv2.V2)
+			return c1, c2, ok1 && ok2
+		}
+	}
+	return nil, nil, false
+}
+
 type and struct {
 	V1          Bool
 	V2          Bool
-- 
2.43.0


From 4b94d657ce49eecf073d3e275bfb9b06572b6d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 03/23] fix: negative element and range indexes count from the
 end of the list

---
 relapse/funcs/elem.gen.go       | 18 +++++++++++++++++
 relapse/funcs/funcs-gen/main.go |  9 +++++++++
 relapse/funcs/range.gen.go      | 36 +++++++++++++++++++++++++++++++++
 3 files changed, 63 insertions(+)

diff --git a/relapse/funcs/elem.gen.go b/relapse/funcs/elem.gen.go
index f6f8bb7..85cac00 100644
--- a/relapse/funcs/elem.gen.go
+++ b/relapse/funcs/elem.gen.go
@@ -27,6 +27,9 @@ func (this *elemDoubles) Eval() (float64, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -101,6 +104,9 @@ func (this *elemInts) Eval() (int64, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -175,6 +181,9 @@ func (this *elemUints) Eval() (uint64, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -249,6 +258,9 @@ func (this *elemBools) Eval() (bool, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return false, NewRangeCheckErr(index, len(list))
@@ -323,6 +335,9 @@ func (this *elemStrings) Eval() (string, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return "", NewRangeCheckErr(index, len(list))
@@ -397,6 +412,9 @@ func (this *elemListOfBytes) Eval() ([]byte, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return nil, NewRangeCheckErr(index, len(list))
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 22dcdf1..3564c58 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -439,6 +439,9 @@ func (this *elem{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
@@ -527,6 +530,9 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -538,6 +544,9 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
diff --git a/relapse/funcs/range.gen.go b/relapse/funcs/range.gen.go
index a38d2c7..297e227 100644
--- a/relapse/funcs/range.gen.go
+++ b/relapse/funcs/range.gen.go
@@ -28,6 +28,9 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -39,6 +42,9 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -121,6 +127,9 @@ func (this *rangeInts) Eval() ([]int64, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -132,6 +141,9 @@ func (this *rangeInts) Eval() ([]int64, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -214,6 +226,9 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -225,6 +240,9 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -307,6 +325,9 @@ func (this *rangeBools) Eval() ([]bool, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -318,6 +339,9 @@ func (this *rangeBools) Eval() ([]bool, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -400,6 +424,9 @@ func (this *rangeStrings) Eval() ([]string, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -411,6 +438,9 @@ func (this *rangeStrings) Eval() ([]string, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -493,6 +523,9 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -504,6 +537,9 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
-- 
2.43.0


From c2d63113d4e8d796cd7288e8660e009a41d3b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 04/23] fix: print double and string constants without losing
 information

---
 relapse/funcs/const.gen.go      |  8 ++++----
 relapse/funcs/funcs-gen/main.go | 29 +++++++++++++++--------------
 relapse/funcs/sprint.go         | 14 ++++++++++++++
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/relapse/funcs/const.gen.go b/relapse/funcs/const.gen.go
index d92aa08..58627c0 100644
--- a/relapse/funcs/const.gen.go
+++ b/relapse/funcs/const.gen.go
@@ -39,7 +39,7 @@ func (this *constDouble) Hash() uint64 {
 }
 
 func (this *constDouble) String() string {
-	return fmt.Sprintf("double(%f)", this.v)
+	return fmt.Sprintf("double(%s)", formatDouble(this.v))
 }
 
 // TrimDouble turns functions into constants, if they can be evaluated at compile time.
@@ -239,7 +239,7 @@ func (this *constString) Hash() uint64 {
 }
 
 func (this *constString) String() string {
-	return fmt.Sprintf("`%s`", this.v)
+	return fmt.Sprintf("%s", quote(this.v))
 }
 
 // TrimString turns functions into constants, if they can be evaluated at compile time.
@@ -341,7 +341,7 @@ func (this *constDoubles) Hash() uint64 {
 func (this *constDoubles) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("double(%f)", this.v[i])
+		ss[i] = fmt.Sprintf("double(%s)", formatDouble(this.v[i]))
 	}
 	return "[]double{" + strings.Join(ss, ",") + "}"
 }
@@ -557,7 +557,7 @@ func (this *constStrings) Hash() uint64 {
 func (this *constStrings) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("`%s`", this.v[i])
+		ss[i] = fmt.Sprintf("%s", quote(this.v[i]))
 	}
 	return "[]string{" + strings.Join(ss, ",") + "}"
 }
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 3564c58..3926180 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -169,9 +169,9 @@ func (this *const{{.CType}}) Hash() uint64 {
 func (this *const{{.CType}}) String() string {
 	{{if .ListType}}ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("{{.String}}", this.v[i])
+		ss[i] = fmt.Sprintf("{{.String}}", {{if .Format}}{{.Format}}(this.v[i]){{else}}this.v[i]{{end}})
 	}
-	return "[]{{.ListType}}{" + strings.Join(ss, ",") + "}"{{else}}return fmt.Sprintf("{{.String}}", this.v){{end}}
+	return "[]{{.ListType}}{" + strings.Join(ss, ",") + "}"{{else}}return fmt.Sprintf("{{.String}}", {{if .Format}}{{.Format}}(this.v){{else}}this.v{{end}}){{end}}
 }
 
 // Trim{{.CType}} turns functions into constants, if they can be evaluated at compile time.
@@ -195,6 +195,7 @@ type conster struct {
 	GoType   string
 	String   string
 	ListType string
+	Format   string
 }
 
 func (this *conster) Hash() uint64 {
@@ -885,18 +886,18 @@ func main() {
 		"ListOfBytes",
 	})
 	gen(constStr, "const.gen.go", []interface{}{
-		&conster{"Double", "float64", "double(%f)", ""},
-		&conster{"Int", "int64", "int(%d)", ""},
-		&conster{"Uint", "uint64", "uint(%d)", ""},
-		&conster{"Bool", "bool", "%v", ""},
-		&conster{"String", "string", "`%s`", ""},
-		&conster{"Bytes", "[]byte", "%#v", ""},
-		&conster{"Doubles", "[]float64", "double(%f)", "double"},
-		&conster{"Ints", "[]int64", "int(%d)", "int"},
-		&conster{"Uints", "[]uint64", "uint(%d)", "uint"},
-		&conster{"Bools", "[]bool", "%v", "bool"},
-		&conster{"Strings", "[]string", "`%s`", "string"},
-		&conster{"ListOfBytes", "[][]byte", "%#v", "[]byte"},
+		&conster{"Double", "float64", "double(%s)", "", "formatDouble"},
+		&conster{"Int", "int64", "int(%d)", "", ""},
+		&conster{"Uint", "uint64", "uint(%d)", "", ""},
+		&conster{"Bool", "bool", "%v", "", ""},
+		&conster{"String", "string", "%s", "", "quote"},
+		&conster{"Bytes", "[]byte", "%#v", "", ""},
+		&conster{"Doubles", "[]float64", "double(%s)", "double", "formatDouble"},
+		&conster{"Ints", "[]int64", "int(%d)", "int", ""},
+		&conster{"Uints", "[]uint64", "uint(%d)", "uint", ""},
+		&conster{"Bools", "[]bool", "%v", "bool", ""},
+		&conster{"Strings", "[]string", "%s", "string", "quote"},
+		&conster{"ListOfBytes", "[][]byte", "%#v", "[]byte", ""},
 	}, `"fmt"`, `"strings"`, `"reflect"`)
 	gen(listStr, "list.gen.go", []interface{}{
 		&list{"double", "Doubles", "Double", "float64"},
diff --git a/relapse/funcs/sprint.go b/relapse/funcs/sprint.go
index f6ca3d2..f1e5782 100644
--- a/relapse/funcs/sprint.go
+++ b/relapse/funcs/sprint.go
@@ -15,6 +15,7 @@
 package funcs
 
 import (
+	"strconv"
 	"strings"
 )
 
@@ -38,3 +39,16 @@ func Sprint(s Stringer) string {
 	}
 	return "->" + s.String()
 }
+
+// formatDouble returns a string from which the exact same value can be parsed.
+func formatDouble(v float64) string {
+	return strconv.FormatFloat(v, 'f', -1, 64)
+}
+
+// quote returns a string literal from which the exact same string can be parsed.
+func quote(s string) string {
+	if strconv.CanBackquote(s) {
+		return "`" + s + "`"
+	}
+	return strconv.Quote(s)
+}
-- 
2.43.0


From 23577ecd56063e3d6de09144b507b5b69e7a01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 05/23] fix: keep the operand order of a comparison when
 simplifying a leaf

---
 relapse/intern/pattern.go  | 2 +-
 relapse/interp/simplify.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/intern/pattern.go b/relapse/intern/pattern.go
index ab91728..bc9abba 100644
--- a/relapse/intern/pattern.go
+++ b/relapse/intern/pattern.go
@@ -68,7 +68,7 @@ func newASTPattern(p *Pattern) (*ast.Pattern, error) {
 		return ast.NewEmpty(), nil
 	case Node:
 		if isEmpty(p.Patterns[0]) {
-			exprStr := funcs.Sprint(p.Func)
+			exprStr := "->" + p.Func.String()
 			expr, err := parser.NewParser().ParseExpr(exprStr)
 			if err != nil {
 				return nil, err
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index 1fe0bf4..4503af3 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -127,7 +127,7 @@ func (this *simplifier) simplify(p *ast.Pattern, top bool) *ast.Pattern {
 		if funcs.IsFalse(b) {
 			return emptyset
 		}
-		e, err := parser.ParseExpr(funcs.Sprint(b))
+		e, err := parser.ParseExpr("->" + b.String())
 		if err != nil {
 			//Don't simplify if there is an error to keep this function signature simple.
 			return p
-- 
2.43.0


From 56249006a19056663c8cc8459561a87927828c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 06/23] fix: only report recursion when a pattern is reached
 from itself

---
 relapse/interp/recursion.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/relapse/interp/recursion.go b/relapse/interp/recursion.go
index ea1672d..3ebc0e4 100644
--- a/relapse/interp/recursion.go
+++ b/relapse/interp/recursion.go
@@ -40,10 +40,18 @@ func HasRecursion(g *ast.Grammar) bool {
 }
 
 func hasRecursion(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Pattern) bool {
-	if _, ok := visited[p]; ok {
-		return true
+	// visited is true for a pattern that is busy being visited, which means that we have found a cycle,
+	// and false for a pattern that has already been found to have no recursion.
+	if busy, ok := visited[p]; ok {
+		return busy
 	}
 	visited[p] = true
+	res := childHasRecursion(visited, refs, p)
+	visited[p] = false
+	return res
+}
+
+func childHasRecursion(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Pattern) bool {
 	typ := p.GetValue()
 	switch v := typ.(type) {
 	case *ast.Empty:
-- 
2.43.0


From 07e43e5a15f790241a6cb39fcbc5c1aca20a71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 07/23] fix: accept unicode escapes in JSON strings

---
 parser/json/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/json/json.go b/parser/json/json.go
index d4eb643..db76537 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -48,6 +48,7 @@ func scanString(buf []byte) (int, error) {
 				escaped = false
 				continue
 			case 'u':
+				escaped = false
 				udigits = 0
 				continue
 			}
-- 
2.43.0


From 8ccc2e724519738c7955c4ba5d2dc7c103592441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 08/23] fix: ignore brackets inside JSON strings when scanning
 an array or object

---
 parser/json/json.go | 58 ++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index db76537..e50fce0 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -197,52 +197,50 @@ func (s *jsonParser) scanNull() error {
 	return s.skipSpace()
 }
 
-func (s *jsonParser) scanArray() error {
+// scanBrackets returns the length of the array or object at the start of the buffer.
+// Brackets inside strings are skipped.
+func scanBrackets(buf []byte, open, close byte) (int, error) {
 	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '[' {
+	for i := 0; i < len(buf); i++ {
+		switch buf[i] {
+		case '"':
+			n, err := scanString(buf[i:])
+			if err != nil {
+				return 0, err
+			}
+			i += n - 1
+		case open:
 			count++
-		}
-		if c == ']' {
+		case close:
 			count--
 		}
 		if count == 0 {
-			index = i
-			break
+			return i + 1, nil
 		}
 	}
-	if count != 0 {
-		return s.expected("]")
+	return 0, io.ErrShortBuffer
+}
+
+func (s *jsonParser) scanArray() error {
+	n, err := scanBrackets(s.buf[s.offset:], '[', ']')
+	if err != nil {
+		return err
 	}
 	s.startValueOffset = s.offset
-	s.endValueOffset = s.offset + index + 1
-	s.offset += index + 1
+	s.endValueOffset = s.offset + n
+	s.offset += n
 	s.isValueArray = true
 	return s.skipSpace()
 }
 
 func (s *jsonParser) scanObject() error {
-	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '{' {
-			count++
-		}
-		if c == '}' {
-			count--
-		}
-		if count == 0 {
-			index = i
-			break
-		}
-	}
-	if count != 0 {
-		return s.expected("}")
+	n, err := scanBrackets(s.buf[s.offset:], '{', '}')
+	if err != nil {
+		return err
 	}
 	s.startValueOffset = s.offset
-	s.endValueOffset = s.offset + index + 1
-	s.offset += index + 1
+	s.endValueOffset = s.offset + n
+	s.offset += n
 	s.isValueObject = true
 	return s.skipSpace()
 }
-- 
2.43.0


From fbbb8228f9936e48c6f3dd76cd83d4e25cfb883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 09/23] fix: return an error for truncated JSON instead of
 reading past the buffer

---
 parser/json/json.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index e50fce0..8063f24 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -32,13 +32,13 @@ func errInString(buf []byte) error {
 }
 
 func isString(buf []byte) bool {
-	return buf[0] == '"'
+	return len(buf) > 0 && buf[0] == '"'
 }
 
 func scanString(buf []byte) (int, error) {
 	escaped := false
 	udigits := -1
-	if buf[0] != '"' {
+	if !isString(buf) {
 		return 0, errInString(buf)
 	}
 	for i, c := range buf[1:] {
@@ -76,7 +76,7 @@ func scanString(buf []byte) (int, error) {
 			return 0, errInString(buf)
 		}
 	}
-	panic("unreachable")
+	return 0, io.ErrShortBuffer
 }
 
 func isNumber(c byte) bool {
@@ -96,12 +96,20 @@ func skipSpace(buf []byte) int {
 	return len(buf)
 }
 
+// isNext returns whether the next byte in the buffer is c.
+func (s *jsonParser) isNext(c byte) bool {
+	return s.offset < len(s.buf) && s.buf[s.offset] == c
+}
+
 func (s *jsonParser) expected(expected string) error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	return fmt.Errorf("katydid/json/parser: expected '%s' at offset %d, but got '%c'", expected, s.offset, s.buf[s.offset])
 }
 
 func (s *jsonParser) scanOpenObject() error {
-	if s.buf[s.offset] == '{' {
+	if s.isNext('{') {
 		s.offset++
 	} else {
 		return s.expected("{")
@@ -110,7 +118,7 @@ func (s *jsonParser) scanOpenObject() error {
 }
 
 func (s *jsonParser) scanOpenArray() error {
-	if s.buf[s.offset] == '[' {
+	if s.isNext('[') {
 		s.offset++
 	} else {
 		return s.expected("[")
@@ -316,6 +324,9 @@ func (s *jsonParser) scanNumber() error {
 }
 
 func (s *jsonParser) scanValue() error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	c := s.buf[s.offset]
 	if isNumber(c) {
 		return s.scanNumber()
@@ -338,7 +349,7 @@ func (s *jsonParser) scanValue() error {
 }
 
 func (s *jsonParser) scanColon() error {
-	if s.buf[s.offset] != ':' {
+	if !s.isNext(':') {
 		return s.expected(":")
 	}
 	s.offset++
@@ -346,21 +357,21 @@ func (s *jsonParser) scanColon() error {
 }
 
 func (s *jsonParser) scanCloseObject() error {
-	if s.buf[s.offset] == '}' {
+	if s.isNext('}') {
 		return io.EOF
 	}
 	return s.expected("}")
 }
 
 func (s *jsonParser) scanCloseArray() error {
-	if s.buf[s.offset] == ']' {
+	if s.isNext(']') {
 		return io.EOF
 	}
 	return s.expected("]")
 }
 
 func (s *jsonParser) scanComma() error {
-	if s.buf[s.offset] != ',' {
+	if !s.isNext(',') {
 		return s.expected(",")
 	}
 	s.offset++
@@ -374,7 +385,7 @@ func (s *jsonParser) nextValueInArray() error {
 		}
 		s.firstArrayValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.isNext(',') {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -382,7 +393,7 @@ func (s *jsonParser) nextValueInArray() error {
 			return s.scanCloseArray()
 		}
 	}
-	if s.buf[s.offset] == ']' {
+	if s.isNext(']') {
 		return s.scanCloseArray()
 	}
 	return s.scanValue()
@@ -395,7 +406,7 @@ func (s *jsonParser) nextValueInObject() error {
 		}
 		s.firstObjectValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.isNext(',') {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -505,7 +516,7 @@ func (s *jsonParser) Bool() (bool, error) {
 func (s *jsonParser) String() (string, error) {
 	if s.isLeaf {
 		v := s.Value()
-		if v[0] != '"' {
+		if !isString(v) {
 			return "", parser.ErrNotString
 		}
 		res, ok := unquote(v)
@@ -551,9 +562,9 @@ func (s *jsonParser) Init(buf []byte) error {
 	if err := s.skipSpace(); err != nil {
 		return err
 	}
-	if s.buf[s.offset] == '{' {
+	if s.isNext('{') {
 		//do nothing
-	} else if s.buf[s.offset] == '[' {
+	} else if s.isNext('[') {
 		if err := s.scanValue(); err != nil {
 			return err
 		}
-- 
2.43.0


From 8bb379704a542579fd0ce647b372999b8b71906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 10/23] fix: decode negative sint32 values

---
 parser/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 8866993..6f54fe2 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -465,7 +465,7 @@ func (s *protoParser) decodeSint32() (int32, error) {
 	if n <= 0 {
 		return 0, fmt.Errorf("decodeVarint n = %d", n)
 	}
-	return int32((uint32(v) >> 1) ^ uint32(((v&1)<<31)>>31)), nil
+	return int32((uint32(v) >> 1) ^ uint32((int32(v&1)<<31)>>31)), nil
 }
 
 func (s *protoParser) decodeSint64() (int64, error) {
-- 
2.43.0


From 855af39acbbeb88ec76c204cf2650e2df8df4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 11/23] fix: return an error for a protobuf field that is
 longer than its buffer

---
 parser/proto/proto.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 6f54fe2..151c82d 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -71,11 +71,23 @@ func length(wireType int, buf []byte) (prefix int, l int, err error) {
 		_, n2, err := uvarint(buf)
 		return 0, n2, err
 	case 1:
+		if len(buf) < 8 {
+			return 0, 0, io.ErrShortBuffer
+		}
 		return 0, 8, nil
 	case 2:
 		l, n2, err := uvarint(buf)
-		return n2, int(l), err
+		if err != nil {
+			return 0, 0, err
+		}
+		if l > uint64(len(buf)-n2) {
+			return 0, 0, io.ErrShortBuffer
+		}
+		return n2, int(l), nil
 	case 5:
+		if len(buf) < 4 {
+			return 0, 0, io.ErrShortBuffer
+		}
 		return 0, 4, nil
 	}
 	return 0, 0, errUnknownWireType
@@ -186,12 +198,9 @@ func (s *protoParser) Next() error {
 	}
 
 	s.offset += s.length
+	s.length = 0
 	if s.offset >= len(s.buf) {
-		if s.offset == len(s.buf) {
-			s.length = 0
-			return io.EOF
-		}
-		return io.ErrShortBuffer
+		return io.EOF
 	}
 
 	if s.inRepeated {
@@ -201,7 +210,6 @@ func (s *protoParser) Next() error {
 		}
 		fieldNumber := int32(v >> 3)
 		if fieldNumber != s.field.GetNumber() {
-			s.length = 0
 			s.isRepeated = false
 			return io.EOF
 		}
-- 
2.43.0


From e1860ad124990869c5fa24c7a4fde177c0e7ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 12/23] fix: do not read a packed part of a repeated protobuf
 field as a single element

---
 parser/proto/desc.go  | 11 ++++++-----
 parser/proto/proto.go |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/parser/proto/desc.go b/parser/proto/desc.go
index ff9a3b8..f37b3ea 100644
--- a/parser/proto/desc.go
+++ b/parser/proto/desc.go
@@ -91,15 +91,16 @@ func couldBePacked(field *descriptor.FieldDescriptorProto) bool {
 	return field.IsRepeated() && field.IsScalar()
 }
 
+func unpackedKey(field *descriptor.FieldDescriptorProto) uint64 {
+	return uint64(uint32(field.GetNumber())<<3 | uint32(field.WireType()))
+}
+
 func keysOf(field *descriptor.FieldDescriptorProto) []uint64 {
-	wireType := field.WireType()
-	fieldNumber := field.GetNumber()
-	normalKey := uint64(uint32(fieldNumber)<<3 | uint32(wireType))
+	normalKey := unpackedKey(field)
 	keys := []uint64{normalKey}
 
 	if couldBePacked(field) {
-		wireType = 2
-		packedKey := uint64(uint32(fieldNumber)<<3 | uint32(wireType))
+		packedKey := uint64(uint32(field.GetNumber())<<3 | uint32(2))
 		keys = append(keys, packedKey)
 	}
 	return keys
diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 151c82d..02c60ae 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -208,8 +208,8 @@ func (s *protoParser) Next() error {
 		if err != nil {
 			return err
 		}
-		fieldNumber := int32(v >> 3)
-		if fieldNumber != s.field.GetNumber() {
+		// A different key means a different field or a packed part of this field, which is not another element.
+		if v != unpackedKey(s.field) {
 			s.isRepeated = false
 			return io.EOF
 		}
-- 
2.43.0


From 9f4cc32f53bb32d1b6b1117398c2862aef0b108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:34 +0000
Subject: [PATCH 13/23] fix: skip unknown protobuf fields without recursion

---
 parser/proto/proto.go | 52 ++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 02c60ae..f5e797d 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -235,34 +235,40 @@ func (s *protoParser) Next() error {
 		return nil
 	}
 
-	v, n, err := uvarint(s.buf[s.offset:])
-	if err != nil {
-		return err
-	}
-	field, ok := s.fieldsMap[v]
-	if ok {
-		wireType := int(v & 0x7)
-		s.isPacked = field.IsRepeated() && field.IsScalar() && wireType == 2
-	}
-	if !ok || !field.IsRepeated() || s.isPacked {
-		s.offset += n
-		wireType := int(v & 0x7)
-		n, l, err := length(wireType, s.buf[s.offset:])
+	for {
+		v, n, err := uvarint(s.buf[s.offset:])
 		if err != nil {
 			return err
 		}
-		s.offset += n
-		s.length = l
-	}
-	if ok {
-		if field.IsRepeated() && !s.isPacked {
-			s.isRepeated = true
-			s.length = 0
+		field, ok := s.fieldsMap[v]
+		wireType := int(v & 0x7)
+		if ok {
+			s.isPacked = field.IsRepeated() && field.IsScalar() && wireType == 2
+		}
+		if !ok || !field.IsRepeated() || s.isPacked {
+			s.offset += n
+			n, l, err := length(wireType, s.buf[s.offset:])
+			if err != nil {
+				return err
+			}
+			s.offset += n
+			s.length = l
+		}
+		if ok {
+			if field.IsRepeated() && !s.isPacked {
+				s.isRepeated = true
+				s.length = 0
+			}
+			s.field = field
+			return nil
+		}
+		// Skip over the unknown field.
+		s.offset += s.length
+		s.length = 0
+		if s.offset >= len(s.buf) {
+			return io.EOF
 		}
-		s.field = field
-		return nil
 	}
-	return s.Next()
 }
 
 func (s *protoParser) skipRepeated() error {
-- 
2.43.0


From bffcbe4cb4a0d8fc14047332b9f454cbcce38c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 14/23] fix: reserve space for the header of an embedded
 message before encoding it

---
 encode/proto/proto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 18f293d..b7cf910 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -196,6 +196,8 @@ type msgField struct {
 }
 
 func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
+	// Reserve enough space for the key and the length of the message.
+	buf = checkSize(buf, offset, 20)
 	msginitoff := offset + 20
 	msgbuf, msgfinaloff, err := this.msg.encode(buf, msginitoff, p)
 	if err != nil {
-- 
2.43.0


From c18397dc680d5355c11fba2926bec2e4c88860c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 15/23] fix: encode the elements of a packed field with the key
 of a single element

---
 encode/proto/proto.go | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index b7cf910..7d97a88 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -83,6 +83,13 @@ func newFieldEncoder(desc protoparser.DescMap, f *descriptor.FieldDescriptorProt
 	return newSingleField(desc, f)
 }
 
+// keyOf returns the marshaled key of a single value.
+// Elements of packed fields are also encoded one by one, which decoders are required to accept.
+func keyOf(f *descriptor.FieldDescriptorProto) []byte {
+	key, n := safeVarint(nil, 0, uint64(uint32(f.GetNumber())<<3|uint32(f.WireType())))
+	return key[:n]
+}
+
 func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
 	switch f.GetType() {
 	case descriptor.FieldDescriptorProto_TYPE_DOUBLE:
@@ -156,7 +163,7 @@ type repeatedField struct {
 
 func newRepeatedField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) *repeatedField {
 	return &repeatedField{
-		key:      f.GetKey(),
+		key:      keyOf(f),
 		fieldEnc: newSingleField(desc, f),
 	}
 }
@@ -185,7 +192,7 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 
 func newMsgField(desc protoparser.DescMap, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
 	return &msgField{
-		key: field.GetKey(),
+		key: keyOf(field),
 		msg: newMsg(desc, msg),
 	}
 }
@@ -259,7 +266,7 @@ func safeCopy(dst []byte, offset int, src []byte) ([]byte, int) {
 }
 
 func newDoubleField(f *descriptor.FieldDescriptorProto) *doubleField {
-	return &doubleField{f.GetKey()}
+	return &doubleField{keyOf(f)}
 }
 
 type doubleField struct {
@@ -283,7 +290,7 @@ func (this *doubleField) encode(buf []byte, offset int, p parser.Interface) ([]b
 }
 
 func newFloatField(f *descriptor.FieldDescriptorProto) *floatField {
-	return &floatField{f.GetKey()}
+	return &floatField{keyOf(f)}
 }
 
 type floatField struct {
@@ -307,7 +314,7 @@ func (this *floatField) encode(buf []byte, offset int, p parser.Interface) ([]by
 }
 
 func newIntField(f *descriptor.FieldDescriptorProto) *intField {
-	return &intField{f.GetKey()}
+	return &intField{keyOf(f)}
 }
 
 type intField struct {
@@ -331,7 +338,7 @@ func (this *intField) encode(buf []byte, offset int, p parser.Interface) ([]byte
 }
 
 func newUintField(f *descriptor.FieldDescriptorProto) *uintField {
-	return &uintField{f.GetKey()}
+	return &uintField{keyOf(f)}
 }
 
 type uintField struct {
@@ -355,7 +362,7 @@ func (this *uintField) encode(buf []byte, offset int, p parser.Interface) ([]byt
 }
 
 func newFixed64UintField(f *descriptor.FieldDescriptorProto) *fixed64UintField {
-	return &fixed64UintField{f.GetKey()}
+	return &fixed64UintField{keyOf(f)}
 }
 
 type fixed64UintField struct {
@@ -379,7 +386,7 @@ func (this *fixed64UintField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newFixed32UintField(f *descriptor.FieldDescriptorProto) *fixed32UintField {
-	return &fixed32UintField{f.GetKey()}
+	return &fixed32UintField{keyOf(f)}
 }
 
 type fixed32UintField struct {
@@ -403,7 +410,7 @@ func (this *fixed32UintField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newBoolField(f *descriptor.FieldDescriptorProto) *boolField {
-	return &boolField{f.GetKey()}
+	return &boolField{keyOf(f)}
 }
 
 type boolField struct {
@@ -431,7 +438,7 @@ func (this *boolField) encode(buf []byte, offset int, p parser.Interface) ([]byt
 }
 
 func newStringField(f *descriptor.FieldDescriptorProto) *stringField {
-	return &stringField{f.GetKey()}
+	return &stringField{keyOf(f)}
 }
 
 type stringField struct {
@@ -457,7 +464,7 @@ func (this *stringField) encode(buf []byte, offset int, p parser.Interface) ([]b
 }
 
 func newBytesField(f *descriptor.FieldDescriptorProto) *bytesField {
-	return &bytesField{f.GetKey()}
+	return &bytesField{keyOf(f)}
 }
 
 type bytesField struct {
@@ -482,7 +489,7 @@ func (this *bytesField) encode(buf []byte, offset int, p parser.Interface) ([]by
 }
 
 func newFixed64IntField(f *descriptor.FieldDescriptorProto) *fixed64IntField {
-	return &fixed64IntField{f.GetKey()}
+	return &fixed64IntField{keyOf(f)}
 }
 
 type fixed64IntField struct {
@@ -506,7 +513,7 @@ func (this *fixed64IntField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newFixed32IntField(f *descriptor.FieldDescriptorProto) *fixed32IntField {
-	return &fixed32IntField{f.GetKey()}
+	return &fixed32IntField{keyOf(f)}
 }
 
 type fixed32IntField struct {
@@ -530,7 +537,7 @@ func (this *fixed32IntField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newSint32Field(f *descriptor.FieldDescriptorProto) *sint32Field {
-	return &sint32Field{f.GetKey()}
+	return &sint32Field{keyOf(f)}
 }
 
 type sint32Field struct {
@@ -554,7 +561,7 @@ func (this *sint32Field) encode(buf []byte, offset int, p parser.Interface) ([]b
 }
 
 func newSint64Field(f *descriptor.FieldDescriptorProto) *sint64Field {
-	return &sint64Field{f.GetKey()}
+	return &sint64Field{keyOf(f)}
 }
 
 type sint64Field struct {
-- 
2.43.0


From be82442efda1ade8552656b5d98f4a9869c383a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 16/23] fix: create an encoder for a protobuf message that
 contains itself

---
 encode/proto/proto.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 7d97a88..1e82bb3 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -42,7 +42,7 @@ func NewEncoder(desc *descriptor.FileDescriptorSet, pkgName, msgName string) (En
 	if err != nil {
 		return nil, err
 	}
-	return &encoder{msg: newMsg(descMap, descMap.GetRoot())}, nil
+	return &encoder{msg: newMsg(newDescMap(descMap), descMap.GetRoot())}, nil
 }
 
 type encoder struct {
@@ -67,8 +67,22 @@ type fieldEncoder interface {
 	encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error)
 }
 
-func newMsg(desc protoparser.DescMap, protomsg *descriptor.DescriptorProto) *msg {
+// descMap also remembers the message encoders that have already been created, since a message can contain itself.
+type descMap struct {
+	protoparser.DescMap
+	msgs map[*descriptor.DescriptorProto]*msg
+}
+
+func newDescMap(desc protoparser.DescMap) *descMap {
+	return &descMap{desc, make(map[*descriptor.DescriptorProto]*msg)}
+}
+
+func newMsg(desc *descMap, protomsg *descriptor.DescriptorProto) *msg {
+	if m, ok := desc.msgs[protomsg]; ok {
+		return m
+	}
 	msg := &msg{make(map[string]fieldEncoder)}
+	desc.msgs[protomsg] = msg
 	for _, f := range protomsg.GetField() {
 		fieldEnc := newFieldEncoder(desc, f)
 		msg.fieldEncoders[f.GetName()] = fieldEnc
@@ -76,7 +90,7 @@ func newMsg(desc protoparser.DescMap, protomsg *descriptor.DescriptorProto) *msg
 	return msg
 }
 
-func newFieldEncoder(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func newFieldEncoder(desc *descMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
 	if f.IsRepeated() {
 		return newRepeatedField(desc, f)
 	}
@@ -90,7 +104,7 @@ func keyOf(f *descriptor.FieldDescriptorProto) []byte {
 	return key[:n]
 }
 
-func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func newSingleField(desc *descMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
 	switch f.GetType() {
 	case descriptor.FieldDescriptorProto_TYPE_DOUBLE:
 		return newDoubleField(f)
@@ -161,7 +175,7 @@ type repeatedField struct {
 	fieldEnc fieldEncoder
 }
 
-func newRepeatedField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) *repeatedField {
+func newRepeatedField(desc *descMap, f *descriptor.FieldDescriptorProto) *repeatedField {
 	return &repeatedField{
 		key:      keyOf(f),
 		fieldEnc: newSingleField(desc, f),
@@ -190,7 +204,7 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 	}
 }
 
-func newMsgField(desc protoparser.DescMap, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
+func newMsgField(desc *descMap, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
 	return &msgField{
 		key: keyOf(field),
 		msg: newMsg(desc, msg),
-- 
2.43.0


From 5eaae43edeb7850c10f61b3a28497ffe764676e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 17/23] fix: do not change the operands of a pattern when
 merging it

---
 relapse/intern/construct.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index ce7f68e..604d498 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -359,7 +359,12 @@ func (c *construct) MergeOr(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewOr(append(left, right...))
+	// copy the operands, since NewOr reorders its input
+	// and the operands of l should not change.
+	ps := make([]*Pattern, 0, len(left)+len(right))
+	ps = append(ps, left...)
+	ps = append(ps, right...)
+	return c.NewOr(ps)
 }
 
 func (c *construct) NewOr(ps []*Pattern) (*Pattern, error) {
@@ -500,7 +505,12 @@ func (c *construct) MergeAnd(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewAnd(append(left, right...))
+	// copy the operands, since NewAnd reorders its input
+	// and the operands of l should not change.
+	ps := make([]*Pattern, 0, len(left)+len(right))
+	ps = append(ps, left...)
+	ps = append(ps, right...)
+	return c.NewAnd(ps)
 }
 
 func (c *construct) NewAnd(ps []*Pattern) (*Pattern, error) {
-- 
2.43.0


From ea068d83b85ea4b36eff97469cb007ac5cb1dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 18/23] fix: set the context of functions inside a zero or more
 pattern

---
 relapse/intern/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/intern/context.go b/relapse/intern/context.go
index 7238cec..83c2451 100644
--- a/relapse/intern/context.go
+++ b/relapse/intern/context.go
@@ -46,7 +46,7 @@ func (c *construct) setContext(p *Pattern) {
 			c.setContext(pp)
 		}
 	case ZeroOrMore:
-		return
+		c.setContext(p.Patterns[0])
 	case Reference:
 		return
 	case Not:
-- 
2.43.0


From 6bd7eb21a0a29c4d895176e7ef6fdb24fa33dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 19/23] fix: compare constants with other functions the same
 way in both directions

---
 relapse/funcs/const.go | 71 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 12 deletions(-)

diff --git a/relapse/funcs/const.go b/relapse/funcs/const.go
index e0c73ff..f1ffca4 100644
--- a/relapse/funcs/const.go
+++ b/relapse/funcs/const.go
@@ -38,20 +38,46 @@ func (this *constInt) aConst()    {}
 func (this *constString) aConst() {}
 func (this *constUint) aConst()   {}
 
+// compareDouble orders doubles, where NaN is equal to itself and less than any other double.
+func compareDouble(a, b float64) int {
+	if a < b {
+		return -1
+	}
+	if a > b {
+		return 1
+	}
+	if a == b {
+		return 0
+	}
+	if a == a {
+		return 1
+	}
+	if b == b {
+		return -1
+	}
+	return 0
+}
+
 func (this *constDouble) Compare(that Comparable) int {
-	if other, ok := that.(*constDouble); ok {
-		if this.v != other.v {
-			if this.v < other.v {
-				return -1
-			}
-			return 1
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
 		}
-		return 0
+		return 1
+	}
+	if other, ok := that.(*constDouble); ok {
+		return compareDouble(this.v, other.v)
 	}
 	return strings.Compare(this.String(), that.String())
 }
 
 func (this *constInt) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constInt); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -65,6 +91,12 @@ func (this *constInt) Compare(that Comparable) int {
 }
 
 func (this *constUint) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constUint); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -78,6 +110,12 @@ func (this *constUint) Compare(that Comparable) int {
 }
 
 func (this *constBool) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constBool); ok {
 		if this.v != other.v {
 			if !this.v {
@@ -91,6 +129,12 @@ func (this *constBool) Compare(that Comparable) int {
 }
 
 func (this *constString) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constString); ok {
 		return strings.Compare(this.v, other.v)
 	}
@@ -98,6 +142,12 @@ func (this *constString) Compare(that Comparable) int {
 }
 
 func (this *constBytes) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constBytes); ok {
 		return bytes.Compare(this.v, other.v)
 	}
@@ -119,11 +169,8 @@ func (this *constDoubles) Compare(that Comparable) int {
 			return 1
 		}
 		for i := range this.v {
-			if this.v[i] != other.v[i] {
-				if this.v[i] < other.v[i] {
-					return -1
-				}
-				return 1
+			if c := compareDouble(this.v[i], other.v[i]); c != 0 {
+				return c
 			}
 		}
 		return 0
-- 
2.43.0


From de3f082494b76b347d6f2351325e9dd0c9115e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 20/23] fix: remove duplicate patterns that are not next to
 each other when zipping

---
 relapse/sets/zip.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/relapse/sets/zip.go b/relapse/sets/zip.go
index 3a2b649..5ad7f58 100644
--- a/relapse/sets/zip.go
+++ b/relapse/sets/zip.go
@@ -63,12 +63,15 @@ func Zip(patterns []*ast.Pattern) ([]*ast.Pattern, []int) {
 	ps = ps[:u]
 	hashes = hashes[:u]
 
-	// remove duplicates
+	// remove duplicates, where different patterns can have the same hash and equal patterns need not be next to each other.
 	if len(ps) > 0 {
 		u = 0
 		for i := 1; i < len(ps); i++ {
-			if hashes[i] == hashes[u] &&
-				ps[i].Equal(ps[u]) {
+			dup := false
+			for j := 0; j <= u && !dup; j++ {
+				dup = hashes[i] == hashes[j] && ps[i].Equal(ps[j])
+			}
+			if dup {
 				continue
 			}
 			u++
-- 
2.43.0


From e0273a41c57a78e4e0e40ad2f94b16ad5c7823a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 21/23] fix: remove duplicate interned patterns that are not
 next to each other

---
 relapse/intern/order.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relapse/intern/order.go b/relapse/intern/order.go
index b572d30..ef581f8 100644
--- a/relapse/intern/order.go
+++ b/relapse/intern/order.go
@@ -57,7 +57,12 @@ func orderedSet(ps []*Pattern) []*Pattern {
 	// remove duplicates from a sorted list
 	u := 0
 	for i := 1; i < len(ps); i++ {
-		if ps[i].Equal(ps[u]) {
+		// different patterns can have the same hash and equal patterns need not be next to each other.
+		dup := false
+		for j := 0; j <= u && !dup; j++ {
+			dup = ps[i].Equal(ps[j])
+		}
+		if dup {
 			continue
 		}
 		u++
-- 
2.43.0


From 0e99f53672e196d00d06c2cc1aba7ffdfaeb6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 22/23] fix: evaluate an if expression when compiling unless
 the previous condition implies it

---
 relapse/auto/ifs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/auto/ifs.go b/relapse/auto/ifs.go
index 66225e1..bc3c854 100644
--- a/relapse/auto/ifs.go
+++ b/relapse/auto/ifs.go
@@ -113,8 +113,8 @@ func (this *ifExprs) addIfExpr(cond funcs.Bool, then, els *ast.Pattern) {
 	}
 	// remove impossible (always false) else condition
 	if funcs.IsFalse(funcs.And(this.cond, funcs.Not(cond))) {
-		this.then.addIfExpr(cond, then, els)
-		this.els.addReturn(then)
+		this.then.addReturn(then)
+		this.els.addIfExpr(cond, then, els)
 		return
 	}
 	this.then.addIfExpr(cond, then, els)
-- 
2.43.0


From a705decb0b4b11554f3a8739058705cf6e26ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 23/23] fix: equal patterns have equal hashes for zeros and
 empty bytes

Equal says that zero equals negative zero and, using bytes.Equal,
that nil equals empty, but deriveHash told them apart.
---
 relapse/ast/derived.gen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relapse/ast/derived.gen.go b/relapse/ast/derived.gen.go
index 51b6c94..6a27790 100644
--- a/relapse/ast/derived.gen.go
+++ b/relapse/ast/derived.gen.go
@@ -3335,6 +3335,10 @@ func deriveHash_26(object *float64) uint64 {
 	if object == nil {
 		return 0
 	}
+	if *object == 0 {
+		// zero is equal to negative zero.
+		return 31 * 17
+	}
 	return (31 * 17) + math.Float64bits(*object)
 }
 
@@ -3372,7 +3376,8 @@ func deriveHash_30(object *string) uint64 {
 
 // deriveHash_31 returns the hash of the object.
 func deriveHash_31(object []byte) uint64 {
-	if object == nil {
+	// bytes.Equal does not tell nil from empty.
+	if len(object) == 0 {
 		return 0
 	}
 	h := uint64(17)
-- 
2.43.0

