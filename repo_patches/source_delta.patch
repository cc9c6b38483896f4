From 981a147ad13367f29e996726c386e349f7b2cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:16 +0000
Subject: [PATCH 01/60] fix: recognise the >= operator

The comparison builder looked for "=>", so a >= b evaluated to a.
---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 0da0b8a..5b8ba85 100644
--- a/ast.go
+++ b/ast.go
@@ -838,7 +838,7 @@ func oC_PartialComparisonExpression(ctx *parser.OC_PartialComparisonExpressionCo
 	for i := 0; i < ctx.GetChildCount(); i++ {
 		if tok, ok := ctx.GetChild(i).(antlr.TerminalNode); ok {
 			t := tok.GetText()
-			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == "=>" {
+			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == ">=" {
 				ret.op = t
 			}
 		}
-- 
2.43.0


From 63058fc725b6c4c2ca6d201bc6435a8cbadef22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:19 +0000
Subject: [PATCH 02/60] fix: stop the ^ operator from running past its operands

The loop condition compared the constant 1, so every use of ^ panicked.
---
 arithmeticeval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 80c3059..b2293b6 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -53,7 +53,7 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		Value: val.Get(),
 		Const: val.IsConst(),
 	}
-	for i := 1; 1 < len(expr.parts); i++ {
+	for i := 1; i < len(expr.parts); i++ {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 512228cc5e62f78107588a9b68a6794b6986bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:22 +0000
Subject: [PATCH 03/60] fix: return the concatenated list from list + list

The result was dropped, and the sum of two empty non-constant lists was
marked constant and cached.
---
 arithmeticeval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index b2293b6..2afadd3 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -374,6 +374,7 @@ func addlistlist(a, b []Value) RValue {
 		}
 		arr = append(arr, x)
 	}
+	ret.Value = arr
 	return ret
 }
 
@@ -475,7 +476,9 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			}
 			switch operandValue := operand.Get().(type) {
 			case []Value:
+				constant := ret.Const
 				ret = addlistlist(retValue, operandValue)
+				ret.Const = ret.Const && constant
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
-- 
2.43.0


From 3d350edce9fa9cc6d8cc9baa49da45620c39b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:59 +0000
Subject: [PATCH 04/60] fix: compare values correctly in IsValueSame

Equal primitives were reported different because the error test was
inverted, null never equalled null, and a path was never equal to
another path.
---
 value.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/value.go b/value.go
index bbafe07..02fea3b 100644
--- a/value.go
+++ b/value.go
@@ -148,10 +148,13 @@ func ValueOf(in interface{}) Value {
 
 // IsValueSame compares two values and decides if the two are the same
 func IsValueSame(v, v2 Value) bool {
+	if v.Get() == nil || v2.Get() == nil {
+		return v.Get() == nil && v2.Get() == nil
+	}
 	if IsValuePrimitive(v) {
 		if IsValuePrimitive(v2) {
 			eq, err := comparePrimitiveValues(v.Get(), v2.Get())
-			return err != nil && eq == 0
+			return err == nil && eq == 0
 		}
 		return false
 	}
@@ -214,15 +217,18 @@ func IsValueSame(v, v2 Value) bool {
 		return val1 == val2
 
 	case *lpg.Path:
-		val2, ok := v2.Get().([]*lpg.Path)
+		val2, ok := v2.Get().(*lpg.Path)
 		if !ok {
 			return false
 		}
-		if val1.NumEdges() != val1.NumEdges() {
+		if val1.NumEdges() != val2.NumEdges() {
 			return false
 		}
+		if val1.NumEdges() == 0 {
+			return val1.First() == val2.First()
+		}
 		for i := 0; i < val1.NumEdges(); i++ {
-			if val1.Slice(i, -1) != val2[i] {
+			if val1.GetEdge(i) != val2.GetEdge(i) {
 				return false
 			}
 		}
-- 
2.43.0


From c29187286de6a1ecd4b93350845c091637ce1b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:01 +0000
Subject: [PATCH 05/60] fix: remove duplicate rows on both sides of UNION

Duplicates within the left query were kept, the search for a duplicate
stopped at the first row of a different size, and rows with different
columns caused a nil dereference.
---
 resultset.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/resultset.go b/resultset.go
index caebf61..f4756eb 100644
--- a/resultset.go
+++ b/resultset.go
@@ -59,11 +59,12 @@ func isCompatibleRow(row1, row2 map[string]Value) error {
 func (r *ResultSet) find(row map[string]Value) int {
 	for index, r := range r.Rows {
 		if len(r) != len(row) {
-			break
+			continue
 		}
 		found := true
 		for i := range r {
-			if !IsValueSame(r[i], row[i]) {
+			val, ok := row[i]
+			if !ok || !IsValueSame(r[i], val) {
 				found = false
 				break
 			}
@@ -127,12 +128,18 @@ func (r *ResultSet) Add(rs ResultSet) {
 
 // Union adds the src resultset to this. If all is set, it adds all rows, otherwise, it adds unique rows
 func (r *ResultSet) Union(src ResultSet, all bool) error {
-	for _, sourceRow := range src.Rows {
-		appnd := all
-		if !appnd && r.find(sourceRow) == -1 {
-			appnd = true
+	if !all {
+		// Rows already in the result set must be unique as well
+		rows := r.Rows
+		r.Rows = nil
+		for _, row := range rows {
+			if r.find(row) == -1 {
+				r.Rows = append(r.Rows, row)
+			}
 		}
-		if appnd {
+	}
+	for _, sourceRow := range src.Rows {
+		if all || r.find(sourceRow) == -1 {
 			if err := r.Append(sourceRow); err != nil {
 				return err
 			}
-- 
2.43.0


From df4f12f35b2795eceb770dd9e30268d8ba205c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:04 +0000
Subject: [PATCH 06/60] fix: make the IN operator accept lists

The type check was inverted: IN failed with "Not a list" for every list
and returned false for everything else.
---
 eval.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index b13ff57..bd7ec46 100644
--- a/eval.go
+++ b/eval.go
@@ -123,12 +123,16 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 			return nil, err
 		}
 		list, ok := listValue.Get().([]Value)
-		if ok {
+		if !ok {
 			if listValue.Get() != nil {
 				return nil, ErrNotAList
 			}
+			return RValue{}, nil
 		}
 		if inputValue.Get() == nil {
+			if len(list) == 0 {
+				return RValue{Value: false}, nil
+			}
 			return RValue{}, nil
 		}
 		hasNull := false
-- 
2.43.0


From 7879549332be738a3beddf34e31fec67dfb80a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:58 +0000
Subject: [PATCH 07/60] fix: include the last element in list slices, and allow
 open ranges

A slice end at or past the list length dropped the last element, a slice
of null was an empty list, and a missing bound turned the slice into an
index or a panic.
---
 ast.go  | 26 ++++++++++++++++++-----
 eval.go | 64 +++++++++++++++++++++++++++++++--------------------------
 2 files changed, 56 insertions(+), 34 deletions(-)

diff --git a/ast.go b/ast.go
index 5b8ba85..c2803a2 100644
--- a/ast.go
+++ b/ast.go
@@ -781,16 +781,32 @@ func oC_ListOperatorExpression(ctx *parser.OC_ListOperatorExpressionContext) str
 			listIn: oC_PropertyOrLabelsExpression(x.(*parser.OC_PropertyOrLabelsExpressionContext)),
 		}
 	}
-	expr := ctx.AllOC_Expression()
-	if len(expr) == 1 {
+	// Both bounds of a range are optional
+	isRange := false
+	var first, second Expression
+	for i := 0; i < ctx.GetChildCount(); i++ {
+		switch ch := ctx.GetChild(i).(type) {
+		case antlr.TerminalNode:
+			if ch.GetText() == ".." {
+				isRange = true
+			}
+		case *parser.OC_ExpressionContext:
+			if isRange {
+				second = oC_Expression(ch)
+			} else {
+				first = oC_Expression(ch)
+			}
+		}
+	}
+	if !isRange {
 		return stringListNullOperatorExpressionPart{
-			listIndex: oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
+			listIndex: first,
 		}
 	}
 	return stringListNullOperatorExpressionPart{
 		listRange: &listRangeExpression{
-			first:  oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
-			second: oC_Expression(expr[1].(*parser.OC_ExpressionContext)),
+			first:  first,
+			second: second,
 		}}
 }
 
diff --git a/eval.go b/eval.go
index bd7ec46..a0882fb 100644
--- a/eval.go
+++ b/eval.go
@@ -162,42 +162,48 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 				return nil, ErrNotAList
 			}
 		}
-		from, err := expr.listRange.first.Evaluate(ctx)
-		if err != nil {
-			return nil, err
-		}
-		if from.Get() == nil {
-			return RValue{}, nil
-		}
-		if !from.IsConst() {
-			constant = false
-		}
-		fromi, ok := from.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
+		fromi := 0
+		if expr.listRange.first != nil {
+			from, err := expr.listRange.first.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
+			if from.Get() == nil {
+				return RValue{}, nil
+			}
+			if !from.IsConst() {
+				constant = false
+			}
+			fromi, ok = from.Get().(int)
+			if !ok {
+				return nil, ErrInvalidListIndex
+			}
 		}
-		to, err := expr.listRange.second.Evaluate(ctx)
-		if err != nil {
-			return nil, err
+		toi := len(listValue)
+		if expr.listRange.second != nil {
+			to, err := expr.listRange.second.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
+			if to.Get() == nil {
+				return RValue{}, nil
+			}
+			if !to.IsConst() {
+				constant = false
+			}
+			toi, ok = to.Get().(int)
+			if !ok {
+				return nil, ErrInvalidListIndex
+			}
 		}
-		if to.Get() == nil {
+		if inputValue.Get() == nil {
 			return RValue{}, nil
 		}
-		if !to.IsConst() {
-			constant = false
-		}
-		toi, ok := to.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
-		}
 		if fromi < 0 || toi < 0 {
 			return nil, ErrInvalidListIndex
 		}
-		if fromi >= len(listValue) {
-			fromi = len(listValue) - 1
-		}
-		if toi >= len(listValue) {
-			toi = len(listValue) - 1
+		if toi > len(listValue) {
+			toi = len(listValue)
 		}
 		if fromi > toi {
 			fromi = toi
-- 
2.43.0


From 94cbbaed5f25b12332c4c496e41bd155d5a788a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:01 +0000
Subject: [PATCH 08/60] fix: evaluate AND and OR with null using three-valued
 logic

A null operand made the result null even when another operand decides
it: "false AND null" is false, and "true OR null" is true.
---
 relationaleval.go | 70 ++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 38 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index c3eef27..fd7d414 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -183,34 +183,31 @@ func (expr notExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr andExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	constant := true
+	hasNull := false
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
+		constant = constant && val.IsConst()
 		if val.Get() == nil {
-			return RValue{}, nil
+			hasNull = true
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval && vval
-			if !bval || !vval {
-				break
-			}
+		bval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		// False even if other parts are null
+		if !bval {
+			return RValue{Value: false, Const: constant}, nil
 		}
 	}
-	return ret, nil
+	if hasNull {
+		return RValue{}, nil
+	}
+	return RValue{Value: true, Const: constant}, nil
 }
 
 func (expr xorExpression) Evaluate(ctx *EvalContext) (Value, error) {
@@ -242,32 +239,29 @@ func (expr xorExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr orExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	constant := true
+	hasNull := false
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
+		constant = constant && val.IsConst()
 		if val.Get() == nil {
-			return RValue{}, nil
+			hasNull = true
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval || vval
-			if bval || vval {
-				break
-			}
+		bval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		// True even if other parts are null
+		if bval {
+			return RValue{Value: true, Const: constant}, nil
 		}
 	}
-	return ret, nil
+	if hasNull {
+		return RValue{}, nil
+	}
+	return RValue{Value: false, Const: constant}, nil
 }
-- 
2.43.0


From 914f376ce9ec40f44a421748c28a14b93189d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:04 +0000
Subject: [PATCH 09/60] fix: order later dates and times after earlier ones

Comparing a later date, time, or datetime with an earlier one reported
the two as equal.
---
 relationaleval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index fd7d414..46aa429 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -95,7 +95,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalTime:
 		if date, ok := v2.(LocalTime); ok {
@@ -107,7 +107,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalDateTime:
 		if date, ok := v2.(LocalDateTime); ok {
@@ -119,7 +119,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	}
 	return 0, ErrInvalidComparison
-- 
2.43.0


From f1ea04a1a3158a6a7a838256553a0ddbf1685b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:07 +0000
Subject: [PATCH 10/60] fix: make integer and duration comparison a total order

Integers were compared by subtraction, which overflows, and two durations
could each be less than the other.
---
 relationaleval.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 46aa429..902b267 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -2,6 +2,16 @@ package opencypher
 
 import ()
 
+func compareInt64(v1, v2 int64) int {
+	if v1 < v2 {
+		return -1
+	}
+	if v1 > v2 {
+		return 1
+	}
+	return 0
+}
+
 func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 	if v1 == nil {
 		if v2 == nil {
@@ -27,7 +37,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 	case int:
 		switch value2 := v2.(type) {
 		case int:
-			return value1 - value2, nil
+			return compareInt64(int64(value1), int64(value2)), nil
 		case float64:
 			if float64(value1) == value2 {
 				return 0, nil
@@ -68,22 +78,16 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 		}
 	case Duration:
 		if dur, ok := v2.(Duration); ok {
-			if value1.Days == dur.Days && value1.Months == dur.Months && value1.Seconds == dur.Seconds && value1.Nanos == dur.Nanos {
-				return 0, nil
-			}
-			if value1.Days < dur.Days {
-				return -1, nil
-			}
-			if value1.Months < dur.Months {
-				return -1, nil
+			if result := compareInt64(value1.Months, dur.Months); result != 0 {
+				return result, nil
 			}
-			if value1.Seconds < dur.Seconds {
-				return -1, nil
+			if result := compareInt64(value1.Days, dur.Days); result != 0 {
+				return result, nil
 			}
-			if value1.Nanos < dur.Nanos {
-				return -1, nil
+			if result := compareInt64(value1.Seconds, dur.Seconds); result != 0 {
+				return result, nil
 			}
-			return 1, nil
+			return compareInt64(int64(value1.Nanos), int64(dur.Nanos)), nil
 		}
 	case Date:
 		if date, ok := v2.(Date); ok {
-- 
2.43.0


From 1067c3be05d6f6de0ecdd53a33439b438ab28d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:10 +0000
Subject: [PATCH 11/60] fix: evaluate all parts of a chained comparison

a < b < c compared a with c only; it means a < b AND b < c.
---
 relationaleval.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 902b267..7474c40 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -136,39 +136,47 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return nil, err
 	}
 
-	if val.Get() == nil {
-		return RValue{}, nil
-	}
-	ret := RValue{Value: val.Get(), Const: val.IsConst()}
+	// a < b < c means a < b AND b < c
+	constant := val.IsConst()
+	hasNull := false
 	for i := range expr.second {
-		second, err := expr.second[i].expr.Evaluate(ctx)
+		first := val
+		val, err = expr.second[i].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
-		if second.Get() == nil {
-			return RValue{}, nil
+		constant = constant && val.IsConst()
+		if first.Get() == nil || val.Get() == nil {
+			hasNull = true
+			continue
 		}
-		result, err := comparePrimitiveValues(val.Get(), second.Get())
+		result, err := comparePrimitiveValues(first.Get(), val.Get())
 		if err != nil {
 			return nil, err
 		}
+		holds := false
 		switch expr.second[i].op {
 		case "=":
-			ret.Value = result == 0
+			holds = result == 0
 		case "<>":
-			ret.Value = result != 0
+			holds = result != 0
 		case "<":
-			ret.Value = result < 0
+			holds = result < 0
 		case "<=":
-			ret.Value = result <= 0
+			holds = result <= 0
 		case ">":
-			ret.Value = result > 0
+			holds = result > 0
 		case ">=":
-			ret.Value = result >= 0
+			holds = result >= 0
+		}
+		if !holds {
+			return RValue{Value: false, Const: constant}, nil
 		}
-		ret.Const = ret.Const && second.IsConst()
 	}
-	return ret, nil
+	if hasNull {
+		return RValue{}, nil
+	}
+	return RValue{Value: true, Const: constant}, nil
 }
 
 func (expr notExpression) Evaluate(ctx *EvalContext) (Value, error) {
-- 
2.43.0


From 7491e3b39063b61bd4939b859159ea9146650fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:03 +0000
Subject: [PATCH 12/60] fix: do not order NaN above every other number

NaN > x and NaN >= x were true for every number x.
---
 relationaleval.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 7474c40..90d8c3e 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -1,6 +1,13 @@
 package opencypher
 
-import ()
+import (
+	"math"
+)
+
+func isNaN(v interface{}) bool {
+	f, ok := v.(float64)
+	return ok && math.IsNaN(f)
+}
 
 func compareInt64(v1, v2 int64) int {
 	if v1 < v2 {
@@ -154,20 +161,22 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		if err != nil {
 			return nil, err
 		}
+		// NaN is not equal to, less than, or greater than anything
+		ordered := !isNaN(first.Get()) && !isNaN(val.Get())
 		holds := false
 		switch expr.second[i].op {
 		case "=":
-			holds = result == 0
+			holds = ordered && result == 0
 		case "<>":
-			holds = result != 0
+			holds = !ordered || result != 0
 		case "<":
-			holds = result < 0
+			holds = ordered && result < 0
 		case "<=":
-			holds = result <= 0
+			holds = ordered && result <= 0
 		case ">":
-			holds = result > 0
+			holds = ordered && result > 0
 		case ">=":
-			holds = result >= 0
+			holds = ordered && result >= 0
 		}
 		if !holds {
 			return RValue{Value: false, Const: constant}, nil
-- 
2.43.0


From c5047ffa9f9e66b757db40ac8293df5dbb4c1f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:06 +0000
Subject: [PATCH 13/60] fix: evaluate additions and subtractions from left to
 right

All additions were evaluated before all subtractions, which changes the
result for floats, dates, and lists.
---
 arithmeticeval.go | 19 +++++--------------
 ast.go            | 23 +++++++++++++++--------
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 2afadd3..afa2953 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -382,8 +382,8 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	if expr.constValue != nil {
 		return expr.constValue, nil
 	}
-	if len(expr.add) == 1 && len(expr.sub) == 0 {
-		ret, err := expr.add[0].Evaluate(ctx)
+	if len(expr.parts) == 1 {
+		ret, err := expr.parts[0].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
@@ -486,21 +486,12 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return err
 	}
 
-	for i := range expr.add {
-		val, err := expr.add[i].Evaluate(ctx)
-		if err != nil {
-			return RValue{}, err
-		}
-		if err = accumulate(val, false); err != nil {
-			return RValue{}, err
-		}
-	}
-	for i := range expr.sub {
-		val, err := expr.sub[i].Evaluate(ctx)
+	for i := range expr.parts {
+		val, err := expr.parts[i].expr.Evaluate(ctx)
 		if err != nil {
 			return RValue{}, err
 		}
-		if err = accumulate(val, true); err != nil {
+		if err = accumulate(val, expr.parts[i].sub); err != nil {
 			return RValue{}, err
 		}
 	}
diff --git a/ast.go b/ast.go
index c2803a2..3dc0c80 100644
--- a/ast.go
+++ b/ast.go
@@ -122,12 +122,16 @@ type partialComparisonExpression struct {
 }
 
 type addOrSubtractExpression struct {
-	add []Expression
-	sub []Expression
+	parts []addOrSubtractExpressionPart
 
 	constValue Value
 }
 
+type addOrSubtractExpressionPart struct {
+	sub  bool
+	expr Expression
+}
+
 type multiplyDivideModuloExpression struct {
 	parts []multiplyDivideModuloExpressionPart
 
@@ -670,26 +674,29 @@ func oC_ComparisonExpression(ctx *parser.OC_ComparisonExpressionContext) Express
 //
 func oC_AddOrSubtractExpression(ctx *parser.OC_AddOrSubtractExpressionContext) Expression {
 	ret := &addOrSubtractExpression{}
-	target := &ret.add
+	sub := false
 	count := ctx.GetChildCount()
 	for child := 0; child < count; child++ {
 		ch := ctx.GetChild(child)
 		expr, ok := ch.(*parser.OC_MultiplyDivideModuloExpressionContext)
 		if ok {
-			(*target) = append(*target, oC_MultiplyDivideModuloExpression(expr))
+			ret.parts = append(ret.parts, addOrSubtractExpressionPart{
+				sub:  sub,
+				expr: oC_MultiplyDivideModuloExpression(expr),
+			})
 		} else {
 			term, ok := ch.(antlr.TerminalNode)
 			if ok {
 				if term.GetText() == "+" {
-					target = &ret.add
+					sub = false
 				} else if term.GetText() == "-" {
-					target = &ret.sub
+					sub = true
 				}
 			}
 		}
 	}
-	if len(ret.add) == 1 && len(ret.sub) == 0 {
-		return ret.add[0]
+	if len(ret.parts) == 1 {
+		return ret.parts[0].expr
 	}
 	return ret
 }
-- 
2.43.0


From 19e31e8ff9e5b1744f137cccaba082f37545526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:09 +0000
Subject: [PATCH 14/60] fix: reject + and - on values that cannot be added

Adding anything to a boolean, map, or node returned the first operand.
---
 arithmeticeval.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index afa2953..dae9a28 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -482,6 +482,8 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
+		default:
+			err = ErrInvalidAdditiveOperation
 		}
 		return err
 	}
-- 
2.43.0


From f3c6ab71d632d6926aae3d9aa2ed798a07906c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:12 +0000
Subject: [PATCH 15/60] fix: propagate null through *, /, %, ^ and the string
 operators

A null right operand of a product, a null base of a power, and a null
operand of STARTS WITH, ENDS WITH, or CONTAINS failed the query, for
example when a node in a WHERE clause has no such property.
---
 arithmeticeval.go |  4 ++--
 eval.go           | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index dae9a28..0b8492e 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -59,7 +59,7 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			return nil, err
 		}
 		v := val.Get()
-		if v == nil {
+		if v == nil || ret.Value == nil {
 			return RValue{}, nil
 		}
 		var valValue float64
@@ -222,7 +222,7 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			ret.Value = val.Get()
 			ret.Const = val.IsConst()
 		} else {
-			if ret.Value == nil {
+			if ret.Value == nil || val.Get() == nil {
 				return RValue{}, nil
 			}
 			ret.Const = ret.Const && val.IsConst()
diff --git a/eval.go b/eval.go
index a0882fb..06b4cfa 100644
--- a/eval.go
+++ b/eval.go
@@ -221,14 +221,17 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 }
 
 func (expr stringOperatorExpression) evaluate(ctx *EvalContext, inputValue Value) (Value, error) {
-	inputStrValue, ok := inputValue.Get().(string)
-	if !ok {
-		return nil, ErrInvalidStringOperation
-	}
 	exprValue, err := expr.expr.Evaluate(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if inputValue.Get() == nil || exprValue.Get() == nil {
+		return RValue{}, nil
+	}
+	inputStrValue, ok := inputValue.Get().(string)
+	if !ok {
+		return nil, ErrInvalidStringOperation
+	}
 	strValue, ok := exprValue.Get().(string)
 	if !ok {
 		return nil, ErrInvalidStringOperation
-- 
2.43.0


From dc5cada55dec9205ca1bb39da8c22a1b21638645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:15 +0000
Subject: [PATCH 16/60] fix: scale durations by the float itself, not its
 integer part

A duration times 1.5 was the duration, and dividing one by 0.5 panicked
with an integer division by zero.
---
 arithmeticeval.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 0b8492e..1268b61 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -172,24 +172,22 @@ func mulintdur(a int64, b Duration, op rune) (Duration, error) {
 }
 
 func muldurfloat(a Duration, b float64, op rune) (Duration, error) {
-	val := int64(b)
 	switch op {
 	case '*':
-		return Duration{Months: int64(a.Months * val), Days: int64(a.Days * val), Seconds: int64(a.Seconds * val), Nanos: a.Nanos * int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) * b), Days: int64(float64(a.Days) * b), Seconds: int64(float64(a.Seconds) * b), Nanos: int(float64(a.Nanos) * b)}, nil
 	case '/':
 		if b == 0 {
 			return Duration{}, ErrDivideByZero
 		}
-		return Duration{Months: int64(a.Months / val), Days: int64(a.Days / val), Seconds: int64(a.Seconds / val), Nanos: a.Nanos / int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) / b), Days: int64(float64(a.Days) / b), Seconds: int64(float64(a.Seconds) / b), Nanos: int(float64(a.Nanos) / b)}, nil
 	}
 	return Duration{}, ErrInvalidDurationOperation
 }
 
 func mulfloatdur(a float64, b Duration, op rune) (Duration, error) {
-	val := int64(a)
 	switch op {
 	case '*':
-		return Duration{Months: b.Months * val, Days: b.Days * val, Seconds: b.Seconds * val, Nanos: b.Nanos * int(val)}, nil
+		return muldurfloat(b, a, op)
 	default:
 		return Duration{}, ErrInvalidDurationOperation
 	}
-- 
2.43.0


From 30655a1ae238f9d83bf44236ed9ead65d0ef9a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:17 +0000
Subject: [PATCH 17/60] fix: return null from toIntegerOrNull for an invalid
 argument

It was registered with the implementation of toInteger.
---
 scalarfuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalarfuncs.go b/scalarfuncs.go
index 85e7239..f902077 100644
--- a/scalarfuncs.go
+++ b/scalarfuncs.go
@@ -16,7 +16,7 @@ func init() {
 		Name:      "toIntegerOrNull",
 		MinArgs:   1,
 		MaxArgs:   1,
-		ValueFunc: toIntegerFunc,
+		ValueFunc: toIntegerOrNullFunc,
 	}
 	globalFuncs["toFloatOrNull"] = Function{
 		Name:      "toFloatOrNull",
-- 
2.43.0


From d0da2de28e7652b4d582b5f11b3f00cf8b6b9c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:50 +0000
Subject: [PATCH 18/60] fix: count characters in left, right, substring, and
 size

right(s, n) returned s without its first n bytes instead of its last n
characters, left and right were empty for an n longer than the string,
substring with a large length panicked, and all four cut multi-byte
characters apart.
---
 functions.go   |  2 +-
 stringfuncs.go | 31 +++++++++++++++++--------------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/functions.go b/functions.go
index c903aca..5ccb31e 100644
--- a/functions.go
+++ b/functions.go
@@ -131,7 +131,7 @@ func sizeFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return RValue{Value: len(arr)}, nil
 	}
 	if str, ok := val.(string); ok {
-		return RValue{Value: len(str)}, nil
+		return RValue{Value: len([]rune(str))}, nil
 	}
 	return RValue{}, nil
 }
diff --git a/stringfuncs.go b/stringfuncs.go
index 6c7a905..cf7b75f 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -125,10 +125,14 @@ func rightFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("In right: %s", err)
 	}
-	if i < 0 || i > len(s) {
+	runes := []rune(s)
+	if i < 0 {
 		return RValue{Value: ""}, nil
 	}
-	return RValue{Value: s[i:]}, nil
+	if i > len(runes) {
+		i = len(runes)
+	}
+	return RValue{Value: string(runes[len(runes)-i:])}, nil
 }
 
 func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
@@ -143,10 +147,14 @@ func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("In left: %w", err)
 	}
-	if i < 0 || i > len(s) {
+	runes := []rune(s)
+	if i < 0 {
 		return RValue{Value: ""}, nil
 	}
-	return RValue{Value: s[:i]}, nil
+	if i > len(runes) {
+		i = len(runes)
+	}
+	return RValue{Value: string(runes[:i])}, nil
 }
 
 func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
@@ -174,20 +182,15 @@ func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
 			return RValue{}, nil
 		}
 	}
-	if start < 0 || start > len(s) {
+	runes := []rune(s)
+	if start < 0 || start > len(runes) {
 		return RValue{Value: ""}, nil
 	}
-	var end int
-	if max == -1 {
-		end = len(s)
-	} else {
+	end := len(runes)
+	if max != -1 && max < end-start {
 		end = start + max
 	}
-
-	if end > len(s) {
-		end = len(s)
-	}
-	return RValue{Value: s[start:end]}, nil
+	return RValue{Value: string(runes[start:end])}, nil
 }
 
 func printFunc(ctx *EvalContext, args []Value) (Value, error) {
-- 
2.43.0


From cc9c72f885753353c6afa00b46376c214ce91d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:53 +0000
Subject: [PATCH 19/60] fix: keep the case of labels and property keys that are
 reserved words

n.order read the property ORDER, and :End matched the label END.
---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 3dc0c80..6ec2d9c 100644
--- a/ast.go
+++ b/ast.go
@@ -895,7 +895,7 @@ func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 }
 
 func oC_ReservedWord(ctx *parser.OC_ReservedWordContext) reservedWord {
-	return reservedWord(strings.ToUpper(ctx.GetText()))
+	return reservedWord(ctx.GetText())
 }
 
 func oC_NodeLabels(ctx *parser.OC_NodeLabelsContext) NodeLabels {
-- 
2.43.0


From 1c5013d3c1236a98454ab4f33b594c3b06612759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:56 +0000
Subject: [PATCH 20/60] fix: support backticks in escaped names

The grammar writes a backtick in an escaped name as two, but the name
was taken verbatim, and the Escape functions did not double it.
---
 ast.go     | 2 +-
 literal.go | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index 6ec2d9c..ed42325 100644
--- a/ast.go
+++ b/ast.go
@@ -889,7 +889,7 @@ func oC_SchemaName(ctx *parser.OC_SchemaNameContext) schemaName {
 func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 	if node := ctx.EscapedSymbolicName(); node != nil {
 		text := node.GetText()
-		return symbolicName(text[1 : len(text)-1])
+		return symbolicName(strings.ReplaceAll(text[1:len(text)-1], "``", "`"))
 	}
 	return symbolicName(ctx.GetText())
 }
diff --git a/literal.go b/literal.go
index 8d03a98..6b1c738 100644
--- a/literal.go
+++ b/literal.go
@@ -114,15 +114,15 @@ func (r *rangeLiteral) Evaluate(ctx *EvalContext) (from, to *int, err error) {
 }
 
 // EscapeLabelLiteral escape a literal that can be used as a label. It
-// returns `s`
+// returns `s` with backticks in s doubled
 func EscapeLabelLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapePropertyKeyLiteral escapes a literal that can be used as a
-// property key. Returns `s`
+// property key. Returns `s` with backticks in s doubled
 func EscapePropertyKeyLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapeStringLiteral returns "s" where backslashes and quotes in s
-- 
2.43.0


From 828268068fea6f1d44be7073d5cf57b2ecf8e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 21/60] fix: interpret escape sequences in string literals

String literals were used verbatim, so 'it\'s' kept its backslash, and a
string escaped with EscapeStringLiteral did not evaluate to itself.
---
 ast.go     |  2 +-
 literal.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index ed42325..5bf9468 100644
--- a/ast.go
+++ b/ast.go
@@ -1300,7 +1300,7 @@ func oC_Literal(ctx *parser.OC_LiteralContext) Evaluatable {
 	}
 	if s := ctx.StringLiteral(); s != nil {
 		text := s.GetText()
-		return stringLiteral(text[1 : len(text)-1])
+		return stringLiteral(unescapeString(text[1 : len(text)-1]))
 	}
 	if b := ctx.OC_BooleanLiteral(); b != nil {
 		return oC_BooleanLiteral(b.(*parser.OC_BooleanLiteralContext))
diff --git a/literal.go b/literal.go
index 6b1c738..520013e 100644
--- a/literal.go
+++ b/literal.go
@@ -1,6 +1,7 @@
 package opencypher
 
 import (
+	"strconv"
 	"strings"
 )
 
@@ -113,6 +114,56 @@ func (r *rangeLiteral) Evaluate(ctx *EvalContext) (from, to *int, err error) {
 	return
 }
 
+// unescapeString replaces the escape sequences of a string literal with
+// the characters they stand for. The grammar limits the sequences to
+// \\, \', \", \b, \f, \n, \r, \t, \uXXXX, and \UXXXXXXXX
+func unescapeString(s string) string {
+	if strings.IndexByte(s, '\\') == -1 {
+		return s
+	}
+	bld := strings.Builder{}
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' || i+1 == len(s) {
+			bld.WriteByte(s[i])
+			continue
+		}
+		i++
+		switch s[i] {
+		case 'b', 'B':
+			bld.WriteByte('\b')
+		case 'f', 'F':
+			bld.WriteByte('\f')
+		case 'n', 'N':
+			bld.WriteByte('\n')
+		case 'r', 'R':
+			bld.WriteByte('\r')
+		case 't', 'T':
+			bld.WriteByte('\t')
+		case 'u', 'U':
+			nDigits := 4
+			if s[i] == 'U' && i+8 < len(s) {
+				if _, err := strconv.ParseUint(s[i+1:i+9], 16, 32); err == nil {
+					nDigits = 8
+				}
+			}
+			if i+nDigits >= len(s) {
+				bld.WriteByte(s[i])
+				break
+			}
+			r, err := strconv.ParseUint(s[i+1:i+1+nDigits], 16, 32)
+			if err != nil {
+				bld.WriteByte(s[i])
+				break
+			}
+			bld.WriteRune(rune(r))
+			i += nDigits
+		default:
+			bld.WriteByte(s[i])
+		}
+	}
+	return bld.String()
+}
+
 // EscapeLabelLiteral escape a literal that can be used as a label. It
 // returns `s` with backticks in s doubled
 func EscapeLabelLiteral(s string) string {
-- 
2.43.0


From 4ad62bfb4b4534488b4264379d78f5172483ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:46 +0000
Subject: [PATCH 22/60] fix: do not ignore the value in ValueAsInt and
 ValueAsString

A nil error argument was returned as the result, so SKIP n and LIMIT n
were always SKIP 0 and LIMIT 0.
---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 02fea3b..032ef22 100644
--- a/value.go
+++ b/value.go
@@ -260,7 +260,7 @@ func (v RValue) String() string {
 // ValueAsInt returns the int value. If value is not int, returns
 // ErrIntValueRequired. If an err argument is given, that error is returned.
 func ValueAsInt(v Value, err ...error) (int, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return 0, err[0]
 	}
 	i, ok := v.Get().(int)
@@ -273,7 +273,7 @@ func ValueAsInt(v Value, err ...error) (int, error) {
 // ValueAsString returns the string value. If value is not string,
 // rReturns ErrStringValueRequired. If an err argument is given, that error is returned.
 func ValueAsString(v Value, err ...error) (string, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return "", err[0]
 	}
 	s, ok := v.Get().(string)
-- 
2.43.0


From 5babd013bbc37a7476060c9cc3dc04c65fd9fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:49 +0000
Subject: [PATCH 23/60] fix: return an error for unsupported clauses and
 expressions

UNWIND, WITH, CALL, COUNT(*), comprehensions, and quantifiers panicked.
---
 ast.go  |  4 ++--
 eval.go | 49 ++++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/ast.go b/ast.go
index 5bf9468..f99ec42 100644
--- a/ast.go
+++ b/ast.go
@@ -1445,9 +1445,9 @@ func oC_Merge(ctx *parser.OC_MergeContext) UpdatingClause {
 }
 
 func oC_InQueryCall(ctx *parser.OC_InQueryCallContext) ReadingClause {
-	panic("Unsupported: inQueryCall")
+	return unsupportedCall{}
 }
 
 func oC_StandaloneCall(ctx *parser.OC_StandaloneCallContext) Evaluatable {
-	panic("Unsupported: standaloneCall")
+	return unsupportedCall{}
 }
diff --git a/eval.go b/eval.go
index 06b4cfa..bb00124 100644
--- a/eval.go
+++ b/eval.go
@@ -58,6 +58,12 @@ func (expr Parameter) Evaluate(ctx *EvalContext) (Value, error) {
 	return ctx.GetParameter(string(expr))
 }
 
+// ErrUnsupported is returned for the parts of openCypher that are not
+// implemented
+type ErrUnsupported string
+
+func (e ErrUnsupported) Error() string { return "Unsupported: " + string(e) }
+
 type ErrInvalidAssignment string
 
 func (e ErrInvalidAssignment) Error() string { return "Invalid assignment to: " + string(e) }
@@ -606,12 +612,41 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	return val, nil
 }
 
-func (unwind unwind) GetResults(ctx *EvalContext) (ResultSet, error)      { panic("Unimplemented") }
-func (ls listComprehension) Evaluate(ctx *EvalContext) (Value, error)     { panic("Unimplemented") }
-func (p patternComprehension) Evaluate(ctx *EvalContext) (Value, error)   { panic("Unimplemented") }
-func (flt filterAtom) Evaluate(ctx *EvalContext) (Value, error)           { panic("Unimplemented") }
-func (rel relationshipsPattern) Evaluate(ctx *EvalContext) (Value, error) { panic("Unimplemented") }
-func (cnt countAtom) Evaluate(ctx *EvalContext) (Value, error)            { panic("Unimplemented") }
+func (unwind unwind) GetResults(ctx *EvalContext) (ResultSet, error) {
+	return ResultSet{}, ErrUnsupported("UNWIND")
+}
+
+func (ls listComprehension) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("list comprehension")
+}
+
+func (p patternComprehension) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("pattern comprehension")
+}
+
+func (flt filterAtom) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported(flt.op)
+}
+
+func (rel relationshipsPattern) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("relationship pattern as an expression")
+}
+
+func (cnt countAtom) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("COUNT(*)")
+}
+
 func (mq multiPartQuery) Evaluate(ctx *EvalContext) (Value, error) {
-	panic("multipart query unimplemented")
+	return nil, ErrUnsupported("WITH")
+}
+
+// unsupportedCall is the CALL clause
+type unsupportedCall struct{}
+
+func (unsupportedCall) GetResults(ctx *EvalContext) (ResultSet, error) {
+	return ResultSet{}, ErrUnsupported("CALL")
+}
+
+func (unsupportedCall) Evaluate(ctx *EvalContext) (Value, error) {
+	return nil, ErrUnsupported("CALL")
 }
-- 
2.43.0


From ae7d54f41a8f9202aa7e94066f33103a1ff3a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:51 +0000
Subject: [PATCH 24/60] fix: return an error for numeric literals that are out
 of range

Parse panicked with the strconv error.
---
 ast.go  |  8 ++++----
 lang.go | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/ast.go b/ast.go
index f99ec42..68cd661 100644
--- a/ast.go
+++ b/ast.go
@@ -1033,7 +1033,7 @@ func oC_Parameter(ctx *parser.OC_ParameterContext) Parameter {
 func decimalInteger(ctx antlr.TerminalNode) intLiteral {
 	i, err := strconv.Atoi(ctx.GetText())
 	if err != nil {
-		panic(err)
+		panic(ErrInvalidExpression(err.Error()))
 	}
 	return intLiteral(i)
 }
@@ -1076,7 +1076,7 @@ func oC_IntegerLiteral(ctx *parser.OC_IntegerLiteralContext) intLiteral {
 		t := x.GetText()
 		val, err := strconv.ParseInt(string(t[2:]), 16, 64)
 		if err != nil {
-			panic(err)
+			panic(ErrInvalidExpression(err.Error()))
 		}
 		return intLiteral(val)
 	}
@@ -1084,7 +1084,7 @@ func oC_IntegerLiteral(ctx *parser.OC_IntegerLiteralContext) intLiteral {
 		t := x.GetText()
 		val, err := strconv.ParseInt(t, 8, 64)
 		if err != nil {
-			panic(err)
+			panic(ErrInvalidExpression(err.Error()))
 		}
 		return intLiteral(val)
 	}
@@ -1321,7 +1321,7 @@ func oC_NumberLiteral(ctx *parser.OC_NumberLiteralContext) Evaluatable {
 func oC_DoubleLiteral(ctx *parser.OC_DoubleLiteralContext) doubleLiteral {
 	v, err := strconv.ParseFloat(ctx.GetText(), 64)
 	if err != nil {
-		panic(err)
+		panic(ErrInvalidExpression(err.Error()))
 	}
 	return doubleLiteral(v)
 }
diff --git a/lang.go b/lang.go
index e4a400b..e50d6fd 100644
--- a/lang.go
+++ b/lang.go
@@ -36,8 +36,21 @@ func GetParser(input string) *parser.CypherParser {
 	return p
 }
 
+// recoverInvalidExpression sets err if the syntax tree contains an
+// element with an invalid value, such as an integer that is too large
+func recoverInvalidExpression(err *error) {
+	if r := recover(); r != nil {
+		e, ok := r.(ErrInvalidExpression)
+		if !ok {
+			panic(r)
+		}
+		*err = e
+	}
+}
+
 // GetEvaluatable returns an evaluatable object
-func Parse(input string) (Evaluatable, error) {
+func Parse(input string) (ev Evaluatable, err error) {
+	defer recoverInvalidExpression(&err)
 	pr := GetParser(input)
 	errListener := errorListener{}
 	pr.AddErrorListener(&errListener)
@@ -71,7 +84,8 @@ func ParseAndEvaluate(input string, ctx *EvalContext) (Value, error) {
 //
 // will start from the current node, go back one nore following an
 // edge with label `a`, and then move to a node with label `x`
-func ParsePatternExpr(expr string) (PatternPart, error) {
+func ParsePatternExpr(expr string) (part PatternPart, err error) {
+	defer recoverInvalidExpression(&err)
 	pr := GetParser(expr)
 	errListener := errorListener{}
 	pr.AddErrorListener(&errListener)
-- 
2.43.0


From f008a3af93e996c812adfba5c2768278cde3c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:54 +0000
Subject: [PATCH 25/60] fix: do not panic on an empty variable name

A path named with a pair of backticks had no first character to check.
---
 ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx.go b/ctx.go
index fcca709..98bcfb5 100644
--- a/ctx.go
+++ b/ctx.go
@@ -132,12 +132,12 @@ func (ctx *EvalContext) RemoveVar(name string) {
 
 func (ctx *EvalContext) SetVars(m map[string]Value) {
 	for k, v := range m {
-		if !unicode.IsDigit(rune(k[0])) {
+		if IsNamedVar(k) {
 			ctx.SetVar(k, v)
 		}
 	}
 }
 
 func IsNamedVar(name string) bool {
-	return !unicode.IsDigit(rune(name[0]))
+	return len(name) > 0 && !unicode.IsDigit(rune(name[0]))
 }
-- 
2.43.0


From b5f5ba699eb060a4cf9339edf61db715d61073f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:57 +0000
Subject: [PATCH 26/60] fix: reject input the lexer does not recognise

Characters that start no token were dropped, so "RETURN 1~" was accepted,
and so was anything that followed a pattern in ParsePatternExpr.
---
 lang.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lang.go b/lang.go
index e50d6fd..4c0c81d 100644
--- a/lang.go
+++ b/lang.go
@@ -27,6 +27,14 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 	}
 }
 
+// listen receives the errors of the parser, and of its lexer
+func (lst *errorListener) listen(pr *parser.CypherParser) {
+	pr.AddErrorListener(lst)
+	if lexer, ok := pr.GetTokenStream().GetTokenSource().(*parser.CypherLexer); ok {
+		lexer.AddErrorListener(lst)
+	}
+}
+
 // GetParser returns a parser that will parse the input string
 func GetParser(input string) *parser.CypherParser {
 	lexer := parser.NewCypherLexer(antlr.NewInputStream(input))
@@ -53,7 +61,7 @@ func Parse(input string) (ev Evaluatable, err error) {
 	defer recoverInvalidExpression(&err)
 	pr := GetParser(input)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	errListener.listen(pr)
 	c := pr.OC_Cypher()
 	if errListener.err != nil {
 		return nil, fmt.Errorf("%w, input: %s", errListener.err, input)
@@ -88,8 +96,14 @@ func ParsePatternExpr(expr string) (part PatternPart, err error) {
 	defer recoverInvalidExpression(&err)
 	pr := GetParser(expr)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	errListener.listen(pr)
 	c := pr.OC_PatternPart()
+	if errListener.err == nil {
+		// The pattern must be the whole input
+		if token := pr.GetCurrentToken(); token.GetTokenType() != antlr.TokenEOF {
+			pr.NotifyErrorListeners(fmt.Sprintf("extraneous input '%s'", token.GetText()), token, nil)
+		}
+	}
 	if errListener.err != nil {
 		return PatternPart{}, errListener.err
 	}
-- 
2.43.0


From ee99808f33df238bd0112df808ab7d5554a21ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:41 +0000
Subject: [PATCH 27/60] fix: create the pattern anew for every row of the
 reading clauses

The variables CREATE binds for the first row were visible to the
remaining rows, so only one node was created for a variable, and an edge
variable resulted in an error. They are also part of the row now, so
RETURN sees the values created for that row.
---
 update.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/update.go b/update.go
index 52b5824..16a48f9 100644
--- a/update.go
+++ b/update.go
@@ -214,13 +214,27 @@ func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 }
 
 func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	results := *NewResultSet()
 	for _, row := range result.Rows {
-		ctx.SetVars(row)
-		if _, err := c.TopLevelUpdate(ctx); err != nil {
+		// Variables created for a row are not visible to other rows
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
+		if _, err := c.TopLevelUpdate(subctx); err != nil {
 			return nil, err
 		}
+		newRow := make(map[string]Value)
+		for k, v := range row {
+			newRow[k] = v
+		}
+		for k, v := range subctx.GetVarsNearestScope() {
+			newRow[k] = v
+		}
+		results.Append(newRow)
 	}
-	return RValue{Value: result}, nil
+	for _, row := range results.Rows {
+		ctx.SetVars(row)
+	}
+	return RValue{Value: results}, nil
 }
 
 func (np nodePattern) Create(ctx *EvalContext) (string, *lpg.Node, error) {
-- 
2.43.0


From 2f183a820978037d682c3c98602e13e3b6cbeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:44 +0000
Subject: [PATCH 28/60] fix: evaluate SET for each row

SET was evaluated for the cartesian product of the result columns, so an
assignment that refers to two variables combined values of different
rows.
---
 update.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/update.go b/update.go
index 16a48f9..7dd3a6c 100644
--- a/update.go
+++ b/update.go
@@ -7,20 +7,14 @@ import (
 )
 
 func (s *set) Update(ctx *EvalContext, result ResultSet) (Value, error) {
-	// Work on the cartesian product of result columns
-	var err error
-	subctx := ctx.SubContext()
-	result.CartesianProduct(func(data map[string]Value) bool {
-		subctx.SetVars(data)
+	for _, row := range result.Rows {
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
 		for i := range s.items {
-			if err = s.items[i].update(subctx, data, result); err != nil {
-				return false
+			if err := s.items[i].update(subctx, row, result); err != nil {
+				return nil, err
 			}
 		}
-		return true
-	})
-	if err != nil {
-		return nil, err
 	}
 	return RValue{Value: result}, nil
 }
-- 
2.43.0


From 24bc3cc8ab3b3c47cf78397c535f8563f867d97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:47 +0000
Subject: [PATCH 29/60] fix: join the results of consecutive MATCH clauses

The results of the clauses were concatenated: the rows had only the
variables of one of the clauses, and a clause could not refer to the
variables of the preceding one.
---
 eval.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index bb00124..46f01b6 100644
--- a/eval.go
+++ b/eval.go
@@ -477,12 +477,27 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 	results := *NewResultSet()
 	if len(query.read) > 0 {
+		results.Append(map[string]Value{})
 		for _, r := range query.read {
-			rs, err := r.GetResults(ctx)
-			if err != nil {
-				return nil, err
+			// Extend each row with the results of the clause for that row
+			joined := *NewResultSet()
+			for _, row := range results.Rows {
+				subctx := ctx.SubContext()
+				subctx.SetVars(row)
+				rs, err := r.GetResults(subctx)
+				if err != nil {
+					return nil, err
+				}
+				for _, newRow := range rs.Rows {
+					for k, v := range row {
+						if _, exists := newRow[k]; !exists {
+							newRow[k] = v
+						}
+					}
+					joined.Append(newRow)
+				}
 			}
-			results.Add(rs)
+			results = joined
 		}
 
 		for _, upd := range query.update {
-- 
2.43.0


From 6013de5f3d7ca91ec6ec1d32e209c3440663d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:22 +0000
Subject: [PATCH 30/60] fix: pass the rows of an updating clause to the next
 one

In a query without a MATCH, the clauses following CREATE or MERGE did not
work on the rows these return: a MERGE created the nodes bound by the
previous MERGE again, and SET and REMOVE failed. SKIP and LIMIT were
ignored for these queries as well.
---
 eval.go   | 35 +++++++++++++++--------------------
 update.go | 10 ++++++++--
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/eval.go b/eval.go
index 46f01b6..750ec3e 100644
--- a/eval.go
+++ b/eval.go
@@ -517,33 +517,28 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		return RValue{Value: ret}, nil
 	}
 
-	for _, upd := range query.update {
-		v, err := upd.TopLevelUpdate(ctx)
+	for i, upd := range query.update {
+		var v Value
+		var err error
+		if i == 0 {
+			v, err = upd.TopLevelUpdate(ctx)
+		} else {
+			// Work on the results of the preceding clause
+			v, err = upd.Update(ctx, results)
+		}
 		if err != nil {
 			return nil, err
 		}
-		if v != nil && v.Get() != nil {
-			results = v.Get().(ResultSet)
-		}
+		results = v.Get().(ResultSet)
 	}
 	if query.ret == nil {
 		return RValue{Value: *NewResultSet()}, nil
 	}
-
-	if len(results.Rows) > 0 {
-		for _, row := range results.Rows {
-			val, err := query.ret.projection.items.Project(ctx, row)
-			if err != nil {
-				return nil, err
-			}
-			ret.Rows = append(ret.Rows, val)
-		}
-	} else {
-		val, err := query.ret.projection.items.Project(ctx, nil)
-		if err != nil {
-			return nil, err
-		}
-		ret.Rows = append(ret.Rows, val)
+	if len(query.update) == 0 {
+		results.Append(map[string]Value{})
+	}
+	if err := project(results.Rows); err != nil {
+		return nil, err
 	}
 	return RValue{Value: ret}, nil
 }
diff --git a/update.go b/update.go
index 7dd3a6c..248b0a4 100644
--- a/update.go
+++ b/update.go
@@ -199,12 +199,17 @@ func (r remove) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 }
 
 func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
+	subctx := ctx.SubContext()
 	for _, part := range c.pattern.Parts {
-		if _, _, err := part.Create(ctx); err != nil {
+		if _, _, err := part.Create(subctx); err != nil {
 			return nil, err
 		}
 	}
-	return nil, nil
+	row := subctx.GetVarsNearestScope()
+	ctx.SetVars(row)
+	results := *NewResultSet()
+	results.Append(row)
+	return RValue{Value: results}, nil
 }
 
 func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
@@ -483,6 +488,7 @@ func (m merge) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 			newRow[k] = v
 		}
 		results.Append(newRow)
+		ctx.SetVars(newRow)
 	}
 	return RValue{Value: results}, nil
 }
-- 
2.43.0


From 562506095ae7ea7b4d755c1ee61e5e750c62f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:20 +0000
Subject: [PATCH 31/60] fix: delete every node and edge once

Deleting a node or an edge that appears in several rows removed it from
the graph repeatedly, and that corrupts the indexes of the graph. Whether
a node is still attached depended on the order of the rows, and the nodes
of the preceding rows were already deleted when that was an error.
---
 update.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/update.go b/update.go
index 248b0a4..5e90e7b 100644
--- a/update.go
+++ b/update.go
@@ -125,34 +125,55 @@ func (deleteClause) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 }
 
 func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error) {
-	subctx := ctx.SubContext()
+	// Several rows may refer to the same node or edge, so collect what is
+	// to be deleted first
+	nodes := make([]*lpg.Node, 0)
+	edges := make([]*lpg.Edge, 0)
+	deleted := make(map[interface{}]struct{})
+	addEdge := func(edge *lpg.Edge) {
+		if _, exists := deleted[edge]; !exists {
+			deleted[edge] = struct{}{}
+			edges = append(edges, edge)
+		}
+	}
 	for _, row := range result.Rows {
+		subctx := ctx.SubContext()
 		subctx.SetVars(row)
 		for _, expr := range d.exprs {
 			v, err := expr.Evaluate(subctx)
 			if err != nil {
 				return nil, err
 			}
-			if v.Get() == nil {
-				continue
-			}
 			switch item := v.Get().(type) {
 			case *lpg.Node:
-				if item.GetEdges(lpg.OutgoingEdge).Next() || item.GetEdges(lpg.IncomingEdge).Next() {
-					// Must have detach
-					if !d.detach {
-						return nil, fmt.Errorf("Cannot delete attached node")
-					}
+				if _, exists := deleted[item]; !exists {
+					deleted[item] = struct{}{}
+					nodes = append(nodes, item)
 				}
-				item.DetachAndRemove()
-
+			case *lpg.Edge:
+				addEdge(item)
 			case *lpg.Path:
 				for i := 0; i < item.NumEdges(); i++ {
-					item.GetEdge(i).Remove()
+					addEdge(item.GetEdge(i))
 				}
 			}
 		}
 	}
+	if !d.detach {
+		for _, node := range nodes {
+			for itr := node.GetEdges(lpg.AnyEdge); itr.Next(); {
+				if _, exists := deleted[itr.Edge()]; !exists {
+					return nil, fmt.Errorf("Cannot delete attached node")
+				}
+			}
+		}
+	}
+	for _, edge := range edges {
+		edge.Remove()
+	}
+	for _, node := range nodes {
+		node.DetachAndRemove()
+	}
 	return RValue{Value: result}, nil
 }
 
-- 
2.43.0


From 5b158b26bb7d8f37bb76aa74a7f467b943e6d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:23 +0000
Subject: [PATCH 32/60] fix: do not store null property values

Setting a property to null removes it, but CREATE, MERGE, and SET n={...}
stored null values given in a map as properties.
---
 patterneval.go | 5 ++++-
 update.go      | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 356f4d9..598dd04 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -317,7 +317,10 @@ func (p *Properties) getPropertiesMap(ctx *EvalContext) (map[string]interface{},
 		}
 		properties = make(map[string]interface{})
 		for k, v := range propertiesAsValue {
-			properties[k] = v.Get()
+			// A property with a null value does not exist
+			if value := v.Get(); value != nil {
+				properties[k] = value
+			}
 		}
 	}
 	return properties, nil
diff --git a/update.go b/update.go
index 5e90e7b..4d524d5 100644
--- a/update.go
+++ b/update.go
@@ -85,6 +85,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 				v.RemoveProperty(p)
 			}
 			for key, val := range sourceProps {
+				if val == nil {
+					continue
+				}
 				v.SetProperty(key, ctx.PropertyValueFromNative(key, val))
 			}
 		default:
-- 
2.43.0


From 1e0e1175a5e2be43015a9f463f4ef63df94adb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:00 +0000
Subject: [PATCH 33/60] fix: treat a null condition of CASE WHEN as not
 satisfied

It was an error, which made CASE unusable with missing properties.
---
 eval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eval.go b/eval.go
index 750ec3e..ceb079a 100644
--- a/eval.go
+++ b/eval.go
@@ -378,6 +378,9 @@ func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
 				return alternative.then.Evaluate(ctx)
 			}
 		} else {
+			if when.Get() == nil {
+				continue
+			}
 			boolValue, ok := when.Get().(bool)
 			if !ok {
 				return nil, ErrNotABooleanExpression
-- 
2.43.0


From e99ba267e68139ea46df67e7f22378f65b3ff223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:02 +0000
Subject: [PATCH 34/60] fix: return a list from labels()

labels() returned a []string, which is not one of the value types: list
operators and functions did not work on it.
---
 functions.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index 5ccb31e..10ee577 100644
--- a/functions.go
+++ b/functions.go
@@ -2,6 +2,7 @@ package opencypher
 
 import (
 	"fmt"
+	"sort"
 	"time"
 
 	"github.com/cloudprivacylabs/lpg/v2"
@@ -103,7 +104,13 @@ func labelsFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if !ok {
 		return nil, fmt.Errorf("Not a node")
 	}
-	return RValue{Value: node.GetLabels().Slice()}, nil
+	labels := node.GetLabels().Slice()
+	sort.Strings(labels)
+	ret := make([]Value, 0, len(labels))
+	for _, label := range labels {
+		ret = append(ret, RValue{Value: label})
+	}
+	return RValue{Value: ret}, nil
 }
 
 func timestampFunc(ctx *EvalContext, args []Value) (Value, error) {
-- 
2.43.0


From 7516460120550d9611e9357d427e27409a4e6c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:05 +0000
Subject: [PATCH 35/60] fix: match <--> in both directions

It was matched as <--.
---
 patterneval.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 598dd04..4e7f248 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -221,7 +221,8 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 	} else {
 		ret.Min, ret.Max = 1, 1
 	}
-	if !rp.toRight && !rp.toLeft {
+	if rp.toRight == rp.toLeft {
+		// -- or <-->
 		ret.Undirected = true
 	} else if rp.toLeft {
 		ret.ToLeft = rp.toLeft
-- 
2.43.0


From 21ce9837b25c9cc9bd8aab5dc636375eb85ec97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:08 +0000
Subject: [PATCH 36/60] fix: do not ignore the items following RETURN *

---
 eval.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/eval.go b/eval.go
index ceb079a..e537f16 100644
--- a/eval.go
+++ b/eval.go
@@ -552,7 +552,6 @@ func (prj projectionItems) Project(ctx *EvalContext, values map[string]Value) (m
 		for k, v := range values {
 			ret[k] = v
 		}
-		return ret, nil
 	}
 
 	for k, v := range values {
-- 
2.43.0


From 230827d1e94313683b65ffc3a47fd55a8d770744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:11 +0000
Subject: [PATCH 37/60] fix: do not ignore DISTINCT and ORDER BY

Both were parsed, but had no effect on the results.
---
 ast.go            |  2 +-
 eval.go           | 74 ++++++++++++++++++++++++++++++++++++++++++++++-
 relationaleval.go | 18 ++++++++++++
 3 files changed, 92 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index 68cd661..e79843d 100644
--- a/ast.go
+++ b/ast.go
@@ -579,7 +579,7 @@ func oC_Order(ctx *parser.OC_OrderContext) order {
 func oC_SortItem(ctx *parser.OC_SortItemContext) sortItem {
 	ret := sortItem{
 		expr: oC_Expression(ctx.OC_Expression().(*parser.OC_ExpressionContext)),
-		asc:  ctx.ASCENDING() != nil || ctx.ASC() != nil,
+		asc:  ctx.DESCENDING() == nil && ctx.DESC() == nil,
 	}
 	return ret
 }
diff --git a/eval.go b/eval.go
index e537f16..6d4fba8 100644
--- a/eval.go
+++ b/eval.go
@@ -3,6 +3,7 @@ package opencypher
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -463,6 +464,16 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 
 	project := func(rows []map[string]Value) error {
+		projectItem := query.ret.projection.items.Project
+		if query.ret.projection.distinct || query.ret.projection.order != nil {
+			var err error
+			if rows, err = query.ret.projection.projectAll(ctx, rows); err != nil {
+				return err
+			}
+			projectItem = func(_ *EvalContext, item map[string]Value) (map[string]Value, error) {
+				return item, nil
+			}
+		}
 		for index, item := range rows {
 			if skip != -1 && index < skip {
 				continue
@@ -470,7 +481,7 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 			if limit != -1 && len(ret.Rows) >= limit {
 				break
 			}
-			val, err := query.ret.projection.items.Project(ctx, item)
+			val, err := projectItem(ctx, item)
 			if err != nil {
 				return err
 			}
@@ -546,6 +557,67 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	return RValue{Value: ret}, nil
 }
 
+// projectAll projects all rows, removing duplicates for DISTINCT, and
+// sorting them for ORDER BY
+func (prj projectionBody) projectAll(ctx *EvalContext, rows []map[string]Value) ([]map[string]Value, error) {
+	var result ResultSet
+	keys := make([][]Value, 0, len(rows))
+	for _, row := range rows {
+		projected, err := prj.items.Project(ctx, row)
+		if err != nil {
+			return nil, err
+		}
+		if prj.distinct && result.find(projected) != -1 {
+			continue
+		}
+		result.Rows = append(result.Rows, projected)
+		if prj.order == nil {
+			continue
+		}
+		subctx := ctx.SubContext()
+		subctx.SetVars(projected)
+		rowKeys := make([]Value, 0, len(prj.order.items))
+		for _, item := range prj.order.items {
+			key, err := item.expr.Evaluate(subctx)
+			if err != nil {
+				return nil, err
+			}
+			rowKeys = append(rowKeys, RValue{Value: key.Get()})
+		}
+		keys = append(keys, rowKeys)
+	}
+	if prj.order == nil {
+		return result.Rows, nil
+	}
+
+	var sortErr error
+	index := make([]int, len(result.Rows))
+	for i := range index {
+		index[i] = i
+	}
+	sort.SliceStable(index, func(i, j int) bool {
+		for k, item := range prj.order.items {
+			cmp, err := compareForSort(keys[index[i]][k].Get(), keys[index[j]][k].Get())
+			if err != nil {
+				sortErr = err
+				return false
+			}
+			if cmp != 0 {
+				return (cmp < 0) == item.asc
+			}
+		}
+		return false
+	})
+	if sortErr != nil {
+		return nil, sortErr
+	}
+	sorted := make([]map[string]Value, 0, len(index))
+	for _, i := range index {
+		sorted = append(sorted, result.Rows[i])
+	}
+	return sorted, nil
+}
+
 func (prj projectionItems) Project(ctx *EvalContext, values map[string]Value) (map[string]Value, error) {
 	ret := make(map[string]Value)
 	if prj.all {
diff --git a/relationaleval.go b/relationaleval.go
index 90d8c3e..a49c44f 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -137,6 +137,24 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 
 }
 
+// compareForSort orders values for ORDER BY. NaN is greater than all
+// numbers, and null is greater than all values
+func compareForSort(v1, v2 interface{}) (int, error) {
+	rank := func(v interface{}) int64 {
+		if v == nil {
+			return 2
+		}
+		if isNaN(v) {
+			return 1
+		}
+		return 0
+	}
+	if r1, r2 := rank(v1), rank(v2); r1 != 0 || r2 != 0 {
+		return compareInt64(r1, r2), nil
+	}
+	return comparePrimitiveValues(v1, v2)
+}
+
 func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	val, err := expr.first.Evaluate(ctx)
 	if err != nil {
-- 
2.43.0


From c768e29905d13ca8c64071b45fa64838036ec08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:14 +0000
Subject: [PATCH 38/60] fix: return a row with nulls when OPTIONAL MATCH does
 not match

OPTIONAL MATCH was evaluated as MATCH.
---
 patterneval.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index 4e7f248..c6b48be 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -120,6 +120,18 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 	if err := nextPattern(ctx, patterns, 0); err != nil {
 		return ResultSet{}, err
 	}
+	if match.Optional && len(results.Rows) == 0 {
+		// Variables of the pattern are null if there are no matches
+		row := make(map[string]Value)
+		for _, pattern := range patterns {
+			for symbol := range pattern.GetSymbolNames().M {
+				if _, err := ctx.GetVar(symbol); err != nil {
+					row[symbol] = RValue{}
+				}
+			}
+		}
+		results.Append(row)
+	}
 	return *results, nil
 }
 
-- 
2.43.0


From c6a8001f52594b42375d43286eb71a1d1ec00495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:45 +0000
Subject: [PATCH 39/60] fix: do not start matching from a left or undirected
 relationship

When the graph has fewer edges than nodes, matching starts from an edge.
The match is from left to right then, so an undirected relationship caused
a nil pointer dereference, and a <-- relationship in a longer pattern a
panic because of the disconnected path.
---
 patterneval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index c6b48be..57cb6b2 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -239,6 +239,12 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 	} else if rp.toLeft {
 		ret.ToLeft = rp.toLeft
 	}
+	if (ret.Undirected || ret.ToLeft) && ret.Min == 1 && ret.Max == 1 {
+		// Matching can start from a left or undirected edge only if there
+		// is no direction to decide, so prevent that by giving this as a
+		// variable length path containing one edge.
+		ret.Min = -1
+	}
 
 	var err error
 	props, err := rp.properties.getPattern(ctx)
-- 
2.43.0


From 500fcef7c647f703f989771aeeeb79090333cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:48 +0000
Subject: [PATCH 40/60] fix: match a bound relationship variable only with its
 value

A relationship variable bound by a preceding pattern did not constrain the
patterns that refer to it.
---
 lang.go        |  1 +
 patterneval.go | 30 ++++++++++++++++++++++++++++++
 update.go      |  9 +++++----
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/lang.go b/lang.go
index 4c0c81d..3f96c36 100644
--- a/lang.go
+++ b/lang.go
@@ -129,6 +129,7 @@ func (p PatternPart) FindRelative(this *lpg.Node) ([]*lpg.Node, error) {
 	resultAccumulator := matchResultAccumulator{
 		evalCtx: ctx,
 		result:  NewResultSet(),
+		bound:   symbols,
 	}
 	err = pattern.Run(ctx.graph, symbols, &resultAccumulator)
 	if err != nil {
diff --git a/patterneval.go b/patterneval.go
index 57cb6b2..47ccc31 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -38,12 +38,41 @@ type matchResultAccumulator struct {
 	evalCtx *EvalContext
 	result  *ResultSet
 	err     error
+	// Values of the variables that are already bound
+	bound map[string]*lpg.PatternSymbol
+}
+
+// isBoundEdge returns false if a relationship variable is bound to
+// something other than path
+func (acc *matchResultAccumulator) isBoundEdge(name string, path *lpg.Path) bool {
+	symbol, exists := acc.bound[name]
+	if !exists || symbol.Edges == nil {
+		return true
+	}
+	if symbol.Edges.Len() != path.NumEdges() {
+		return false
+	}
+	for _, edge := range symbol.Edges.Slice() {
+		found := false
+		for i := 0; i < path.NumEdges() && !found; i++ {
+			found = path.GetEdge(i) == edge
+		}
+		if !found {
+			return false
+		}
+	}
+	return true
 }
 
 func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, symbols map[string]interface{}) {
 	if acc.err != nil {
 		return
 	}
+	for k, v := range symbols {
+		if path, ok := v.(*lpg.Path); ok && !acc.isBoundEdge(k, path) {
+			return
+		}
+	}
 	// Record results in the context
 	result := make(map[string]Value)
 	for k, v := range symbols {
@@ -87,6 +116,7 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 		results := matchResultAccumulator{
 			evalCtx: newContext,
 			result:  NewResultSet(),
+			bound:   symbols,
 		}
 		err = pat[0].Run(newContext.graph, symbols, &results)
 		if err != nil {
diff --git a/update.go b/update.go
index 4d524d5..44cfdcf 100644
--- a/update.go
+++ b/update.go
@@ -397,14 +397,15 @@ func (m merge) getResults(ctx *EvalContext) (map[string]struct{}, ResultSet, err
 		unbound[symbol] = struct{}{}
 	}
 
-	results := matchResultAccumulator{
-		evalCtx: ctx,
-		result:  NewResultSet(),
-	}
 	symbols, err := BuildPatternSymbols(ctx, pattern)
 	if err != nil {
 		return nil, *NewResultSet(), err
 	}
+	results := matchResultAccumulator{
+		evalCtx: ctx,
+		result:  NewResultSet(),
+		bound:   symbols,
+	}
 	err = pattern.Run(ctx.graph, symbols, &results)
 	if err != nil {
 		return nil, *NewResultSet(), err
-- 
2.43.0


From cc7657098edc4746501ffcb4aa8238044cfae02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:31 +0000
Subject: [PATCH 41/60] fix: match all occurrences of a node variable with the
 same node

When a node variable is used more than once in a pattern, the constraint
was lost after the first match, so (a)-->(b)-->(a) returned paths that do
not end where they start.
---
 patterneval.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 47ccc31..59e6ab4 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -1,6 +1,9 @@
 package opencypher
 
 import (
+	"strconv"
+	"strings"
+
 	"github.com/cloudprivacylabs/lpg/v2"
 )
 
@@ -72,10 +75,16 @@ func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.
 		if path, ok := v.(*lpg.Path); ok && !acc.isBoundEdge(k, path) {
 			return
 		}
+		if name := symbolVariable(k); name != k && v != symbols[name] {
+			return
+		}
 	}
 	// Record results in the context
 	result := make(map[string]Value)
 	for k, v := range symbols {
+		if symbolVariable(k) != k {
+			continue
+		}
 		result[k] = RValue{Value: v}
 		acc.evalCtx.SetVar(k, RValue{Value: v})
 	}
@@ -155,6 +164,7 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 		row := make(map[string]Value)
 		for _, pattern := range patterns {
 			for symbol := range pattern.GetSymbolNames().M {
+				symbol = symbolVariable(symbol)
 				if _, err := ctx.GetVar(symbol); err != nil {
 					row[symbol] = RValue{}
 				}
@@ -171,7 +181,7 @@ func BuildPatternSymbols(ctx *EvalContext, pattern lpg.Pattern) (map[string]*lpg
 	symbols := make(map[string]*lpg.PatternSymbol)
 	for symbol := range pattern.GetSymbolNames().M {
 		// If a symbol is in the context, then get its value. Otherwise, it is a local symbol. Add to context
-		value, err := ctx.GetVar(symbol)
+		value, err := ctx.GetVar(symbolVariable(symbol))
 		if err != nil {
 			continue
 		}
@@ -196,12 +206,37 @@ func BuildPatternSymbols(ctx *EvalContext, pattern lpg.Pattern) (map[string]*lpg
 	return symbols, nil
 }
 
+// repeatedSymbol separates the variable from a sequence number in the
+// symbols for the second and later occurrences of a node variable in a
+// pattern. Those are matched independently, and then compared to the
+// first occurrence
+const repeatedSymbol = "\x00"
+
+// symbolVariable returns the variable a pattern symbol stands for
+func symbolVariable(symbol string) string {
+	if i := strings.Index(symbol, repeatedSymbol); i != -1 {
+		return symbol[:i]
+	}
+	return symbol
+}
+
 func (part PatternPart) getPattern(ctx *EvalContext) (lpg.Pattern, error) {
 	pattern := make([]lpg.PatternItem, 0, len(part.path)*2+1)
+	seen := make(map[string]int)
+	renameRepeated := func(np *lpg.PatternItem) {
+		if len(np.Name) == 0 {
+			return
+		}
+		seen[np.Name]++
+		if n := seen[np.Name]; n > 1 {
+			np.Name += repeatedSymbol + strconv.Itoa(n)
+		}
+	}
 	np, err := part.start.getPattern(ctx)
 	if err != nil {
 		return nil, err
 	}
+	renameRepeated(&np)
 	pattern = append(pattern, np)
 	for _, pathItem := range part.path {
 		pi, err := pathItem.rel.getPattern(ctx)
@@ -214,6 +249,7 @@ func (part PatternPart) getPattern(ctx *EvalContext) (lpg.Pattern, error) {
 		if err != nil {
 			return nil, err
 		}
+		renameRepeated(&pi)
 		pattern = append(pattern, pi)
 	}
 	return pattern, nil
-- 
2.43.0


From 754a51d60609523548b3e33a3b45bf4d3d3a41bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:56 +0000
Subject: [PATCH 42/60] fix: terminate range() near the limits of integers

---
 functions.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/functions.go b/functions.go
index 10ee577..2fe4081 100644
--- a/functions.go
+++ b/functions.go
@@ -87,10 +87,18 @@ func rangeFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if end > start {
 		for at := start; at < end; at += skip {
 			arr = append(arr, RValue{Value: at})
+			if at+skip < at {
+				// overflow
+				break
+			}
 		}
 	} else {
 		for at := start; at > end; at += skip {
 			arr = append(arr, RValue{Value: at})
+			if at+skip > at {
+				// overflow
+				break
+			}
 		}
 	}
 	return RValue{Value: arr}, nil
-- 
2.43.0


From 89ca4618808a81bc938bbd4104b8d62c822ac6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:49 +0000
Subject: [PATCH 43/60] fix: do not ignore the errors in a chain of
 multiplications

An error was lost if another operand follows: 1/0*2 was 0.
---
 arithmeticeval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 1268b61..15c02e8 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -260,9 +260,9 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 				err = ErrInvalidMultiplicativeOperation
 			}
 		}
-	}
-	if err != nil {
-		return nil, err
+		if err != nil {
+			return nil, err
+		}
 	}
 	if ret.Const {
 		expr.constValue = &ret
-- 
2.43.0


From 9dc2860bb547716f12d21a1901d001ab60583bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:40 +0000
Subject: [PATCH 44/60] fix: do not match a null relationship variable with any
 relationship

OPTIONAL MATCH (a)-[r]->() MATCH (b)-[r]->() matched all relationships
if r was null. A variable that is null does not match anything.
---
 lang.go        |  2 +-
 patterneval.go | 13 ++++++++++++-
 update.go      |  2 +-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lang.go b/lang.go
index 3f96c36..2bd9aa0 100644
--- a/lang.go
+++ b/lang.go
@@ -131,7 +131,7 @@ func (p PatternPart) FindRelative(this *lpg.Node) ([]*lpg.Node, error) {
 		result:  NewResultSet(),
 		bound:   symbols,
 	}
-	err = pattern.Run(ctx.graph, symbols, &resultAccumulator)
+	err = resultAccumulator.run(pattern)
 	if err != nil {
 		return nil, err
 	}
diff --git a/patterneval.go b/patterneval.go
index 59e6ab4..ea72175 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -67,6 +67,17 @@ func (acc *matchResultAccumulator) isBoundEdge(name string, path *lpg.Path) bool
 	return true
 }
 
+// run stores the matches of pattern
+func (acc *matchResultAccumulator) run(pattern lpg.Pattern) error {
+	for _, symbol := range acc.bound {
+		if symbol.Nodes == nil && symbol.Edges == nil {
+			// A variable that is null does not match anything
+			return nil
+		}
+	}
+	return pattern.Run(acc.evalCtx.graph, acc.bound, acc)
+}
+
 func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, symbols map[string]interface{}) {
 	if acc.err != nil {
 		return
@@ -127,7 +138,7 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 			result:  NewResultSet(),
 			bound:   symbols,
 		}
-		err = pat[0].Run(newContext.graph, symbols, &results)
+		err = results.run(pat[0])
 		if err != nil {
 			return err
 		}
diff --git a/update.go b/update.go
index 44cfdcf..86451b4 100644
--- a/update.go
+++ b/update.go
@@ -406,7 +406,7 @@ func (m merge) getResults(ctx *EvalContext) (map[string]struct{}, ResultSet, err
 		result:  NewResultSet(),
 		bound:   symbols,
 	}
-	err = pattern.Run(ctx.graph, symbols, &results)
+	err = results.run(pattern)
 	if err != nil {
 		return nil, *NewResultSet(), err
 	}
-- 
2.43.0


From 1e09eb668092d16219294fa62be92d0e6fb9e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 45/60] fix: do not add labels to the string set of a parameter

---
 eval.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eval.go b/eval.go
index 6d4fba8..f97646d 100644
--- a/eval.go
+++ b/eval.go
@@ -263,6 +263,8 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		if !ok {
 			return nil, ErrNotAStringSet
 		}
+		// The set belongs to a parameter or variable
+		gobj = gobj.Clone()
 		for _, label := range *pl.nodeLabels {
 			str := label.String()
 			gobj.Add(str)
-- 
2.43.0


From 64eea9b5c0d680894cb2a423eb0d5c30129ced79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 46/60] fix: do not look up null properties of patterns in
 indexes

---
 patterneval.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index ea72175..b0967ca 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -75,6 +75,15 @@ func (acc *matchResultAccumulator) run(pattern lpg.Pattern) error {
 			return nil
 		}
 	}
+	for _, item := range pattern {
+		for _, value := range item.Properties {
+			if value == nil {
+				// null is not equal to anything, and cannot be
+				// looked up in an index
+				return nil
+			}
+		}
+	}
 	return pattern.Run(acc.evalCtx.graph, acc.bound, acc)
 }
 
-- 
2.43.0


From eb26d673e2629218fe5683a43374ed5f9e295134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 47/60] fix: end the cartesian product of result sets without
 columns

---
 resultset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resultset.go b/resultset.go
index f4756eb..a9cc25f 100644
--- a/resultset.go
+++ b/resultset.go
@@ -180,7 +180,7 @@ func (r ResultSet) CartesianProduct(f func(map[string]Value) bool) bool {
 		if !f(data) {
 			return false
 		}
-		carry := false
+		carry := true
 		for i := range ctr {
 			ctr[i]++
 			if ctr[i] >= len(r.Rows) {
@@ -220,7 +220,7 @@ func CartesianProduct(resultsets []ResultSet, all bool, filter func(map[string]V
 		if filter(data) {
 			result.Rows = append(result.Rows, data)
 		}
-		carry := false
+		carry := true
 		for i := range ctr {
 			ctr[i]++
 			if ctr[i] >= len(resultsets[i].Rows) {
-- 
2.43.0


From 8af8f4676db3b05d04e6ccd6e537bec160fb819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 48/60] fix: do not confuse variables containing a NUL with
 repeated variables

---
 patterneval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/patterneval.go b/patterneval.go
index b0967ca..38003b5 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -229,8 +229,8 @@ func BuildPatternSymbols(ctx *EvalContext, pattern lpg.Pattern) (map[string]*lpg
 // repeatedSymbol separates the variable from a sequence number in the
 // symbols for the second and later occurrences of a node variable in a
 // pattern. Those are matched independently, and then compared to the
-// first occurrence
-const repeatedSymbol = "\x00"
+// first occurrence. It is not valid UTF-8, so it is not part of a name
+const repeatedSymbol = "\xff"
 
 // symbolVariable returns the variable a pattern symbol stands for
 func symbolVariable(symbol string) string {
-- 
2.43.0


From fe87a5865d961a162de23d959676560fce60de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 49/60] fix: match *0..0 and *0..1 relationships without
 starting from an edge

---
 patterneval.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/patterneval.go b/patterneval.go
index 38003b5..c637d63 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -325,11 +325,14 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 	} else if rp.toLeft {
 		ret.ToLeft = rp.toLeft
 	}
-	if (ret.Undirected || ret.ToLeft) && ret.Min == 1 && ret.Max == 1 {
-		// Matching can start from a left or undirected edge only if there
-		// is no direction to decide, so prevent that by giving this as a
-		// variable length path containing one edge.
-		ret.Min = -1
+	if ret.Undirected || ret.ToLeft || ret.Max == 0 {
+		if ret.Min >= 0 && ret.Min <= 1 && ret.Max >= 0 && ret.Max <= 1 {
+			// Matching can start from an edge only if the path contains
+			// exactly that edge, and there is no direction to decide, so
+			// prevent that by giving this as a variable length path
+			// containing at most one edge.
+			ret.Min = -1
+		}
 	}
 
 	var err error
-- 
2.43.0


From 5bb0d1084cb02d3ffc1830d82c662c19ff478c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:20 +0000
Subject: [PATCH 50/60] fix: do not delete nodes and edges already deleted by a
 preceding clause

---
 update.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/update.go b/update.go
index 86451b4..3775e42 100644
--- a/update.go
+++ b/update.go
@@ -136,7 +136,9 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 	addEdge := func(edge *lpg.Edge) {
 		if _, exists := deleted[edge]; !exists {
 			deleted[edge] = struct{}{}
-			edges = append(edges, edge)
+			if edgeExists(edge) {
+				edges = append(edges, edge)
+			}
 		}
 	}
 	for _, row := range result.Rows {
@@ -174,12 +176,47 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 	for _, edge := range edges {
 		edge.Remove()
 	}
-	for _, node := range nodes {
+	for _, node := range existingNodes(nodes) {
 		node.DetachAndRemove()
 	}
 	return RValue{Value: result}, nil
 }
 
+// edgeExists returns false if the edge was already removed from its graph
+func edgeExists(edge *lpg.Edge) bool {
+	for itr := edge.GetFrom().GetEdgesWithLabel(lpg.OutgoingEdge, edge.GetLabel()); itr.Next(); {
+		if itr.Edge() == edge {
+			return true
+		}
+	}
+	return false
+}
+
+// existingNodes returns the nodes that were not already removed from
+// their graphs. A removed node has no edges, so only the nodes without
+// edges have to be looked up.
+func existingNodes(nodes []*lpg.Node) []*lpg.Node {
+	ret := make([]*lpg.Node, 0, len(nodes))
+	isolated := make(map[*lpg.Node]struct{})
+	graphs := make(map[*lpg.Graph]struct{})
+	for _, node := range nodes {
+		if node.GetEdges(lpg.AnyEdge).Next() {
+			ret = append(ret, node)
+			continue
+		}
+		isolated[node] = struct{}{}
+		graphs[node.GetGraph()] = struct{}{}
+	}
+	for graph := range graphs {
+		for itr := graph.GetNodes(); itr.Next(); {
+			if _, exists := isolated[itr.Node()]; exists {
+				ret = append(ret, itr.Node())
+			}
+		}
+	}
+	return ret
+}
+
 func (remove) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 	return nil, fmt.Errorf("Cannot use REMOVE at top level")
 }
-- 
2.43.0


From a3d6151a8995bb803de7eb37e2753c79d5325080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:12 +0000
Subject: [PATCH 51/60] fix: return an error for property values of unsupported
 types

---
 eval.go  | 20 +++++++++++++++++---
 value.go | 11 ++++++++++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index f97646d..8ef7b41 100644
--- a/eval.go
+++ b/eval.go
@@ -51,6 +51,17 @@ func (e ErrValueDoesNotHaveProperties) Error() string {
 	return fmt.Sprintf("Value does not have properties: %v property: %s", e.Value, e.Property)
 }
 
+// ErrInvalidPropertyValue is returned for properties of nodes and edges
+// that have a Go type that is not supported
+type ErrInvalidPropertyValue struct {
+	Value    interface{}
+	Property string
+}
+
+func (e ErrInvalidPropertyValue) Error() string {
+	return fmt.Sprintf("Invalid property value: %v %T property: %s", e.Value, e.Value, e.Property)
+}
+
 type ErrInvalidIndirection string
 
 func (e ErrInvalidIndirection) Error() string { return "Invalid indirection: " + string(e) }
@@ -300,10 +311,13 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 				return RValue{}, nil
 			}
 			if n, ok := prop.(withNativeValue); ok {
-				val = ValueOf(n.GetNativeValue()).(RValue)
-			} else {
-				val = ValueOf(prop).(RValue)
+				prop = n.GetNativeValue()
+			}
+			v := valueOf(prop)
+			if v == nil {
+				return nil, ErrInvalidPropertyValue{Value: prop, Property: property.String()}
 			}
+			val = RValue{Value: v.Get()}
 		} else {
 			return nil, ErrValueDoesNotHaveProperties{Value: val.Value, Property: property.String()}
 		}
diff --git a/value.go b/value.go
index 032ef22..b076977 100644
--- a/value.go
+++ b/value.go
@@ -90,6 +90,15 @@ func ValueAsBool(v Value) (bool, bool) {
 }
 
 func ValueOf(in interface{}) Value {
+	v := valueOf(in)
+	if v == nil {
+		panic(fmt.Sprintf("Invalid value: %v %T", in, in))
+	}
+	return v
+}
+
+// valueOf returns nil if a value cannot be made from in
+func valueOf(in interface{}) Value {
 	if in == nil {
 		return RValue{}
 	}
@@ -143,7 +152,7 @@ func ValueOf(in interface{}) Value {
 	case *lpg.Path:
 		return RValue{Value: v}
 	}
-	panic(fmt.Sprintf("Invalid value: %v %T", in, in))
+	return nil
 }
 
 // IsValueSame compares two values and decides if the two are the same
-- 
2.43.0


From b4130f8a61bb7aa9117cf290c4b7f3ffabb143ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 52/60] fix: remove a redundant copy of a string set

StringSet.Add does not modify the map it shares with other sets, so the
change of 1e09eb6 is not needed.
---
 eval.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/eval.go b/eval.go
index 8ef7b41..2bb4f9d 100644
--- a/eval.go
+++ b/eval.go
@@ -274,8 +274,6 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		if !ok {
 			return nil, ErrNotAStringSet
 		}
-		// The set belongs to a parameter or variable
-		gobj = gobj.Clone()
 		for _, label := range *pl.nodeLabels {
 			str := label.String()
 			gobj.Add(str)
-- 
2.43.0


From 7992907fc87ec2c5223dd83da9b2277edb78576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 53/60] fix: type(null) is null

As labels(null) is. OPTIONAL MATCH (n)-[r]->() RETURN type(r) failed for
nodes without relationships.
---
 functions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/functions.go b/functions.go
index 2fe4081..0bfcd7d 100644
--- a/functions.go
+++ b/functions.go
@@ -126,6 +126,9 @@ func timestampFunc(ctx *EvalContext, args []Value) (Value, error) {
 }
 
 func typeFunc(ctx *EvalContext, args []Value) (Value, error) {
+	if args[0].Get() == nil {
+		return RValue{}, nil
+	}
 	edge, ok := args[0].Get().(*lpg.Edge)
 	if ok {
 		return RValue{Value: edge.GetLabel()}, nil
-- 
2.43.0


From 021a9d22d71e4e12817d617a99ab05de69999bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:55 +0000
Subject: [PATCH 54/60] fix: text of durations whose nanoseconds are negative
 or exceed a second

---
 duration.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/duration.go b/duration.go
index 4b5a29e..12774b3 100644
--- a/duration.go
+++ b/duration.go
@@ -14,6 +14,16 @@ type Duration struct {
 }
 
 func (d Duration) String() string {
+	// Operations on durations can leave nanoseconds that are negative or
+	// a second and more
+	if second := int(time.Second); d.Nanos < 0 || d.Nanos >= second {
+		carry := d.Nanos / second
+		if d.Nanos%second < 0 {
+			carry--
+		}
+		d.Seconds += int64(carry)
+		d.Nanos -= carry * second
+	}
 	sign := ""
 	if d.Seconds < 0 && d.Nanos > 0 {
 		d.Seconds++
-- 
2.43.0


From 0da9be223d1ee4445bc1f2f886caf872c828bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:55 +0000
Subject: [PATCH 55/60] fix: dates from components in time zones that skip
 midnight

---
 datefuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datefuncs.go b/datefuncs.go
index 971e7f0..e2305e0 100644
--- a/datefuncs.go
+++ b/datefuncs.go
@@ -82,7 +82,7 @@ func dateFunc(ctx *EvalContext, args []Value) (Value, error) {
 					month = time.Month(m)
 				}
 
-				t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+				t := time.Date(year, month, day, 0, 0, 0, 0, time.UTC)
 				return RValue{Value: NewDate(t)}, nil
 			}
 		}
-- 
2.43.0


From 41176d20bafbee02ccd6d45f236394b7fe5330ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:17 +0000
Subject: [PATCH 56/60] fix: time of day arithmetic in time zones that change
 their clocks

---
 arithmeticeval.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 15c02e8..77d88ed 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -314,11 +314,13 @@ func adddatedur(a Date, b Duration, sub bool) Date {
 }
 
 func addtimedur(a LocalTime, b Duration, sub bool) LocalTime {
+	// A time of day does not depend on when the local time zone changed
+	// its clocks
 	t := a.Time()
 	if sub {
-		return NewLocalTime(time.Date(1970, 1, 1, t.Hour(), t.Minute(), t.Second()-int(b.Seconds), t.Nanosecond()-b.Nanos, t.Location()))
+		return NewLocalTime(time.Date(1970, 1, 1, t.Hour(), t.Minute(), t.Second()-int(b.Seconds), t.Nanosecond()-b.Nanos, time.UTC))
 	}
-	return NewLocalTime(time.Date(1970, 1, 1, t.Hour(), t.Minute(), t.Second()+int(b.Seconds), t.Nanosecond()+b.Nanos, t.Location()))
+	return NewLocalTime(time.Date(1970, 1, 1, t.Hour(), t.Minute(), t.Second()+int(b.Seconds), t.Nanosecond()+b.Nanos, time.UTC))
 }
 
 func adddatetimedur(a LocalDateTime, b Duration, sub bool) LocalDateTime {
-- 
2.43.0


From af5a0eb930de94002fd5ef0f146c5f276c33fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:07 +0000
Subject: [PATCH 57/60] fix: property of an empty list of relationships is an
 error instead of a panic

---
 eval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 2bb4f9d..7725d8b 100644
--- a/eval.go
+++ b/eval.go
@@ -298,7 +298,7 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 					ok = true
 				}
 			}
-			if edges, k := val.Value.([]*lpg.Edge); k {
+			if edges, k := val.Value.([]*lpg.Edge); k && len(edges) > 0 {
 				wp = edges[0]
 				ok = true
 			}
-- 
2.43.0


From 6807cbeb8969a0f1e4ccb3636b603cfed17903cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:07 +0000
Subject: [PATCH 58/60] fix: SET and REMOVE ignore variables that are null,
 such as those of OPTIONAL MATCH

---
 eval.go   | 6 ++++++
 update.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/eval.go b/eval.go
index 7725d8b..f780ff6 100644
--- a/eval.go
+++ b/eval.go
@@ -703,6 +703,12 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 					}
 				},
 			}
+		case nil:
+			// Updates of null are ignored
+			val = LValue{
+				getter: func() interface{} { return nil },
+				setter: func(interface{}) {},
+			}
 		default:
 			return nil, ErrInvalidIndirection(prop)
 		}
diff --git a/update.go b/update.go
index 3775e42..b053b9c 100644
--- a/update.go
+++ b/update.go
@@ -50,6 +50,10 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 	if !ok {
 		return ErrNotAnLValue
 	}
+	if lvalue.Get() == nil {
+		// Updates of null are ignored
+		return nil
+	}
 
 	getSourceProps := func() (map[string]interface{}, error) {
 		sourceProps := make(map[string]interface{})
-- 
2.43.0


From 3188bb2eafb92166d95205535f5d58488cd558cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:08 +0000
Subject: [PATCH 59/60] fix: a path variable with an empty name does not bind a
 node in CREATE

---
 update.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/update.go b/update.go
index b053b9c..d342f25 100644
--- a/update.go
+++ b/update.go
@@ -367,7 +367,7 @@ func (part PatternPart) Create(ctx *EvalContext) (*lpg.Node, *lpg.Path, error) {
 		path.Append(pe)
 		lastNode = targetNode
 	}
-	if part.variable != nil {
+	if part.variable != nil && len(*part.variable) > 0 {
 		if path.NumEdges() == 0 {
 			ctx.SetVar(string(*part.variable), ValueOf(lastNode))
 		} else {
-- 
2.43.0


From 8f1f39a8ace13998dac24fd0d38280daa238502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:09 +0000
Subject: [PATCH 60/60] fix: quoted variables that start with a digit are
 visible to the following clauses

---
 ctx.go    | 10 ++++++++++
 eval.go   | 10 +++++++---
 update.go | 16 ++++++++--------
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/ctx.go b/ctx.go
index 98bcfb5..89f6a19 100644
--- a/ctx.go
+++ b/ctx.go
@@ -138,6 +138,16 @@ func (ctx *EvalContext) SetVars(m map[string]Value) {
 	}
 }
 
+// setRow sets the variables of a row. These are the names used in the
+// query, which can start with a number if they are quoted
+func (ctx *EvalContext) setRow(row map[string]Value) {
+	for k, v := range row {
+		if len(k) > 0 {
+			ctx.SetVar(k, v)
+		}
+	}
+}
+
 func IsNamedVar(name string) bool {
 	return len(name) > 0 && !unicode.IsDigit(rune(name[0]))
 }
diff --git a/eval.go b/eval.go
index f780ff6..0621f6e 100644
--- a/eval.go
+++ b/eval.go
@@ -451,7 +451,7 @@ func (query regularQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 	}
 	for _, c := range contexts {
-		ctx.SetVars(c.GetVarsNearestScope())
+		ctx.setRow(c.GetVarsNearestScope())
 	}
 	return RValue{Value: resultSet}, nil
 }
@@ -511,7 +511,7 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 			joined := *NewResultSet()
 			for _, row := range results.Rows {
 				subctx := ctx.SubContext()
-				subctx.SetVars(row)
+				subctx.setRow(row)
 				rs, err := r.GetResults(subctx)
 				if err != nil {
 					return nil, err
@@ -589,7 +589,11 @@ func (prj projectionBody) projectAll(ctx *EvalContext, rows []map[string]Value)
 			continue
 		}
 		subctx := ctx.SubContext()
-		subctx.SetVars(projected)
+		for _, item := range prj.items.items {
+			if item.variable != nil {
+				subctx.SetVar(string(*item.variable), projected[string(*item.variable)])
+			}
+		}
 		rowKeys := make([]Value, 0, len(prj.order.items))
 		for _, item := range prj.order.items {
 			key, err := item.expr.Evaluate(subctx)
diff --git a/update.go b/update.go
index d342f25..ef194cf 100644
--- a/update.go
+++ b/update.go
@@ -9,7 +9,7 @@ import (
 func (s *set) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 	for _, row := range result.Rows {
 		subctx := ctx.SubContext()
-		subctx.SetVars(row)
+		subctx.setRow(row)
 		for i := range s.items {
 			if err := s.items[i].update(subctx, row, result); err != nil {
 				return nil, err
@@ -147,7 +147,7 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 	}
 	for _, row := range result.Rows {
 		subctx := ctx.SubContext()
-		subctx.SetVars(row)
+		subctx.setRow(row)
 		for _, expr := range d.exprs {
 			v, err := expr.Evaluate(subctx)
 			if err != nil {
@@ -228,7 +228,7 @@ func (remove) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 func (r remove) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 	subctx := ctx.SubContext()
 	for _, row := range result.Rows {
-		subctx.SetVars(row)
+		subctx.setRow(row)
 		for _, item := range r.items {
 			if item.property != nil {
 				value, err := item.property.Evaluate(subctx)
@@ -271,7 +271,7 @@ func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 		}
 	}
 	row := subctx.GetVarsNearestScope()
-	ctx.SetVars(row)
+	ctx.setRow(row)
 	results := *NewResultSet()
 	results.Append(row)
 	return RValue{Value: results}, nil
@@ -282,7 +282,7 @@ func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 	for _, row := range result.Rows {
 		// Variables created for a row are not visible to other rows
 		subctx := ctx.SubContext()
-		subctx.SetVars(row)
+		subctx.setRow(row)
 		if _, err := c.TopLevelUpdate(subctx); err != nil {
 			return nil, err
 		}
@@ -296,7 +296,7 @@ func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 		results.Append(newRow)
 	}
 	for _, row := range results.Rows {
-		ctx.SetVars(row)
+		ctx.setRow(row)
 	}
 	return RValue{Value: results}, nil
 }
@@ -513,7 +513,7 @@ func (m merge) Update(ctx *EvalContext, rs ResultSet) (Value, error) {
 	results := *NewResultSet()
 	for _, row := range rs.Rows {
 		subctx := ctx.SubContext()
-		subctx.SetVars(row)
+		subctx.setRow(row)
 		created, matched, rs, err := m.doMerge(subctx)
 		if err != nil {
 			return nil, err
@@ -554,7 +554,7 @@ func (m merge) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 			newRow[k] = v
 		}
 		results.Append(newRow)
-		ctx.SetVars(newRow)
+		ctx.setRow(newRow)
 	}
 	return RValue{Value: results}, nil
 }
-- 
2.43.0

