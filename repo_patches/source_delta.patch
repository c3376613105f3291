From e18d7e08b923e4f126719ac8e058808400892855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:00 +0000
Subject: [PATCH 01/55] fix: evaluate every operand of a power expression,
 propagating null

---
 arithmeticeval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 80c3059..de5de55 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -53,13 +53,13 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		Value: val.Get(),
 		Const: val.IsConst(),
 	}
-	for i := 1; 1 < len(expr.parts); i++ {
+	for i := 1; i < len(expr.parts); i++ {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
 		v := val.Get()
-		if v == nil {
+		if v == nil || ret.Value == nil {
 			return RValue{}, nil
 		}
 		var valValue float64
-- 
2.43.0


From b7000b7fed7ac2b9dc25bc2f40cd08dbff238145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:27 +0000
Subject: [PATCH 02/55] fix: a failing or null operand of * / % decides the
 whole expression

---
 arithmeticeval.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index de5de55..c96d5a4 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -60,7 +60,8 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 		v := val.Get()
 		if v == nil || ret.Value == nil {
-			return RValue{}, nil
+			ret = RValue{}
+			continue
 		}
 		var valValue float64
 		if intValue, ok := v.(int); ok {
@@ -222,8 +223,9 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			ret.Value = val.Get()
 			ret.Const = val.IsConst()
 		} else {
-			if ret.Value == nil {
-				return RValue{}, nil
+			if ret.Value == nil || val.Get() == nil {
+				ret = RValue{}
+				continue
 			}
 			ret.Const = ret.Const && val.IsConst()
 			switch result := ret.Value.(type) {
@@ -261,11 +263,11 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 			default:
 				err = ErrInvalidMultiplicativeOperation
 			}
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
-	if err != nil {
-		return nil, err
-	}
 	if ret.Const {
 		expr.constValue = &ret
 	}
-- 
2.43.0


From f9e4e114b18d9b3b04ba55f7d259b00e44b48bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:16 +0000
Subject: [PATCH 03/55] fix: evaluate + and - left to right

---
 arithmeticeval.go | 19 +++++--------------
 ast.go            | 24 ++++++++++++++++--------
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index c96d5a4..ea1115d 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -383,8 +383,8 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	if expr.constValue != nil {
 		return expr.constValue, nil
 	}
-	if len(expr.add) == 1 && len(expr.sub) == 0 {
-		ret, err := expr.add[0].Evaluate(ctx)
+	if len(expr.parts) == 1 {
+		ret, err := expr.parts[0].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
@@ -485,21 +485,12 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		return err
 	}
 
-	for i := range expr.add {
-		val, err := expr.add[i].Evaluate(ctx)
-		if err != nil {
-			return RValue{}, err
-		}
-		if err = accumulate(val, false); err != nil {
-			return RValue{}, err
-		}
-	}
-	for i := range expr.sub {
-		val, err := expr.sub[i].Evaluate(ctx)
+	for i := range expr.parts {
+		val, err := expr.parts[i].expr.Evaluate(ctx)
 		if err != nil {
 			return RValue{}, err
 		}
-		if err = accumulate(val, true); err != nil {
+		if err = accumulate(val, expr.parts[i].sub); err != nil {
 			return RValue{}, err
 		}
 	}
diff --git a/ast.go b/ast.go
index 0da0b8a..6d4e117 100644
--- a/ast.go
+++ b/ast.go
@@ -122,12 +122,17 @@ type partialComparisonExpression struct {
 }
 
 type addOrSubtractExpression struct {
-	add []Expression
-	sub []Expression
+	parts []addOrSubtractExpressionPart
 
 	constValue Value
 }
 
+type addOrSubtractExpressionPart struct {
+	// For the first element of parts, sub=false
+	sub  bool
+	expr Expression
+}
+
 type multiplyDivideModuloExpression struct {
 	parts []multiplyDivideModuloExpressionPart
 
@@ -670,26 +675,29 @@ func oC_ComparisonExpression(ctx *parser.OC_ComparisonExpressionContext) Express
 //
 func oC_AddOrSubtractExpression(ctx *parser.OC_AddOrSubtractExpressionContext) Expression {
 	ret := &addOrSubtractExpression{}
-	target := &ret.add
+	sub := false
 	count := ctx.GetChildCount()
 	for child := 0; child < count; child++ {
 		ch := ctx.GetChild(child)
 		expr, ok := ch.(*parser.OC_MultiplyDivideModuloExpressionContext)
 		if ok {
-			(*target) = append(*target, oC_MultiplyDivideModuloExpression(expr))
+			ret.parts = append(ret.parts, addOrSubtractExpressionPart{
+				sub:  sub,
+				expr: oC_MultiplyDivideModuloExpression(expr),
+			})
 		} else {
 			term, ok := ch.(antlr.TerminalNode)
 			if ok {
 				if term.GetText() == "+" {
-					target = &ret.add
+					sub = false
 				} else if term.GetText() == "-" {
-					target = &ret.sub
+					sub = true
 				}
 			}
 		}
 	}
-	if len(ret.add) == 1 && len(ret.sub) == 0 {
-		return ret.add[0]
+	if len(ret.parts) == 1 {
+		return ret.parts[0].expr
 	}
 	return ret
 }
-- 
2.43.0


From 398a66463d21b076d4ce9d02f5dbfe80108368b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:19 +0000
Subject: [PATCH 04/55] fix: + and - reject operand kinds they are not defined
 for

---
 arithmeticeval.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index ea1115d..ad4e4be 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -481,6 +481,8 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
+		default:
+			err = ErrInvalidAdditiveOperation
 		}
 		return err
 	}
-- 
2.43.0


From 8c718bfd6f99e4917dad34e3f2221ec91a0d15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:21 +0000
Subject: [PATCH 05/55] fix: list concatenation returns the concatenated list

---
 arithmeticeval.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index ad4e4be..fcce0d4 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -376,6 +376,7 @@ func addlistlist(a, b []Value) RValue {
 		}
 		arr = append(arr, x)
 	}
+	ret.Value = arr
 	return ret
 }
 
-- 
2.43.0


From 99e36c4f13572954673de0b4cddd01c8ff79b177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:24 +0000
Subject: [PATCH 06/55] fix: cache constant values as RValue, not *RValue

---
 arithmeticeval.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index fcce0d4..e40589e 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -32,7 +32,7 @@ func (expr *unaryAddOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, err
 		return ret, ErrInvalidUnaryOperation
 	}
 	if ret.IsConst() {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
@@ -81,7 +81,7 @@ func (expr *powerOfExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		ret.Const = ret.Const && val.IsConst()
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
@@ -269,7 +269,7 @@ func (expr *multiplyDivideModuloExpression) Evaluate(ctx *EvalContext) (Value, e
 		}
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
@@ -498,7 +498,7 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 	}
 	if ret.Const {
-		expr.constValue = &ret
+		expr.constValue = ret
 	}
 	return ret, nil
 }
-- 
2.43.0


From 3ad168cdec1687f94a131bc7c1b6c20a4d994ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:50 +0000
Subject: [PATCH 07/55] fix: a concatenation with a non-constant list is not
 constant

---
 arithmeticeval.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index e40589e..0961025 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -478,7 +478,9 @@ func (expr *addOrSubtractExpression) Evaluate(ctx *EvalContext) (Value, error) {
 			}
 			switch operandValue := operand.Get().(type) {
 			case []Value:
-				ret = addlistlist(retValue, operandValue)
+				list := addlistlist(retValue, operandValue)
+				ret.Value = list.Value
+				ret.Const = ret.Const && list.Const
 			default:
 				err = ErrInvalidAdditiveOperation
 			}
-- 
2.43.0


From a1a22f71754a241fc2839a3caa2826c668175fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:43 +0000
Subject: [PATCH 08/55] fix: recognize the >= operator

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 6d4e117..ed54cd8 100644
--- a/ast.go
+++ b/ast.go
@@ -846,7 +846,7 @@ func oC_PartialComparisonExpression(ctx *parser.OC_PartialComparisonExpressionCo
 	for i := 0; i < ctx.GetChildCount(); i++ {
 		if tok, ok := ctx.GetChild(i).(antlr.TerminalNode); ok {
 			t := tok.GetText()
-			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == "=>" {
+			if t == "=" || t == "<>" || t == "<" || t == ">" || t == "<=" || t == ">=" {
 				ret.op = t
 			}
 		}
-- 
2.43.0


From 3cc76e09f16fd08f531fb8014c4c61fceda232e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:46 +0000
Subject: [PATCH 09/55] fix: integer comparison does not overflow

---
 relationaleval.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/relationaleval.go b/relationaleval.go
index c3eef27..5d8f1a6 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -27,7 +27,13 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 	case int:
 		switch value2 := v2.(type) {
 		case int:
-			return value1 - value2, nil
+			if value1 == value2 {
+				return 0, nil
+			}
+			if value1 < value2 {
+				return -1, nil
+			}
+			return 1, nil
 		case float64:
 			if float64(value1) == value2 {
 				return 0, nil
-- 
2.43.0


From 5250b0e5691b39b6334478aeec8d42cd990c5623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:48 +0000
Subject: [PATCH 10/55] fix: a later date, time or date-time compares greater

---
 relationaleval.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 5d8f1a6..5f7f0be 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -101,7 +101,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalTime:
 		if date, ok := v2.(LocalTime); ok {
@@ -113,7 +113,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	case LocalDateTime:
 		if date, ok := v2.(LocalDateTime); ok {
@@ -125,7 +125,7 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if t1.Before(t2) {
 				return -1, nil
 			}
-			return 0, nil
+			return 1, nil
 		}
 	}
 	return 0, ErrInvalidComparison
-- 
2.43.0


From 0112a3197f21ccc0cdc625270f71e0a0ee256ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:50 +0000
Subject: [PATCH 11/55] fix: order durations by months, days, seconds and
 nanoseconds

---
 relationaleval.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 5f7f0be..caab85c 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -77,14 +77,23 @@ func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 			if value1.Days == dur.Days && value1.Months == dur.Months && value1.Seconds == dur.Seconds && value1.Nanos == dur.Nanos {
 				return 0, nil
 			}
-			if value1.Days < dur.Days {
-				return -1, nil
+			if value1.Months != dur.Months {
+				if value1.Months < dur.Months {
+					return -1, nil
+				}
+				return 1, nil
 			}
-			if value1.Months < dur.Months {
-				return -1, nil
+			if value1.Days != dur.Days {
+				if value1.Days < dur.Days {
+					return -1, nil
+				}
+				return 1, nil
 			}
-			if value1.Seconds < dur.Seconds {
-				return -1, nil
+			if value1.Seconds != dur.Seconds {
+				if value1.Seconds < dur.Seconds {
+					return -1, nil
+				}
+				return 1, nil
 			}
 			if value1.Nanos < dur.Nanos {
 				return -1, nil
-- 
2.43.0


From 0d4f981d0ba6594f75241d35d1234387b6ab3220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:53 +0000
Subject: [PATCH 12/55] fix: NaN is not greater than other numbers

---
 relationaleval.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index caab85c..4b2c3c8 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -1,6 +1,15 @@
 package opencypher
 
-import ()
+import (
+	"math"
+)
+
+// isNaN returns true if the value is a float64 NaN, which is unordered
+// with every number
+func isNaN(v interface{}) bool {
+	f, ok := v.(float64)
+	return ok && math.IsNaN(f)
+}
 
 func comparePrimitiveValues(v1, v2 interface{}) (int, error) {
 	if v1 == nil {
@@ -163,6 +172,7 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		if err != nil {
 			return nil, err
 		}
+		unordered := isNaN(val.Get()) || isNaN(second.Get())
 		switch expr.second[i].op {
 		case "=":
 			ret.Value = result == 0
@@ -173,9 +183,9 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		case "<=":
 			ret.Value = result <= 0
 		case ">":
-			ret.Value = result > 0
+			ret.Value = result > 0 && !unordered
 		case ">=":
-			ret.Value = result >= 0
+			ret.Value = result >= 0 && !unordered
 		}
 		ret.Const = ret.Const && second.IsConst()
 	}
-- 
2.43.0


From de66bc96f95c0e2266edfdf1bf070e86cdec9e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:55 +0000
Subject: [PATCH 13/55] fix: a chained comparison compares each adjacent pair

---
 relationaleval.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index 4b2c3c8..f90fa6b 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -159,35 +159,43 @@ func (expr comparisonExpression) Evaluate(ctx *EvalContext) (Value, error) {
 	if val.Get() == nil {
 		return RValue{}, nil
 	}
-	ret := RValue{Value: val.Get(), Const: val.IsConst()}
+	// a op1 b op2 c is a op1 b AND b op2 c
+	left := val.Get()
+	ret := RValue{Value: true, Const: val.IsConst()}
 	for i := range expr.second {
 		second, err := expr.second[i].expr.Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
-		if second.Get() == nil {
+		right := second.Get()
+		if right == nil {
 			return RValue{}, nil
 		}
-		result, err := comparePrimitiveValues(val.Get(), second.Get())
+		result, err := comparePrimitiveValues(left, right)
 		if err != nil {
 			return nil, err
 		}
-		unordered := isNaN(val.Get()) || isNaN(second.Get())
+		unordered := isNaN(left) || isNaN(right)
+		var holds bool
 		switch expr.second[i].op {
 		case "=":
-			ret.Value = result == 0
+			holds = result == 0
 		case "<>":
-			ret.Value = result != 0
+			holds = result != 0
 		case "<":
-			ret.Value = result < 0
+			holds = result < 0
 		case "<=":
-			ret.Value = result <= 0
+			holds = result <= 0
 		case ">":
-			ret.Value = result > 0 && !unordered
+			holds = result > 0 && !unordered
 		case ">=":
-			ret.Value = result >= 0 && !unordered
+			holds = result >= 0 && !unordered
+		}
+		if !holds {
+			ret.Value = false
 		}
 		ret.Const = ret.Const && second.IsConst()
+		left = right
 	}
 	return ret, nil
 }
-- 
2.43.0


From 850f2a950d2f2a881c85c31896cbce1d8a201830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:21 +0000
Subject: [PATCH 14/55] fix: AND and OR follow three-valued logic with null
 operands

---
 relationaleval.go | 60 +++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/relationaleval.go b/relationaleval.go
index f90fa6b..6b80359 100644
--- a/relationaleval.go
+++ b/relationaleval.go
@@ -216,31 +216,25 @@ func (expr notExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr andExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	// A false operand decides the result, otherwise a null operand makes it null
+	ret := RValue{Value: true, Const: true}
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
+		ret.Const = ret.Const && val.IsConst()
 		if val.Get() == nil {
-			return RValue{}, nil
+			ret.Value = nil
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval && vval
-			if !bval || !vval {
-				break
-			}
+		vval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		if !vval {
+			ret.Value = false
+			break
 		}
 	}
 	return ret, nil
@@ -275,31 +269,25 @@ func (expr xorExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (expr orExpression) Evaluate(ctx *EvalContext) (Value, error) {
-	var ret RValue
+	// A true operand decides the result, otherwise a null operand makes it null
+	ret := RValue{Value: false, Const: true}
 	for i := range expr.parts {
 		val, err := expr.parts[i].Evaluate(ctx)
 		if err != nil {
 			return nil, err
 		}
+		ret.Const = ret.Const && val.IsConst()
 		if val.Get() == nil {
-			return RValue{}, nil
+			ret.Value = nil
+			continue
 		}
-		if i == 0 {
-			ret = RValue{Value: val.Get(), Const: val.IsConst()}
-		} else {
-			bval, ok := ret.Value.(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			vval, ok := val.Get().(bool)
-			if !ok {
-				return nil, ErrNotABooleanExpression
-			}
-			ret.Const = ret.Const && val.IsConst()
-			ret.Value = bval || vval
-			if bval || vval {
-				break
-			}
+		vval, ok := val.Get().(bool)
+		if !ok {
+			return nil, ErrNotABooleanExpression
+		}
+		if vval {
+			ret.Value = true
+			break
 		}
 	}
 	return ret, nil
-- 
2.43.0


From e15effa11a8afb078ccb3f895dd2c21900b8b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:23 +0000
Subject: [PATCH 15/55] fix: IN accepts a list on its right side

---
 eval.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index b13ff57..f386c57 100644
--- a/eval.go
+++ b/eval.go
@@ -123,10 +123,11 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 			return nil, err
 		}
 		list, ok := listValue.Get().([]Value)
-		if ok {
+		if !ok {
 			if listValue.Get() != nil {
 				return nil, ErrNotAList
 			}
+			return RValue{}, nil
 		}
 		if inputValue.Get() == nil {
 			return RValue{}, nil
-- 
2.43.0


From ff64ae426a3251cc7e585d63b873cde8be0a1f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:26 +0000
Subject: [PATCH 16/55] fix: null never selects a CASE alternative

---
 eval.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eval.go b/eval.go
index f386c57..8de5c64 100644
--- a/eval.go
+++ b/eval.go
@@ -352,6 +352,10 @@ func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
 			return nil, err
 		}
 		if cs.test != nil {
+			// null is not equal to anything
+			if testValue.Get() == nil || when.Get() == nil {
+				continue
+			}
 			result, err := comparePrimitiveValues(testValue.Get(), when.Get())
 			if err != nil {
 				return nil, err
@@ -360,6 +364,9 @@ func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
 				return alternative.then.Evaluate(ctx)
 			}
 		} else {
+			if when.Get() == nil {
+				continue
+			}
 			boolValue, ok := when.Get().(bool)
 			if !ok {
 				return nil, ErrNotABooleanExpression
-- 
2.43.0


From cc2e1705986eed7eeaf428e0919c817d56f4f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 17/55] fix: list slices reach the end of the list and accept
 missing bounds

---
 ast.go  | 25 ++++++++++++++++------
 eval.go | 66 +++++++++++++++++++++++++++++++++------------------------
 2 files changed, 56 insertions(+), 35 deletions(-)

diff --git a/ast.go b/ast.go
index ed54cd8..76ec8d3 100644
--- a/ast.go
+++ b/ast.go
@@ -789,17 +789,28 @@ func oC_ListOperatorExpression(ctx *parser.OC_ListOperatorExpressionContext) str
 			listIn: oC_PropertyOrLabelsExpression(x.(*parser.OC_PropertyOrLabelsExpressionContext)),
 		}
 	}
-	expr := ctx.AllOC_Expression()
-	if len(expr) == 1 {
+	var lst *listRangeExpression
+	var expr Expression
+	for i := 0; i < ctx.GetChildCount(); i++ {
+		switch ch := ctx.GetChild(i).(type) {
+		case antlr.TerminalNode:
+			if ch.GetText() == ".." {
+				lst = &listRangeExpression{first: expr}
+				expr = nil
+			}
+		case *parser.OC_ExpressionContext:
+			expr = oC_Expression(ch)
+		}
+	}
+	if lst == nil {
 		return stringListNullOperatorExpressionPart{
-			listIndex: oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
+			listIndex: expr,
 		}
 	}
+	lst.second = expr
 	return stringListNullOperatorExpressionPart{
-		listRange: &listRangeExpression{
-			first:  oC_Expression(expr[0].(*parser.OC_ExpressionContext)),
-			second: oC_Expression(expr[1].(*parser.OC_ExpressionContext)),
-		}}
+		listRange: lst,
+	}
 }
 
 func oC_StringOperatorExpression(ctx *parser.OC_StringOperatorExpressionContext) stringListNullOperatorExpressionPart {
diff --git a/eval.go b/eval.go
index 8de5c64..a8a2faf 100644
--- a/eval.go
+++ b/eval.go
@@ -159,42 +159,52 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 				return nil, ErrNotAList
 			}
 		}
-		from, err := expr.listRange.first.Evaluate(ctx)
-		if err != nil {
-			return nil, err
-		}
-		if from.Get() == nil {
-			return RValue{}, nil
-		}
-		if !from.IsConst() {
-			constant = false
-		}
-		fromi, ok := from.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
-		}
-		to, err := expr.listRange.second.Evaluate(ctx)
-		if err != nil {
-			return nil, err
-		}
-		if to.Get() == nil {
+		if inputValue.Get() == nil {
 			return RValue{}, nil
 		}
-		if !to.IsConst() {
-			constant = false
+		// Missing bounds are the ends of the list
+		fromi := 0
+		toi := len(listValue)
+		if expr.listRange.first != nil {
+			from, err := expr.listRange.first.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
+			if from.Get() == nil {
+				return RValue{}, nil
+			}
+			if !from.IsConst() {
+				constant = false
+			}
+			fromi, ok = from.Get().(int)
+			if !ok {
+				return nil, ErrInvalidListIndex
+			}
 		}
-		toi, ok := to.Get().(int)
-		if !ok {
-			return nil, ErrInvalidListIndex
+		if expr.listRange.second != nil {
+			to, err := expr.listRange.second.Evaluate(ctx)
+			if err != nil {
+				return nil, err
+			}
+			if to.Get() == nil {
+				return RValue{}, nil
+			}
+			if !to.IsConst() {
+				constant = false
+			}
+			toi, ok = to.Get().(int)
+			if !ok {
+				return nil, ErrInvalidListIndex
+			}
 		}
 		if fromi < 0 || toi < 0 {
 			return nil, ErrInvalidListIndex
 		}
-		if fromi >= len(listValue) {
-			fromi = len(listValue) - 1
+		if fromi > len(listValue) {
+			fromi = len(listValue)
 		}
-		if toi >= len(listValue) {
-			toi = len(listValue) - 1
+		if toi > len(listValue) {
+			toi = len(listValue)
 		}
 		if fromi > toi {
 			fromi = toi
-- 
2.43.0


From 0640cce8ddd9390fa9fab1497cb09d868c318040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:06 +0000
Subject: [PATCH 18/55] fix: an element of a non-constant list is not constant

---
 eval.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/eval.go b/eval.go
index a8a2faf..1980daf 100644
--- a/eval.go
+++ b/eval.go
@@ -105,17 +105,18 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 		if listValue == nil {
 			return RValue{}, nil
 		}
-		if intValue >= 0 {
-			if intValue >= len(listValue) {
-				return RValue{}, nil
-			}
-			return listValue[intValue], nil
+		if intValue < 0 {
+			intValue += len(listValue)
 		}
-		index := len(listValue) + intValue
-		if index < 0 {
+		if intValue < 0 || intValue >= len(listValue) {
 			return RValue{}, nil
 		}
-		return listValue[index], nil
+		// The element is constant only if it is selected from a constant list by a constant index
+		elem := listValue[intValue]
+		return RValue{
+			Value: elem.Get(),
+			Const: inputValue.IsConst() && indexValue.IsConst() && elem.IsConst(),
+		}, nil
 
 	case expr.listIn != nil:
 		listValue, err := expr.listIn.Evaluate(ctx)
-- 
2.43.0


From 86655c9e07225f2eebcba25a57027cbf4efb421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:08 +0000
Subject: [PATCH 19/55] fix: toIntegerOrNull returns null for values that are
 not integers

---
 scalarfuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalarfuncs.go b/scalarfuncs.go
index 85e7239..f902077 100644
--- a/scalarfuncs.go
+++ b/scalarfuncs.go
@@ -16,7 +16,7 @@ func init() {
 		Name:      "toIntegerOrNull",
 		MinArgs:   1,
 		MaxArgs:   1,
-		ValueFunc: toIntegerFunc,
+		ValueFunc: toIntegerOrNullFunc,
 	}
 	globalFuncs["toFloatOrNull"] = Function{
 		Name:      "toFloatOrNull",
-- 
2.43.0


From e95d720f9cb47f37356e375ee25d89682cf15367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:11 +0000
Subject: [PATCH 20/55] fix: range includes its end and terminates at the
 integer limits

---
 functions.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/functions.go b/functions.go
index c903aca..6e2632d 100644
--- a/functions.go
+++ b/functions.go
@@ -79,18 +79,19 @@ func rangeFunc(ctx *EvalContext, args []Value) (Value, error) {
 			return nil, err
 		}
 	}
-	if (end <= start && skip > 0) || (end >= start && skip < 0) || skip == 0 {
-		return RValue{Value: []Value{}}, nil
-	}
 	arr := make([]Value, 0)
-	if end > start {
-		for at := start; at < end; at += skip {
-			arr = append(arr, RValue{Value: at})
-		}
-	} else {
-		for at := start; at > end; at += skip {
-			arr = append(arr, RValue{Value: at})
+	if skip == 0 {
+		return RValue{Value: arr}, nil
+	}
+	// Both ends are inclusive
+	for at := start; (skip > 0 && at <= end) || (skip < 0 && at >= end); {
+		arr = append(arr, RValue{Value: at})
+		next := at + skip
+		if (next > at) != (skip > 0) {
+			// No more integers in this direction
+			break
 		}
+		at = next
 	}
 	return RValue{Value: arr}, nil
 }
-- 
2.43.0


From 11dda63e9637ac9deaca49b0498a94d02ceceb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:14 +0000
Subject: [PATCH 21/55] fix: labels returns a list value

---
 functions.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/functions.go b/functions.go
index 6e2632d..88de6f9 100644
--- a/functions.go
+++ b/functions.go
@@ -104,7 +104,12 @@ func labelsFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if !ok {
 		return nil, fmt.Errorf("Not a node")
 	}
-	return RValue{Value: node.GetLabels().Slice()}, nil
+	labels := node.GetLabels().Slice()
+	ret := make([]Value, 0, len(labels))
+	for _, label := range labels {
+		ret = append(ret, RValue{Value: label})
+	}
+	return RValue{Value: ret}, nil
 }
 
 func timestampFunc(ctx *EvalContext, args []Value) (Value, error) {
-- 
2.43.0


From 476865dbacc4839344f008f7a33ef3fdb0e8d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:17 +0000
Subject: [PATCH 22/55] fix: string functions count characters and right
 returns the end of the string

---
 functions.go   |  3 ++-
 stringfuncs.go | 44 ++++++++++++++++++++++++++------------------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/functions.go b/functions.go
index 88de6f9..8b37dfd 100644
--- a/functions.go
+++ b/functions.go
@@ -3,6 +3,7 @@ package opencypher
 import (
 	"fmt"
 	"time"
+	"unicode/utf8"
 
 	"github.com/cloudprivacylabs/lpg/v2"
 )
@@ -137,7 +138,7 @@ func sizeFunc(ctx *EvalContext, args []Value) (Value, error) {
 		return RValue{Value: len(arr)}, nil
 	}
 	if str, ok := val.(string); ok {
-		return RValue{Value: len(str)}, nil
+		return RValue{Value: utf8.RuneCountInString(str)}, nil
 	}
 	return RValue{}, nil
 }
diff --git a/stringfuncs.go b/stringfuncs.go
index 6c7a905..87fd637 100644
--- a/stringfuncs.go
+++ b/stringfuncs.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 func init() {
@@ -57,6 +58,18 @@ func init() {
 	}
 }
 
+// charOffset returns the byte offset of the n'th character of s,
+// clipped to the string
+func charOffset(s string, n int) int {
+	for i := range s {
+		if n <= 0 {
+			return i
+		}
+		n--
+	}
+	return len(s)
+}
+
 func splitFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if args[0].Get() == nil {
 		return RValue{}, nil
@@ -125,10 +138,14 @@ func rightFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("In right: %s", err)
 	}
-	if i < 0 || i > len(s) {
-		return RValue{Value: ""}, nil
+	n := utf8.RuneCountInString(s)
+	if i < 0 {
+		i = 0
 	}
-	return RValue{Value: s[i:]}, nil
+	if i > n {
+		i = n
+	}
+	return RValue{Value: s[charOffset(s, n-i):]}, nil
 }
 
 func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
@@ -143,10 +160,7 @@ func leftFunc(ctx *EvalContext, args []Value) (Value, error) {
 	if err != nil {
 		return nil, fmt.Errorf("In left: %w", err)
 	}
-	if i < 0 || i > len(s) {
-		return RValue{Value: ""}, nil
-	}
-	return RValue{Value: s[:i]}, nil
+	return RValue{Value: s[:charOffset(s, i)]}, nil
 }
 
 func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
@@ -174,20 +188,14 @@ func substringFunc(ctx *EvalContext, args []Value) (Value, error) {
 			return RValue{}, nil
 		}
 	}
-	if start < 0 || start > len(s) {
+	if start < 0 {
 		return RValue{Value: ""}, nil
 	}
-	var end int
-	if max == -1 {
-		end = len(s)
-	} else {
-		end = start + max
-	}
-
-	if end > len(s) {
-		end = len(s)
+	s = s[charOffset(s, start):]
+	if max != -1 {
+		s = s[:charOffset(s, max)]
 	}
-	return RValue{Value: s[start:end]}, nil
+	return RValue{Value: s}, nil
 }
 
 func printFunc(ctx *EvalContext, args []Value) (Value, error) {
-- 
2.43.0


From 2c18b04aab797315232299320d8e15ffb917d800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:40 +0000
Subject: [PATCH 23/55] fix: characters the lexer rejects are syntax errors

---
 lang.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lang.go b/lang.go
index e4a400b..21d3bcf 100644
--- a/lang.go
+++ b/lang.go
@@ -29,18 +29,27 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 
 // GetParser returns a parser that will parse the input string
 func GetParser(input string) *parser.CypherParser {
+	return getParser(input)
+}
+
+// getParser returns a parser that will parse the input string, with
+// the lexer and the parser reporting to the given error listeners
+func getParser(input string, listeners ...antlr.ErrorListener) *parser.CypherParser {
 	lexer := parser.NewCypherLexer(antlr.NewInputStream(input))
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewCypherParser(stream)
 	p.BuildParseTrees = true
+	for _, l := range listeners {
+		lexer.AddErrorListener(l)
+		p.AddErrorListener(l)
+	}
 	return p
 }
 
 // GetEvaluatable returns an evaluatable object
 func Parse(input string) (Evaluatable, error) {
-	pr := GetParser(input)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	pr := getParser(input, &errListener)
 	c := pr.OC_Cypher()
 	if errListener.err != nil {
 		return nil, fmt.Errorf("%w, input: %s", errListener.err, input)
@@ -72,9 +81,8 @@ func ParseAndEvaluate(input string, ctx *EvalContext) (Value, error) {
 // will start from the current node, go back one nore following an
 // edge with label `a`, and then move to a node with label `x`
 func ParsePatternExpr(expr string) (PatternPart, error) {
-	pr := GetParser(expr)
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
+	pr := getParser(expr, &errListener)
 	c := pr.OC_PatternPart()
 	if errListener.err != nil {
 		return PatternPart{}, errListener.err
-- 
2.43.0


From 5e6f323a150142ec6dcb104dcbac96897686e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:42 +0000
Subject: [PATCH 24/55] fix: report number literals that do not fit as errors

---
 lang.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lang.go b/lang.go
index 21d3bcf..2a7c111 100644
--- a/lang.go
+++ b/lang.go
@@ -2,6 +2,7 @@ package opencypher
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 	"github.com/cloudprivacylabs/lpg/v2"
@@ -46,8 +47,21 @@ func getParser(input string, listeners ...antlr.ErrorListener) *parser.CypherPar
 	return p
 }
 
+// recoverLiteralError converts the panic raised for a number literal
+// that cannot be represented to an error
+func recoverLiteralError(err *error) {
+	if r := recover(); r != nil {
+		numErr, ok := r.(*strconv.NumError)
+		if !ok {
+			panic(r)
+		}
+		*err = ErrSyntax("Invalid number literal: " + numErr.Error())
+	}
+}
+
 // GetEvaluatable returns an evaluatable object
-func Parse(input string) (Evaluatable, error) {
+func Parse(input string) (evaluatable Evaluatable, err error) {
+	defer recoverLiteralError(&err)
 	errListener := errorListener{}
 	pr := getParser(input, &errListener)
 	c := pr.OC_Cypher()
@@ -80,7 +94,8 @@ func ParseAndEvaluate(input string, ctx *EvalContext) (Value, error) {
 //
 // will start from the current node, go back one nore following an
 // edge with label `a`, and then move to a node with label `x`
-func ParsePatternExpr(expr string) (PatternPart, error) {
+func ParsePatternExpr(expr string) (pattern PatternPart, err error) {
+	defer recoverLiteralError(&err)
 	errListener := errorListener{}
 	pr := getParser(expr, &errListener)
 	c := pr.OC_PatternPart()
-- 
2.43.0


From 41eba3426b7c25b6052690e38f789f213aa46a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:45 +0000
Subject: [PATCH 25/55] fix: decode escape sequences in string literals

---
 ast.go     |  2 +-
 literal.go | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 76ec8d3..91dd49a 100644
--- a/ast.go
+++ b/ast.go
@@ -1296,7 +1296,7 @@ func oC_Literal(ctx *parser.OC_LiteralContext) Evaluatable {
 	}
 	if s := ctx.StringLiteral(); s != nil {
 		text := s.GetText()
-		return stringLiteral(text[1 : len(text)-1])
+		return stringLiteral(unescapeStringLiteral(text[1 : len(text)-1]))
 	}
 	if b := ctx.OC_BooleanLiteral(); b != nil {
 		return oC_BooleanLiteral(b.(*parser.OC_BooleanLiteralContext))
diff --git a/literal.go b/literal.go
index 8d03a98..bce63e1 100644
--- a/literal.go
+++ b/literal.go
@@ -1,6 +1,7 @@
 package opencypher
 
 import (
+	"strconv"
 	"strings"
 )
 
@@ -144,3 +145,51 @@ func EscapeStringLiteral(s string) string {
 	bld.WriteRune('"')
 	return bld.String()
 }
+
+// unescapeStringLiteral returns the string denoted by the text between
+// the quotes of a string literal
+func unescapeStringLiteral(s string) string {
+	bld := strings.Builder{}
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' || i+1 == len(s) {
+			bld.WriteByte(s[i])
+			continue
+		}
+		i++
+		switch s[i] {
+		case 'b', 'B':
+			bld.WriteByte('\b')
+		case 'f', 'F':
+			bld.WriteByte('\f')
+		case 'n', 'N':
+			bld.WriteByte('\n')
+		case 'r', 'R':
+			bld.WriteByte('\r')
+		case 't', 'T':
+			bld.WriteByte('\t')
+		case 'u', 'U':
+			// \uXXXX or \UXXXXXXXX
+			digits := 4
+			if s[i] == 'U' {
+				digits = 8
+			}
+			code, err := uint64(0), strconv.ErrSyntax
+			for ; err != nil && digits >= 4; digits -= 4 {
+				if i+digits < len(s) {
+					code, err = strconv.ParseUint(s[i+1:i+1+digits], 16, 32)
+					if err == nil {
+						bld.WriteRune(rune(code))
+						i += digits
+					}
+				}
+			}
+			if err != nil {
+				bld.WriteByte(s[i])
+			}
+		default:
+			// Backslash and quotes
+			bld.WriteByte(s[i])
+		}
+	}
+	return bld.String()
+}
-- 
2.43.0


From 79bdfb788add6a9def6413293c8231e0baa281be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:17 +0000
Subject: [PATCH 26/55] fix: backticks in escaped names are doubled

---
 ast.go     | 3 ++-
 literal.go | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index 91dd49a..4ba999e 100644
--- a/ast.go
+++ b/ast.go
@@ -885,7 +885,8 @@ func oC_SchemaName(ctx *parser.OC_SchemaNameContext) schemaName {
 func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 	if node := ctx.EscapedSymbolicName(); node != nil {
 		text := node.GetText()
-		return symbolicName(text[1 : len(text)-1])
+		// `` denotes a backtick in an escaped name
+		return symbolicName(strings.ReplaceAll(text[1:len(text)-1], "``", "`"))
 	}
 	return symbolicName(ctx.GetText())
 }
diff --git a/literal.go b/literal.go
index bce63e1..716ced1 100644
--- a/literal.go
+++ b/literal.go
@@ -115,15 +115,15 @@ func (r *rangeLiteral) Evaluate(ctx *EvalContext) (from, to *int, err error) {
 }
 
 // EscapeLabelLiteral escape a literal that can be used as a label. It
-// returns `s`
+// returns `s`, with the backticks in s doubled
 func EscapeLabelLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapePropertyKeyLiteral escapes a literal that can be used as a
-// property key. Returns `s`
+// property key. Returns `s`, with the backticks in s doubled
 func EscapePropertyKeyLiteral(s string) string {
-	return "`" + s + "`"
+	return "`" + strings.ReplaceAll(s, "`", "``") + "`"
 }
 
 // EscapeStringLiteral returns "s" where backslashes and quotes in s
-- 
2.43.0


From 915bd6df547198a94c835f5454f6418f6be7d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:43 +0000
Subject: [PATCH 27/55] fix: IsValueSame recognizes equal primitives, nulls,
 edges and paths

---
 value.go | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/value.go b/value.go
index bbafe07..36b87ff 100644
--- a/value.go
+++ b/value.go
@@ -151,7 +151,7 @@ func IsValueSame(v, v2 Value) bool {
 	if IsValuePrimitive(v) {
 		if IsValuePrimitive(v2) {
 			eq, err := comparePrimitiveValues(v.Get(), v2.Get())
-			return err != nil && eq == 0
+			return err == nil && eq == 0
 		}
 		return false
 	}
@@ -214,19 +214,50 @@ func IsValueSame(v, v2 Value) bool {
 		return val1 == val2
 
 	case *lpg.Path:
-		val2, ok := v2.Get().([]*lpg.Path)
+		val2, ok := v2.Get().(*lpg.Path)
 		if !ok {
 			return false
 		}
-		if val1.NumEdges() != val1.NumEdges() {
+		if val1 == val2 {
+			return true
+		}
+		if val1 == nil || val2 == nil || val1.NumEdges() != val2.NumEdges() {
+			return false
+		}
+		if val1.First() != val2.First() {
 			return false
 		}
 		for i := 0; i < val1.NumEdges(); i++ {
-			if val1.Slice(i, -1) != val2[i] {
+			if val1.GetEdge(i) != val2.GetEdge(i) {
+				return false
+			}
+		}
+		return true
+
+	case *lpg.Edge:
+		val2, ok := v2.Get().(*lpg.Edge)
+		if !ok {
+			return false
+		}
+		return val1 == val2
+
+	case []*lpg.Edge:
+		val2, ok := v2.Get().([]*lpg.Edge)
+		if !ok {
+			return false
+		}
+		if len(val1) != len(val2) {
+			return false
+		}
+		for i := range val1 {
+			if val1[i] != val2[i] {
 				return false
 			}
 		}
 		return true
+
+	case nil:
+		return v2.Get() == nil
 	}
 	return false
 }
-- 
2.43.0


From 1437420c8d18bc3118dd1fb1fbdf270f0bae729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:46 +0000
Subject: [PATCH 28/55] fix: UNION compares rows with different columns as
 different

---
 resultset.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resultset.go b/resultset.go
index caebf61..7e97ac4 100644
--- a/resultset.go
+++ b/resultset.go
@@ -59,11 +59,12 @@ func isCompatibleRow(row1, row2 map[string]Value) error {
 func (r *ResultSet) find(row map[string]Value) int {
 	for index, r := range r.Rows {
 		if len(r) != len(row) {
-			break
+			continue
 		}
 		found := true
 		for i := range r {
-			if !IsValueSame(r[i], row[i]) {
+			value, ok := row[i]
+			if !ok || !IsValueSame(r[i], value) {
 				found = false
 				break
 			}
-- 
2.43.0


From 542ef83631e7225f31f3be399b0727a671b68f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:49 +0000
Subject: [PATCH 29/55] fix: UNION removes duplicate rows of its left side

---
 resultset.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resultset.go b/resultset.go
index 7e97ac4..91a6e39 100644
--- a/resultset.go
+++ b/resultset.go
@@ -128,6 +128,16 @@ func (r *ResultSet) Add(rs ResultSet) {
 
 // Union adds the src resultset to this. If all is set, it adds all rows, otherwise, it adds unique rows
 func (r *ResultSet) Union(src ResultSet, all bool) error {
+	if !all {
+		// The rows that are already here must be unique as well
+		rows := r.Rows
+		r.Rows = make([]map[string]Value, 0, len(rows))
+		for _, row := range rows {
+			if r.find(row) == -1 {
+				r.Rows = append(r.Rows, row)
+			}
+		}
+	}
 	for _, sourceRow := range src.Rows {
 		appnd := all
 		if !appnd && r.find(sourceRow) == -1 {
-- 
2.43.0


From 294db6a0cae79c9dc9c9d3c87a49586d1f2d96bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:17 +0000
Subject: [PATCH 30/55] fix: Cartesian products of nothing terminate

---
 resultset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resultset.go b/resultset.go
index 91a6e39..8a11a44 100644
--- a/resultset.go
+++ b/resultset.go
@@ -167,7 +167,7 @@ func (r ResultSet) String() string {
 // returns false. The map passed to f is reused, so copy if you need a
 // copy of it.
 func (r ResultSet) CartesianProduct(f func(map[string]Value) bool) bool {
-	if len(r.Rows) == 0 {
+	if len(r.Rows) == 0 || len(r.Rows[0]) == 0 {
 		return true
 	}
 	ctr := make([]int, len(r.Rows[0]))
@@ -206,6 +206,9 @@ func (r ResultSet) CartesianProduct(f func(map[string]Value) bool) bool {
 func CartesianProduct(resultsets []ResultSet, all bool, filter func(map[string]Value) bool) ResultSet {
 	ctr := make([]int, len(resultsets))
 	result := *NewResultSet()
+	if len(resultsets) == 0 {
+		return result
+	}
 	for {
 		data := make(map[string]Value)
 		for i := range ctr {
-- 
2.43.0


From b7440a6bb9cee2465210fa70652447b923f3dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:20 +0000
Subject: [PATCH 31/55] fix: an empty variable name is not a named variable

---
 ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx.go b/ctx.go
index fcca709..98bcfb5 100644
--- a/ctx.go
+++ b/ctx.go
@@ -132,12 +132,12 @@ func (ctx *EvalContext) RemoveVar(name string) {
 
 func (ctx *EvalContext) SetVars(m map[string]Value) {
 	for k, v := range m {
-		if !unicode.IsDigit(rune(k[0])) {
+		if IsNamedVar(k) {
 			ctx.SetVar(k, v)
 		}
 	}
 }
 
 func IsNamedVar(name string) bool {
-	return !unicode.IsDigit(rune(name[0]))
+	return len(name) > 0 && !unicode.IsDigit(rune(name[0]))
 }
-- 
2.43.0


From d1a7433bcd1cd715498b6f8ae8802452028ede30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:22 +0000
Subject: [PATCH 32/55] fix: property of an empty list of edges is an error

---
 eval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval.go b/eval.go
index 1980daf..6599913 100644
--- a/eval.go
+++ b/eval.go
@@ -279,7 +279,7 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 					ok = true
 				}
 			}
-			if edges, k := val.Value.([]*lpg.Edge); k {
+			if edges, k := val.Value.([]*lpg.Edge); k && len(edges) > 0 {
 				wp = edges[0]
 				ok = true
 			}
-- 
2.43.0


From a8d4c0089f1906635652568ad2ec13268caed83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:06 +0000
Subject: [PATCH 33/55] fix: reading a property of an unsupported type is an
 error

---
 eval.go  | 18 +++++++++++++---
 value.go | 64 +++++++++++++++++++++++++++++++++-----------------------
 2 files changed, 53 insertions(+), 29 deletions(-)

diff --git a/eval.go b/eval.go
index 6599913..1c83e9b 100644
--- a/eval.go
+++ b/eval.go
@@ -50,6 +50,15 @@ func (e ErrValueDoesNotHaveProperties) Error() string {
 	return fmt.Sprintf("Value does not have properties: %v property: %s", e.Value, e.Property)
 }
 
+type ErrInvalidPropertyValue struct {
+	Value    interface{}
+	Property string
+}
+
+func (e ErrInvalidPropertyValue) Error() string {
+	return fmt.Sprintf("Property value cannot be used in an expression: %v (%T) property: %s", e.Value, e.Value, e.Property)
+}
+
 type ErrInvalidIndirection string
 
 func (e ErrInvalidIndirection) Error() string { return "Invalid indirection: " + string(e) }
@@ -290,10 +299,13 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 				return RValue{}, nil
 			}
 			if n, ok := prop.(withNativeValue); ok {
-				val = ValueOf(n.GetNativeValue()).(RValue)
-			} else {
-				val = ValueOf(prop).(RValue)
+				prop = n.GetNativeValue()
+			}
+			propValue, ok := valueOf(prop)
+			if !ok {
+				return nil, ErrInvalidPropertyValue{Value: prop, Property: property.String()}
 			}
+			val = RValue{Value: propValue.Get()}
 		} else {
 			return nil, ErrValueDoesNotHaveProperties{Value: val.Value, Property: property.String()}
 		}
diff --git a/value.go b/value.go
index 36b87ff..f498326 100644
--- a/value.go
+++ b/value.go
@@ -89,61 +89,73 @@ func ValueAsBool(v Value) (bool, bool) {
 	return false, false
 }
 
+// ValueOf converts a native value to a Value. It panics if the native
+// value is not one of the supported types.
 func ValueOf(in interface{}) Value {
+	v, ok := valueOf(in)
+	if !ok {
+		panic(fmt.Sprintf("Invalid value: %v %T", in, in))
+	}
+	return v
+}
+
+// valueOf converts a native value to a Value. It returns false if the
+// native value is not one of the supported types.
+func valueOf(in interface{}) (Value, bool) {
 	if in == nil {
-		return RValue{}
+		return RValue{}, true
 	}
 	switch v := in.(type) {
 	case Value:
-		return v
+		return v, true
 	case int8:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case int16:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case int32:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case int64:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case int:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case uint8:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case uint16:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case uint32:
-		return RValue{Value: int(v)}
+		return RValue{Value: int(v)}, true
 	case string:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case bool:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case float64:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case float32:
-		return RValue{Value: float64(v)}
+		return RValue{Value: float64(v)}, true
 	case Duration:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case Date:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case LocalDateTime:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case LocalTime:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case *lpg.Node:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case []*lpg.Edge:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case []Value:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case map[string]Value:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case lpg.StringSet:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case lpg.PathElement:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	case *lpg.Path:
-		return RValue{Value: v}
+		return RValue{Value: v}, true
 	}
-	panic(fmt.Sprintf("Invalid value: %v %T", in, in))
+	return nil, false
 }
 
 // IsValueSame compares two values and decides if the two are the same
-- 
2.43.0


From 6fcde15b57e39f77352f4d793ccbc21510619610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:39 +0000
Subject: [PATCH 34/55] fix: SET runs once for each row

---
 update.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/update.go b/update.go
index 52b5824..768335e 100644
--- a/update.go
+++ b/update.go
@@ -7,20 +7,14 @@ import (
 )
 
 func (s *set) Update(ctx *EvalContext, result ResultSet) (Value, error) {
-	// Work on the cartesian product of result columns
-	var err error
-	subctx := ctx.SubContext()
-	result.CartesianProduct(func(data map[string]Value) bool {
-		subctx.SetVars(data)
+	for _, row := range result.Rows {
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
 		for i := range s.items {
-			if err = s.items[i].update(subctx, data, result); err != nil {
-				return false
+			if err := s.items[i].update(subctx, row, result); err != nil {
+				return nil, err
 			}
 		}
-		return true
-	})
-	if err != nil {
-		return nil, err
 	}
 	return RValue{Value: result}, nil
 }
-- 
2.43.0


From 02f82474e3170dbd24de2ffa134a163110b44541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:41 +0000
Subject: [PATCH 35/55] fix: SET reports unknown variables and does not store
 null properties

---
 update.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/update.go b/update.go
index 768335e..9c8b16d 100644
--- a/update.go
+++ b/update.go
@@ -46,6 +46,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 	}
 
 	value, err := s.variable.Evaluate(ctx)
+	if err != nil {
+		return err
+	}
 	lvalue, ok := value.(LValue)
 	if !ok {
 		return ErrNotAnLValue
@@ -85,6 +88,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 				v.RemoveProperty(p)
 			}
 			for key, val := range sourceProps {
+				if val == nil {
+					continue
+				}
 				v.SetProperty(key, ctx.PropertyValueFromNative(key, val))
 			}
 		default:
-- 
2.43.0


From 6534ab18c02874b54e12b3518d0fe4bd5c82a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:44 +0000
Subject: [PATCH 36/55] fix: CREATE and MERGE do not store null properties

---
 patterneval.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index 356f4d9..ca02257 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -317,7 +317,10 @@ func (p *Properties) getPropertiesMap(ctx *EvalContext) (map[string]interface{},
 		}
 		properties = make(map[string]interface{})
 		for k, v := range propertiesAsValue {
-			properties[k] = v.Get()
+			// A null property is the same as no property
+			if value := v.Get(); value != nil {
+				properties[k] = value
+			}
 		}
 	}
 	return properties, nil
-- 
2.43.0


From f86615bad2e1f9b9246a9e5b812280e6c015556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:08 +0000
Subject: [PATCH 37/55] fix: DELETE removes each element once, relationships
 before nodes

---
 update.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/update.go b/update.go
index 9c8b16d..592f240 100644
--- a/update.go
+++ b/update.go
@@ -132,6 +132,11 @@ func (deleteClause) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 
 func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 	subctx := ctx.SubContext()
+	// Collect all the elements first, because the same element can appear multiple times
+	nodes := make([]*lpg.Node, 0)
+	seenNodes := make(map[*lpg.Node]struct{})
+	edges := make([]*lpg.Edge, 0)
+	seenEdges := make(map[*lpg.Edge]struct{})
 	for _, row := range result.Rows {
 		subctx.SetVars(row)
 		for _, expr := range d.exprs {
@@ -144,21 +149,38 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 			}
 			switch item := v.Get().(type) {
 			case *lpg.Node:
-				if item.GetEdges(lpg.OutgoingEdge).Next() || item.GetEdges(lpg.IncomingEdge).Next() {
-					// Must have detach
-					if !d.detach {
-						return nil, fmt.Errorf("Cannot delete attached node")
-					}
+				if _, seen := seenNodes[item]; !seen {
+					seenNodes[item] = struct{}{}
+					nodes = append(nodes, item)
 				}
-				item.DetachAndRemove()
 
 			case *lpg.Path:
 				for i := 0; i < item.NumEdges(); i++ {
-					item.GetEdge(i).Remove()
+					edge := item.GetEdge(i)
+					if _, seen := seenEdges[edge]; !seen {
+						seenEdges[edge] = struct{}{}
+						edges = append(edges, edge)
+					}
+				}
+			}
+		}
+	}
+	if !d.detach {
+		for _, node := range nodes {
+			for itr := node.GetEdges(lpg.AnyEdge); itr.Next(); {
+				if _, deleted := seenEdges[itr.Edge()]; !deleted {
+					// Must have detach
+					return nil, fmt.Errorf("Cannot delete attached node")
 				}
 			}
 		}
 	}
+	for _, edge := range edges {
+		edge.Remove()
+	}
+	for _, node := range nodes {
+		node.DetachAndRemove()
+	}
 	return RValue{Value: result}, nil
 }
 
-- 
2.43.0


From 96e1b33343069320fb3bdbd3a453ca414b42ea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:19 +0000
Subject: [PATCH 38/55] fix: CREATE creates new elements for every row, and
 returns what it created

---
 update.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/update.go b/update.go
index 592f240..28567e1 100644
--- a/update.go
+++ b/update.go
@@ -226,23 +226,51 @@ func (r remove) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 	return RValue{Value: result}, nil
 }
 
-func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
+// create the pattern using the variables in ctx, and return the variables defined by the pattern
+func (c create) create(ctx *EvalContext) (map[string]Value, error) {
+	subctx := ctx.SubContext()
 	for _, part := range c.pattern.Parts {
-		if _, _, err := part.Create(ctx); err != nil {
+		if _, _, err := part.Create(subctx); err != nil {
 			return nil, err
 		}
 	}
-	return nil, nil
+	return subctx.GetVarsNearestScope(), nil
+}
+
+func (c create) TopLevelUpdate(ctx *EvalContext) (Value, error) {
+	vars, err := c.create(ctx)
+	if err != nil {
+		return nil, err
+	}
+	ctx.SetVars(vars)
+	result := *NewResultSet()
+	result.Append(vars)
+	return RValue{Value: result}, nil
 }
 
 func (c create) Update(ctx *EvalContext, result ResultSet) (Value, error) {
+	// The variables of one row must not be visible when processing the next row
+	newResult := *NewResultSet()
 	for _, row := range result.Rows {
-		ctx.SetVars(row)
-		if _, err := c.TopLevelUpdate(ctx); err != nil {
+		subctx := ctx.SubContext()
+		subctx.SetVars(row)
+		vars, err := c.create(subctx)
+		if err != nil {
 			return nil, err
 		}
+		newRow := make(map[string]Value)
+		for k, v := range row {
+			newRow[k] = v
+		}
+		for k, v := range vars {
+			newRow[k] = v
+		}
+		newResult.Append(newRow)
 	}
-	return RValue{Value: result}, nil
+	if n := len(newResult.Rows); n > 0 {
+		ctx.SetVars(newResult.Rows[n-1])
+	}
+	return RValue{Value: newResult}, nil
 }
 
 func (np nodePattern) Create(ctx *EvalContext) (string, *lpg.Node, error) {
-- 
2.43.0


From 37617fe0c1828cb911694a26774877bb708537f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:21 +0000
Subject: [PATCH 39/55] fix: updating clauses work on the results of the
 previous clause, SKIP/LIMIT without MATCH

---
 eval.go | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/eval.go b/eval.go
index 1c83e9b..bf94cfc 100644
--- a/eval.go
+++ b/eval.go
@@ -514,33 +514,30 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 		return RValue{Value: ret}, nil
 	}
 
-	for _, upd := range query.update {
-		v, err := upd.TopLevelUpdate(ctx)
+	for index, upd := range query.update {
+		var v Value
+		var err error
+		if index == 0 {
+			v, err = upd.TopLevelUpdate(ctx)
+		} else {
+			// Work on the results of the previous clause
+			v, err = upd.Update(ctx, results)
+		}
 		if err != nil {
 			return nil, err
 		}
-		if v != nil && v.Get() != nil {
-			results = v.Get().(ResultSet)
-		}
+		results = v.Get().(ResultSet)
 	}
 	if query.ret == nil {
 		return RValue{Value: *NewResultSet()}, nil
 	}
 
-	if len(results.Rows) > 0 {
-		for _, row := range results.Rows {
-			val, err := query.ret.projection.items.Project(ctx, row)
-			if err != nil {
-				return nil, err
-			}
-			ret.Rows = append(ret.Rows, val)
-		}
-	} else {
-		val, err := query.ret.projection.items.Project(ctx, nil)
-		if err != nil {
-			return nil, err
-		}
-		ret.Rows = append(ret.Rows, val)
+	if len(query.update) == 0 {
+		// There is nothing to project from, so there is one row
+		results.Rows = []map[string]Value{nil}
+	}
+	if err := project(results.Rows); err != nil {
+		return nil, err
 	}
 	return RValue{Value: ret}, nil
 }
-- 
2.43.0


From fbb445ad09c18b67f277f42b9985b0cad8c10761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:24 +0000
Subject: [PATCH 40/55] fix: multiple MATCH clauses are joined instead of
 concatenated

---
 eval.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index bf94cfc..6b6cd19 100644
--- a/eval.go
+++ b/eval.go
@@ -489,12 +489,29 @@ func (query singlePartQuery) Evaluate(ctx *EvalContext) (Value, error) {
 	}
 	results := *NewResultSet()
 	if len(query.read) > 0 {
+		// Each reading clause extends the rows of the previous ones
+		results.Rows = []map[string]Value{nil}
 		for _, r := range query.read {
-			rs, err := r.GetResults(ctx)
-			if err != nil {
-				return nil, err
+			joined := *NewResultSet()
+			for _, row := range results.Rows {
+				subctx := ctx.SubContext()
+				subctx.SetVars(row)
+				rs, err := r.GetResults(subctx)
+				if err != nil {
+					return nil, err
+				}
+				for _, newRow := range rs.Rows {
+					joinedRow := make(map[string]Value)
+					for k, v := range row {
+						joinedRow[k] = v
+					}
+					for k, v := range newRow {
+						joinedRow[k] = v
+					}
+					joined.Append(joinedRow)
+				}
 			}
-			results.Add(rs)
+			results = joined
 		}
 
 		for _, upd := range query.update {
-- 
2.43.0


From 702ba4c6fef0c1d7f0597827861f12e62e7d83a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:45 +0000
Subject: [PATCH 41/55] fix: <--> matches relationships in both directions

---
 patterneval.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/patterneval.go b/patterneval.go
index ca02257..bdc4c65 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -221,7 +221,8 @@ func (rp relationshipPattern) getPattern(ctx *EvalContext) (lpg.PatternItem, err
 	} else {
 		ret.Min, ret.Max = 1, 1
 	}
-	if !rp.toRight && !rp.toLeft {
+	if rp.toRight == rp.toLeft {
+		// -- or <-->
 		ret.Undirected = true
 	} else if rp.toLeft {
 		ret.ToLeft = rp.toLeft
-- 
2.43.0


From b8590cd3e258039cf679c371d0e1ba332fb5c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:22 +0000
Subject: [PATCH 42/55] fix: matching undirected relationships, and
 relationships to left in longer patterns do not panic

---
 patterneval.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/patterneval.go b/patterneval.go
index bdc4c65..3dbd5b5 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -174,9 +174,35 @@ func (part PatternPart) getPattern(ctx *EvalContext) (lpg.Pattern, error) {
 		}
 		pattern = append(pattern, pi)
 	}
+	startFromNode(pattern)
 	return pattern, nil
 }
 
+// startFromNode makes sure matching the pattern starts from a node if
+// lpg cannot start from a relationship. When lpg starts from a
+// relationship, it does not know the direction of that relationship
+// in the pattern, so it cannot match undirected relationships, or
+// relationships to left that are connected to other relationships.
+//
+// lpg does not start from relationships that may have variable
+// length, so represent single relationships as such.
+func startFromNode(pattern lpg.Pattern) {
+	needed := false
+	for i := 1; i < len(pattern); i += 2 {
+		if pattern[i].Undirected || (pattern[i].ToLeft && len(pattern) > 3) {
+			needed = true
+		}
+	}
+	if !needed {
+		return
+	}
+	for i := 1; i < len(pattern); i += 2 {
+		if pattern[i].Min == 1 && pattern[i].Max == 1 {
+			pattern[i].Min = -1
+		}
+	}
+}
+
 func (np nodePattern) getPattern(ctx *EvalContext) (lpg.PatternItem, error) {
 	ret := lpg.PatternItem{}
 	if np.variable != nil {
-- 
2.43.0


From 4b0dac3f97911cf816e47f2680053bd0ad261c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:57 +0000
Subject: [PATCH 43/55] fix: bound and repeated variables of a pattern match
 the same element

---
 lang.go        |  7 ++--
 patterneval.go | 90 ++++++++++++++++++++++++++++++++++++++++++++++----
 update.go      |  7 ++--
 3 files changed, 88 insertions(+), 16 deletions(-)

diff --git a/lang.go b/lang.go
index 2a7c111..8417adc 100644
--- a/lang.go
+++ b/lang.go
@@ -121,11 +121,8 @@ func (p PatternPart) FindRelative(this *lpg.Node) ([]*lpg.Node, error) {
 		return nil, err
 	}
 
-	resultAccumulator := matchResultAccumulator{
-		evalCtx: ctx,
-		result:  NewResultSet(),
-	}
-	err = pattern.Run(ctx.graph, symbols, &resultAccumulator)
+	resultAccumulator := newMatchResultAccumulator(ctx, pattern)
+	err = pattern.Run(ctx.graph, symbols, resultAccumulator)
 	if err != nil {
 		return nil, err
 	}
diff --git a/patterneval.go b/patterneval.go
index 3dbd5b5..86b261b 100644
--- a/patterneval.go
+++ b/patterneval.go
@@ -1,6 +1,9 @@
 package opencypher
 
 import (
+	"strconv"
+	"strings"
+
 	"github.com/cloudprivacylabs/lpg/v2"
 )
 
@@ -38,6 +41,26 @@ type matchResultAccumulator struct {
 	evalCtx *EvalContext
 	result  *ResultSet
 	err     error
+	// Values of the symbols that are bound before running the pattern
+	bound map[string]Value
+}
+
+// newMatchResultAccumulator returns an accumulator for the results of
+// pattern. It has to be called before running the pattern, because it
+// captures the variables that are already bound.
+func newMatchResultAccumulator(ctx *EvalContext, pattern lpg.Pattern) *matchResultAccumulator {
+	ret := matchResultAccumulator{
+		evalCtx: ctx,
+		result:  NewResultSet(),
+		bound:   make(map[string]Value),
+	}
+	for symbol := range pattern.GetSymbolNames().M {
+		value, err := ctx.GetVar(symbol)
+		if err == nil {
+			ret.bound[symbol] = value
+		}
+	}
+	return &ret
 }
 
 func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, symbols map[string]interface{}) {
@@ -47,12 +70,69 @@ func (acc *matchResultAccumulator) StoreResult(ctx *lpg.MatchContext, path *lpg.
 	// Record results in the context
 	result := make(map[string]Value)
 	for k, v := range symbols {
+		// All occurrences of a symbol must be the same element
+		if name, repeated := isRepeatedSymbol(k); repeated {
+			if !isSameElement(symbols[name], v) {
+				return
+			}
+			continue
+		}
+		if bound, ok := acc.bound[k]; ok && !isSameElement(bound.Get(), v) {
+			return
+		}
 		result[k] = RValue{Value: v}
-		acc.evalCtx.SetVar(k, RValue{Value: v})
+	}
+	for k, v := range result {
+		acc.evalCtx.SetVar(k, v)
 	}
 	acc.result.Append(result)
 }
 
+// isSameElement returns if v1 and v2 are the same node, or if they are
+// paths containing the same edges
+func isSameElement(v1, v2 interface{}) bool {
+	path1, ok := v1.(*lpg.Path)
+	if !ok {
+		return v1 == v2
+	}
+	path2, ok := v2.(*lpg.Path)
+	if !ok || path1.NumEdges() != path2.NumEdges() {
+		return false
+	}
+	for i := 0; i < path1.NumEdges(); i++ {
+		if path1.GetEdge(i) != path2.GetEdge(i) {
+			return false
+		}
+	}
+	return true
+}
+
+// repeatedSymbolSeparator cannot appear in a symbol, because it is not valid UTF-8
+const repeatedSymbolSeparator = "\xff"
+
+// renameRepeatedSymbols gives unique names to the second and later
+// occurrences of a symbol in a pattern. The accumulator makes sure
+// that all the occurrences have the same value.
+func renameRepeatedSymbols(pattern lpg.Pattern) {
+	seen := make(map[string]int)
+	for i := range pattern {
+		name := pattern[i].Name
+		if len(name) == 0 {
+			continue
+		}
+		seen[name]++
+		if seen[name] > 1 {
+			pattern[i].Name = name + repeatedSymbolSeparator + strconv.Itoa(seen[name])
+		}
+	}
+}
+
+// isRepeatedSymbol returns the original name of the symbol if it is renamed by renameRepeatedSymbols
+func isRepeatedSymbol(symbol string) (string, bool) {
+	name, _, repeated := strings.Cut(symbol, repeatedSymbolSeparator)
+	return name, repeated
+}
+
 func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 	patterns := make([]lpg.Pattern, 0, len(match.Pattern.Parts))
 	for i := range match.Pattern.Parts {
@@ -84,11 +164,8 @@ func (match Match) GetResults(ctx *EvalContext) (ResultSet, error) {
 		if err != nil {
 			return err
 		}
-		results := matchResultAccumulator{
-			evalCtx: newContext,
-			result:  NewResultSet(),
-		}
-		err = pat[0].Run(newContext.graph, symbols, &results)
+		results := newMatchResultAccumulator(newContext, pat[0])
+		err = pat[0].Run(newContext.graph, symbols, results)
 		if err != nil {
 			return err
 		}
@@ -175,6 +252,7 @@ func (part PatternPart) getPattern(ctx *EvalContext) (lpg.Pattern, error) {
 		pattern = append(pattern, pi)
 	}
 	startFromNode(pattern)
+	renameRepeatedSymbols(pattern)
 	return pattern, nil
 }
 
diff --git a/update.go b/update.go
index 28567e1..d96ca87 100644
--- a/update.go
+++ b/update.go
@@ -410,15 +410,12 @@ func (m merge) getResults(ctx *EvalContext) (map[string]struct{}, ResultSet, err
 		unbound[symbol] = struct{}{}
 	}
 
-	results := matchResultAccumulator{
-		evalCtx: ctx,
-		result:  NewResultSet(),
-	}
+	results := newMatchResultAccumulator(ctx, pattern)
 	symbols, err := BuildPatternSymbols(ctx, pattern)
 	if err != nil {
 		return nil, *NewResultSet(), err
 	}
-	err = pattern.Run(ctx.graph, symbols, &results)
+	err = pattern.Run(ctx.graph, symbols, results)
 	if err != nil {
 		return nil, *NewResultSet(), err
 	}
-- 
2.43.0


From 8cbe67192a282fc809ec3c771f3c0dbeb03eccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:38 +0000
Subject: [PATCH 44/55] fix: durations are multiplied and divided by the exact
 float value

---
 arithmeticeval.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/arithmeticeval.go b/arithmeticeval.go
index 0961025..a018290 100644
--- a/arithmeticeval.go
+++ b/arithmeticeval.go
@@ -173,24 +173,22 @@ func mulintdur(a int64, b Duration, op rune) (Duration, error) {
 }
 
 func muldurfloat(a Duration, b float64, op rune) (Duration, error) {
-	val := int64(b)
 	switch op {
 	case '*':
-		return Duration{Months: int64(a.Months * val), Days: int64(a.Days * val), Seconds: int64(a.Seconds * val), Nanos: a.Nanos * int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) * b), Days: int64(float64(a.Days) * b), Seconds: int64(float64(a.Seconds) * b), Nanos: int(float64(a.Nanos) * b)}, nil
 	case '/':
 		if b == 0 {
 			return Duration{}, ErrDivideByZero
 		}
-		return Duration{Months: int64(a.Months / val), Days: int64(a.Days / val), Seconds: int64(a.Seconds / val), Nanos: a.Nanos / int(val)}, nil
+		return Duration{Months: int64(float64(a.Months) / b), Days: int64(float64(a.Days) / b), Seconds: int64(float64(a.Seconds) / b), Nanos: int(float64(a.Nanos) / b)}, nil
 	}
 	return Duration{}, ErrInvalidDurationOperation
 }
 
 func mulfloatdur(a float64, b Duration, op rune) (Duration, error) {
-	val := int64(a)
 	switch op {
 	case '*':
-		return Duration{Months: b.Months * val, Days: b.Days * val, Seconds: b.Seconds * val, Nanos: b.Nanos * int(val)}, nil
+		return muldurfloat(b, a, op)
 	default:
 		return Duration{}, ErrInvalidDurationOperation
 	}
-- 
2.43.0


From a19aecfeab705270c413fd14f00ebba2e9a42501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:40 +0000
Subject: [PATCH 45/55] fix: STARTS WITH, ENDS WITH and CONTAINS return null
 for null operands

---
 eval.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/eval.go b/eval.go
index 6b6cd19..8b317df 100644
--- a/eval.go
+++ b/eval.go
@@ -232,14 +232,17 @@ func (expr stringListNullOperatorExpressionPart) evaluate(ctx *EvalContext, inpu
 }
 
 func (expr stringOperatorExpression) evaluate(ctx *EvalContext, inputValue Value) (Value, error) {
-	inputStrValue, ok := inputValue.Get().(string)
-	if !ok {
-		return nil, ErrInvalidStringOperation
-	}
 	exprValue, err := expr.expr.Evaluate(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if inputValue.Get() == nil || exprValue.Get() == nil {
+		return RValue{}, nil
+	}
+	inputStrValue, ok := inputValue.Get().(string)
+	if !ok {
+		return nil, ErrInvalidStringOperation
+	}
 	strValue, ok := exprValue.Get().(string)
 	if !ok {
 		return nil, ErrInvalidStringOperation
-- 
2.43.0


From 9e799e4c778c09096693ae95b1f20dba08b9cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:04 +0000
Subject: [PATCH 46/55] fix: reserved words used as labels and property keys
 keep their case

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 4ba999e..2a7524d 100644
--- a/ast.go
+++ b/ast.go
@@ -892,7 +892,7 @@ func oC_SymbolicName(ctx *parser.OC_SymbolicNameContext) symbolicName {
 }
 
 func oC_ReservedWord(ctx *parser.OC_ReservedWordContext) reservedWord {
-	return reservedWord(strings.ToUpper(ctx.GetText()))
+	return reservedWord(ctx.GetText())
 }
 
 func oC_NodeLabels(ctx *parser.OC_NodeLabelsContext) NodeLabels {
-- 
2.43.0


From 51d617e6fffb21921b8b6d17195d43f53b117de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 47/55] fix: RETURN * also projects the other items

---
 eval.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/eval.go b/eval.go
index 8b317df..def2f03 100644
--- a/eval.go
+++ b/eval.go
@@ -568,7 +568,6 @@ func (prj projectionItems) Project(ctx *EvalContext, values map[string]Value) (m
 		for k, v := range values {
 			ret[k] = v
 		}
-		return ret, nil
 	}
 
 	for k, v := range values {
-- 
2.43.0


From 8cadd3961de60982157cd0b8277c550f68072115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 48/55] fix: SKIP and LIMIT are applied instead of being read
 as 0

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index f498326..b37ddd8 100644
--- a/value.go
+++ b/value.go
@@ -297,7 +297,7 @@ func (v RValue) String() string {
 // ValueAsInt returns the int value. If value is not int, returns
 // ErrIntValueRequired. If an err argument is given, that error is returned.
 func ValueAsInt(v Value, err ...error) (int, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return 0, err[0]
 	}
 	i, ok := v.Get().(int)
@@ -310,7 +310,7 @@ func ValueAsInt(v Value, err ...error) (int, error) {
 // ValueAsString returns the string value. If value is not string,
 // rReturns ErrStringValueRequired. If an err argument is given, that error is returned.
 func ValueAsString(v Value, err ...error) (string, error) {
-	if len(err) != 0 {
+	if len(err) != 0 && err[0] != nil {
 		return "", err[0]
 	}
 	s, ok := v.Get().(string)
-- 
2.43.0


From 719f96d5d351b6b95f0ba9d3882c7388c0173d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 49/55] fix: nodes deleted by a query are not deleted again or
 brought back by later clauses

---
 ctx.go    | 21 +++++++++++++++++----
 eval.go   |  2 ++
 update.go | 20 ++++++++++++++++++++
 value.go  |  2 ++
 4 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/ctx.go b/ctx.go
index 98bcfb5..54bafc8 100644
--- a/ctx.go
+++ b/ctx.go
@@ -20,6 +20,9 @@ type EvalContext struct {
 	parameters map[string]Value
 	graph      *lpg.Graph
 
+	// Nodes deleted by the DELETE clauses, shared by all subcontexts
+	deletedNodes map[*lpg.Node]struct{}
+
 	// If this function is non-nil, it will be called to filter property
 	// values when setting properties of nodes or edges
 	PropertyValueFromNativeFilter func(string, interface{}) interface{}
@@ -27,10 +30,11 @@ type EvalContext struct {
 
 func NewEvalContext(graph *lpg.Graph) *EvalContext {
 	return &EvalContext{
-		funcMap:    globalFuncs,
-		variables:  make(map[string]Value),
-		parameters: make(map[string]Value),
-		graph:      graph,
+		funcMap:      globalFuncs,
+		variables:    make(map[string]Value),
+		parameters:   make(map[string]Value),
+		graph:        graph,
+		deletedNodes: make(map[*lpg.Node]struct{}),
 	}
 }
 
@@ -42,6 +46,7 @@ func (ctx *EvalContext) SubContext() *EvalContext {
 		variables:                     make(map[string]Value),
 		parameters:                    make(map[string]Value),
 		graph:                         ctx.graph,
+		deletedNodes:                  ctx.deletedNodes,
 		PropertyValueFromNativeFilter: ctx.PropertyValueFromNativeFilter,
 	}
 }
@@ -55,6 +60,14 @@ func (ctx *EvalContext) PropertyValueFromNative(key string, value interface{}) i
 	return value
 }
 
+// isDeleted returns if the node is deleted by a DELETE clause. Variables
+// can still refer to a deleted node, but updating it or connecting it
+// would bring it back to the graph
+func (ctx *EvalContext) isDeleted(node *lpg.Node) bool {
+	_, deleted := ctx.deletedNodes[node]
+	return deleted
+}
+
 // SetParameter sets a parameter to be used in expressions
 func (ctx *EvalContext) SetParameter(key string, value Value) *EvalContext {
 	ctx.parameters[key] = value
diff --git a/eval.go b/eval.go
index def2f03..63dc053 100644
--- a/eval.go
+++ b/eval.go
@@ -15,6 +15,7 @@ const (
 )
 
 var (
+	ErrDeletedNode                    = errors.New("Node is deleted")
 	ErrDivideByZero                   = errors.New("Divide by zero")
 	ErrInvalidUnaryOperation          = errors.New("Invalid unary operation")
 	ErrInvalidPowerOperation          = errors.New("Invalid power operation")
@@ -604,6 +605,7 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		switch parent := value.(type) {
 		case *lpg.Node:
 			val = LValue{
+				node: parent,
 				getter: func() interface{} {
 					v, _ := parent.GetProperty(prop)
 					return v
diff --git a/update.go b/update.go
index d96ca87..c2cd8d1 100644
--- a/update.go
+++ b/update.go
@@ -41,6 +41,9 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 		if !ok {
 			return ErrNotAnLValue
 		}
+		if ctx.isDeleted(lvalue.node) {
+			return ErrDeletedNode
+		}
 		lvalue.Set(exprResult.Get())
 		return nil
 	}
@@ -54,6 +57,10 @@ func (s *setItem) update(ctx *EvalContext, data map[string]Value, result ResultS
 		return ErrNotAnLValue
 	}
 
+	if node, ok := lvalue.Get().(*lpg.Node); ok && ctx.isDeleted(node) {
+		return ErrDeletedNode
+	}
+
 	getSourceProps := func() (map[string]interface{}, error) {
 		sourceProps := make(map[string]interface{})
 		exprValue := exprResult.Get()
@@ -149,6 +156,9 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 			}
 			switch item := v.Get().(type) {
 			case *lpg.Node:
+				if ctx.isDeleted(item) {
+					continue
+				}
 				if _, seen := seenNodes[item]; !seen {
 					seenNodes[item] = struct{}{}
 					nodes = append(nodes, item)
@@ -180,6 +190,7 @@ func (d deleteClause) Update(ctx *EvalContext, result ResultSet) (Value, error)
 	}
 	for _, node := range nodes {
 		node.DetachAndRemove()
+		ctx.deletedNodes[node] = struct{}{}
 	}
 	return RValue{Value: result}, nil
 }
@@ -202,6 +213,9 @@ func (r remove) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 				if !ok {
 					return nil, ErrNotAnLValue
 				}
+				if ctx.isDeleted(lvalue.node) {
+					return nil, ErrDeletedNode
+				}
 				lvalue.Set(nil)
 				continue
 			}
@@ -216,6 +230,9 @@ func (r remove) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 			if !ok {
 				return nil, fmt.Errorf("Expecting a node in remove statement")
 			}
+			if ctx.isDeleted(node) {
+				return nil, ErrDeletedNode
+			}
 			labels := node.GetLabels()
 			for _, l := range item.nodeLabels {
 				labels.Remove(l.String())
@@ -290,6 +307,9 @@ func (np nodePattern) Create(ctx *EvalContext) (string, *lpg.Node, error) {
 		if !ok {
 			return "", nil, fmt.Errorf("Not a node: %s", varName)
 		}
+		if ctx.isDeleted(node) {
+			return "", nil, ErrDeletedNode
+		}
 		return varName, node, nil
 	}
 	node, err := np.createNode(ctx)
diff --git a/value.go b/value.go
index b37ddd8..81e1c3c 100644
--- a/value.go
+++ b/value.go
@@ -37,6 +37,8 @@ type Value interface {
 type LValue struct {
 	getter func() interface{}
 	setter func(interface{})
+	// If this is a node property, the node
+	node *lpg.Node
 }
 
 func (v LValue) Get() interface{}                     { return v.getter() }
-- 
2.43.0


From c2d81fe22b16a1b636efb60a2cbd6bb3c23c8a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:17 +0000
Subject: [PATCH 50/55] fix: durations with negative or large nanoseconds have
 a well formed text

---
 duration.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/duration.go b/duration.go
index 4b5a29e..70a30d4 100644
--- a/duration.go
+++ b/duration.go
@@ -14,11 +14,21 @@ type Duration struct {
 }
 
 func (d Duration) String() string {
-	sign := ""
+	// Seconds and nanoseconds must have the same sign, and nanoseconds
+	// must be less than a second
+	d.Seconds += int64(d.Nanos / int(time.Second))
+	d.Nanos %= int(time.Second)
+	if d.Seconds > 0 && d.Nanos < 0 {
+		d.Seconds--
+		d.Nanos += int(time.Second)
+	}
 	if d.Seconds < 0 && d.Nanos > 0 {
 		d.Seconds++
-		d.Nanos = int(time.Second) - d.Nanos
-
+		d.Nanos -= int(time.Second)
+	}
+	sign := ""
+	if d.Nanos < 0 {
+		d.Nanos = -d.Nanos
 		if d.Seconds == 0 {
 			sign = "-"
 		}
-- 
2.43.0


From cf2c4be59bd901baf4fac6626d3594ecc5814016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:36 +0000
Subject: [PATCH 51/55] fix: date of a map is that day also where clocks go
 forward at midnight

---
 datefuncs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datefuncs.go b/datefuncs.go
index 971e7f0..e2305e0 100644
--- a/datefuncs.go
+++ b/datefuncs.go
@@ -82,7 +82,7 @@ func dateFunc(ctx *EvalContext, args []Value) (Value, error) {
 					month = time.Month(m)
 				}
 
-				t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+				t := time.Date(year, month, day, 0, 0, 0, 0, time.UTC)
 				return RValue{Value: NewDate(t)}, nil
 			}
 		}
-- 
2.43.0


From cc1b98d688e4ad264d36cc605bdc0e09af90e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:18 +0000
Subject: [PATCH 52/55] fix: variables of a MERGE without RETURN are visible in
 the context, like those of CREATE

---
 update.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/update.go b/update.go
index c2cd8d1..b2e5d94 100644
--- a/update.go
+++ b/update.go
@@ -524,6 +524,9 @@ func (m merge) Update(ctx *EvalContext, rs ResultSet) (Value, error) {
 			}
 		}
 	}
+	if n := len(results.Rows); n > 0 {
+		ctx.SetVars(results.Rows[n-1])
+	}
 	return RValue{Value: results}, nil
 }
 
@@ -543,5 +546,8 @@ func (m merge) TopLevelUpdate(ctx *EvalContext) (Value, error) {
 		}
 		results.Append(newRow)
 	}
+	if n := len(results.Rows); n > 0 {
+		ctx.SetVars(results.Rows[n-1])
+	}
 	return RValue{Value: results}, nil
 }
-- 
2.43.0


From 685ef955086b8097a5484926357096ac60f4fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:36 +0000
Subject: [PATCH 53/55] fix: REMOVE of a property of null does nothing, as for
 labels

---
 eval.go   | 2 ++
 update.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/eval.go b/eval.go
index 63dc053..cc9ce22 100644
--- a/eval.go
+++ b/eval.go
@@ -603,6 +603,8 @@ func (pe propertyExpression) Evaluate(ctx *EvalContext) (Value, error) {
 		}
 		value := val.Get()
 		switch parent := value.(type) {
+		case nil:
+			return RValue{}, nil
 		case *lpg.Node:
 			val = LValue{
 				node: parent,
diff --git a/update.go b/update.go
index b2e5d94..b24c6c1 100644
--- a/update.go
+++ b/update.go
@@ -211,6 +211,10 @@ func (r remove) Update(ctx *EvalContext, result ResultSet) (Value, error) {
 				}
 				lvalue, ok := value.(LValue)
 				if !ok {
+					if value.Get() == nil {
+						// There is nothing to remove from null
+						continue
+					}
 					return nil, ErrNotAnLValue
 				}
 				if ctx.isDeleted(lvalue.node) {
-- 
2.43.0


From e9111b3332fe5e584f77ba5d9d1dfe76a8e1b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:38 +0000
Subject: [PATCH 54/55] fix: Do not keep a function found by an earlier
 evaluation in the query

---
 ast.go  |  1 -
 eval.go | 31 ++++++++++++++-----------------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/ast.go b/ast.go
index 2a7524d..ff625e5 100644
--- a/ast.go
+++ b/ast.go
@@ -346,7 +346,6 @@ type functionInvocation struct {
 	distinct bool
 	args     []Expression
 
-	function       *Function
 	constArgs      []Evaluatable
 	constArgValues []Value
 }
diff --git a/eval.go b/eval.go
index cc9ce22..c263962 100644
--- a/eval.go
+++ b/eval.go
@@ -318,22 +318,19 @@ func (pl propertyOrLabelsExpression) Evaluate(ctx *EvalContext) (Value, error) {
 }
 
 func (f *functionInvocation) Evaluate(ctx *EvalContext) (Value, error) {
-	if f.function == nil {
-		fname := make([]string, 0, len(f.name))
-		for _, x := range f.name {
-			fname = append(fname, string(x))
-		}
-		fn, err := ctx.GetFunction(fname)
-		if err != nil {
-			return nil, err
-		}
-		f.function = &fn
+	fname := make([]string, 0, len(f.name))
+	for _, x := range f.name {
+		fname = append(fname, string(x))
+	}
+	function, err := ctx.GetFunction(fname)
+	if err != nil {
+		return nil, err
 	}
-	if len(f.args) < f.function.MinArgs {
-		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' needs at least %d arguments", f.function.Name, f.function.MinArgs)}
+	if len(f.args) < function.MinArgs {
+		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' needs at least %d arguments", function.Name, function.MinArgs)}
 	}
-	if f.function.MaxArgs != -1 && len(f.args) > f.function.MaxArgs {
-		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' accepts at most %d arguments", f.function.Name, f.function.MaxArgs)}
+	if function.MaxArgs != -1 && len(f.args) > function.MaxArgs {
+		return nil, ErrInvalidFunctionCall{Msg: fmt.Sprintf("'%s' accepts at most %d arguments", function.Name, function.MaxArgs)}
 	}
 
 	args := f.constArgs
@@ -358,10 +355,10 @@ func (f *functionInvocation) Evaluate(ctx *EvalContext) (Value, error) {
 			f.constArgValues = argValues
 		}
 	}
-	if f.function.ValueFunc != nil {
-		return f.function.ValueFunc(ctx, argValues)
+	if function.ValueFunc != nil {
+		return function.ValueFunc(ctx, argValues)
 	}
-	return f.function.Func(ctx, args)
+	return function.Func(ctx, args)
 }
 
 func (cs caseClause) Evaluate(ctx *EvalContext) (Value, error) {
-- 
2.43.0


From 41946b5a0465e6735691324cfe5c970223194158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:41 +0000
Subject: [PATCH 55/55] fix: A null property in a MERGE pattern is an error

---
 eval.go   | 1 +
 update.go | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/eval.go b/eval.go
index c263962..2f12d7f 100644
--- a/eval.go
+++ b/eval.go
@@ -40,6 +40,7 @@ var (
 	ErrPropertiesParameterExpected    = errors.New("Parameter value cannot be used for properties")
 	ErrPropertiesExpected             = errors.New("Value cannot be used for properties")
 	ErrNotAnLValue                    = errors.New("Not and lvalue")
+	ErrNullPropertyInMerge            = errors.New("Null property in MERGE")
 )
 
 type ErrValueDoesNotHaveProperties struct {
diff --git a/update.go b/update.go
index b24c6c1..60d6dde 100644
--- a/update.go
+++ b/update.go
@@ -422,6 +422,14 @@ func (m merge) getResults(ctx *EvalContext) (map[string]struct{}, ResultSet, err
 	if err != nil {
 		return nil, *NewResultSet(), err
 	}
+	// Null is not stored and does not match anything, so it would always create
+	for _, item := range pattern {
+		for _, value := range item.Properties {
+			if value == nil {
+				return nil, *NewResultSet(), ErrNullPropertyInMerge
+			}
+		}
+	}
 
 	unbound := make(map[string]struct{})
 	// Get unbound symbols of pattern.
-- 
2.43.0

